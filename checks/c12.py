"""C12: every sampled row is written exactly once, intact."""
from __future__ import annotations

from lib import sampling, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Cell, Rel, Row, cell_of_py, same
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.trace import Claims, copies, is_copy, tagged
from lib.world import Col, Fk, Spec, Tab

PROP = "C12"
T = Tab
ALL = {"all": True}


class small_buffers:
    """Writes and reads in small batches, where the code has such a constant."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        from subsetter import sampler

        self.old = {k: getattr(sampler, k) for k in ("DESTINATION_BUFFER_SIZE", "SOURCE_BUFFER_SIZE")
                    if hasattr(sampler, k)}
        if self.n is not None:
            for k in self.old:
                setattr(sampler, k, self.n)

    def __exit__(self, *a):
        from subsetter import sampler

        for k, v in self.old.items():
            setattr(sampler, k, v)
        return False


PLAIN = Spec(T("test.users", "id", "name:text~?", "s?", "g~?", "tag~"))
OPAQUE = Spec(T("test.users", "id", "name:text~?", "s~?", "g~?", "tag~"))


def expect(claims, src: Rel, out: Rel, table, cols, n=1, ordered=False, values=None, computed=()):
    """out holds the rows of src, each n times, with the given columns; the others are NULL."""
    for o in out.rows:
        claims.check("nothing else is written", Implies(o.g, Or(*(is_copy(out, o, src, r) for r in src.rows))), table)
    for r in src.rows:
        cs = copies(out, src, r)
        claims.check("every row is written exactly once (times its multiplicity)",
                     Implies(r.g, Eq(Sum(B2I(c) for _, c in cs), n)), table, witness=r.g)
        for o, c in cs:
            for col in out.cols:
                if col in computed:
                    continue
                got = out.cell(o, col)
                if col not in cols:
                    claims.check("columns that are not written stay empty", Implies(c, got.null), f"{table}.{col}")
                    continue
                want = (values or {}).get(col, src.cell(r, col))
                if isinstance(want, tuple):
                    claims.check("values are written under their own column", Implies(c, Or(
                        *(same(got, w(src.cell(r, col))) for w in want))), f"{table}.{col}", witness=c)
                else:
                    claims.check("values are written under their own column", Implies(c, same(got, want)),
                                 f"{table}.{col}", witness=c)
    if ordered:
        pos = {id(o): i for i, o in enumerate(out.rows)}
        for i, r in enumerate(src.rows):
            for q in src.rows[:i]:
                for o, c in copies(out, src, r):
                    for p, d in copies(out, src, q):
                        if pos[id(p)] > pos[id(o)]:
                            claims.check("rows are written in order", Not(And(c, d)), table)


def many(ctx, output, dialect, sizes):
    """Numbers of rows around the real buffer sizes; the values are opaque."""
    n = ctx.choose("rows", sizes)
    m = ctx.choose("multiplier", [1, 2] if n < 1500 else [1])
    rel = Rel(["id", "name", "s", "g", "tag"], [], ["int", "text", "int", "int", "int"])
    for i in range(n):
        rel.rows.append(Row(True, [Cell(False, i + 1, "int"), Cell(i % 3 == 0, 0, "text"), Cell(False, i * 7, "int"),
                                   Cell(False, i * 5, "int"), Cell(False, i + 1, "int")]))
    rels = {"test.users": rel}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, PLAIN, rels, dict(select=["test.*"], targets={"test.users": ALL}), {"multiplicity": {"multiplier": m}},
        dialect, directory=output == "directory"))
    out = run.out["test.users"]
    want = [(r.cells[4].val, i) for r in rel.rows for i in range(m)]
    got = [(out.cell(o, "tag").val, None) for o in out.rows]
    ctx.check("every row is written exactly once (times its multiplicity)", len(got) == len(want)
              and sorted(t for t, _ in got) == sorted(t for t, _ in want), f"{n} rows: {len(got)} written")
    if output == "directory" or dialect != "sqlite":
        ctx.check("rows are written in order", [t for t, _ in got] == [t for t, _ in want], f"{n} rows")
    by = {r.cells[4].val: r for r in rel.rows}
    seen = {}
    for o in out.rows:
        t = out.cell(o, "tag").val
        i = seen.get(t, 0)
        seen[t] = i + 1
        r = by[t]
        key = r.cells[0].val * m + i if m > 1 else r.cells[0].val
        ctx_ok = And(Eq(out.cell(o, "id").val, key), *(same(out.cell(o, c), rel.cell(r, c)) for c in ("name", "s", "g")))
        if ctx_ok is not True:
            ctx.check("values are written under their own column", ctx_ok, f"{n} rows")
    ctx.witness("many rows", n > 0)


def batches(ctx, output, dialect, size):
    """Any number of rows up to a bound, in batches of any size."""
    m = ctx.choose("multiplier", [1, 2, 3])
    k = ctx.choose("rows", [4, 3])
    filt = ctx.choose("filters", [[], [{"op": "omit", "columns": ["g"]}],
                                  [{"op": "constant", "columns": ["s"], "values": [7]}]])
    rels = tagged(ctx, OPAQUE, k)
    with small_buffers(size):
        run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
            ctx, OPAQUE, rels, dict(select=["test.*"], targets={"test.users": ALL}),
            {"multiplicity": {"multiplier": m}, "filters": {"test.users": filt}}, dialect,
            directory=output == "directory"))
    claims = Claims(ctx)
    cols = ["id", "name", "s", "g", "tag"]
    values = {}
    if filt and filt[0]["op"] == "omit":
        cols.remove("g")
    elif filt:
        values["s"] = cell_of_py(7)
    if m > 1:
        values["id"] = tuple(lambda c, i=i: Cell(c.null, c.val * m + i, "int") for i in range(m))
    expect(claims, rels["test.users"], run.out["test.users"], "test.users", cols, m,
           ordered=output == "directory" or dialect != "sqlite", values=values)
    claims.flush()


NOKEY = Spec(T("test.users", "a?", "b:text~?", "tag~?", pk=()))


def duplicates(ctx, output, dialect):
    """Rows that look the same are rows all the same."""
    m = ctx.choose("multiplier", [1, 2])
    rels = tagged(ctx, NOKEY, 3)
    filt = ctx.choose("filters", [[{"op": "omit", "columns": ["tag"]}],
                                  [{"op": "omit", "columns": ["tag"]}, {"op": "constant", "columns": ["a", "b"],
                                                                        "values": [1, "x"]}]])
    strategy = ctx.choose("conflict strategy", ["error", "replace", "skip"]) if output == "database" else None
    with small_buffers(ctx.choose("buffer", [None, 1])):
        run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
            ctx, NOKEY, rels, dict(select=["test.*"], targets={"test.users": ALL}),
            {"multiplicity": {"multiplier": m}, "filters": {"test.users": filt}}, dialect,
            directory=output == "directory", output={"conflict_strategy": strategy} if strategy else None))
    src, out = rels["test.users"], run.out["test.users"]
    cols = ["a", "b"]
    claims = Claims(ctx)
    for r in src.rows:
        want = [cell_of_py(1), cell_of_py("x")] if len(filt) > 1 else [src.cell(r, c) for c in cols]

        def like(rel, o, want=want):
            return And(o.g, *(same(rel.cell(o, c), w) for c, w in zip(cols, want)))

        n = Sum(B2I(q.g) for q in src.rows) if len(filt) > 1 else Sum(B2I(like(src, q)) for q in src.rows)
        claims.check("every row is written exactly once (times its multiplicity)", Implies(
            r.g, Eq(Sum(B2I(like(out, o)) for o in out.rows), n * m)), "test.users", witness=r.g)
    claims.check("nothing else is written", Eq(Sum(B2I(o.g) for o in out.rows), Sum(B2I(r.g) for r in src.rows) * m),
                 "test.users")
    claims.flush()


def plus_one(cols):
    c = cols["id"]
    return Cell(c.null, c.val + 1, "int")


DESTS = {
    "same": (["id", "name:text?", "s?", "g~?", "tag~"], ()),
    "permuted": (["tag~", "g~?", "name:text?", "s?", "id"], ()),
    "more columns": (["x?", "id", "y:text?", "name:text?", "s?", "g~?", "tag~", "z?"], ()),
    "computed": (["id", "name:text?", Col("s", null=True, computed=("id + 1", plus_one)), "g~?", "tag~"], ("s",)),
    "first computed": ([Col("s", null=True, computed=("id + 1", plus_one)), "tag~", "g~?", "id", "name:text?"], ("s",)),
    "two computed": (["id", Col("g", null=True, computed=("id + 1", plus_one)),
                      Col("s", null=True, computed=("id + 1", plus_one)), "name:text?", "tag~"], ("s", "g")),
    "extra computed": (["id", Col("c", null=True, computed=("id + 1", plus_one)), "name:text?", "s?", "g~?", "tag~"],
                       ("c",)),
}
FILTERS = [[], [{"op": "omit", "columns": ["s"]}], [{"op": "omit", "columns": ["name"]}, {"op": "null", "columns": ["s"]}],
           [{"op": "constant", "columns": ["g", "name"], "values": [5, "abc"]}]]


def columns(ctx, dest, dialect):
    cols, computed = DESTS[dest]
    dspec = Spec(T("test.users", *cols, pk="id"))
    filt = ctx.choose("filters", FILTERS)
    sampler = ctx.choose("sampler", [{}, {"multiplicity": {"multiplier": 2}}, {"compact": {"primary_keys": True}}])
    output = ctx.choose("output", [{}, {"merge": True}, {"conflict_strategy": "replace"}])
    rels = tagged(ctx, PLAIN, 2, full=True, pk_lo=0)
    before = tagged(ctx, dspec, 1, prefix="dest:", base=2000, full=True, pk_lo=0) if "merge" in output else {}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, PLAIN, rels, dict(select=["test.*"], targets={"test.users": ALL}),
        {**sampler, "filters": {"test.users": filt}}, dialect, dest=dspec, dest_rels=before, output=output))
    src = rels["test.users"]
    out = run.out["test.users"]
    if before:
        out = Rel(out.cols, [o for o in out.rows if not (isinstance(out.cell(o, "tag").val, int)
                                                        and out.cell(o, "tag").val > 2000)], out.kinds)
    claims = Claims(ctx)
    given = ["id", "name", "s", "g", "tag"]
    values = {}
    for f in filt:
        for i, c in enumerate(f["columns"]):
            if f["op"] == "omit":
                given.remove(c)
            else:
                values[c] = cell_of_py(f["values"][i] if f["op"] == "constant" else None)
    m = sampler.get("multiplicity", {}).get("multiplier", 1)
    shift = None
    if before:
        shift = before["test.users"].rows[0].cells[dspec.tabs["test.users"].colnames.index("id")].val + 1
    if "compact" in sampler:
        first, second = src.rows
        rank = {id(first): 1, id(second): 2}  # the rows are generated in key order
    options = []
    for i in range(m):
        options.append(lambda c, i=i: Cell(False, (c.val * m + i) + (shift if shift is not None else 0), "int"))
    if "compact" in sampler:
        options = [lambda c, j=j: Cell(False, j + (shift if shift is not None else 0), "int") for j in (1, 2)]
    values["id"] = tuple(options)
    expect(claims, src, out, "test.users", given, m, values=values, computed=computed)
    for o in out.rows:
        for c in computed:
            claims.check("computed columns are left to the destination", Implies(o.g, same(
                out.cell(o, c), plus_one({"id": out.cell(o, "id")}))), c)
    claims.flush()


MISSING = [["id", "name:text?", "s?", "tag~"], ["id", "s?", "g~?", "tag~"], ["id", "tag~"],
           ["id", "Name:text?", "s?", "g~?", "tag~"]]


def missing(ctx, dialect):
    """A destination without a sampled column is an error, unless the column is omitted."""
    cols = ctx.choose("destination", MISSING)
    dspec = Spec(T("test.users", *cols))
    have = {c.split(":")[0].strip("?~") for c in cols}
    lacking = [c for c in ("id", "name", "s", "g", "tag") if c not in have]
    omit = ctx.choose("omit", ["nothing", "all", "first"])
    gone = {"nothing": [], "all": lacking, "first": lacking[:1]}[omit]
    rels = tagged(ctx, PLAIN, 1, full=True)
    sampler = {"filters": {"test.users": [{"op": "omit", "columns": gone}] if gone else []}}
    left = [c for c in lacking if c not in gone]
    run, exc = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, PLAIN, rels, dict(select=["test.*"], targets={"test.users": ALL}), sampler, dialect, dest=dspec),
        allow=lambda e: bool(left) and isinstance(e, ValueError))
    ctx.check("missing columns are reported", (exc is not None) == bool(left), f"{cols} {omit}")
    if exc is not None:
        for c in left:
            ctx.check("missing columns are reported by name", c in str(exc), str(exc))
        ctx.witness("missing column")
        return
    claims = Claims(ctx)
    expect(claims, rels["test.users"], run.out["test.users"], "test.users",
           [c for c in ("id", "name", "s", "g", "tag") if c not in gone])
    claims.flush()


NAMES = [["a b", "from", "Upper", "per%cent"], ["co:lon", "pa(ren", "br]acket", "do.t"], ["a", "a_1", "A_1x", "id_"],
         ["values", "schema", "row", "index"], ["quo\"te", "semi;", "back`tick", "da-sh"], ["a, b", "a", "b", "x)"], ["p 1", "p_1", "p%1", "p:1"]]


def names(ctx, dialect, output):
    """Column names of any kind."""
    ns = ctx.choose("names", NAMES)
    spec = Spec(T("test.users", "id", *(Col(n, null=i == 0, opaque=True) for i, n in enumerate(ns)), "tag~"))
    rels = tagged(ctx, spec, 2, full=True)
    filt = [{"op": "constant", "columns": [ns[1]], "values": [3]}] if ctx.flag("filter") else []
    strategies = ["error", "replace", "skip"]
    if dialect == "mysql" and any("%" in n for n in ns):
        strategies.remove("replace")  # SQLAlchemy escapes the percent sign twice in VALUES(...)
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, spec, rels, dict(select=["test.*"], targets={"test.users": ALL}), {"filters": {"test.users": filt}}, dialect,
        directory=output == "directory", output={"conflict_strategy": ctx.choose("conflict strategy", strategies)} if output != "directory" else None))
    claims = Claims(ctx)
    expect(claims, rels["test.users"], run.out["test.users"], "test.users", ["id", *ns, "tag"],
           values={ns[1]: cell_of_py(3)} if filt else None)
    claims.flush()


THREE = Spec(T("test.users", "id", "s?", "tag~"),
             T("test.orders", "id", "user_id?", "s?", "tag~", fks=["user_id->test.users(id)"]),
             T("other.users", "id", "order_id?", "s?", "tag~", fks=["order_id->test.orders(id)"]))
TARGETS = [{"test.users": {"in": {"s": [1]}}}, {"test.orders": ALL}, {"other.users": {"in": {"s": [1, 2]}},
                                                                       "test.users": {"in": {"s": [2]}}}]


def tables(ctx, dialect, output):
    """What reaches the output is what was sampled, table by table."""
    targets = ctx.choose("targets", TARGETS)
    rels = tagged(ctx, THREE, {"test.users": 2, "*": 1})
    planner = dict(select=["test.*", "other.*"], targets=targets)
    with small_buffers(ctx.choose("buffer", [None, 1])):
        run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
            ctx, THREE, rels, planner, {}, dialect, directory=output == "directory"))
    base = sampling.simulate(ctx, THREE, 0, planner, {}, dialect, rels=rels, plan=run.plan)
    claims = Claims(ctx)
    for t in THREE.tabs:
        ctx.check("every table is written", t in run.out and t in base.out, t)
        expect(claims, base.out[t], run.out[t], t, base.out[t].cols)
    claims.flush()


DOCS = Spec(T("test.users", "id", "doc:json?", "must:json", "tag~"))


def documents(ctx, dialect, create):
    """NULL and JSON null are different values, although Python has one None for both."""
    rels = tagged(ctx, DOCS, 2, full=True)
    strategy = ctx.choose("conflict strategy", ["error", "replace"])
    kind = ctx.choose("doc", ["never JSON null", "JSON null"])
    docs = [r.cells[1] for r in rels["test.users"].rows]
    null = Or(*(And(Not(c.null), Eq(c.val, world.JSON_NULL)) for c in docs))
    ctx.assume(null if kind == "JSON null" else Not(null))
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, DOCS, rels, dict(select=["test.*"], targets={"test.users": ALL}), {}, dialect, create=create,
        dest=Spec(schemas=["test"]) if create else None, read=DOCS, output={"conflict_strategy": strategy}))
    claims = Claims(ctx)
    src, out = rels["test.users"], run.out["test.users"]
    for r in src.rows:
        for o, c in copies(out, src, r):
            for col in ("id", "doc", "must"):
                claims.check(f"documents are written as they are ({kind if col == 'doc' else 'never JSON null'})",
                             Implies(c, same(out.cell(o, col), src.cell(r, col))), f"test.users.{col}", witness=c)
    claims.check("every row is written exactly once (times its multiplicity)", And(
        *(Eq(Sum(B2I(c) for _, c in copies(out, src, r)), 1) for r in src.rows)), "test.users")
    claims.flush()


def build(tier):
    hs = []
    ds = ["sqlite", "mysql", "postgresql"]
    sizes = [0, 1, 2, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 2051]
    if tier == "thorough":
        sizes += [511, 512, 513, 3072, 3075, 4096, 4099]
    for d in ds[:2] if tier == "thorough" else ds[:1]:
        hs.append(Harness(f"many/directory/{d}", many, dict(output="directory", dialect=d, sizes=sizes), validate=0))
        hs.append(Harness(f"many/database/{d}", many, dict(output="database", dialect=d, sizes=sizes), validate=0))
    for d in ds if tier == "thorough" else ["sqlite", "mysql"]:
        for dest in DESTS:
            hs.append(Harness(f"columns/{dest}/{d}", columns, dict(dest=dest, dialect=d)))
        hs.append(Harness(f"missing/{d}", missing, dict(dialect=d)))
    for size in (0, 1, 2, 3):
        hs.append(Harness(f"batches/database/{size}", batches, dict(output="database", dialect="sqlite", size=size)))
    for d in ds:
        hs.append(Harness(f"batches/database/2/{d}", batches, dict(output="database", dialect=d, size=2)))
        hs.append(Harness(f"duplicates/database/{d}", duplicates, dict(output="database", dialect=d)))
        for create in (False, True):
            hs.append(Harness(f"documents/{'create' if create else 'existing'}/{d}", documents,
                              dict(dialect=d, create=create)))
    hs.append(Harness("duplicates/directory", duplicates, dict(output="directory", dialect="sqlite")))
    hs.append(Harness("many/database/postgresql", many, dict(output="database", dialect="postgresql", sizes=sizes),
                      validate=0))
    hs.append(Harness("batches/directory/2", batches, dict(output="directory", dialect="sqlite", size=2)))
    for o in ("directory", "database"):
        hs.append(Harness(f"tables/{o}", tables, dict(dialect="sqlite", output=o)))
        for d in ds if o == "database" else ["sqlite"]:
            hs.append(Harness(f"names/{o}/{d}", names, dict(dialect=d, output=o)))
    return Check(PROP, hs,
                 bounds={"rows": "up to 4 symbolic rows with buffers of 0 to 3, and fixed numbers of rows around the real "
                                 "buffer size (up to 2051, thorough 4099)", "row numbers": sizes,
                         "destinations": list(DESTS), "filters": FILTERS, "names": NAMES},
                 assumptions=["no two rows of a source table are equal in every column", "values survive the drivers' conversions", "rows are sampled without order: 'in order' is "
                              "the order in which the source returns them"],
                 outside=["column names with percent signs on mysql with the replace strategy (SQLAlchemy escapes them twice)",
                      "conversion of dates, decimals and binary values to JSON"])
