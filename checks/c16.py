"""C16: created destination tables mirror their source."""
from __future__ import annotations

import sqlalchemy as sa
from sqlalchemy.dialects import mysql, postgresql

from lib import ddl, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import B3, Cell, NULL, POOL, Rel, Row
from lib.symx import And, B2I, Eq, Iff, Implies, Ite, Not, Or, Sum
from lib.trace import Claims, copies, tagged
from lib.world import Col, Fk, Spec, SymEngine, Tab

PROP = "C16"
ALL = {"all": True}


def _gt(col, n):
    return lambda look: B3(And(Not(look(col).null), look(col).val > n), look(col).null)


def _lt(a, b):
    def fn(look):
        x, y = look(a), look(b)
        null = Or(x.null, y.null)
        return B3(And(Not(null), x.val < y.val), null)
    return fn


def _ne(col, text):
    return lambda look: B3(And(Not(look(col).null), Not(Eq(look(col).val, POOL.code(text)))), look(col).null)


def _abs(look):
    c = look("b")
    return Cell(c.null, Ite(c.val < 0, -c.val, c.val), "int")


def _plus(look):
    x, y = look("a"), look("b")
    return Cell(Or(x.null, y.null), x.val + y.val, "int")


CONDS = {"a > 3": _gt("a", 3), "a < b": _lt("a", "b"), "b > 7": _gt("b", 7), "g <> 'x:y, (z'": _ne("g", "x:y, (z"),
         "g <> '10%'": _ne("g", "10%")}
EXPRS = {"abs(b)": _abs, "(a + b)": _plus, "a + b": _plus}


def contents(ctx, d, k, prefix):
    """Any rows at all."""
    rows = []
    for i in range(k):
        cells = []
        for c in d.cols:
            base = f"{prefix}{d.name}[{i}].{c}"
            cells.append(Cell(symx.raw(ctx.bool(base + ".null")), ctx.int(base, -4, 12, wrap=False) if c != "g" else
                              symx.raw(ctx.int(base, 0, 3, wrap=False)) * POOL.STEP, "int" if c != "g" else "text"))
        rows.append(Row(symx.raw(ctx.bool(f"{prefix}{d.name}[{i}].present")), cells))
    return Rel(list(d.cols), rows, ["text" if c == "g" else "int" for c in d.cols])


def mirrored(ctx, run, spec, names, planned, there, dialect_name, k=2):
    """Compare what was created with what the source has. names: source -> destination name"""
    got = ddl.definitions(e for e in run.log.events if e.role == "destination")
    dl = world.dialect(dialect_name)
    created = [t for t in planned if t not in there]
    ctx.check("exactly the missing tables are created", sorted(got) == sorted(names[t] for t in created),
              str(sorted(got)))
    want = {}
    for t in planned:
        d = ddl.definition(spec.tabs[t], dl)
        d.name = names[t]
        d.fks = [Fk(f.cols, names[f.dst], f.dst_cols) for f in d.fks if f.dst in planned]
        if dialect_name == "sqlite":  # cannot refer to other schemas
            d.fks = [f for f in d.fks if f.dst.split(".")[0] == d.name.split(".")[0]]
        want[names[t]] = d
    for t in created:
        w, g = want[names[t]], got[names[t]]
        ctx.check("columns have the same names, types and nullability", list(w.cols.items()) == list(g.cols.items()),
                  f"{t}: {g.cols}")
        ctx.check("the primary key is the same", set(w.pk) == set(g.pk), f"{t}: {g.pk}")
        plain = lambda d: sorted(repr(ix) for ix in d.indexes if not ix[0])
        ctx.check("plain indexes are the same", plain(w) == plain(g), f"{t}: {plain(g)}")
        ctx.check("there are as many unique constraints and indexes",
                  sorted(map(repr, w.uniques)) == sorted(map(repr, g.uniques)) and
                  len([1 for ix in w.indexes if ix[0]]) == len([1 for ix in g.indexes if ix[0]]), f"{t}: {g.uniques}")
    claims = Claims(ctx)
    rels = {names[t]: contents(ctx, want[names[t]], k, "any:") for t in planned}
    for t in created:
        if list(want[names[t]].cols) != list(got[names[t]].cols):
            continue
        a = ddl.allows(want[names[t]], rels, CONDS, EXPRS)
        b = ddl.allows(got[names[t]], rels, CONDS, EXPRS)
        if a is None:
            raise symx.Inconclusive(f"conditions of {t}")
        if b is None:
            ctx.fail("constraints only hold what those of the source hold",
                     f"{t}: {got[names[t]].checks} {got[names[t]].indexes} {got[names[t]].fks}")
            continue
        claims.check("the same rows are accepted", Iff(a, b), t, witness=And(a, rels[names[t]].rows[0].g))
    claims.flush()


def arrived(ctx, run, pairs):
    claims = Claims(ctx)
    for src_t, dst_t in pairs:
        src, out = run.src[src_t], run.out.get(dst_t)
        if out is None:
            ctx.fail("sampled rows are written", dst_t)
            continue
        for r in src.rows:
            claims.check("sampled rows are written", Implies(r.g, Or(*(c for _, c in copies(out, src, r)))), dst_t)
    claims.flush()


def assume_conditions(ctx, spec, rels, dialect):
    for t in spec.tabs.values():
        d = ddl.definition(t, world.dialect(dialect))
        d.fks = []
        ctx.assume(ddl.allows(d, {t.full: rels[t.full]}, CONDS, EXPRS))


def go(ctx, spec, names, dialect, there=(), select=None, targets=None, dest_tabs=None, schemas=(), k=1, planner=None, planned=None,
       output=None, rules=None, sampler=None):
    rels = tagged(ctx, spec, k, full=True, pk_lo=1, pk_hi=20, lo=-4, hi=12)
    assume_conditions(ctx, spec, rels, dialect)
    dest = Spec(*(dest_tabs or ()), schemas=[*schemas, *sorted({n.split(".")[0] for n in names.values()})])
    rules = rules if rules is not None else [
        {"search": f"^{s.replace('.', '[.]')}$", "replace": n} for s, n in names.items() if s != n]
    conf = dict(output or {})
    if rules:
        conf["remap"] = rules
    pl = dict(select=select or [f"{s}.*" for s in spec.schemas], targets=targets or {t: ALL for t in spec.tabs})
    pl.update(planner or {})
    tabs = [*(dest_tabs or ())]
    for t in spec.tabs.values():
        if t.full not in there and t.full in (planned or spec.tabs):
            n = Tab(names[t.full], pk=t.pk)
            n.cols = t.cols
            tabs.append(n)
    run, _ = guarded(ctx, "creating and sampling succeed", lambda: transfer(
        ctx, spec, rels, pl, sampler or {}, dialect, dest=dest, create=True, enforce=True, read=Spec(*tabs), output=conf,
        force_stub=dialect != "sqlite"))
    return run


def constraints(ctx, dialect, part):
    """One table with every combination of keys, constraints and indexes."""
    pk = ctx.choose("primary key", ["id", "id,a", "a,id", ""])
    u1, u2, ui, i1, i2, ck, ck2 = (ctx.bool(n) for n in (
        "unique (a)", "unique (b, a)", "unique index (b)", "index (b)", "index (g, a)", "check a", "check a, b"))
    if part != (sum(map(bool, (u1, u2, ck))) % 2):
        raise symx.Infeasible()
    nul = ctx.bool("b may be null")
    cols = ["id", Col("a", "int"), Col("b", "int", null=bool(nul)), "g:text~?", "tag~"]
    tab = Tab("test.users", *cols, pk=pk, uniques=[u for u, on in (("a", u1), ("b,a", u2)) if on],
              indexes=[ix for ix, on in ((("ub", ("b",), True), ui), (("ib", ("b",), False), i1),
                                         (("iga", ("g", "a"), False), i2)) if on],
              checks=[c for c, on in (("a > 3", ck), ("a < b", ck2)) if on])
    spec = Spec(tab)
    names = {"test.users": ctx.choose("name", ["test.users", "copy.people"])}
    run = go(ctx, spec, names, dialect)
    mirrored(ctx, run, spec, names, ["test.users"], [], dialect)
    arrived(ctx, run, names.items())


TYPES = {
    "sqlite": [sa.Integer, sa.BigInteger, sa.SmallInteger, sa.Float, lambda: sa.Numeric(10, 2), sa.Boolean, sa.Date, sa.DateTime,
               lambda: sa.String(7), sa.Text, sa.LargeBinary, lambda: sa.CHAR(3), sa.JSON, sa.Time],
    "postgresql": [sa.Integer, sa.BigInteger, sa.SmallInteger, sa.REAL, lambda: sa.Numeric(10, 2), sa.Boolean, sa.Date,
                   lambda: sa.DateTime(timezone=True), lambda: sa.String(7), sa.Text, lambda: sa.CHAR(3),
                   postgresql.JSONB, postgresql.UUID, postgresql.INET,
                   lambda: postgresql.ARRAY(sa.Integer), postgresql.BYTEA,
                   lambda: postgresql.VARCHAR(9, collation="C")],
    "mysql": [sa.Integer, lambda: mysql.INTEGER(unsigned=True), mysql.TINYINT,
              mysql.MEDIUMTEXT, lambda: mysql.VARCHAR(9, charset="latin1", collation="latin1_bin"),
              lambda: mysql.DECIMAL(9, 3), lambda: mysql.DATETIME(fsp=6),
              lambda: mysql.ENUM("a", "b, c"), lambda: mysql.BIGINT(unsigned=True),
              mysql.LONGBLOB, mysql.YEAR],
}


def types(ctx, dialect):
    """Types and nullability survive."""
    key = ctx.choose("type of the key", [sa.Integer, sa.BigInteger, sa.SmallInteger])
    cols = [Col("id", sa_type=key), Col("tag", opaque=True)]
    flip = ctx.choose("nullable", [0, 1, 2])
    for i, t in enumerate(TYPES[dialect]):
        cols.append(Col(f"c{i}", sa_type=t() if callable(t) and not isinstance(t, type) else t(), null=i % 3 != flip,
                        opaque=True))
    if ctx.bool("the key comes last"):
        cols = [*cols[1:], cols[0]]
    spec = Spec(Tab("test.users", *cols, pk="id"))
    names = {"test.users": ctx.choose("name", ["test.users", "copy.people"])}
    run = go(ctx, spec, names, dialect, k=0)
    mirrored(ctx, run, spec, names, ["test.users"], [], dialect, k=1)


def references(ctx, dialect, renamed, deep):
    """Foreign keys between planned tables, some of which exist."""
    comp = ctx.bool("composite key")
    f = {n: ctx.bool(n) for n in ("orders->users", "orders->users again", "orders->other", "items->orders", "users->zones")}
    if not deep and sum(map(bool, f.values())) not in (1, 2, 5):
        raise symx.Infeasible()
    code = ctx.bool("a key that is not primary")
    users = Tab("test.users", "id", "a", "code", "zone_id~?", "tag~", uniques=["code"], pk="id,a" if comp else "id",
                fks=["zone_id->main.zones(id)"] * bool(f["users->zones"]))
    key = ("{0},{0}_a->test.users(id,a)" if comp else "{0}->test.users(id)")
    orders = Tab("test.orders", "id", "user_id~?", "user_id_a~?", "by_id~?", "by_id_a~?", "x~?", "code~?", "tag~", fks=[
        *["code->test.users(code)"] * bool(code),
        *[key.format("user_id")] * bool(f["orders->users"]), *[key.format("by_id")] * bool(f["orders->users again"]),
        *["x->test.other(id)"] * bool(f["orders->other"])])
    items = Tab("test.items", "id", "order_id~?", "tag~",
                fks=["order_id->test.orders(id)"] * bool(f["items->orders"]))
    zones = Tab("main.zones", "id", "tag~")
    other = Tab("test.other", "id", "tag~")
    spec = Spec(items, orders, other, users, zones)
    planned = [t for t in spec.tabs if t != "test.other" or ctx.bool("other is planned")]
    passthrough = ["main.zones"] if ctx.flag("zones are passed through") else []
    names = {t: ("copy.x_" + t.replace(".", "_") if renamed and not (renamed == "partly" and t == "test.users") else t)
             for t in spec.tabs}
    there = [t for t in planned if ctx.choose(f"{t} exists", [True, False] if t in ("test.users", "main.zones") else [False])]
    dest_tabs = []
    for t in there:
        n = Tab(names[t], pk=spec.tabs[t].pk)
        n.cols = spec.tabs[t].cols
        dest_tabs.append(n)
    run = go(ctx, spec, names, dialect, there, select=[t for t in planned], planned=planned,
             targets={t: ALL for t in planned if t not in passthrough}, dest_tabs=dest_tabs,
             planner=dict(include_dependencies=False, passthrough=passthrough, ignore_fks=[
                 dict(src_table="test.orders", dst_table="test.other")] if "test.other" not in planned else []))
    mirrored(ctx, run, spec, names, planned, there, dialect)
    arrived(ctx, run, [(t, names[t]) for t in planned])
    for e in run.log.events:
        if e.role == "destination" and e.op in ("create_table", "create_index", "alter_table", "drop_table"):
            ctx.check("existing tables are left as they are",
                      e.op == "create_table" or ddl_table(e) not in [names[t] for t in there], e.sql[:80])


def ddl_table(e):
    if e.op == "create_index":
        return ddl.create_index(e.sql)[0]
    if e.op == "alter_table":
        return ddl.alter_table(e.sql)[0]
    return e.table


def existing(ctx, dialect):
    """Existing tables keep their own definition, whatever the source has."""
    a = Tab("test.a", "id", "a?", "b?", "tag~", uniques=["a"], indexes=[("ib", ("b",), False)], checks=["a > 3"])
    b = Tab("test.b", "id", "a_id~?", "tag~", fks=["a_id->test.a(id)"])
    spec = Spec(a, b)
    there = [t for t in spec.tabs if ctx.bool(f"{t} exists")]
    own = {"test.a": Tab("test.a", "id", "extra~?", "a?", "tag~", "b?"), "test.b": Tab("test.b", "a_id~?", "id", "tag~", pk="id")}
    names = {t: t for t in spec.tabs}
    run = go(ctx, spec, names, dialect, there, dest_tabs=[own[t] for t in there], schemas=["test"])
    mirrored(ctx, run, spec, names, list(spec.tabs), there, dialect)
    arrived(ctx, run, [(t, t) for t in spec.tabs])
    for e in run.log.events:
        if e.role == "destination" and e.op in ("create_table", "create_index", "alter_table", "drop_table"):
            ctx.check("existing tables are left as they are", ddl_table(e) not in there, e.sql[:80])


def advanced(ctx, dialect):
    """Indexes on expressions, partial indexes, colons and percent signs in conditions, long names."""
    on = {n: ctx.bool(n) for n in ("unique expression", "unique expression and column", "plain expression", "partial unique",
                                   "partial plain", "include", "colon", "percent")}
    if sum(map(bool, on.values())) > 3:
        raise symx.Infeasible()
    where = f"{dialect}_where"
    ixs = [(("e1", ("abs(b)",), True), "unique expression"), (("e2", ("(a + b)", "g"), True), "unique expression and column"),
           (("e3", ("abs(b)", "a"), False), "plain expression"),
           (("p1", ("a",), True, {where: sa.text("b > 7")}), "partial unique"),
           (("p2", ("b", "a"), False, {where: sa.text("b > 7")}), "partial plain")]
    if dialect == "postgresql":
        ixs.append((("i1", ("a",), True, {"postgresql_include": ["g"]}), "include"))
    elif on["include"]:
        raise symx.Infeasible()
    name = ctx.choose("name", ["users", "users_" + "x" * 30 + "_" + "y" * 20])
    tab = Tab("test.users", "id", "a", "b?", "g:text~?", "tag~", indexes=[ix for ix, n in ixs if on[n]],
              checks=["g <> 'x:y, (z'"] * bool(on["colon"]) + ["g <> '10%'"] * bool(on["percent"]))
    spec = Spec(tab)
    names = {"test.users": "copy." + name}
    if ctx.concrete and dialect == "sqlite":
        ctx.force_stub = True  # sqlite does not reflect such indexes
    run = go(ctx, spec, names, dialect)
    for e in run.log.events:
        if e.op == "create_index" and e.role == "destination" and dialect == "postgresql":
            ctx.check("names fit", len(ddl.create_index(e.sql)[2].split(".")[-1]) <= 63, e.sql[:90])
    mirrored(ctx, run, spec, names, ["test.users"], [], dialect)
    arrived(ctx, run, names.items())


def many(ctx, dialect):
    """Tables of several schemas end up in one; every index gets a name of its own."""
    mk = lambda n, *fk: Tab(n, "id", "a", "b?" if n == "two.t" else "b", "r~?", "tag~", uniques=["a,b"], indexes=[
        (n[4:] + "_i1", ("a",), False), (n[4:] + "_i2", ("b",), False), (n[4:] + "_i3", ("b", "a"), True)], fks=list(fk))
    spec = Spec(mk("one.t"), mk("two.t", "r->one.t(id)"), mk("two.t_1", "r->two.t(id)"), mk("one.T2"))
    prefix = ctx.choose("names", ["same schema", "same names"])
    names = {t: ("copy." + t.replace(".", "_") if prefix == "same schema" else "x" + t) for t in spec.tabs}
    there = ["one.t"] if ctx.bool("the first exists") else []
    dest_tabs = []
    for t in there:
        n = Tab(names[t], pk=spec.tabs[t].pk)
        n.cols = spec.tabs[t].cols
        dest_tabs.append(n)
    rules = [{"search": r"^(one|two)\.", "replace": r"copy.\1_"}] if prefix == "same schema" else [
        {"search": "^", "replace": "x"}]
    run = go(ctx, spec, names, dialect, there, dest_tabs=dest_tabs, rules=rules)
    mirrored(ctx, run, spec, names, list(spec.tabs), there, dialect)
    arrived(ctx, run, names.items())
    seen = set()
    for e in run.log.events:
        if e.op == "create_index" and e.role == "destination":
            table, _, name = ddl.create_index(e.sql)
            where = (table if dialect == "mysql" else table.split(".")[0], name.split(".")[-1].lower())
            ctx.check("names of indexes do not clash", where not in seen, str(where))
            seen.add(where)


def build(tier):
    deep = tier == "thorough"
    hs = []
    for d in ("sqlite", "postgresql", "mysql"):
        for part in (0, 1):
            if deep or d == "postgresql" and part or d != "postgresql" and not part:
                hs.append(Harness(f"constraints/{part}/{d}", constraints, dict(dialect=d, part=part), validate=2))
        hs.append(Harness(f"types/{d}", types, dict(dialect=d), validate=1))
        for renamed in ("", "all", "partly"):
            if not deep and renamed != {"sqlite": "", "postgresql": "all", "mysql": "partly"}[d]:
                continue
            hs.append(Harness(f"references/{renamed or 'same names'}/{d}", references, dict(dialect=d, renamed=renamed, deep=deep),
                              validate=2))
        hs.append(Harness(f"existing/{d}", existing, dict(dialect=d), validate=2))
        hs.append(Harness(f"many/{d}", many, dict(dialect=d), validate=2))
        if d != "mysql":
            hs.append(Harness(f"advanced/{d}", advanced, dict(dialect=d), validate=1))
    return Check(PROP, hs,
                 bounds={"tables": "up to 5", "rows": "acceptance compared for any 2 rows per table, -4..12 or null",
                         "types": {k: len(v) for k, v in TYPES.items()}},
                 assumptions=["the source is reflected faithfully", "source and destination use the same dialect"],
                 outside=["defaults, generated columns, comments, actions of foreign keys, names of constraints",
                          "order of the columns within the primary key"])
