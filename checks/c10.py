"""C10: filters change only the columns they name."""
from __future__ import annotations

import fnmatch as _fnmatch
import re
import sys
import types
from datetime import datetime, timezone

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import Transfer, guarded, transfer
from lib.symsql import Cell, NULL, POOL, Rel, Row, cell_of_py, ite_cell, same
from lib.symx import And, B2I, Eq, Iff, Implies, Ite, Not, Or, Sum
from lib.trace import Claims, tagged
from lib.world import Col, Spec, Tab

PROP = "C10"
T = Tab
ALL = {"all": True}
SPEC = Spec(T("test.t", "id", "a?", "x~?", "b?", "c:text?", "tag~"))
COLS = ["id", "a", "x", "b", "c", "tag"]


class Plug:
    """A plugin that tells its arguments apart by their position."""

    def __init__(self, step=1):
        self.step = step

    def __call__(self, values):
        return [None if v is None else v + 10 * i + self.step for i, v in enumerate(values)]


def swap(**kw):
    return lambda values: (v for v in reversed(list(values)))


_mod = types.ModuleType("verif_c10_plugins")
_mod.Plug, _mod.swap = Plug, swap
sys.modules["verif_c10_plugins"] = _mod


def plugin(*cols, cls="Plug", **kw):
    return {"op": "plugin", "columns": list(cols), "module": "verif_c10_plugins", "class": cls, "kwargs": kw}


def F(op, *cols, **kw):
    return {"op": op, "columns": list(cols), **kw}


def mux(column, *conds):
    return {"op": "multiplex", "column": column,
            "conditions": [{"op": o, "value": v, "apply": a} for o, v, a in conds]}


SIMPLE = [
    F("null", "a"), F("null", "c", "b"), F("zero", "a", "c"), F("zero", "b"), F("constant", "b", "a", values=[7, 8]),
    F("constant", "c", values=["x"]), F("omit", "a"), F("omit", "b", "c"), plugin("a"), plugin("b", "a", step=3),
    plugin("a", "b", cls="swap"), F("random_int", "a", low=3, high=5), F("random_string", "c", length=4, alphabet="digit"),
    F("fake_name", "c"),
]
MUX = [
    mux("a", ("<", 5, F("null", "b")), (">=", 5, F("constant", "b", values=[1]))),
    mux("b", ("is", None, F("constant", "a", values=[1])), ("in", [1, 2], F("zero", "a")), ("not in", [3, None], F("null", "c"))),
    mux("a", ("=", 3, F("constant", "a", values=[4])), ("=", 4, F("constant", "a", values=[3]))),
    mux("b", ("is not", None, plugin("b", "a", step=2)), ("is", None, F("constant", "x", values=[0]))),
    mux("a", ("<=", 2, F("zero", "b", "a")), (">", 4, plugin("a", "b", cls="swap")), ("!=", 3, F("null", "a", "c"))),
    mux("c", ("=", "abc", F("null", "c")), ("not in", ["a", ""], F("null", "b")), ("in", ["", "x"], F("constant", "b", "c", values=[5, "y"]))),
]


def kind_of(col):
    return "text" if col == "c" else "int"


class Rejected(Exception):
    pass


def apply_simple(f, row):
    """row: {column: (Cell, check or None)} in order; the state after one filter."""
    for c in f["columns"]:
        if c not in row:
            raise Rejected(c)
    if len(set(f["columns"])) != len(f["columns"]) or not f["columns"]:
        raise Rejected("repeated")
    row = dict(row)
    op = f["op"]
    if op == "constant" and len(f["values"]) != len(f["columns"]):
        raise Rejected("values")
    before = {c: row[c] for c in f["columns"]}
    for i, c in enumerate(f["columns"]):
        v = before[c]
        if op == "null":
            row[c] = NULL
        elif op == "omit":
            del row[c]
        elif op == "constant":
            row[c] = cell_of_py(f["values"][i])
        elif op == "zero":
            row[c] = "any" if v == "any" else Cell(v.null, POOL.code("") if v.kind == "text" else 0, v.kind)
        elif op == "plugin" and f["class"] == "Plug":
            row[c] = "any" if v == "any" else Cell(v.null, v.val + 10 * i + f["kwargs"].get("step", 1), "int") \
                if v.null is not True else NULL
        elif op == "plugin":
            row[c] = before[f["columns"][len(f["columns"]) - 1 - i]]
        else:
            row[c] = "any"
    return row


def truth(op, cell: Cell, value):
    """Python's comparison for = and in; NULLs are not ordered."""
    def eq(v):
        return same(cell, cell_of_py(v))

    if op == "is":
        return eq(value)
    if op == "is not":
        return Not(eq(value))
    if op == "in":
        return Or(*(eq(v) for v in value))
    if op == "not in":
        return And(*(Not(eq(v)) for v in value))
    if op == "=":
        return eq(value)
    if op == "!=":
        return Not(eq(value))
    a, b = cell.val, value
    return And(Not(cell.null), {"<": lambda: symx.Lt(a, b), ">": lambda: symx.Lt(b, a), "<=": lambda: Not(symx.Lt(b, a)),
                                ">=": lambda: Not(symx.Lt(a, b))}[op]())


def merge(cond, a, b):
    if a is b:
        return a
    if a == "any" or b == "any":
        return "any"
    return ite_cell(cond, a, b)


def apply(f, row):
    if f["op"] != "multiplex":
        return apply_simple(f, row)
    if f["column"] not in row:
        raise Rejected(f["column"])
    results = [apply_simple(c["apply"], row) for c in f["conditions"]]
    if any(list(r) != list(row) for r in results):
        raise Rejected("omit within multiplex")
    cell = row[f["column"]]
    out = dict(row)
    if cell == "any":
        touched = {c for cond in f["conditions"] for c in cond["apply"]["columns"]}
        return {c: "any" if c in touched else x for c, x in row.items()}
    for cond, res in reversed(list(zip(f["conditions"], results))):
        t = truth(cond["op"], cell, cond["value"])
        out = {c: merge(t, res[c], out[c]) for c in row}
    return out


def chain(ctx, filters, output, dialect, k=1, spec=SPEC, detail=None):
    """One chain on symbolic rows; compares what is written with the reference."""
    detail = detail or str(filters)
    rels = tagged(ctx, spec, k, full=True)
    src = rels["test.t"]
    refs = []
    try:
        for r in src.rows:
            row = {c: x for c, x in zip(src.cols, r.cells)}
            for f in filters:
                row = apply(f, row)
            refs.append(row)
        bad = None
    except Rejected as exc:
        bad = exc
    run = Transfer()
    dspec = spec
    if bad is None:
        dspec = Spec(T("test.t", *(c for c in spec.tabs["test.t"].cols if c.name in refs[0])))
    _, exc = guarded(ctx, "planning and sampling succeed" + (f" ({detail})" if detail.endswith(";") else ""), lambda: transfer(
        ctx, spec, rels, dict(select=["test.*"], targets={"test.t": ALL}), {"filters": {"test.t": filters}}, dialect,
        directory=output == "directory", dest=dspec, run=run, truncate=True),
        allow=lambda e: bad is not None and isinstance(e, ValueError))
    ctx.check("unknown or repeated columns are rejected", (exc is not None) == (bad is not None), detail)
    if bad is not None:
        ctx.check("rejected before anything is written", not any(
            e.op in ("insert", "delete", "create_table") and e.role == "destination" for e in run.log.events),
            detail)
        return
    out = run.out["test.t"]
    claims = Claims(ctx)
    want = list(refs[0])
    if output == "directory":
        claims.check("the columns are those of the source minus the omitted ones, in order",
                     all(o == want for o in out.orders), detail)
    claims.check("the columns are those of the source minus the omitted ones, in order",
                 sorted(out.cols) == sorted(want), detail)
    claims.check("one row for every row", len(out.rows) == len(src.rows), detail)
    named = {c for f in filters for g in ([f] if f["op"] != "multiplex" else [x["apply"] for x in f["conditions"]])
             for c in g["columns"]}
    for ref in refs:
        mine = [(o, And(o.g, same(out.cell(o, "tag"), ref["tag"]))) if ref["tag"] != "any" else (o, o.g) for o in out.rows]
        claims.check("a row for every row" if "tag" in named else "a column that is not named keeps its value",
                     Or(*(m for _, m in mine)), detail)
        for o, m in mine:
            for c in want:
                if ref[c] == "any":
                    continue
                claims.check("a column that is named has the result of its filters" if c in named else
                             "a column that is not named keeps its value", Implies(m, same(out.cell(o, c), ref[c])),
                             f"{c} {detail}", witness=m)
    claims.flush()


def chains(ctx, first, output, dialect, length, menu):
    filters = [first]
    while len(filters) < length:
        f = ctx.choose(f"filter {len(filters)}", [None, *menu])
        if f is None:
            break
        filters.append(f)
    chain(ctx, filters, output, dialect)


REJECTED = [
    [F("null", "nope")], [F("zero", "a", "a")], [F("omit", "a", "nope")], [F("omit", "b", "b")],
    [F("constant", "c", "c", values=["1", "2"])], [F("random_int", "A", low=1, high=2)], [plugin("a", "b", "a")],
    [F("omit", "a"), F("null", "a")], [F("omit", "a"), F("omit", "a")], [F("omit", "b"), mux("b", ("=", 1, F("null", "a")))],
    [mux("nope", ("=", 1, F("null", "a")))], [mux("a", ("=", 1, F("null", "nope")))], [mux("a", ("=", 1, F("omit", "b")))],
    [mux("a", ("=", 1, F("null", "b", "b")))], [F("fake_name", "c", "nope")], [F("uuid", "c", "c")], [F("null")],
    [F("random_string", "c", "c", length=1)], [F("omit", "c"), F("uuid", "c")], [F("omit")],
    [F("null", "a"), F("null", "b"), F("null", "nope")],
    [F("constant", "a", "b", values=[1])], [F("constant", "a", values=[1, 2])], [F("random_float", "a", "a", low=0, high=1)],
]


def rejected(ctx, output, dialect):
    chain(ctx, ctx.choose("filters", REJECTED), output, dialect)


NARROW = Spec(T("test.t", "id", "a?", "x~?", "b~?", "c:text~?", "tag~"))
ROWS = [[MUX[0]], [MUX[2]], [F("null", "b", "x"), F("omit", "c")], [plugin("a", step=2), MUX[0]],
        [MUX[2], F("random_int", "b", low=0, high=3), MUX[0]]]


FAKES = ["email", "first_name", "last_name", "name", "phone_number", "license_plate", "vin", "address",
         "building_number", "city", "state", "state_abbr", "country", "country_code", "postal_code", "street_address",
         "street_name", "latitude", "longitude"]


def fakes(ctx, output, dialect):
    """Every built-in generator can be used, and changes nothing else."""
    # The coordinates are decimals, which do not fit the text and integer columns used here.
    op = ctx.choose("op", ["uuid"] + ["fake_" + f for f in FAKES if output == "directory" or not f.endswith("itude")])
    kw = {"unique": True} if op != "uuid" and ctx.flag("unique") else {}
    chain(ctx, [F(op, "c", "b", **kw)], output, dialect, spec=NARROW, detail=f"{op};")


def rows(ctx, output, dialect):
    """Several rows do not influence each other."""
    chain(ctx, ctx.choose("filters", ROWS), output, dialect, k=2, spec=NARROW)


TEXTS = ["", "a", "abc", "ABC", "abcd", "xabc", "a*c", "a.c", "[a]bc", "a\nb", "a?c", None]
PATTERNS = ["abc", "a*", "*c", "a?c", "[ab]bc", "[!a]*", "*", "", "a.c", "A*"]


def like_glob(pattern, text):
    """Reference for the glob patterns."""
    out = ""
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        i += 1
        if ch == "*":
            out += ".*"
        elif ch == "?":
            out += "."
        elif ch == "[" and "]" in pattern[i + 1:]:
            j = pattern.index("]", i + 1)
            body = pattern[i:j]
            out += "[" + ("^" + body[1:] if body[0] == "!" else body) + "]"
            i = j + 1
        else:
            out += re.escape(ch)
    return re.fullmatch(out, text, re.S) is not None


def matches(ctx, dialect):
    """Patterns; the texts are taken from a list."""
    texts = [ctx.choose("text", TEXTS)]
    first, second = ctx.choose("patterns", [(a, b) for a in PATTERNS for b in PATTERNS[::3]])
    rels = tagged(ctx, SPEC, 1, full=True)
    src = rels["test.t"]
    r = src.rows[0]
    for c in ("a", "b"):
        r.cells[src.idx(c)].opaque = True
    r.cells[src.idx("c")] = cell_of_py(texts[0])
    filters = [mux("c", ("matches", first, F("constant", "c", "a", values=["one", 1])),
                   ("matches", second, F("constant", "c", values=["two"])))]
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, SPEC, rels, dict(select=["test.*"], targets={"test.t": ALL}), {"filters": {"test.t": filters}}, dialect,
        directory=True))
    out = run.out["test.t"]
    ctx.check("one row for every row", len(out.rows) == 1, "")
    o = out.rows[0]
    t = texts[0]
    want = {c: x for c, x in zip(src.cols, r.cells)}
    if t is not None and like_glob(first, t):
        want["c"], want["a"] = cell_of_py("one"), cell_of_py(1)
    elif t is not None and like_glob(second, t):
        want["c"] = cell_of_py("two")
    for c in COLS:
        ctx.check("the first matching branch is applied", same(out.cell(o, c), want[c]), f"{t!r} {first!r} {second!r} {c}")


ZEROS = [(1.5, 0.0), (-0.25, 0.0), ("abc", ""), ("", ""), (12, 0), (True, 0), (None, None),
         (datetime(2020, 5, 1, 3, 4, 5), datetime(1970, 1, 1)),
         (datetime(2020, 5, 1, 3, 4, 5, tzinfo=timezone.utc), datetime(1970, 1, 1, tzinfo=timezone.utc))]


def zero_types(ctx):
    """zero keeps nulls and the type (rows of constants, straight through the filters)."""
    from subsetter.config_model import SamplerConfig

    pairs = [ctx.choose(f"value {i}", ZEROS) for i in range(2)]
    n = ctx.int("other")
    cfg = SamplerConfig(filters={"test.t": [F("zero", "q", "p")]}).filters["test.t"][0]
    view = cfg.construct_filter(("p", "n", "q"))
    got = view.filter_view((pairs[0][0], n, pairs[1][0]))
    ctx.check("one value per column", len(got) == 3, str(got))
    for g, (v, want) in zip((got[0], got[2]), pairs):
        ctx.check("zero is the zero of the type", g == want and (want is None) == (g is None) and (
            isinstance(want, bool) or type(g) is type(want) or isinstance(v, bool)) and (
            getattr(g, "tzinfo", None) == getattr(want, "tzinfo", None)), f"{v!r} -> {g!r}")
    ctx.check("a column that is not named keeps its value", Eq(symx.raw(got[1]), symx.raw(n)))


def build(tier):
    hs = []
    menu = SIMPLE + MUX
    length = 2 if tier == "quick" else 3
    for i, f in enumerate(menu):
        hs.append(Harness(f"chains/{i} {f['op']}/directory", chains,
                          dict(first=f, output="directory", dialect="sqlite", length=length, menu=menu), validate=1))
        if tier == "thorough":
            hs.append(Harness(f"chains/{i} {f['op']}/database", chains,
                              dict(first=f, output="database", dialect="postgresql", length=2, menu=menu), validate=1))
    for o, d in (("directory", "sqlite"), ("database", "sqlite"), ("database", "mysql")):
        hs.append(Harness(f"rejected/{o}/{d}", rejected, dict(output=o, dialect=d)))
        hs.append(Harness(f"rows/{o}/{d}", rows, dict(output=o, dialect=d)))
        hs.append(Harness(f"fakes/{o}/{d}", fakes, dict(output=o, dialect=d)))
    hs.append(Harness("matches", matches, dict(dialect="sqlite"), validate=0))
    hs.append(Harness("zero", zero_types, {}, validate=0))
    return Check(PROP, hs,
                 bounds={"chain length": length, "filters": menu, "columns": COLS, "rejected": REJECTED,
                         "rows": "1, or 2 for some chains; integers and NULLs symbolic", "texts": TEXTS,
                         "patterns": PATTERNS},
                 assumptions=["'is' and 'is not' are used with null", "plugins return one value per column",
                              "= and != compare nulls as Python does; nulls are not ordered and match no pattern"],
                 outside=["what the random and fake generators draw (C11)", "values of types that zero refuses"])
