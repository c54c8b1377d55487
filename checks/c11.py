"""C11: anonymised source values never reach the output."""
from __future__ import annotations

import os
import random
import string

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import Transfer, guarded, transfer
from lib.symsql import Cell, Rel, Row, same
from lib.symx import And, Eq, Iff, Implies, Not, Or, SymInt, SymReal, z3
from lib.trace import Claims, tagged
from lib.world import Col, Spec, Tab

PROP = "C11"
T = Tab
ALL = {"all": True}


def F(op, *cols, **kw):
    return {"op": op, "columns": list(cols), **kw}


# ------------------------------------------------------------------------------------------------- random draws
class Draws:
    """
    Every random draw of the code under test is a free variable. Both runs are given the same draws, in the order in
    which they ask for them; a draw asked for with different bounds is another variable.
    """

    def __init__(self, ctx):
        self.ctx, self.made, self.at, self.bytes = ctx, {}, 0, 0

    def __enter__(self):
        R = random.Random
        self.saved = {n: (n in R.__dict__, getattr(R, n)) for n in ("_randbelow", "random", "getrandbits", "seed")}
        old = {n: f for n, (_, f) in self.saved.items()}
        self.urandom = os.urandom

        def ours(s):
            return s is random._inst or getattr(s, "made_by_subsetter", False)

        R._randbelow = lambda s, n: self.below(s, n) if ours(s) else old["_randbelow"](s, n)
        R.random = lambda s: self.unit(s) if ours(s) else old["random"](s)
        R.seed = lambda s, *a, **k: self.seed(s, *a) if ours(s) else old["seed"](s, *a, **k)
        R.getrandbits = lambda s, k: self.below(s, 2 ** k) if ours(s) else old["getrandbits"](s, k)
        os.urandom = self.entropy
        return self

    def __exit__(self, *exc):
        R = random.Random
        for n, (own, f) in self.saved.items():
            if own:
                setattr(R, n, f)
            else:
                delattr(R, n)
        os.urandom = self.urandom

    def rewind(self):
        self.at = self.bytes = 0
        symx._steady()

    def seed(self, s, a=None):
        """What a seeded generator draws is a function of the seed."""
        if a is None or s is random._inst and a == 20240229:
            s.seeded = ()
            return
        key = getattr(a, "term", None)
        s.seeded = (key.sexpr() if symx.is_term(key) else repr(key if key is not None else a),)
        s.drawn = 0

    def _next(self, s, kind, make):
        seeded = getattr(s, "seeded", ())
        if seeded:
            key = (s.drawn, kind, *seeded)
            s.drawn += 1
        else:
            key = (self.at, kind)
            self.at += 1
        if key not in self.made:
            self.made[key] = make("draw " + " ".join(map(str, key)))
        return self.made[key]

    def below(self, s, n):
        n = int(n)
        if n <= 0:
            raise ValueError("empty range")
        return self._next(s, f"below {n}", lambda name: self.ctx.int(name, 0, n - 1))

    def unit(self, s):
        v = self._next(s, "unit", lambda name: self.ctx.real(name, 0, 1))
        return SymReal(v) if symx.is_term(v) else v

    def entropy(self, n):
        self.bytes += 1
        return (b"%04d" % self.bytes * 8)[:n]


# ------------------------------------------------------------------------------------------------- two runs
SPEC = Spec(T("test.t", "id", "a?", "x~?", "c:text?", "tag~"),
            T("test.u", "id", "t_id?", "tag~", fks=["t_id->test.t(id)"]))
FIRST = Spec(T("test.t", "a?", "c:text?", "id", "x~?", "tag~", pk="id"),
             T("test.u", "tag~", "t_id?", "id", pk="id", fks=["t_id->test.t(id)"]))
KEYS = Spec(T("test.t", "id", "x~?", "tag~"),
            T("test.u", "id", "a?", "c:text?", "tag~", fks=["a->test.t(id)"]))


def double(v):
    return lambda c: Cell(c[v].null, c[v].val * 2, "int")


def plus(name, n):
    return ("%s + %d" % (name, n), lambda c: Cell(c[name].null, c[name].val + n, "int"))


GENERATED = Spec(T("test.t", "id", "a?", Col("g", null=True, computed=plus("a", 1)), "x~?", "c:text?", "tag~"),
                 T("test.u", "id", "t_id?", "tag~", fks=["t_id->test.t(id)"]))
PLAIN_OF_GENERATED = Spec(T("test.t", "id", "a?", "g?", "x~?", "c:text?", "tag~"), T("test.u", "id", "t_id?", "tag~"))

FILTERS = {
    "null": [F("null", "a", "c")],
    "zero": [F("zero", "c", "a")],
    "constant": [F("constant", "c", "a", values=["b", 7])],
    "constant null": [F("constant", "a", "c", values=[None, "x"])],
    "random_int": [F("random_int", "a", low=-2, high=7), F("null", "c")],
    "random_float": [F("random_float", "a", low=0.25, high=2.5), F("constant", "c", values=["q"])],
    "random_string": [F("random_string", "c", length=1, alphabet="custom", custom_alphabet="ab"), F("zero", "a")],
    "uuid": [F("uuid", "c"), F("random_int", "a", low=3, high=3)],
    "fake": [F("fake_name", "c", unique=True), F("null", "a")],
    "fake again": [F("fake_city", "c"), F("random_int", "a", low=0, high=1), F("fake_email", "c")],
    "omit": [F("omit", "a", "c")],
    "omit one": [F("omit", "c"), F("constant", "a", values=[4])],
    "twice": [F("random_int", "a", low=1, high=2), F("null", "c"), F("zero", "a")],
}
OPTIONS = {
    "plain": {},
    "multiplicity": {"multiplicity": {"multiplier": 2}},
    "multiplied column": {"multiplicity": {"multiplier": 2, "extra_columns": {"test.t": ["a"]}}},
    "compact": {"compact": {"primary_keys": True}},
    "compacted column": {"compact": {"columns": {"test.t": ["id", "a"]}}},
}
OUTPUTS = {
    "directory": {},
    "database": {},
    "merge": {"merge": True},
    "replace": {"conflict_strategy": "replace"},
    "skip": {"conflict_strategy": "skip"},
}


SMALL = dict(lo=-4, hi=4, pk_hi=20)


def alternate(ctx, spec, rels, columns, keep_null):
    """The same rows with other values in the anonymised columns."""
    out = dict(rels)
    for table, cols in columns.items():
        rel = rels[table]
        other = world.sym_rel(ctx, spec.tabs[table], len(rel.rows), prefix="other:", full=True, **SMALL)
        rows = []
        for r, o in zip(rel.rows, other.rows):
            cells = list(r.cells)
            for c in cols:
                i = rel.idx(c)
                cells[i] = o.cells[i]
                if keep_null:
                    ctx.assume(Iff(cells[i].null, r.cells[i].null))
            rows.append(Row(r.g, cells))
        out[table] = Rel(rel.cols, rows, rel.kinds)
    return out


def equal_outputs(claims, one, two, label, detail, skip=()):
    claims.check(label, set(one) == set(two), detail)
    for table in one:
        if table not in two:
            continue
        a, b = one[table], two[table]
        claims.check(label, len(a.rows) == len(b.rows), f"{detail}: {table}: number of rows")
        claims.check(label, a.cols == b.cols, f"{detail}: {table}: columns")
        for x, y in zip(a.rows, b.rows):
            claims.check(label, Iff(x.g, y.g), f"{detail}: {table}: rows")
            for c in a.cols:
                if c in b.cols and (table, c) not in skip:
                    claims.check(label, Implies(x.g, same(a.cell(x, c), b.cell(y, c))), f"{detail}: {table}.{c}",
                                 witness=x.g)


def two_runs(ctx, layout, name, option, output, dialect, k=1):
    spec = {"middle": SPEC, "first": FIRST, "generated": GENERATED, "keys": KEYS}[layout]
    filters = FILTERS[name]
    if layout == "keys":
        # the anonymised column is a foreign key
        filters = [f for f in filters if f["op"] in ("null", "omit")]
    table = "test.u" if layout == "keys" else "test.t"
    cols = sorted({c for f in filters for c in f["columns"]})
    sampler = {"filters": {table: filters}, **OPTIONS[option]}
    rels = tagged(ctx, spec, {"*": 1, table: k}, full=True, fks=True, **SMALL)
    others = alternate(ctx, spec, rels, {table: cols}, any(f["op"] == "zero" for f in filters))
    if layout == "keys":
        world.assume_fks(ctx, spec, others)
    if layout == "generated":
        for r, o in zip(rels[table].rows, others[table].rows):
            i = rels[table].idx("g")
            o.cells[i] = r.cells[i]
    omitted = {c for f in filters if f["op"] == "omit" for c in f["columns"]}
    kw = dict(sampler=sampler, dialect=dialect, output=dict(OUTPUTS[output]), directory=output == "directory")
    if output != "directory":
        dtab = spec.tabs[table]
        kw["dest"] = Spec(*(t if t.full != table else T(
            t.full, *(c for c in t.cols if c.name not in omitted), pk=",".join(t.pk),
            fks=[f"{','.join(f.cols)}->{f.dst}({','.join(f.dst_cols)})" for f in t.fks
                 if not set(f.cols) & omitted]) for t in spec.tabs.values()))
        if output in ("merge", "replace", "skip"):
            dest_rels = {t.full: world.sym_rel(ctx, t, 1, prefix="dest:", full=True)
                         for t in kw["dest"].tabs.values() if t.full == table}
            for f in dtab.fks:
                for c in f.cols:
                    if c in dest_rels[table].cols:
                        dest_rels[table].cell(dest_rels[table].rows[0], c).null = True
            kw["dest_rels"] = dest_rels
    planner = dict(select=["test.*"], targets={t: ALL for t in spec.tabs})
    detail = f"{layout} {name}"
    runs = []
    with Draws(ctx) as draws:
        for contents in (rels, others):
            draws.rewind()
            plain = {t: (r.copy() if hasattr(r, "copy") else r) for t, r in contents.items()}
            run, _ = guarded(ctx, "planning and sampling succeed",
                             lambda plain=plain: transfer(ctx, spec, plain, planner, **kw))
            runs.append(run)
    claims = Claims(ctx)
    equal_outputs(claims, runs[0].out, runs[1].out, "the output does not depend on anonymised values", detail)
    if option != "multiplied column":
        ranges(claims, runs[0].out[table], filters, rels[table], output)
    claims.flush()


def ranges(claims, out, filters, src, output):
    """What the last filter of each column promises, for the rows that were copied."""
    last = {c: f for f in filters for c in f["columns"]}
    tags = [src.cell(r, "tag") for r in src.rows]
    for o in out.rows:
        mine = And(o.g, Or(*(same(out.cell(o, "tag"), t) for t in tags)))
        for c, f in last.items():
            if c not in out.cols:
                continue
            x = out.cell(o, c)
            if f["op"] in ("random_int", "random_float"):
                claims.check("random numbers stay in their range", Implies(mine, And(
                    Not(x.null), x.val >= num(f["low"]), x.val <= num(f["high"]))), f"{f}", witness=mine)


def num(v):
    return v if isinstance(v, int) else symx.real_val(v)


# ------------------------------------------------------------------------------------------------- single filters
ALPHABETS = {
    "alnum": string.ascii_letters + string.digits, "hex": string.digits + "abcdef",
    "hex_lower": string.digits + "abcdef", "hex_upper": string.digits + "ABCDEF", "digit": string.digits,
    "alpha": string.ascii_letters, "alpha_lower": string.ascii_lowercase, "alpha_upper": string.ascii_uppercase,
}


def view_of(cfg, columns):
    from subsetter.config_model import SamplerConfig

    f = SamplerConfig(filters={"test.t": [cfg]}).filters["test.t"][0]
    return f.construct_filter(tuple(columns))


def source_value(ctx):
    kind = ctx.choose("source value", ["null", "int", "text"])
    if kind == "null":
        return None
    if kind == "int":
        return ctx.int("value", -5, 5)
    return world.py_of_cell(ctx, Cell(False, ctx.int("text", 0, world.POOL.size - 1, wrap=False) * world.POOL.STEP, "text"))


def strings(ctx, alphabet, lengths):
    """Every string that can be drawn."""
    n = ctx.choose("length", lengths)
    cfg = F("random_string", "c", length=n, alphabet=alphabet)
    letters = ALPHABETS.get(alphabet)
    if letters is None:
        letters = ctx.choose("letters", ["ab", "-", "aA\u00e9", "x" * 3])
        cfg["custom_alphabet"] = letters
    elif ctx.flag("stray custom alphabet"):
        cfg["custom_alphabet"] = "#!"  # only used with "custom"
    if ctx.flag("default alphabet") and alphabet == "alnum":
        del cfg["alphabet"]
    value = ctx.choose("source", [None, "abcdef"])
    with Draws(ctx):
        got = view_of(cfg, ["id", "c"]).filter_view((3, value))
    ctx.check("the string has the configured length", isinstance(got[1], str) and len(got[1]) == n, str(cfg))
    ctx.check("the string is made of the configured alphabet", set(got[1]) <= set(letters), f"{cfg} {got[1]!r}")
    ctx.check("other columns are kept", got[0] == 3, str(cfg))


def numbers(ctx):
    """All bounds and all draws, over several columns."""
    which = ctx.choose("op", ["random_int", "random_float"])
    if which == "random_int":
        low = ctx.choose("low", [-7, 0, 1, 2 ** 40])
        high = low + ctx.choose("width", [0, 1, 9, 2 ** 33])
    else:
        low = ctx.choose("low", [-1.5, 0.0, 0.25, 1e6])
        high = low + ctx.choose("width", [0.0, 0.5, 1e3])
    value = source_value(ctx)
    with Draws(ctx):
        got = view_of(F(which, "c", "a", low=low, high=high), ["a", "b", "c"]).filter_view((value, 8, 9))
    for i in (0, 2):
        v = got[i]
        ctx.check("random numbers stay in their range", v is not None and And(
            symx.bool_term(v >= low), symx.bool_term(v <= high)), f"{which} {low} {high}")
    ctx.check("other columns are kept", got[1] == 8, which)


FAKES = ["email", "first_name", "last_name", "name", "phone_number", "vin", "address",
         "building_number", "city", "state", "state_abbr", "country", "country_code", "postal_code", "street_address",
         "street_name", "latitude", "longitude"]


def fakes(ctx):
    """A generated value is generated: it is never the source value or made from it."""
    op = ctx.choose("op", ["uuid"] + ["fake_" + f for f in FAKES])
    kw = {"unique": True} if op != "uuid" and ctx.flag("unique") else {}
    runs = []
    for i in (0, 1):
        value = ctx.choose(f"source {i}", [None, "Mallory Source", 77, ""])
        symx._steady()
        with Draws(ctx):
            view = view_of(F(op, "c", **kw), ["id", "c"])
            got = view.filter_view((3, value))
            again = view.filter_view((4, value))
        ctx.check("a value is generated", got[1] is not None and got[1] != "" and "Mallory" not in str(got[1]), op)
        ctx.check("other columns are kept", got[0] == 3 and again[0] == 4, op)
        runs.append((str(got[1]), str(again[1])))
    ctx.check("the output does not depend on anonymised values", runs[0] == runs[1], f"{op} {runs}")


def build(tier):
    hs = []
    deep = tier == "thorough"
    for layout in ("middle", "first", "generated", "keys"):
        for name in FILTERS:
            if layout == "keys" and not any(f["op"] in ("null", "omit") for f in FILTERS[name]):
                continue
            for option in OPTIONS:
                for output in OUTPUTS:
                    plain = option == "plain" or output in ("directory", "database") and layout == "middle"
                    if not deep and not plain:
                        continue
                    if not deep and layout != "middle" and output in ("skip", "merge"):
                        continue
                    if option.endswith(" column") and (layout == "keys" or any(
                            "a" in f["columns"] and f["op"] in ("omit", "random_float") for f in FILTERS[name])):
                        continue
                    if layout == "generated" and output != "directory" and any(
                            f["op"] == "omit" and "a" in f["columns"] for f in FILTERS[name]):
                        continue  # the destination could not compute its column
                    ds = ("sqlite", "postgresql", "mysql") if deep and output != "directory" else ("sqlite",)
                    for d in ds:
                        hs.append(Harness(f"{layout}/{name}/{option}/{output}/{d}", two_runs, dict(
                            layout=layout, name=name, option=option, output=output, dialect=d), validate=1))
    for a in list(ALPHABETS) + ["custom"]:
        size = len(ALPHABETS.get(a, "abc"))
        hs.append(Harness(f"strings/{a}", strings, dict(alphabet=a, lengths=[0, 1] if size > 20 or not deep and size > 10 and a != "hex_upper" else [0, 1, 2]),
                          validate=1))
    hs.append(Harness("numbers", numbers, {}))
    hs.append(Harness("fakes", fakes, {}, validate=0))
    for name in ("zero", "random_int") if not deep else FILTERS:
        for option in ("plain", "multiplicity") if deep else ("multiplicity",):
            hs.append(Harness(f"two rows/{name}/{option}", two_runs, dict(
                layout="middle", name=name, option=option, output="database", dialect="sqlite", k=2), validate=1))
    return Check(PROP, hs,
                 bounds={"rows": "1 of each table (2 in some runs), with two independent symbolic values (or NULL) for "
                                 "every anonymised column", "filters": FILTERS, "options": list(OPTIONS),
                         "outputs": list(OUTPUTS), "strings": "up to 2 characters (1 for the larger alphabets); every draw",
                         "random draws": "free variables, shared by the two runs; a generator seeded with different "
                                         "values draws different numbers"},
                 assumptions=["zero keeps whether a value is NULL, and its type (documented)",
                              "a generated column of the source counts as a column of its own",
                              "the generators of uuid and fake are replaced by seeded ones"],
                 outside=["conditional filters and plugins", "targets that select rows by the anonymised column",
                          "what the log shows", "rounding of floats"])
