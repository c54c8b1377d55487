"""C04: simplifying a plan never changes the rows it selects."""
from __future__ import annotations

import sqlalchemy as sa
from sqlalchemy.sql import elements as E
from sqlalchemy.sql import operators as O

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded
from lib.symsql import B3, Evaluator, Unsupported, same_row
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum, z3
from lib.world import Spec, Tab

PROP = "C04"

SPEC = Spec(Tab("test.t", "id", "a?", "b?", "g:text?"), Tab("test.u", "id", "t_id?", "a?", fks=["t_id->test.t(id)"]),
            Tab("test.w", "id", "a?", "b?", "g:text?"))
PARAMS = ("p1", "p2", "p3", "p4")


class Shared(Evaluator):
    """Random conditions and random orders are functions of the row and the occurrence, shared by both evaluations."""

    def __init__(self, ctx, rels, draws, swap=False):
        self.ctx, self.draws, self.swap = ctx, draws, swap
        preds = {p: (lambda lookup, e, p=p: self.text_pred(p, lookup)) for p in PARAMS}

        def tables(t):
            rel = rels[f"{t.schema}.{t.name}"]
            return world.SymConnection._as(rel, t)

        counter = {}

        def fresh(base):
            counter[base] = counter.get(base, 0) + 1
            return f"{base}#{counter[base]}"

        super().__init__(tables, fresh, preds)
        self.occ = {}

    def _shared(self, key, make):
        if key not in self.draws:
            self.draws[key] = make(len(self.draws))
        return self.draws[key]

    def text_pred(self, p, lookup):
        cell = lookup("id")

        def make(n):
            return (cell, B3(*self._tri(f"{p}@{n}")))

        return self._shared(("text", p, id(cell)), make)[1]

    def _tri(self, name):
        t = symx.raw(self.ctx.bool(name + ".true"))
        n = symx.raw(self.ctx.bool(name + ".null"))
        return And(t, Not(n)), n

    @staticmethod
    def identity(env):
        cells = []
        for scope in env[-1:]:
            for f, b in scope["b"].items():
                cells.append(next(iter(b.values())))
        return cells

    def _binary(self, e, env, **kw):
        from subsetter.plan_model import RandomFraction

        if isinstance(e.left, RandomFraction) or isinstance(e.right, RandomFraction):
            if not (isinstance(e.left, RandomFraction) and e.operator is O.lt and isinstance(e.right, E.BindParameter)):
                raise Unsupported("random comparison")
            th = float(e.right.effective_value)
            if th <= 0 or th >= 1:
                return B3(th >= 1)
            if id(e) not in self.occ:
                n = sum(1 for k in self.occ.values() if k[0] == th)
                self.occ[id(e)] = (th, 1 - n if self.swap and n < 2 else n, e)
            cells = self.identity(env)
            key = ("rnd", self.occ[id(e)][:2], tuple(0 if c.null is True else id(c) for c in cells))
            return self._shared(key, lambda n: (cells, B3(symx.raw(self.ctx.bool(f"rnd@{n}")))))[1]
        return super()._binary(e, env, **kw)

    def _before(self, rows, order, scopes):
        keys = []
        for sc in scopes:
            if sc is None:
                raise Unsupported("limit on a compound")
            cells = self.identity(sc)
            keys.append(self._shared(("prio", tuple(0 if c.null is True else id(c) for c in cells)),
                                     lambda n: (cells, symx.raw(self.ctx.int(f"prio@{n}", wrap=True)))))
        vals = [k[1] for k in keys]
        # no two rows have the same priority
        for k in list(self.draws.items()):
            if k[0][0] == "prio":
                for o in list(self.draws.items()):
                    if o[0][0] == "prio" and o[0] < k[0] and (o[0], k[0]) not in self.draws:
                        self.draws[(o[0], k[0])] = True
                        self.ctx.assume(Not(Eq(o[1][1], k[1][1])))
        return lambda j, i: vals[j] < vals[i]


def metadata():
    md = SPEC.metadata()
    return md, lambda ident: md.tables[f"{ident.table_schema}.{ident.table_name}"]


def uses_chance(x) -> bool:
    return '"random"' in x.model_dump_json(by_alias=True) or '"limit":' in x.model_dump_json(by_alias=True, exclude_none=True)


def has_text(x) -> bool:
    return '"sql"' in x.model_dump_json(by_alias=True)


def top_columns(stmt):
    return stmt.columns if hasattr(stmt, "columns") else next((s.columns for s in stmt.statements if s.columns), None)


def equal(a, b, bags):
    out = []
    for r in [*a.rows, *b.rows]:
        x = Sum(B2I(And(o.g, same_row(o.cells, r.cells))) for o in a.rows)
        y = Sum(B2I(And(o.g, same_row(o.cells, r.cells))) for o in b.rows)
        if bags:
            out.append(Implies(r.g, Eq(x, y)))
        else:
            out.append(Implies(r.g, Iff(x > 0, y > 0)))
    return And(*out)


def compare(ctx, stmt, ks=None, swaps=False):
    from subsetter.plan_model import SQLTableQuery

    rels = {}
    for t in SPEC.tabs.values():
        n = (ks or {}).get(t.full, 2)
        rels[t.full] = world.sym_rel(ctx, t, n, lo=-2, hi=5, pk_hi=9)
    text = stmt.model_dump_json(by_alias=True, exclude_none=True)
    simp, _ = guarded(ctx, "simplification succeeds", stmt.simplify)
    ctx.check("simplification leaves its argument alone",
              stmt.model_dump_json(by_alias=True, exclude_none=True) == text, text[:300])
    md, bctx = metadata()
    bags = not top_columns(stmt)
    detail = text[:400]
    if ctx.concrete and not uses_chance(stmt) and not has_text(stmt):
        eng = world.real_engine(SPEC, rels, 0)
        got = []
        with eng.connect() as conn:
            for s in (stmt, simp):
                q, _ = guarded(ctx, "the query can be built", lambda s=s: SQLTableQuery(statement=s).build(bctx))
                got.append(sorted(map(repr, conn.execute(q).fetchall())))
        eng.dispose()
        if not bags:
            got = [sorted(set(g)) for g in got]
        ctx.check("the simplified query selects the same rows", got[0] == got[1], detail)
        return
    draws = {}
    before, _ = guarded(ctx, "the query can be built", lambda: stmt.build(bctx))
    after, _ = guarded(ctx, "the simplified query can be built", lambda: simp.build(bctx))
    a = Shared(ctx, rels, draws).query(before)
    b = Shared(ctx, rels, draws).query(after)
    named = not hasattr(stmt, "statements") or len({repr(s.columns) for s in stmt.statements}) == 1
    ctx.check("the simplified query has the same columns", len(a.cols) == len(b.cols) and
              (not named or a.cols == b.cols), detail)
    prop = equal(a, b, bags)
    if swaps and ctx.feasible(Not(prop)):
        prop = equal(a, Shared(ctx, rels, draws, swap=True).query(after), bags)
    ctx.check("the simplified query selects the same rows", prop, detail, witness=Or(*(r.g for r in a.rows)))


# ------------------------------------------------------------------------------------------------ generators
def M():
    import subsetter.plan_model as m

    return m


def where_clause(d):
    from pydantic import TypeAdapter

    return TypeAdapter(M().SQLWhereClause).validate_python(d)


def statement(d):
    from pydantic import TypeAdapter

    return TypeAdapter(M().SQLStatement).validate_python(d)


def T():
    return {"type": "true"}


def F():
    return {"type": "false"}


class Names:
    def __init__(self):
        self.n = 0

    def p(self):
        self.n += 1
        return {"type": "sql", "sql": PARAMS[self.n - 1]}


def tree(ctx, label, depth, names, kids, leaves):
    kinds = list(leaves) + (["and", "or"] if depth else [])
    kind = ctx.choose(label, kinds)
    if kind == "T":
        return T()
    if kind == "F":
        return F()
    if kind == "P":
        if names.n >= len(PARAMS):
            raise symx.Infeasible()
        return names.p()
    if kind == "R":
        names.r = getattr(names, "r", 0) + 1
        return {"type": "random", "threshold": [0.25, 0.5, 0.75, 0.125, 0.0625][names.r - 1]}
    if kind == "R0":
        return {"type": "random", "threshold": 0}
    if kind == "R1":
        return {"type": "random", "threshold": 1}
    n = ctx.choose(label + " width", range(kids + 1))
    return {"type": kind, "conditions": [tree(ctx, f"{label}.{i}", depth - 1, names, kids, leaves) for i in range(n)]}


def clauses(ctx, depth, kids, leaves):
    names = Names()
    stmt = statement({"type": "select", "from": {"schema": "test", "table": "t"},
                      "where": tree(ctx, "w", depth, names, kids, leaves)})
    compare(ctx, stmt, {"test.u": 0, "test.w": 0, "test.t": 1})


SUB = {"type": "select", "columns": ["a"], "from": {"schema": "test", "table": "u"}}


def sub(**kw):
    return {**SUB, **kw}


LEAVES = {
    "=": {"type": "operator", "operator": "=", "column": "a", "value": 1},
    "<>": {"type": "operator", "operator": "<>", "column": "a", "value": 1},
    "!=": {"type": "operator", "operator": "!=", "column": "a", "value": 1},
    "<": {"type": "operator", "operator": "<", "column": "a", "value": 2},
    ">": {"type": "operator", "operator": ">", "column": "id", "value": 2},
    "like": {"type": "operator", "operator": "like", "column": "g", "value": "a%"},
    "not like": {"type": "operator", "operator": "not like", "column": "g", "value": "a%"},
    "in": {"type": "in", "columns": ["a"], "values": [[1], [2]]},
    "not in": {"type": "in", "columns": ["a"], "values": [[1], [2]], "negated": True},
    "in empty": {"type": "in", "columns": ["a"], "values": []},
    "not in empty": {"type": "in", "columns": ["a"], "values": [], "negated": True},
    "in pair": {"type": "in", "columns": ["a", "b"], "values": [[1, 2], [2, 1]]},
    "not in pair": {"type": "in", "columns": ["a", "b"], "values": [[1, 2]], "negated": True},
    "random": {"type": "random", "threshold": 0.3},
    "random 0": {"type": "random", "threshold": 0},
    "random 1": {"type": "random", "threshold": 1},
    "random -1": {"type": "random", "threshold": -0.5},
    "random 2": {"type": "random", "threshold": 1.5},
    "random near 0": {"type": "random", "threshold": 0.001},
    "random near 1": {"type": "random", "threshold": 0.999},
    "sql": {"type": "sql", "sql": "p1"},
}
P4 = {"type": "sql", "sql": "p4"}
EMPTY_AND = {"type": "and", "conditions": []}
EMPTY_OR = {"type": "or", "conditions": []}
RANDOM0 = {"type": "random", "threshold": 0}
RANDOM1 = {"type": "random", "threshold": 1}
A1 = LEAVES["="]
SUBS = {
    "plain": SUB,
    "true": sub(where=T()),
    "false": sub(where=F()),
    "empty and": sub(where=EMPTY_AND),
    "empty or": sub(where=EMPTY_OR),
    "cond": sub(where={"type": "and", "conditions": [T(), LEAVES["="]]}),
    "never": sub(where={"type": "and", "conditions": [RANDOM0, LEAVES["="]]}),
    "always": sub(where={"type": "or", "conditions": [RANDOM1, LEAVES["="]]}),
    "union": {"type": "union", "statements": [sub(where=LEAVES["="]), sub(where=LEAVES["not in"])]},
    "union true": {"type": "union", "statements": [sub(where=LEAVES["="]), SUB]},
    "union false": {"type": "union", "statements": [sub(where=F()), sub(where=EMPTY_OR)]},
    "union one": {"type": "union", "statements": [sub(where=F()), sub(where=LEAVES["<"])]},
    "union tables": {"type": "union", "statements": [sub(where=LEAVES["<"]), {
        "type": "select", "columns": ["b"], "from": {"schema": "test", "table": "w"}, "where": EMPTY_AND}]},
    "union columns": {"type": "union", "statements": [
        {"type": "select", "columns": ["b"], "from": {"schema": "test", "table": "w"}},
        {"type": "select", "columns": ["a"], "from": {"schema": "test", "table": "w"}}]},
    "limited": sub(limit=1),
    "limited false": sub(limit=1, where=EMPTY_OR),
    "joined": sub(where=EMPTY_AND, joins=[{"right": {"schema": "test", "table": "t", "sampled": True},
                                           "left_columns": ["t_id"], "right_columns": ["id"], "half_unique": False}]),
}
CONTEXTS = {
    "bare": lambda x: x,
    "and one": lambda x: {"type": "and", "conditions": [x]},
    "or one": lambda x: {"type": "or", "conditions": [x]},
    "and true": lambda x: {"type": "and", "conditions": [T(), x]},
    "or false": lambda x: {"type": "or", "conditions": [x, F()]},
    "and": lambda x: {"type": "and", "conditions": [x, P4]},
    "or": lambda x: {"type": "or", "conditions": [P4, x]},
    "and or": lambda x: {"type": "and", "conditions": [{"type": "or", "conditions": [x, A1]}, P4]},
    "or and": lambda x: {"type": "or", "conditions": [P4, {"type": "and", "conditions": [A1, x]}]},
    "twice": lambda x: {"type": "or", "conditions": [{"type": "and", "conditions": [x, P4]}, x]},
}


def leaves(ctx, group):
    if group == "leaf":
        x = LEAVES[ctx.choose("leaf", list(LEAVES))]
        cname = ctx.choose("context", [c for c in CONTEXTS if c != "twice" or x["type"] != "random"])
    else:
        s = ctx.choose("subquery", list(SUBS))
        x = {"type": "in", "columns": ["a"], "values": SUBS[s], "negated": ctx.flag("negated")}
        cname = ctx.choose("context", [c for c in CONTEXTS if c != "twice" or not s.startswith("limited")])
        if s == "limited" and cname == "twice":
            raise symx.Infeasible()
    w = CONTEXTS[cname](x)
    stmt = statement({"type": "select", "from": {"schema": "test", "table": "t"}, "where": w})
    compare(ctx, stmt, {"test.t": 2, "test.u": 2 if group == "sub" else 0, "test.w": 1 if group == "sub" else 0})


JOINS = {
    "none": {},
    "inner": {"joins": [{"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["id"],
                         "right_columns": ["t_id"], "half_unique": True}]},
    "outer": {"joins": [{"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["id"],
                         "right_columns": ["t_id"], "half_unique": True}], "joins_outer": True},
    "exists": {"joins": [{"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["id"],
                          "right_columns": ["t_id"], "half_unique": False}], "joins_outer": True},
    "two": {"joins": [{"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["id"],
                       "right_columns": ["t_id"], "half_unique": True},
                      {"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["a"],
                       "right_columns": ["a"], "half_unique": False}], "joins_outer": True},
    "two inner": {"joins": [{"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["id"],
                             "right_columns": ["t_id"], "half_unique": True},
                            {"right": {"schema": "test", "table": "u", "sampled": True}, "left_columns": ["a"],
                             "right_columns": ["a"], "half_unique": False}], "joins_outer": False},
}


def wheres(n):
    p = {"type": "sql", "sql": PARAMS[n]}
    return {
        "none": None, "true": T(), "false": F(), "cond": p, "empty and": EMPTY_AND, "empty or": EMPTY_OR,
        "and": {"type": "and", "conditions": [p, T()]},
        "never": {"type": "or", "conditions": [RANDOM0]},
        "random": {"type": "random", "threshold": [0.25, 0.5, 0.75][n]},
        "or": {"type": "or", "conditions": [p, {"type": "random", "threshold": [0.3, 0.6, 0.9][n]}]},
    }


def single(ctx):
    w = wheres(0)[ctx.choose("where", list(wheres(0)))]
    d = {"type": "select", "from": {"schema": "test", "table": "t"}, **JOINS[ctx.choose("joins", list(JOINS))]}
    if w is not None:
        d["where"] = w
    cols = ctx.choose("columns", [None, ["id"], ["g", "a"]])
    if cols:
        d["columns"] = cols
    limit = ctx.choose("limit", [None, 0, 1, 2])
    if limit is not None:
        d["limit"] = limit
    if ctx.flag("in union"):
        d = {"type": "union", "statements": [d]}
    compare(ctx, statement(d), {"test.t": 2, "test.u": 2, "test.w": 0})


def unions(ctx, n, kinds, joins, limits, columns):
    out = []
    for i in range(n):
        w = wheres(i)[ctx.choose(f"where {i}", kinds)]
        table = ctx.choose(f"table {i}", ["t", "w"])
        d = {"type": "select", "from": {"schema": "test", "table": table}}
        if w is not None:
            d["where"] = w
        if joins:
            d.update(JOINS[ctx.choose(f"joins {i}", joins)])
        if limits:
            lim = ctx.choose(f"limit {i}", limits)
            if lim is not None:
                d["limit"] = lim
        if columns:
            c = ctx.choose(f"columns {i}", columns)
            if c:
                d["columns"] = c
        out.append(d)
    if columns and len({len(d.get("columns") or [0] * 4) for d in out}) > 1:
        raise symx.Infeasible()
    if columns and any(len(set(k[j] == "g" for k in [d.get("columns") or ["id", "a", "b", "g"] for d in out])) > 1
                       for j in range(len(out[0].get("columns") or [0] * 4))):
        raise symx.Infeasible()  # text and numbers in one column
    compare(ctx, statement({"type": "union", "statements": out}), {"test.t": 2, "test.w": 1, "test.u": 1 if joins else 0})


def sampled(ctx):
    """Statements that only differ in whether they read the sample are not the same table."""
    kinds = ["none", "cond", "false"]
    out = []
    for i in range(2):
        d = {"type": "select", "from": {"schema": "test", "table": "t", "sampled": ctx.flag(f"sampled {i}")}}
        w = wheres(i)[ctx.choose(f"where {i}", kinds)]
        if w is not None:
            d["where"] = w
        out.append(d)
    stmt = statement({"type": "union", "statements": out})
    simp = stmt.simplify()
    md = SPEC.metadata()
    rels = {"test.t": world.sym_rel(ctx, SPEC.tabs["test.t"], 2, lo=-2, hi=5),
            "test.w": world.sym_rel(ctx, SPEC.tabs["test.w"], 2, lo=-2, hi=5)}

    def bctx(ident):  # the sample of t is another table with the same columns
        return md.tables["test.w" if ident.sampled else "test.t"]

    draws = {}
    a = Shared(ctx, rels, draws).query(stmt.build(bctx))
    b = Shared(ctx, rels, draws).query(simp.build(bctx))
    ctx.check("the simplified query selects the same rows", equal(a, b, True), repr(out))


def same_threshold(ctx):
    """Two draws with the same probability stay two draws."""
    k = ctx.choose("form", ["and", "or", "or of and", "union"])
    r = {"type": "random", "threshold": 0.5}
    d = {"type": "select", "from": {"schema": "test", "table": "t"}}
    if k == "union":
        d = {"type": "union", "statements": [{**d, "where": r}, {**d, "where": {"type": "and", "conditions": [r, T()]}}]}
    elif k == "or of and":
        d["where"] = {"type": "or", "conditions": [{"type": "and", "conditions": [r, A1]},
                                                   {"type": "and", "conditions": [r, P4]}]}
    else:
        d["where"] = {"type": k, "conditions": [r, T() if k == "and" else F(), r]}
    compare(ctx, statement(d), {"test.t": 1, "test.u": 0, "test.w": 0}, swaps=True)


def build(tier):
    th = tier == "thorough"
    hs = [
        Harness("clauses/3", clauses, dict(depth=3, kids=2, leaves=["T", "F", "P"]) if th else
                dict(depth=2, kids=2, leaves=["T", "F", "P", "R0", "R1"])),
        Harness("clauses/wide", clauses, dict(depth=1, kids=4 if th else 3, leaves=["T", "F", "P", "R", "R0", "R1"])),
        Harness("clauses/random", clauses, dict(depth=2, kids=2, leaves=["F", "P", "R"])),
        Harness("clauses/deep", clauses, dict(depth=6 if th else 5, kids=1, leaves=["T", "F", "P"])),
        Harness("leaves", leaves, dict(group="leaf")),
        Harness("subqueries", leaves, dict(group="sub")),
        Harness("select", single),
        Harness("union/2", unions, dict(n=2, kinds=list(wheres(0)), joins=None, limits=[None, 1], columns=None)),
        Harness("union/joins", unions, dict(n=2, kinds=["none", "cond", "false", "true"], joins=list(JOINS),
                                            limits=None if not th else [None, 1], columns=None)),
        Harness("union/3", unions, dict(n=3, kinds=["none", "cond", "false", "random"], joins=None, limits=None,
                                        columns=None)),
        Harness("union/columns", unions, dict(n=2, kinds=["none", "cond", "false"], joins=None, limits=None,
                                              columns=[None, ["id"], ["a"], ["g", "a"], ["g", "b"]])),
        Harness("union/3 limits", unions, dict(n=3, kinds=["none", "cond", "false"], joins=None, limits=[None, 1],
                                               columns=None), tiers=("thorough",)),
        Harness("sampled", sampled),
        Harness("same threshold", same_threshold),
    ]
    return Check(PROP, hs,
                 bounds={"rows": "1 or 2 per table, each present or absent, all values and NULLs symbolic",
                         "conditions": "and/or trees up to depth 3 (thorough; 2 in quick) with up to 2 children, depth 1 "
                                       "with 4, chains up to 6; opaque conditions take any of true/false/NULL per row; "
                                       "random conditions any outcome per row",
                         "leaves": list(LEAVES), "subqueries": list(SUBS), "joins": list(JOINS),
                         "unions": "2 or 3 statements, with limits, joins, columns"},
                 assumptions=["rows of a table are distinct",
                              "unions of column lists are compared as sets of rows",
                              "a random condition is a function of the row and of its place in the query"],
                 outside=["larger trees", "raw SQL queries (never simplified)"])
