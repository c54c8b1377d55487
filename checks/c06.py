"""C06: target criteria are intersected as configured."""
from __future__ import annotations

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.sampling import check_subset_no_dups, fk_closure, guarded, in_output, simulate
from lib.symsql import B3, and3, b3_of_cell, cell_of_py, like_match, not3, or3
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum, is_term, z3
from lib.world import Spec, Tab

PROP = "C06"
SPEC = Spec(Tab("test.users", "id", "s?", "n?", "g:text?"))
NOPK = Spec(Tab("test.users", "id", "s?", "n?", "g:text?", pk=""))

CRITERIA = [
    {},
    {"all": True},
    {"in": {"s": [1, 2]}},
    {"in": {"s": [1, 2, 1, 7], "n": [2]}},
    {"in": {"g": ["a", "b%"]}},
    {"in": {"s": []}},
    {"like": {"g": ["a%"]}},
    {"like": {"g": ["a%", "%b"]}},
    {"like": {"g": ["_b"]}, "in": {"s": [1], "n": [2, 3]}},
    {"like": {"g": []}, "in": {"n": [4]}},
    {"sql": "s > 3"},
    {"sql": "s > 3 or n = 2"},
    {"sql": "s > 3 or n = 2", "in": {"n": [1, 2]}, "like": {"g": ["a%"]}},
    {"sql": "s > 3 and n = 2", "in": {"s": [4, 5]}},
    {"all": True, "in": {"s": [1]}, "sql": "n = 2", "percent": 0, "like": {"g": ["b%"]}},
    {"all": True, "amount": 1, "sql": "n = 2"},
    {"amount": 0},
    {"amount": 2},
    {"amount": 1, "in": {"s": [1, 2]}},
    {"amount": 2, "sql": "s > 3 or n = 2", "like": {"g": ["a%"]}},
    {"percent": 0},
    {"percent": 100, "in": {"s": [1]}},
    {"percent": 150},
]
CONSTRAINTS = [
    [],
    [("s", ">", 2)],
    [("s", "<", 2), ("n", "=", 5)],
    [("s", "<>", 2)],
    [("n", "!=", 0), ("g", "like", "a%")],
    [("g", "not like", "%b")],
    [("n", ">", 1), ("n", "<", 3)],
]
OPS = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "=": Eq, "<>": lambda a, b: Not(Eq(a, b)),
       "!=": lambda a, b: Not(Eq(a, b))}


def like3(cell, pattern) -> B3:
    hit = world.POOL.matching(cell.val, lambda t: like_match(t, pattern))
    return B3(And(Not(cell.null), hit), cell.null)


def op3(cell, op, value) -> B3:
    if op == "like":
        return like3(cell, value)
    if op == "not like":
        return not3(like3(cell, value))
    return B3(And(Not(cell.null), OPS[op](cell.val, cell_of_py(value).val)), cell.null)


def sql3(rel, row, sql) -> B3:
    look = lambda k: rel.cell(row, k)
    if " or " in sql:
        return or3(*(scenarios.TEXT_PREDS[p](look, None) for p in sql.split(" or ")))
    return and3(*(scenarios.TEXT_PREDS[p](look, None) for p in sql.split(" and ")))


def satisfied(rel, row, crit, constraints, fraction=None):
    """the row meets the criteria and the constraints"""
    parts = [op3(rel.cell(row, c), o, v) for c, o, v in constraints]
    if not crit.get("all"):
        for col, vals in crit.get("in", {}).items():
            parts.append(or3(*(op3(rel.cell(row, col), "=", v) for v in vals)) if vals else B3(False))
        for col, pats in crit.get("like", {}).items():
            parts.extend(like3(rel.cell(row, col), p) for p in pats)
        if "sql" in crit:
            parts.append(sql3(rel, row, crit["sql"]))
        if crit.get("percent") is not None:
            p = crit["percent"]
            if p <= 0:
                parts.append(B3(False))
            elif p < 100:
                parts.append(B3(fraction < z3.RealVal(repr(p / 100))))
    return and3(*parts).t if parts else True


def conf(constraints):
    return [dict(column=c, operator=o, value=v) for c, o, v in constraints]


def single(ctx, dialect, keyed=True):
    spec = SPEC if keyed else NOPK
    crit = ctx.choose("criteria", CRITERIA)
    constraints = ctx.choose("constraints", CONSTRAINTS)
    planner = dict(select=["test.*"], targets={"test.users": crit})
    if constraints:
        planner["table_constraints"] = {"test.users": conf(constraints)}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, spec, 3, planner, {}, dialect, scenarios.TEXT_PREDS))
    check_subset_no_dups(ctx, run, "test.users")
    src = run.src["test.users"]
    rows = in_output(run, "test.users")
    want = [And(r.g, satisfied(src, r, crit, constraints)) for r, _ in rows]
    amount = None if crit.get("all") else crit.get("amount")
    if amount is None:
        ctx.check("own rows are exactly those that satisfy the criteria",
                  And(*(Iff(w, o) for w, (_, o) in zip(want, rows))), repr(crit), witness=Or(*want))
    else:
        ctx.check("own rows satisfy the criteria", And(*(Implies(o, w) for w, (_, o) in zip(want, rows))), repr(crit))
        got, tot = Sum(B2I(o) for _, o in rows), Sum(B2I(w) for w in want)
        ctx.check("exactly 'amount' rows, or all that match", Or(Eq(got, amount), And(got < amount, Eq(got, tot))),
                  repr(crit), witness=Eq(got, amount))
    for label, p in run.obligations:
        ctx.check(label, p)


FRACTIONS = {
    "sqlite": [lambda d: z3.ToReal(d % 2 ** 53) / 2 ** 53,
               lambda d: z3.ToReal(d + 2 ** 63) / 2 ** 64,
               lambda d: z3.ToReal(d % 2 ** 63) / 2 ** 63,
               lambda d: z3.ToReal(z3.If(d < 0, -d, d)) / 2 ** 63],
    "postgresql": [lambda d: d, lambda d: 1 - d],
    "mysql": [lambda d: d, lambda d: 1 - d],
}


def percent(ctx, dialect):
    """Each row is taken when a random fraction of its own is below the percentage."""
    crit = dict(percent=ctx.choose("percent", [50, 0.1, 99.5, 12.5, 1]))
    crit.update(ctx.choose("more", [{}, {"in": {"s": [1, 2]}}, {"all": True}]))
    planner = dict(select=["test.*"], targets={"test.users": crit})
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, SPEC, 2, planner, {}, dialect, scenarios.TEXT_PREDS, full=True, force_stub="in" in crit))
    src = run.src["test.users"]
    rows = in_output(run, "test.users")
    check_subset_no_dups(ctx, run, "test.users")
    if crit.get("all"):
        ctx.check("'all' overrides the criteria", And(*(o for _, o in rows)))
        return
    draws = ctx.__dict__.get("draws", [])
    if len(draws) != len(rows):
        ctx.fail("one random draw decides about each row", f"{len(draws)} draws for {len(rows)} rows")
    ok = []
    for f in FRACTIONS[dialect]:
        prop = True
        for (r, o), d in zip(rows, draws):
            v = d.val if is_term(d.val) else z3.IntVal(d.val)
            prop = And(prop, Iff(satisfied(src, r, crit, [], f(v)), o))
        ok.append(prop)
    others = [p for p in ok[1:] if not ctx.feasible(Not(p))]
    ctx.check("a row is taken when its random fraction is below the percentage", others[0] if others else ok[0],
              repr(crit), witness=Or(*(o for _, o in rows)))
    if not ctx.concrete:
        ctx.witness("some row is not taken", Not(rows[0][1]))


REL = Spec(Tab("test.users", "id", "s?", "n?", "g:text?"),
           Tab("test.orders", "id", "user_id?", "s?", "n?", "g:text?", fks=["user_id->test.users(id)"]),
           Tab("test.items", "id", "order_id?", "s?", "n?", "g:text?", fks=["order_id->test.orders(id)"]))


def related(ctx, dialect):
    """A constraint is refused exactly where rows that sampled rows depend on could be dropped."""
    targets = ctx.choose("targets", [{"test.users": scenarios.IN}, {"test.orders": scenarios.IN},
                                     {"test.items": {"sql": "s > 3"}},
                                     {"test.users": {"all": True}, "test.orders": scenarios.IN},
                                     {"test.orders": scenarios.IN, "test.items": {"sql": "n = 2"}}])
    table = ctx.choose("constrained table", list(REL.tabs))
    constraints = ctx.choose("constraints", [CONSTRAINTS[1], CONSTRAINTS[5]])
    planner = dict(select=["test.*"], targets=targets)
    base = dict(planner)
    planner["table_constraints"] = {table: conf(constraints)}
    # Which tables depend on it being complete: those sampled before it which have a foreign key to it.
    rels = sampling.source_rels(ctx, REL, 2)
    log = world.Log()
    probe = sampling.run_plan(world.SymEngine(world.SymDB(ctx, REL, rels, dialect), "source", log), base)
    order = sampling.sampling_order(probe)
    needed = any(f.dst == table and c.full in order and order.index(c.full) < order.index(table)
                 for c in REL.tabs.values() for f in c.fks)
    run, exc = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, REL, 2, planner, {}, dialect, scenarios.TEXT_PREDS, rels=rels),
        allow=lambda e: needed and isinstance(e, ValueError))
    ctx.check("a constraint that would drop rows others depend on is refused", not needed or exc is not None,
              f"{targets} {table}")
    if exc is not None:
        ctx.witness("refused")
        return
    ctx.witness("accepted")
    out = run.out[table]
    ctx.check("every sampled row satisfies the constraint",
              And(*(Implies(r.g, satisfied(out, r, {}, constraints)) for r in out.rows)), table,
              witness=Or(*(r.g for r in out.rows)))
    fk_closure(ctx, run, [(t.full, f) for t in REL.tabs.values() for f in t.fks])
    if table in targets:
        src = run.src[table]
        for r, o in in_output(run, table):
            w = And(r.g, satisfied(src, r, targets[table], constraints))
            ctx.check("target: the rows that satisfy criteria and constraint are sampled", Implies(w, o))


def build(tier):
    hs = []
    for d in ["sqlite", "postgresql", "mysql"] if tier == "thorough" else ["sqlite", "mysql"]:
        hs.append(Harness(f"criteria/{d}", single, dict(dialect=d)))
    hs.append(Harness("criteria/keyless", single, dict(dialect="sqlite", keyed=False)))
    for d in ["sqlite", "postgresql", "mysql"]:
        hs.append(Harness(f"percent/{d}", percent, dict(dialect=d), validate=4))
    hs.append(Harness("constraints", related, dict(dialect="sqlite")))
    return Check(PROP, hs,
                 bounds={"rows": "3 (percent, constraints: 2), all values, NULLs and draws symbolic",
                         "criteria": CRITERIA, "constraints": CONSTRAINTS, "percent": "50, 0.1, 99.5, 12.5, 1"},
                 assumptions=["random() is an independent draw per row and call: a fraction in [0,1), on sqlite any "
                              "64-bit integer", "sql criteria are boolean combinations of two comparisons"],
                 outside=["other criteria values", "pattern features beyond % and _", "collations"])
