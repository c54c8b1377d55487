"""C02: every table samples exactly the documented rows."""
from __future__ import annotations

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.sampling import (check_subset_no_dups, guarded, has_sampled_parent, in_output, referenced_by, sampling_order,
                          simulate)
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum

PROP = "C02"


def own_criteria(run, table, row, crit):
    """row satisfies the (deterministic part of the) target criteria"""
    src = run.src[table]
    if crit.get("all"):
        return True
    parts = []
    for col, vals in crit.get("in", {}).items():
        c = src.cell(row, col)
        parts.append(And(Not(c.null), Or(*(Eq(c.val, world.cell_of_py(v).val) for v in vals))))
    if "sql" in crit:
        parts.append(scenarios.TEXT_PREDS[crit["sql"]](lambda k: src.cell(row, k), None).t)
    for col, pats in crit.get("like", {}).items():
        c = src.cell(row, col)
        for p in pats:
            parts.append(And(Not(c.null), world.POOL.matching(c.val, lambda t, p=p: sampling_like(t, p))))
    return And(*parts)


def sampling_like(t, p):
    from lib.symsql import like_match

    return like_match(t, p)


def check_exact(ctx, run, sc_edges, passthrough, targets, planned=None):
    order = sampling_order(run.plan)
    done = []
    for table in [t for t in order if t in passthrough] + [t for t in order if t not in passthrough]:
        check_subset_no_dups(ctx, run, table)
        src = run.src[table]
        rows = in_output(run, table)
        if table in passthrough:
            ctx.check("passthrough table is complete", And(*(Implies(r.g, o) for r, o in rows)), table)
            continue
        fwd = [f for c, f in sc_edges if c == table and f.dst in done and f.dst != table]
        rev = [(c, f) for c, f in sc_edges if f.dst == table and c in done and c != table]
        crit = targets.get(table)
        refd = [And(r.g, Or(*(referenced_by(run, table, r, c, f) for c, f in rev))) for r, _ in rows]
        if crit is None:
            if fwd:
                want = [And(r.g, *(has_sampled_parent(run, table, r, f) for f in fwd)) for r, _ in rows]
            else:
                want = refd
            ctx.check("sampled exactly when related to the rows sampled before",
                      And(*(Iff(w, o) for w, (_, o) in zip(want, rows))), table, witness=Or(*want))
        else:
            own = [And(r.g, own_criteria(run, table, r, crit)) for r, _ in rows]
            lax = crit.get("amount") is not None or crit.get("percent") is not None
            if not lax or crit.get("all"):
                ctx.check("target sampled exactly: criteria or referenced",
                          And(*(Iff(Or(w, x), o) for w, x, (_, o) in zip(own, refd, rows))), table,
                          witness=Or(*own))
            else:
                ctx.check("target: nothing beyond criteria and references",
                          And(*(Implies(o, Or(w, x)) for w, x, (_, o) in zip(own, refd, rows))), table)
                ctx.check("target: referenced rows are sampled",
                          And(*(Implies(x, o) for x, (_, o) in zip(refd, rows))), table)
                n = crit.get("amount")
                if n is not None:
                    extra = Sum(B2I(And(o, Not(x))) for x, (_, o) in zip(refd, rows))
                    ctx.check("amount: at most that many rows of its own", extra <= n, table)
                    if crit.get("percent") is None:
                        tot = Sum(B2I(w) for w in own)
                        got = Sum(B2I(And(o, w)) for w, (_, o) in zip(own, rows))
                        ctx.check("amount: exactly that many, or all that match",
                                  Or(got >= n, Eq(got, tot)), table, witness=Eq(got, n))
        done.append(table)


def scenario(ctx, sc, dialect):
    targets = ctx.choose("targets", sc.targets)
    planner = dict(sc.planner, targets=targets)
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, sc.spec, sc.k, planner, sc.sampler, dialect, scenarios.TEXT_PREDS, sc.data_edges()))
    check_exact(ctx, run, sc.edges(), sc.passthrough, targets)
    for label, p in run.obligations:
        ctx.check(label, p)


def dag(ctx, n, k):
    spec, names = scenarios.random_dag(ctx, n)
    t1 = ctx.choose("first target", names)
    targets = {t1: scenarios.IN}
    second = ctx.choose("second target", [None, *[x for x in names if x != t1]])
    if second:
        targets[second] = scenarios.ALL if ctx.flag("second all") else scenarios.SQL
    edges = [(t.full, f) for t in spec.tabs.values() for f in t.fks]
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, spec, k, dict(select=["test.*"], targets=targets), {}, "sqlite", scenarios.TEXT_PREDS))
    check_exact(ctx, run, edges, set(), targets)


def build(tier):
    hs = []
    for sc in scenarios.scenarios(tier):
        for d in sc.dialects:
            hs.append(Harness(f"{sc.name}/{d}", scenario, dict(sc=sc, dialect=d)))
    hs.append(Harness("dag3", dag, dict(n=3, k=2)))
    if tier == "thorough":
        hs.append(Harness("dag4", dag, dict(n=4, k=2)))
    return Check(PROP, hs,
                 bounds={"rows per table": "2 or 3, each present or absent, all values symbolic",
                         "tables": "up to 4", "schemas": [s.name for s in scenarios.scenarios(tier)]},
                 assumptions=["source data satisfies keys and foreign keys"], outside=["larger tables"])
