"""C01: foreign keys hold in every sample."""
from __future__ import annotations

from lib import scenarios
from lib.runner import Check, Harness
from lib.sampling import fk_closure, guarded, simulate

PROP = "C01"
LABEL = "foreign keys of the sample hold"


def scenario(ctx, sc, dialect):
    targets = ctx.choose("targets", sc.targets)
    planner = dict(sc.planner, targets=targets)
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, sc.spec, sc.k, planner, sc.sampler, dialect, scenarios.TEXT_PREDS, sc.data_edges()))
    fk_closure(ctx, run, sc.edges())


def dag(ctx, n, k):
    spec, names = scenarios.random_dag(ctx, n)
    t1 = ctx.choose("first target", names)
    targets = {t1: ctx.choose("criteria", [scenarios.IN, scenarios.PCT])}
    second = ctx.choose("second target", [None, *[x for x in names if x != t1]])
    if second:
        targets[second] = scenarios.ONE
    edges = [(t.full, f) for t in spec.tabs.values() for f in t.fks]
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, spec, k, dict(select=["test.*"], targets=targets), {}, "sqlite", scenarios.TEXT_PREDS))
    fk_closure(ctx, run, edges)


def build(tier):
    scs = scenarios.scenarios(tier)
    hs = [Harness(f"{sc.name}/{d}", scenario, dict(sc=sc, dialect=d)) for sc in scs for d in sc.dialects]
    hs.append(Harness("dag3", dag, dict(n=3, k=2)))
    if tier == "thorough":
        hs.append(Harness("dag4", dag, dict(n=4, k=2)))
    return Check(PROP, hs,
                 bounds={"rows per table": "2 or 3, each present or absent, all values, NULLs and random draws symbolic",
                         "tables": "named schemas of 2-4 tables; every acyclic graph of 3 (thorough: 4) tables",
                         "schemas": [s.name for s in scs]},
                 assumptions=["the source satisfies its keys and (non-ignored) foreign keys",
                              "the database evaluates the statements as SQL prescribes (lib/symsql.py)"],
                 outside=["more rows or tables", "column types other than integers, short texts and booleans"])
