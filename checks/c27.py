"""C27: each action of the command does what its options say."""
from __future__ import annotations

import os

import yaml

from lib import cli, sampling, symx, world
from lib.runner import Check, Harness
from lib.symsql import same
from lib.symx import And, B2I, Eq, Implies, Sum
from lib.trace import Claims
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C27"
ALL = {"all": True}
SPEC = Spec(Tab("test.users", "id", "s?"), Tab("test.orders", "id", "user_id", "s?", fks=["user_id->test.users(id)"]), Tab("test.kinds", "id", "s?"))
NOTES = Tab("test.notes", "id", "order_id", fks=["order_id->test.orders(id)"])  # not in the source
OTHER = Tab("test.other", "id", "s?")


def select(*tables):
    return {"queries": {t: {"statement": {"type": "select", "from": {"schema": t.split(".")[0], "table": t.split(".")[1]}}} for t in tables}}


# What is sampled: by the configuration, by the default plan, and by another plan.
PLANS = {"config": ["test.users", "test.orders"], "plan.yaml": ["test.kinds"], "other.yaml": ["test.users"], "-": ["test.orders"]}
ACTIONS = {  # name -> (arguments, plan that is used)
    "subset": (["subset"], "config"), "sample": (["sample"], "plan.yaml"),
    "sample -p": (["sample", "-p", "other.yaml"], "other.yaml"), "sample --plan": (["sample", "--plan", "other.yaml"], "other.yaml"),
    "sample --plan=": (["sample", "--plan=other.yaml"], "other.yaml"), "sample -p -": (["sample", "-p", "-"], "-"),
    "sample the default": (["sample", "-p", "plan.yaml"], "plan.yaml"),
}
FLAGS = [[], ["--truncate"], ["--create"], ["--truncate", "--create"], ["--create", "--truncate"]]
VERBOSE = [[], ["-v"], ["--verbose", "--verbose"], ["-vvv"]]
REFERS = {"test.notes": "test.orders", "test.orders": "test.users"}


def emptied(tables):
    out = set(tables)
    while True:
        more = {a for a, b in REFERS.items() if b in out} - out
        if not more:
            return out
        out |= more


def copies(rel, r):
    return Sum(B2I(And(o.g, *(same(p, q) for p, q in zip(o.cells, r.cells)))) for o in rel.rows)


def config(output="database", dialect="mysql"):
    dialect = {"postgresql": "postgres"}.get(dialect, dialect)
    out = {"mode": "database", "dialect": dialect} if output == "database" else {"mode": "directory", "directory": "out"}
    return {"source": {"dialect": dialect}, "planner": {"select": ["test.users", "test.orders"], "targets": {"test.users": ALL}}, "sampler": {"output": out}}


def files(where="."):
    out = {}
    for base, _, names in os.walk(where):
        for n in names:
            with open(os.path.join(base, n), encoding="utf-8") as f:
                out[os.path.relpath(os.path.join(base, n), where)] = f.read()
    return out


def scenario(ctx, dialect, actions, output, flag_sets, verbose, k, config_names):
    """What is sampled, emptied and created depends on the action and its options only."""
    action, flags = ctx.choose("action", actions), ctx.choose("flags", flag_sets)
    talk, conf_name = ctx.choose("verbose", verbose), ctx.choose("configuration", config_names)
    argv, used = ACTIONS[action]
    tables = PLANS[used]
    database = output == "database"
    gone = set()
    if database:
        gone = {t for t in tables if t in ("test.kinds", "test.orders") and ctx.bool(f"{t} is missing")}
        if "test.orders" in gone:
            gone.add("test.notes")
    rels = sampling.source_rels(ctx, SPEC, k)
    dest = Spec(*(t for t in [*SPEC.tabs.values(), NOTES, OTHER] if t.full not in gone))
    dest.extra_schemas = ["test"]
    before = sampling.source_rels(ctx, dest, 1, full=True, pk_lo=2000, pk_hi=2050, prefix="destination:")
    log = world.Log()
    src = SymEngine(SymDB(ctx, SPEC, {t: r.copy() for t, r in rels.items()}, dialect), "source", log, "row")
    dst = SymEngine(SymDB(ctx, dest, {t: r.copy() for t, r in before.items()}, dialect), "destination", log, "row") if database else None
    with cli.directory():
        cli.write(conf_name or "subsetter.yaml", config(output, dialect))
        if conf_name:
            cli.write("subsetter.yaml", "this: is not read")
        for name in ("plan.yaml", "other.yaml"):
            cli.write(name, select(*PLANS[name]))
        os.mkdir("out")
        old = "old\n" * 50
        for t in SPEC.tabs:
            cli.write(f"out/{t}.json", old)
        had = files()
        args = [*talk, *(["-c", conf_name] if conf_name else []), *argv, *flags]
        res = cli.run(args, src, dst, stdin=yaml.safe_dump(select(*PLANS["-"])))
        have = files()
        detail = f"{args} {output} missing {sorted(gone)} {res.messages}"
        missing = gone - {"test.notes"}
        if missing and "--create" not in flags:
            ctx.witness("refused", not res.ok)
            ctx.check("tables that do not exist are not made without the option", not res.ok, detail)
            ctx.check("nothing is written then", not [e for e in log.events if e.role == "destination" and e.op not in ("select", "commit", "rollback")], detail)
            return
        ctx.check("the run succeeds", res.ok, detail)
        if not res.ok:
            return
        ctx.check("nothing is printed but messages", not res.stdout, detail)
        claims = Claims(ctx)
        if not database:
            changed = {f for f in set(had) | set(have) if had.get(f) != have.get(f)}
            ctx.check("a file is written for each sampled table, and no other", changed == {f"out/{t}.json" for t in tables}, f"{detail} {sorted(changed)}")
            for t in SPEC.tabs:
                if t not in tables:
                    os.unlink(f"out/{t}.json")
            out = world.read_directory("out", {t.full: t.colnames for t in SPEC.tabs.values()})
            want = {t: [rels[t]] for t in tables}
        else:
            ctx.check("no files are written", had == have, detail)
            out = {f"{s}.{n}": r for (s, n), r in dst.db.rels.items()}
            clear = emptied(tables) if "--truncate" in flags else set()
            want = {t: [*([before[t]] if t in before and t not in clear else []), *([rels[t]] if t in tables else [])] for t in {*before, *tables}}
            ctx.check("the tables made are those sampled", {e.table for e in log.events if e.role == "destination" and e.op == "create_table"} == missing, detail)
        ctx.check("no other tables appear or go away", set(out) == set(want), f"{detail} {sorted(set(out) ^ set(want))}")
    for t, parts in want.items():
        rel = out[t]
        for part in parts:
            for r in part.rows:
                claims.check("what was there stays, and what is planned is sampled", Implies(r.g, Eq(copies(rel, r), 1)), f"{t} {detail}", witness=r.g)
        claims.check("nothing else is there", Eq(Sum(B2I(r.g) for r in rel.rows), Sum(B2I(r.g) for p in parts for r in p.rows)), f"{t} {detail}")
    claims.flush()
    ctx.witness("sampled", True)


PLAN_ARGS = {"-o": ["-o", "out.yaml"], "--output": ["--output", "out.yaml"], "--output=": ["--output=out.yaml"], "nothing": []}


def planning(ctx, dialect, output, verbose):
    """Planning writes the plan where it is asked to, and nothing anywhere else."""
    how, talk = ctx.choose("output", list(PLAN_ARGS)), ctx.choose("verbose", verbose)
    targets = {t: ALL for t in ("test.users", "test.orders", "test.kinds") if ctx.bool(f"target {t}")}
    if not targets:
        raise symx.Infeasible()
    there = ctx.choose("the file", ["new", "long", "read before"])
    conf = config(output, dialect)
    conf["planner"] = {"select": ["test.*"], "targets": targets}
    rels = sampling.source_rels(ctx, SPEC, 1)
    plans = []
    for path in (PLAN_ARGS[how], [] if how != "nothing" else PLAN_ARGS["-o"]):
        log = world.Log()
        src = SymEngine(SymDB(ctx, SPEC, {t: r.copy() for t, r in rels.items()}, dialect), "source", log, "rel")
        dst = SymEngine(SymDB(ctx, SPEC, {}, dialect), "destination", log, "row")
        with cli.directory():
            cli.write("subsetter.yaml", conf)
            os.mkdir("out")
            if there == "long":
                cli.write("out.yaml", "# an old plan\n" + "queries: {}\n" * 300)
                cli.write("plan.yaml", "# another\n")
            elif there == "read before":
                cli.write("out.yaml", "")
            had = files()
            res = cli.run([*talk, "plan", *path], src, dst)
            have = files()
        detail = f"{path} {talk} {sorted(targets)} {there} {res.messages}"
        ctx.check("planning succeeds", res.ok, detail)
        if not res.ok:
            return
        ctx.check("planning does not touch the destination", dst.conns == 0 and not [e for e in log.events if e.role == "destination"], detail)
        changed = {f for f in set(had) | set(have) if had.get(f) != have.get(f)}
        if path:
            ctx.check("the plan goes to the file", changed == {"out.yaml"}, f"{detail} {sorted(changed)}")
            ctx.check("nothing is printed", not res.stdout, detail)
            plans.append(have.get("out.yaml", ""))
        else:
            ctx.check("no files are written", not changed, f"{detail} {sorted(changed)}")
            plans.append(res.stdout)
    ctx.check("the plan is the same wherever it goes", plans[0] == plans[1], detail)
    plan = yaml.safe_load(plans[0])
    from subsetter.plan_model import SubsetPlan

    try:
        tables = set(SubsetPlan.model_validate(plan).queries)
    except ValueError as exc:
        ctx.fail("what is written is a plan", f"{detail} {exc}")
        return
    related = set(targets) | ({"test.users", "test.orders"} if {"test.users", "test.orders"} & set(targets) else set())
    ctx.check("the plan covers the selected tables", tables == related, f"{detail} {sorted(tables)}")
    ctx.witness("planned", True)


def build(tier):
    deep = tier == "thorough"
    ds = ["postgresql", "mysql", "sqlite"]
    names = [None, "a.yaml"]
    hs = []
    for i, action in enumerate(ACTIONS):
        for d in ds if deep else [ds[i % 3]]:
            hs.append(Harness(f"{action}/{d}", scenario, dict(
                dialect=d, actions=[action], output="database", flag_sets=FLAGS if deep or i < 2 else FLAGS[:3], verbose=VERBOSE if deep else [VERBOSE[i % 4]] if i > 1 else VERBOSE[::3],
                k=2 if deep and "subset" not in action else 1, config_names=names if deep else [names[i % 2]]), validate=1))
    for d in ds if deep else ds[:1]:
        hs.append(Harness(f"directory/{d}", scenario, dict(dialect=d, actions=list(ACTIONS), output="directory", flag_sets=FLAGS[:3], verbose=[[]], k=1, config_names=[None]), validate=1))
        hs.append(Harness(f"plan/{d}", planning, dict(dialect=d, output="database", verbose=VERBOSE if deep else VERBOSE[::3]), validate=1))
    hs.append(Harness("plan/directory", planning, dict(dialect="postgresql", output="directory", verbose=[[]]), validate=1))
    return Check(PROP, hs,
                 bounds={"actions": {k: v[0] for k, v in ACTIONS.items()}, "flags": [" ".join(f) for f in FLAGS], "plan output": list(PLAN_ARGS),
                         "rows": "1-2 per source table, 1 per destination table, symbolic", "verbosity": [" ".join(v) for v in VERBOSE],
                         "missing destination tables": "any of those sampled"},
                 assumptions=["the command line is parsed by argparse"], outside=["abbreviated options", "what is logged"])
