"""C05: a saved plan samples the same as a direct subset run."""
from __future__ import annotations

import os
import re

import sqlalchemy as sa

from lib import cli, sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.symsql import same
from lib.symx import And, B2I, Eq, Implies, Sum
from lib.trace import Claims
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C05"
ALL = {"all": True}
READING = ("select", "select_text", "insert_select", "create_table", "drop_table", "insert", "delete", "update")


def rendered(engine):
    """The statements given to a stub database, as often as they were, with their parameters."""
    dialect = world.dialect(engine.dialect.name)
    out = []
    for e in engine.log.events:
        if e.op in ("commit", "rollback"):
            continue
        text, params = e.sql, []
        if e.stmt is not None and isinstance(e.stmt, sa.sql.ClauseElement):
            try:
                c = e.stmt.compile(dialect=dialect)
            except sa.exc.CompileError:
                c = None
            if c is not None:
                text = str(c)
                params = sorted((k, type(v).__name__, repr(v)) for k, v in (c.params or {}).items())
        text, name = (re.sub(r"(_sbsttr_[0-9a-zA-Z]+)(_\d+)?((_idx)_\d+)?", r"\1\4", x or "") for x in (text, e.table))
        out.append((e.role, e.op, name, " ".join(text.split()), repr(params)))
    return sorted(out)


def engines(ctx, spec, rels, dialect, mode, database):
    if ctx.concrete and dialect == "sqlite" and not ctx.force_stub:
        src = world.real_engine(spec, rels, ctx.attempt)
        dst = world.real_engine(spec, {}, ctx.attempt) if database else None
        return src, dst, world.Log()
    log = world.Log()
    src = SymEngine(SymDB(ctx, spec, {t: r.copy() for t, r in rels.items()}, dialect), "source", log, mode,
                    scenarios.TEXT_PREDS)
    dst = SymEngine(SymDB(ctx, spec, {}, dialect), "destination", log, "row") if database else None
    return src, dst, log


def contents(spec, plan_tables, dst, sampler):
    if dst is None:
        return world.read_directory("out", {t.full: sampling.kept_columns(t, sampler) for t in spec.tabs.values()})
    if isinstance(dst, SymEngine):
        return {f"{s}.{n}": r for (s, n), r in dst.db.rels.items()}
    out = {t.full: world.read_real(dst, t) for t in spec.tabs.values()}
    dst.dispose()
    return out


def compare(ctx, spec, rels, planner, sampler, dialect, how, rows, flags=(), detail="", may_fail=False):
    """Sample directly, and by way of a plan that is written to a file."""
    database = rows == "database"
    sampler = dict(sampler)
    sampler["output"] = {"mode": "directory", "directory": "out"}
    if database:
        sampler["output"] = {"mode": "database", "dialect": "mysql"}
    conf = {"source": {"dialect": "mysql"}, "planner": planner, "sampler": sampler}
    got, logs = [], []
    refused = []
    for way in ("subset", "plan and sample"):
        with cli.directory():
            cli.write("subsetter.yaml", conf)
            os.mkdir("out")
            src, dst, log = engines(ctx, spec, rels, dialect, "row" if database else "rel", database)
            if way == "subset":
                res = cli.run(["subset", *flags], src, dst)
            else:
                planned = src if not isinstance(src, SymEngine) else engines(ctx, spec, rels, dialect, "rel", False)[0]
                if how == "file":
                    res = cli.run(["plan", "-o", "p.yaml"], planned)
                    if res.ok:
                        res = cli.run(["-c", "subsetter.yaml", "sample", "-p", "p.yaml", *flags], src, dst)
                else:
                    res = cli.run(["plan"], planned)
                    if res.ok and how == "default":
                        cli.write("plan.yaml", res.stdout)
                        res = cli.run(["sample", *flags], src, dst)
                    elif res.ok:
                        res = cli.run(["sample", "--plan", "-", *flags], src, dst, stdin=res.stdout)
            refused.append(res)
            if res.ok:
                got.append(contents(spec, None, dst, sampler))
                logs.append(rendered(src) if isinstance(src, SymEngine) else None)
            if hasattr(src, "dispose"):
                src.dispose()
    a, b = refused
    ctx.check("a saved plan is sampled just when a direct run succeeds", a.ok == b.ok, f"{detail} {a.messages} {b.messages}")
    if not a.ok:
        ctx.check("planning and sampling succeed", may_fail, f"{detail} {a.messages} {b.messages}")
        return
    if logs[0] is not None:
        only = [x for x in logs[0] if x not in logs[1]], [x for x in logs[1] if x not in logs[0]]
        ctx.check("the same queries are run with the same parameters", logs[0] == logs[1],
                  f"{detail} only directly: {only[0][:2]} only from the plan: {only[1][:2]}"[:900])
    ctx.witness("sampled", any(o.rows for o in got[0].values()) or not rows)
    ctx.check("the same tables are sampled", set(got[0]) == set(got[1]), f"{detail} {set(got[0]) ^ set(got[1])}")
    if not rows:
        return
    claims = Claims(ctx)
    for t in got[0]:
        x, y = got[0][t], got[1][t]
        claims.check("the same columns are sampled", x.cols == y.cols, f"{t} {detail}")
        for r in [*x.rows, *y.rows]:
            n = [Sum(B2I(And(o.g, *(same(p, q) for p, q in zip(o.cells, r.cells)))) for o in z.rows) for z in (x, y)]
            claims.check("the same rows are sampled", Implies(r.g, Eq(*n)), f"{t} {detail}", witness=r.g)
    claims.flush()


TEXTS = ["yes", "No", "null", "~", "", "1", "01", "1.0", "1e3", "0x1F", "0o7", "2020-01-01", "2020-01-01 10:00:00", "true",
         "a: b", "# x", "a #b", "- a", "{a}", "[1]", "'q'", '"dq"', "a\nb", "a\n", "\n", "\ttab", " lead", "trail ", "\\n", "a%",
         "_b", "\u00e9\u2603", "\u2028", "a\x85b", "\x07", "\u00a0", "\U0001f600", "=", "<<", "!tag", "&a", "*a", "|", ">", "@x", "`x`", ":", "?", "%",
         "12:30:45", "1_000", ".inf", ".nan", "-", "---", "...", ",", "x" * 3000, "a b " * 400, "\r\n", "a\r", "\ufeff", ":x", "c:d"]
NUMBERS = [0, 1, -1, 2 ** 63, -(10 ** 30), 1.0, 0.1, 1e16, 1e-7, -0.0, 1e300, float("inf"), 7, 1.5]
VALUES = [*TEXTS, *NUMBERS]
PLACES = ["in", "in two", "mixed", "like", "constraint", "list constraint", "sql"]
USERS = Spec(Tab("test.users", "id", "s?", "g:text?"), Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"]))


def literals(ctx, where, dialect, values):
    """Values of every kind keep their value and their type."""
    v = ctx.choose("value", values)
    crit, extra = {}, {}
    if where == "in":
        crit = {"in": {"g": [v]}}
    elif where == "in two":
        crit = {"in": {"g": [v, "x"], "s": [1, v]}}
    elif where == "mixed":
        crit = {"in": {"g": [1, "1", 1.0, v, 2]}}
    elif where == "like":
        crit = {"like": {"g": [v, "a%"]}}
    elif where == "sql":
        crit = {"sql": f"g = {v}"}
    if "constraint" in where:
        value = v if where == "constraint" else [v, "z", 1]
        op = ctx.choose("operator", ["=", "<>", "<", ">", "like", "not like", "!="])
        extra["table_constraints"] = {"test.users": [dict(column="g", operator=op, value=value)]}
        crit = ALL
    if where in ("like", "sql") and not isinstance(v, str):
        raise symx.Infeasible()
    planner = dict(select=["test.*"], targets={"test.users": crit}, **extra)
    rels = {t.full: world.sym_rel(ctx, t, 0, distinct_rows=False) for t in USERS.tabs.values()}
    compare(ctx, USERS, rels, planner, {}, dialect, ctx.choose("how", ["file", "stdout"]), "", detail=f"{where} {v!r}", may_fail=where == "list constraint")


NAMES = ["yes.no", "null.null", "on.1", "1.on", "a.b: c", "a.# d", "x.'q'", "Test.\u00dcsers", "a.y", "a.a*", "1.2", "~.~", "a. b", "a.b.c"]
COLUMNS = ["id", "y", "1", "null", "a: b", "# c", "\u00e9", "'q'", "N", " x "]


def names(ctx, dialect, steps):
    """Names of every kind are read back as they are."""
    name, other = ctx.choose("table", NAMES), ctx.choose("other table", ["test.users", "a.z", "yes.yes"])
    key = ctx.choose("key", COLUMNS)
    col = ctx.choose("column", [COLUMNS[(COLUMNS.index(key) + i) % len(COLUMNS)] for i in steps])
    spec = Spec(Tab(name, world.Col(key, "int", False), world.Col("s", "int", True), pk=key, fks=[]),
                Tab(other, world.Col("oid", "int", False), world.Col(col, "int", True), pk="oid", fks=[]))
    spec.tabs[other].fks = [world.Fk([col], name, [key])]
    target = ctx.choose("target", [name, other])
    through = ctx.choose("passthrough", [[], [name]])
    if through and target == name:
        raise symx.Infeasible()
    planner = dict(select=["*"], targets={target: {"in": {"s" if target == name else col: [1]}}}, passthrough=through)
    rels = {t.full: world.sym_rel(ctx, t, 0, distinct_rows=False) for t in spec.tabs.values()}
    compare(ctx, spec, rels, planner, {"compact": {"primary_keys": True}}, dialect, "file", "", detail=f"{name} {other} {key} {col}")


CRITS = [{"all": True}, {"in": {"s": [1, 2]}}, {"in": {"s": [], "id": [3]}}, {"amount": 1}, {"percent": 50}, {"percent": 0},
         {"percent": 33.3}, {"sql": "s > 3"}, {"sql": "s > 3", "percent": 10, "amount": 2, "in": {"s": [4]}},
         {"all": True, "amount": 2}, {"amount": 0}, {"percent": 100}, {"percent": 120.5}, {"like": {"g": ["a%", "%b"]}}, {}]
CONSTRAINTS = [{}, {"s": (">", 2)}, {"s": ("=", 1), "g": ("like", "a%")}]


def shapes(ctx, dialect, crits):
    """Every kind of query that is planned."""
    spec = Spec(Tab("test.zones", "id", "s?", "g:text?"), Tab("test.users", "id", "zone_id?", "s?", "g:text?", fks=["zone_id->test.zones(id)"]),
                Tab("test.orders", "id", "user_id?", "s?", "g:text?", fks=["user_id->test.users(id)"]),
                Tab("test.notes", "user_id?", "order_id?", "s?", "g:text?", pk="", fks=["user_id->test.users(id)", "order_id->test.orders(id)"]))
    tables = list(spec.tabs)
    targets = {ctx.choose("target", tables[1:]): ctx.choose("criteria", crits)}
    more = ctx.choose("another target", [None, *tables])
    if more in targets:
        raise symx.Infeasible()
    if more:
        targets[more] = ctx.choose("other criteria", crits[::2])
    if "id" in targets.get("test.notes", {}).get("in", {}):
        raise symx.Infeasible()  # it has no such column
    through = ctx.choose("passthrough", [[], ["test.zones"]])
    if through and more == "test.zones":
        raise symx.Infeasible()
    constraint = ctx.choose("constraints", CONSTRAINTS)
    planner = dict(select=["*"], targets=targets, passthrough=through)
    if constraint:
        planner["table_constraints"] = {next(iter(targets)): [dict(column=c, operator=o, value=v) for c, (o, v) in constraint.items()]}
    rels = {t.full: world.sym_rel(ctx, t, 0, distinct_rows=False) for t in spec.tabs.values()}
    compare(ctx, spec, rels, planner, {"multiplicity": {"multiplier": 2}} if through else {}, dialect,
            ctx.choose("how", ["file", "stdout", "default"][:2]), "", detail=f"{planner}",
            may_fail=bool(constraint))


SETTINGS = [{}, {"compact": {"primary_keys": True}}, {"multiplicity": {"multiplier": 2}}]


def rows(ctx, scenario, dialect, database, settings):
    """The rows that are sampled are the same."""
    s = scenario
    fixed = [t for t in s.targets if not any("amount" in c or "percent" in c for c in t.values())]
    targets = ctx.choose("targets", fixed)
    setting = ctx.choose("settings", settings)
    planner = dict(s.planner, targets=targets)
    setting = dict(setting)
    if "multiplicity" in setting and any(t.uniques for t in s.spec.tabs.values()):
        raise symx.Infeasible()
    if planner.get("infer_foreign_keys"):
        setting["infer_foreign_keys"] = planner["infer_foreign_keys"]
    rels = {t.full: world.sym_rel(ctx, t, 2 if len(s.spec.tabs) < 3 and not database else 1, full=database, pk_lo=1, pk_hi=30)
            for t in s.spec.tabs.values()}
    world.assume_fks(ctx, s.spec, rels, s.data_edges())
    flags = ctx.choose("flags", [[], ["--truncate"]]) if database else []
    compare(ctx, s.spec, rels, planner, setting, dialect, "file", "database" if database else "directory", flags,
            detail=f"{s.name} {targets} {setting}", may_fail="compact" in setting and any(
                set(t.pk) & {c for f in t.fks for c in f.cols} for t in s.spec.tabs.values()))


def build(tier):
    deep = tier == "thorough"
    ds = ("sqlite", "mysql", "postgresql")
    hs = []
    for i, where in enumerate(PLACES):
        for d in ds[1:] if deep else ds[1 + i % 2:][:1]:
            hs.append(Harness(f"literals/{where}/{d}", literals, dict(where=where, dialect=d, values=VALUES), validate=1))
    hs.append(Harness("names/postgresql", names, dict(dialect="postgresql", steps=range(1, 9) if deep else [1]), validate=1))
    if deep:
        hs.append(Harness("names/mysql", names, dict(dialect="mysql", steps=[1, 2]), validate=1))
    for d in ds[1:] if deep else ["postgresql"]:
        hs.append(Harness(f"shapes/{d}", shapes, dict(dialect=d, crits=CRITS if deep else [CRITS[i] for i in (0, 1, 3, 6, 8, 9)]), validate=1))
    for i, s in enumerate(scenarios.scenarios(tier)):
        for d in s.dialects:
            for database in (False, True):
                if deep or (database and d == s.dialects[i % len(s.dialects)]) or not database and d == s.dialects[0]:
                    hs.append(Harness(f"rows/{s.name}/{'database' if database else 'directory'}/{d}", rows, dict(
                        scenario=s, dialect=d, database=database, settings=(SETTINGS if deep or not database else SETTINGS[i % 2:])[:None if database else 2]), validate=1))
    return Check(PROP, hs,
                 bounds={"literals": [v if len(str(v)) < 50 else str(v)[:20] + "..." for v in VALUES], "places": PLACES,
                         "names": NAMES, "columns": COLUMNS, "criteria": CRITS, "rows": "1 or 2 per table (rows/*), none otherwise",
                         "ways": ["plan -o and sample -p", "plan to standard output and sample from standard input"]},
                 assumptions=["queries are compared as text with their parameters, in any order"],
                 outside=["rows of targets that are sampled at random (their queries are compared)", "plans edited by hand"])
