"""C24: the source database is only read."""
from __future__ import annotations

import contextlib
import re
import shutil
from unittest import mock

import sqlalchemy as sa

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.symsql import Rel, same_row
from lib.symx import And, B2I, Eq, Implies, Sum
from lib.trace import Claims
from lib.world import Log, Spec, SymDB, SymEngine, Tab

PROP = "C24"
ALL = {"all": True}
WRITES = re.compile(r"\b(insert|update|delete|merge|replace|truncate|drop|alter|create|grant|call|do|lock|into|share|vacuum|copy)\b", re.I)


def bare(sql):
    """The statement without names and texts in quotes."""
    return re.sub(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|`(?:[^`]|``)*`", " x ", sql)


def judge(ctx, log, dialect, detail):
    """Everything the source was asked to do."""
    temps = set()
    for e in log.events:
        if e.role != "source":
            continue
        what = f"{e.op} {e.table} {e.sql}"[:200] + f" {detail}"
        key = (e.conn, e.stmt.element.name if e.op == "create_table" else None)
        if e.op in ("select", "select_text"):
            text = e.sql
            if e.stmt is not None and not isinstance(e.stmt, sa.sql.elements.TextClause):
                text = str(e.stmt.compile(dialect=world.dialect(dialect)))
            text = bare(text)
            # "replace" is also a function
            ctx.check("queries only read", re.match(r"\s*\(*(select|with)\b", text, re.I) is not None
                      and not WRITES.search(re.sub(r"\breplace\(", "(", text)), f"{text[:200]} {what}")
        elif e.op == "create_table":
            ctx.check("only temporary tables are created", e.temp and re.match(r"\s*CREATE\s+(GLOBAL\s+|LOCAL\s+)?TEMP(ORARY)?\s+TABLE\b", e.sql, re.I) is not None, what)
            temps.add(key)
        elif e.op == "create_index":
            ctx.check("only temporary tables are indexed", e.temp and (e.conn, e.stmt.element.table.name) in temps, what)
        elif e.op == "insert_select":
            ctx.check("rows are only inserted into temporary tables", e.temp and (e.conn, e.stmt.table.name) in temps, what)
        elif e.op == "drop_table":
            ctx.check("only temporary tables are dropped", bool(e.temp), what)
        elif e.op not in ("commit", "rollback", "text:set", "text:pragma", "text:begin", "text:commit"):
            ctx.check("nothing is changed on the source", bool(e.temp) and e.op in ("insert", "delete", "update"), what)
    ctx.witness("a temporary table is used", bool(temps))


def unchanged(ctx, before, after, detail):
    claims = Claims(ctx)
    for t, a in before.items():
        b = after.get(t)
        ctx.check("source tables are still there", b is not None and list(a.cols) == list(b.cols), f"{t} {detail}")
        if len(a.rows) == len(b.rows) and all(x.g is y.g and all(p is q for p, q in zip(x.cells, y.cells)) for x, y in zip(a.rows, b.rows)):
            claims.check("source rows are unchanged", True, f"{t} {detail}")
            continue
        for r in [*a.rows, *b.rows]:
            n = [Sum(B2I(And(o.g, same_row(r.cells, o.cells))) for o in rel.rows) for rel in (a, b)]
            claims.check("source rows are unchanged", Implies(r.g, Eq(*n)), f"{t} {detail}", witness=r.g)
    claims.flush()


@contextlib.contextmanager
def judged(ctx, log, dialect, detail):
    """A run that asks for something that is not modelled is still judged by what it had done before."""
    try:
        yield
    except symx.Inconclusive:
        judge(ctx, log, dialect, detail)
        raise


class Broken(sa.exc.OperationalError):
    def __init__(self):
        super().__init__("the connection is gone", None, Exception("the connection is gone"))


@contextlib.contextmanager
def breaking(at):
    """The n-th statement given to one of the databases fails."""
    done = {"n": 0, "broke": False}
    if at is None:
        yield done
        return
    role, n = at
    real = world.SymConnection.execute

    def execute(self, *a, **k):
        if self.engine.role == role:
            done["n"] += 1
            if done["n"] == n:
                done["broke"] = True
                raise Broken()
        return real(self, *a, **k)

    with mock.patch.object(world.SymConnection, "execute", execute):
        yield done


USERS, ORDERS = Tab("test.users", "id", "s?"), Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"])
LAYOUTS = {
    "two": Spec(USERS, ORDERS),
    "lookup": Spec(Tab("test.countries", "id", "s?"), Tab("test.users", "id", "country_id?", "s?", fks=["country_id->test.countries(id)"]),
                   Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"])),
    "boss": Spec(Tab("test.users", "id", "boss_id?", "s?"), Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"])),
    "no key": Spec(USERS, Tab("test.orders", "user_id?", "s?", pk="", fks=["user_id->test.users(id)"])),
    "two keys": Spec(USERS, Tab("test.orders", "user_id", "nr", "s?", pk="user_id,nr", fks=["user_id->test.users(id)"])),
}
PLANNERS = {"lookup": {"passthrough": ["test.countries"]}}
SAMPLERS = {
    "plain": {}, "compact": {"compact": {"primary_keys": True}}, "multiplied": {"multiplicity": {"multiplier": 2}},
    "filtered": {"filters": {"test.users": [{"op": "null", "columns": ["s"]}, {"op": "omit", "columns": ["s"]}]}},
    "inferred": {"infer_foreign_keys": "all"}, "compact columns": {"compact": {"columns": {"test.users": ["s"]}}},
}
OUTPUTS = {"plain": {}, "skip": {"conflict_strategy": "skip"}, "replace": {"conflict_strategy": "replace"}, "merge": {"merge": True}}


def renamed(table):
    return table.replace("test.", "out.", 1)


def moved(t: Tab) -> Tab:
    """The table in the schema of the output."""
    fks = [f"{','.join(f.cols)}->{renamed(f.dst)}({','.join(f.dst_cols)})" for f in t.fks]
    return Tab(renamed(t.full), *t.cols, pk=",".join(t.pk), fks=fks)


def runs(ctx, layout, dialect, same, faults, targets, deep):
    """Planning and sampling, into another database or into other tables of the same one, whether it works or not."""
    spec = LAYOUTS[layout]
    name, oname = ctx.choose("sampler", list(SAMPLERS)), ctx.choose("output", ["directory", *OUTPUTS])
    flags = ctx.choose("flags", [{}, {"truncate": True}, {"create": True}, {"truncate": True, "create": True}][::1 if deep and not same else 3])
    target = ctx.choose("targets", targets)
    fault = ctx.choose("fails", faults)
    if oname == "directory" and (same or flags.get("create") or fault and fault[0] == "destination"):
        raise symx.Infeasible()
    if fault and (name not in ("plain", "compact") or flags and len(flags) < 2):
        raise symx.Infeasible()
    detail = f"{layout} {name} {oname} {flags} {target} {fault}"
    rels = sampling.source_rels(ctx, spec, 1, pk_lo=0, full=not deep)
    before = {t: r.copy() for t, r in rels.items()}
    log = Log()
    out_spec = Spec(*(moved(t) for t in spec.tabs.values()))
    missing = set(list(out_spec.tabs)[-1:]) if flags.get("create") else set()
    there = Spec(*(t for t in out_spec.tabs.values() if t.full not in missing))
    out_rels = {t: r for t, r in sampling.source_rels(ctx, there, 1, prefix="out:", pk_lo=0, full=not deep).items()} if flags or oname != "plain" else {
        t: Rel(r.cols, [], r.kinds) for t, r in sampling.source_rels(ctx, there, 1, prefix="out:").items()}
    remap = [{"search": r"^test\.", "replace": "out."}]
    if same:
        db = SymDB(ctx, Spec(*spec.tabs.values(), *there.tabs.values()), {**rels, **out_rels}, dialect)
        src, dst = SymEngine(db, "source", log, "row"), SymEngine(db, "destination", log, "row")
    else:
        src = SymEngine(SymDB(ctx, spec, rels, dialect), "source", log, "row")
        dst = SymEngine(SymDB(ctx, there, out_rels, dialect), "destination", log, "row")
    planner = dict({"select": ["test.*"]}, targets=target, **PLANNERS.get(layout, {}))
    sampler = dict(SAMPLERS[name])
    with breaking(fault) as done, judged(ctx, log, dialect, detail):
        problem = attempt(src, dst, planner, sampler, oname, remap, flags)
    if fault and not done["broke"]:
        raise symx.Infeasible()
    if problem is None:
        ctx.witness("sampled", True)
    else:
        ctx.witness("failed", True)
        if not fault and not expected(problem, name, oname, layout):
            ctx.check("sampling succeeds", False, f"{type(problem).__name__} {problem} {detail}"[:400])
    judge(ctx, log, dialect, detail)
    after = {f"{s}.{n}": r for (s, n), r in src.db.rels.items()}
    if not same:
        ctx.check("no tables are added to the source", set(after) == set(before), f"{set(after) ^ set(before)} {detail}")
    unchanged(ctx, before, {t: after[t] for t in before if t in after}, detail)
    for e in log.of("destination", "insert", "delete", "update", "create_table", "create_index", "alter_table", "drop_table"):
        ctx.check("only tables of the output are written", (e.table or "").startswith("out."), f"{e.op} {e.table} {detail}")


def expected(problem, name, oname, layout):
    """Refusals that are documented, and conflicts with rows that are already in the output."""
    text = f"{type(problem).__name__} {problem}"
    return any(x in text for x in ("IntegrityError", "Cannot compact", "must be", "has no ", "single-column", "not support", "merge", "Passthrough foreign key"))


def attempt(src, dst, planner, sampler, oname, remap, flags):
    from subsetter.config_model import DirectoryOutputConfig, PlannerConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler

    d = world.scratch_dir()
    try:
        plan = Planner(world.source_config(src), PlannerConfig(**planner)).plan()
        if oname == "directory":
            output = DirectoryOutputConfig(mode="directory", directory=d)
        else:
            output = world.output_config(dst, remap=remap, **OUTPUTS[oname])
        Sampler(world.source_config(src), sampling.sampler_config(sampler, output)).sample(plan, **flags)
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    finally:
        shutil.rmtree(d, ignore_errors=True)
        world.SCRATCH.remove(d)
    return None


def shapes(ctx, scenario, dialect, samplers):
    """Everything that is planned for the shared scenarios."""
    s = scenario
    targets = ctx.choose("targets", s.targets)
    sampler = dict(ctx.choose("settings", samplers))
    if s.planner.get("infer_foreign_keys"):
        sampler["infer_foreign_keys"] = s.planner["infer_foreign_keys"]
    detail = f"{s.name} {targets} {sampler}"
    rels = sampling.source_rels(ctx, s.spec, 1, s.data_edges())
    before = {t: r.copy() for t, r in rels.items()}
    log = Log()
    src = SymEngine(SymDB(ctx, s.spec, rels, dialect), "source", log, "rel", scenarios.TEXT_PREDS)
    with judged(ctx, log, dialect, detail):
        problem = attempt(src, None, dict(s.planner, targets=targets), sampler, "directory", [], {"truncate": ctx.flag("truncate")})
    ctx.check("sampling succeeds", problem is None or "Cannot compact" in str(problem), f"{problem} {detail}")
    judge(ctx, log, dialect, detail)
    after = {f"{a}.{b}": r for (a, b), r in src.db.rels.items()}
    ctx.check("no tables are added to the source", set(after) == set(before), f"{set(after) ^ set(before)} {detail}")
    unchanged(ctx, before, {t: after[t] for t in before if t in after}, detail)


TARGETS = [{"test.users": ALL}, {"test.orders": {"amount": 1}}, {"test.users": {"percent": 50}, "test.orders": {"in": {"s": [1]}}}]


def build(tier):
    deep = tier == "thorough"
    hs = []
    broken = [(r, n) for r in ("source", "destination") for n in ((1, 2, 3, 4) if deep else (2, 4))]
    for i, l in enumerate(LAYOUTS):
        for j, d in enumerate(("sqlite", "mysql", "postgresql")):
            for same in (False, True):
                if not deep and (i + j + same) % 3:
                    continue
                hs.append(Harness(f"{'same' if same else 'other'}/{l}/{d}", runs, dict(
                    layout=l, dialect=d, same=same, faults=[None, *broken], targets=TARGETS if deep else TARGETS[i % 2:][:1], deep=deep), validate=1))
    for i, s in enumerate(scenarios.scenarios(tier)):
        for j, d in enumerate(("sqlite", "mysql", "postgresql")):
            if deep or (i + j) % 3 == 0:
                hs.append(Harness(f"shapes/{s.name}/{d}", shapes, dict(scenario=s, dialect=d, samplers=[{}, SAMPLERS["compact"]]), validate=1))
    return Check(PROP, hs,
                 bounds={"rows": "1 per table (thorough: or none)", "layouts": list(LAYOUTS), "samplers": list(SAMPLERS), "outputs": ["directory", *OUTPUTS],
                         "flags": "truncate, create", "failures": [f"statement {n} on the {r}" for r, n in broken]},
                 assumptions=["a temporary table is one created by CREATE TEMPORARY TABLE on the connection that uses it"],
                 outside=["settings that write: session_sqls and raw SQL criteria", "an output that is configured to be the source tables themselves"])
