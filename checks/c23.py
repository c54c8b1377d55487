"""C23: temporary tables are complete, unique and evaluated once."""
from __future__ import annotations

import re
from typing import Dict, List, Set, Tuple

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.symsql import Rel, same_row
from lib.symx import And, B2I, Eq, Implies, Sum
from lib.trace import Claims
from lib.world import Col, Fk, Log, Spec, SymDB, SymEngine, Tab

PROP = "C23"
READS = ("select", "select_text", "insert_select")
LIMITS = {"postgresql": lambda n: n.encode()[:63].decode(errors="ignore"), "mysql": lambda n: n[:64].lower(), "sqlite": str.lower}


class Engine(SymEngine):
    """Remembers the connections that were handed out, and hands out the same one again as a pool would."""

    pooled = False

    def connect(self, **kw):
        made = self.__dict__.setdefault("made", [])
        if self.pooled and made:
            made[-1].closed = False
            return made[-1]
        made.append(super().connect(**kw))
        return made[-1]


def read_by(e) -> Tuple[Set[str], Set[str]]:
    """The source tables and the temporary tables that a statement reads."""
    stmt = e.stmt.select if e.op == "insert_select" else e.stmt
    real, temp = set(), set()
    for t in world._tables_in(stmt) if hasattr(stmt, "get_children") else ():
        if t.name in e.temps:
            temp.add(t.name)
        else:
            real.add(f"{t.schema}.{t.name}")
    return real, temp


def occurrences(sql, schema, name):
    return len(re.findall(rf"(?<![\w.`])`?{re.escape(schema or '')}`?\.`?{re.escape(name)}`?(?![\w.`])", sql))


class Seen:
    """What happened to the temporary tables of one run."""

    def __init__(self, ctx, engine, plan, dialect, detail=""):
        self.ctx, self.engine, self.dialect, self.detail = ctx, engine, dialect, detail
        self.created: List[str] = []
        self.of: Dict[str, str] = {}  # the table whose sample a temporary table holds
        self.copy_of: Dict[str, str] = {}
        self.readers: Dict[str, int] = {}
        self.walk()

    def ck(self, label, ok, detail=""):
        self.ctx.check(label, ok, f"{detail} {self.detail}")

    def walk(self):
        filled, read = set(), set()
        limit = LIMITS[self.dialect]
        names: Dict[str, str] = {}
        log = [e for e in self.engine.log.events if e.role == "source"]
        for e in log:
            if e.op == "create_table":
                name = e.stmt.element.name
                self.ck("no two temporary tables share a name", limit(name) not in names, f"{name} {names.get(limit(name))}")
                names[limit(name)] = name
                self.created.append(name)
            elif e.op == "create_index":
                name = e.stmt.element.name
                self.ck("no two temporary tables share a name", limit(name) not in names or self.dialect == "mysql", f"index {name}")
                if self.dialect != "mysql":
                    names[limit(name)] = name
                self.ck("an index is on a temporary table", e.stmt.element.table.name in self.created, name)
        for e in log:
            e_ = _View(e, set(self.created))
            if e.op not in READS:
                if e.op not in ("create_table", "create_index", "commit", "rollback"):
                    self.ck("nothing else is done on the source", e.op.startswith("text"), f"{e.op} {e.sql}"[:200])
                continue
            real, temp = read_by(e_)
            self.ck("a temporary table is complete before it is read", temp <= filled, f"{sorted(temp - filled)}")
            for t in temp:
                read.add(t)
            if self.dialect == "mysql":
                sql = str(e.stmt.compile(dialect=self.engine.dialect))
                for t in temp:
                    n = occurrences(sql, getattr(e.stmt, "table", None) is not None and e.stmt.table.schema or self._schema(t, log), t)
                    self.ck("no statement reads the same temporary table twice", n <= 1, f"{t} {n} {sql}"[:300])
            for t in real:
                self.readers[t] = self.readers.get(t, 0) + 1
            if e.op == "insert_select":
                name = e.stmt.table.name
                self.ck("a temporary table is filled once", name in self.created and name not in filled | read, name)
                filled.add(name)
                if real:
                    self.ck("a temporary table holds the rows of one table", len(real) == 1, f"{name} {sorted(real)}")
                    self.of[name] = next(iter(real))
                else:
                    self.ck("a temporary table holds the rows of one table", len(temp) == 1, f"{name} {sorted(temp)}")
                    src = next(iter(temp))
                    self.of[name], self.copy_of[name] = self.of[src], src
        self.ck("every temporary table is filled", set(self.created) == filled, f"{set(self.created) ^ filled}")

    def _schema(self, name, log):
        for e in log:
            if e.op == "create_table" and e.stmt.element.name == name:
                return e.stmt.element.schema
        return None

    def content(self, name) -> Rel:
        for c in self.engine.made:
            for (_, n), rel in c.temps.items():
                if n == name:
                    return rel
        raise symx.Inconclusive(f"contents of {name}")


class _View:
    def __init__(self, e, temps):
        self.op, self.stmt, self.temps = e.op, e.stmt, temps


def needed(spec, plan, sampler, edges) -> Set[str]:
    """The tables whose samples others depend on."""
    out = set()
    for t, refs in sampling.plan_refs(plan).items():
        out |= refs
    compact = sampler.get("compact", {})
    compacted = {t: set(c) for t, c in compact.get("columns", {}).items()}
    for t in spec.tabs.values():
        if compact.get("primary_keys") and len(t.pk) == 1 and t.full not in plan.passthrough:
            compacted.setdefault(t.full, set()).add(t.pk[0])
    for t, f in edges:
        if t in plan.queries and f.dst in plan.queries and compacted.get(f.dst, set()) & set(f.dst_cols):
            out.add(f.dst)
    return out


def bags_equal(claims, label, a: Rel, b: Rel, cols, detail):
    """The same rows, counting repeats, in these columns."""
    ai, bi = [a.cols.index(c) for c in cols], [b.cols.index(c) for c in cols]
    both = [(r.g, [r.cells[i] for i in ix]) for rel, ix in ((a, ai), (b, bi)) for r in rel.rows]
    na = len(a.rows)
    for g, cells in both:
        n = [Sum(B2I(And(h, same_row(cells, other))) for h, other in part) for part in (both[:na], both[na:])]
        claims.check(label, Implies(g, Eq(*n)), detail, witness=g)


def go(ctx, spec, planner, sampler, dialect, k, edges, data_edges, detail, full=False):
    rels = sampling.source_rels(ctx, spec, k, data_edges, full=full)
    log = Log()
    engine = Engine(SymDB(ctx, spec, rels, dialect), "source", log, "rel", scenarios.TEXT_PREDS)
    plan = sampling.guarded(ctx, "planning succeeds", lambda: sampling.run_plan(engine, planner))[0]
    plan = ordered(ctx, plan)
    planned = {e for e in log.events}
    ctx.check("planning reads no rows", not any(e.op in READS and e.stmt is not None for e in planned), detail)
    out, _ = sampling.guarded(ctx, "sampling succeeds", lambda: sampling.run_sample_dir(ctx, engine, plan, dict(sampler), spec),
                           allow=lambda e: "Cannot compact column" in str(e) or "must be integral" in str(e))
    return rels, engine, plan, out


def judge(ctx, spec, sampler, dialect, engine, plan, out, edges, detail):
    seen = Seen(ctx, engine, plan, dialect, detail)
    must = needed(spec, plan, sampler, edges)
    originals = {}
    for name, t in seen.of.items():
        if name not in seen.copy_of:
            seen.ck("each table is materialised once", t not in originals, f"{t} {name} {originals.get(t)}")
            originals[t] = name
    for t in sorted(must):
        seen.ck("a table that others depend on is materialised", t in originals, t)
    for t in plan.queries:
        seen.ck("the query of a table is evaluated once", seen.readers.get(t, 0) == 1, f"{t} {seen.readers.get(t, 0)}")
    for t in seen.readers:
        seen.ck("only planned tables are read", t in plan.queries, t)
    ctx.witness("a table is materialised", bool(originals))
    ctx.witness("a temporary table is copied", bool(seen.copy_of) or dialect != "mysql")
    claims = Claims(ctx)
    compact = bool(sampler.get("compact"))
    fk_cols = {t: {c for a, f in edges if a == t for c in f.cols} for t in spec.tabs}
    for name, src in seen.copy_of.items():
        a, b = seen.content(name), seen.content(src)
        claims.check("a copy has the columns of its original", a.cols == b.cols, f"{name} {detail}")
        bags_equal(claims, "a copy has the rows of its original", a, b, a.cols, f"{name} {detail}")
    for t, name in originals.items():
        if t in out:
            temp, got = seen.content(name), out[t]
            cols = [c for c in got.cols if c in temp.cols and not (compact and (c in fk_cols[t] or c in spec.tabs[t].pk or c in sampler["compact"].get("columns", {}).get(t, [])))]
            bags_equal(claims, "the output receives the rows of the temporary table", temp, got, cols, f"{t} {detail}")
    claims.flush()


COMPACT = {"compact": {"primary_keys": True}}


def ordered(ctx, plan):
    """Plans that are read from a file list their tables in any order."""
    order = ctx.choose("order of the plan", ["as planned", "sorted", "reversed"])
    if order == "as planned":
        return plan
    names = sorted(plan.queries) if order == "sorted" else list(plan.queries)[::-1]
    return plan.model_copy(update={"queries": {t: plan.queries[t] for t in names}})


def runs(ctx, scenario, dialect, settings, k):
    s = scenario
    targets = ctx.choose("targets", s.targets)
    sampler = dict(ctx.choose("settings", settings))
    if s.planner.get("infer_foreign_keys"):
        sampler["infer_foreign_keys"] = s.planner["infer_foreign_keys"]
    if "columns" in sampler.get("compact", {}):
        sampler["compact"] = {"columns": {t.full: ["s"] for t in s.spec.tabs.values()}}
    detail = f"{s.name} {targets} {sampler}"
    rels, engine, plan, out = go(ctx, s.spec, dict(s.planner, targets=targets), sampler, dialect, k, s.edges(), s.data_edges(), detail)
    if out is None:
        return
    # Relationships only the planner is told about are not known to the sampler, so they are not renumbered.
    told = [(t.full, f) for t in s.spec.tabs.values() for f in t.fks] + (s.inferred if s.planner.get("infer_foreign_keys") else [])
    judge(ctx, s.spec, sampler, dialect, engine, plan, out, told, detail)


def several(ctx, dialect, parents, k):
    """Many references to one table, from one statement."""
    n = ctx.choose("references", parents)
    nullable = ctx.flag("nullable")
    keys = ctx.choose("key", ["id", "code", "both"])
    users = Tab("test.users", "id", "code", "s?", uniques=["code"])
    cols = [f"u{i}" + ("?" if nullable else "") for i in range(n)]
    fks = [f"u{i}->test.users({'code' if keys == 'code' or keys == 'both' and i % 2 else 'id'})" for i in range(n)]
    spec = Spec(users, Tab("test.orders", "id", *cols, "s?", fks=fks),
                Tab("test.notes", "id", "order_id?", "user_id?", "s?", fks=["order_id->test.orders(id)", "user_id->test.users(id)"]))
    targets = ctx.choose("targets", [{"test.users": {"amount": 1}}, {"test.orders": {"amount": 1}}, {"test.notes": {"percent": 50}},
                                     {"test.users": {"percent": 50}, "test.notes": {"amount": 1}}, {"test.orders": {"all": True}, "test.users": {"in": {"s": [1]}}}])
    sampler = dict(ctx.choose("settings", [{}, COMPACT, {"compact": {"columns": {"test.users": ["id", "code"]}}}, {"compact": {"columns": {"test.users": ["code"], "test.orders": ["id"]}}}]))
    planner = dict(select=["test.*"], targets=targets)
    edges = [(t.full, f) for t in spec.tabs.values() for f in t.fks]
    detail = f"{n} {nullable} {keys} {targets} {sampler}"
    rels, engine, plan, out = go(ctx, spec, planner, sampler, dialect, k, edges, [], detail)
    if out is None:
        return
    judge(ctx, spec, sampler, dialect, engine, plan, out, edges, detail)


def selves(ctx, dialect, k):
    """Tables that refer to themselves, which only renumbering follows."""
    n = ctx.choose("references", [1, 2])
    other = ctx.flag("and to another")
    users = Tab("test.users", "id", "s?", *[f"boss{i}?" for i in range(n)], *(["team_id?"] if other else []),
                fks=[*[f"boss{i}->test.users(id)" for i in range(n)], *(["team_id->test.teams(id)"] if other else [])])
    spec = Spec(Tab("test.teams", "id", "s?", "lead?", fks=["lead->test.teams(id)"]), users,
                Tab("test.orders", "id", "a?", "b?", "s?", fks=["a->test.users(id)", "b->test.users(id)"]))
    targets = ctx.choose("targets", [{"test.users": {"amount": 1}}, {"test.orders": {"percent": 50}}, {"test.teams": {"all": True}, "test.orders": {"all": True}}])
    sampler = dict(ctx.choose("settings", [{}, COMPACT, {"compact": {"columns": {"test.users": ["id"]}}}]))
    planner = dict(select=["test.*"], targets=targets, ignore_fks=[dict(src_table=t, dst_table=t) for t in ("test.users", "test.teams")])
    edges = [(t.full, f) for t in spec.tabs.values() for f in t.fks]
    detail = f"{n} {other} {targets} {sampler}"
    rels, engine, plan, out = go(ctx, spec, planner, sampler, dialect, k, edges, [], detail)
    if out is not None:
        judge(ctx, spec, sampler, dialect, engine, plan, out, edges, detail)


NAMES = ["ab", "a_b", "AB", "a b", "A-b", "_", "anon", "-", "ANON", "ab1", "ab_1", "ab_idx_0", "\u00e9", "\u00c9", "e\u0301", "a.b",
         "x" * 40, "x" * 41 + "y", "x" * 41 + "z", "X" * 39 + "_" + "x" * 5, "\u6570" * 20, "\u6570" * 19 + "\u636e", "\u6570" * 18 + "\u5e93" * 2,
         "\U0001f600", "\u0130", "i", "\u00df", "ss", "1", "\u00b2"]
#: one in every group of names that could be mistaken for each other
CLASSES = [[0, 1, 2, 3, 4, 9, 10, 11, 15], [5, 6, 7, 8, 23], [12, 13, 14], [16, 17, 18, 19], [20, 21, 22], [24, 25, 26, 27, 28, 29]]


def names(ctx, dialect, group, count):
    """Temporary tables of tables with similar names are different tables."""
    picked = []
    group = [NAMES[i] for i in group]
    for i in range(count):
        name = ctx.choose(f"name {i}", group)
        schema = ctx.choose(f"schema {i}", ["test", "two"][:1 + (i > 0)])
        if f"{schema}.{name}" in picked:
            raise symx.Infeasible()
        if any(p.lower() == f"{schema}.{name}".lower() for p in picked) and dialect != "postgresql":
            raise symx.Infeasible()
        picked.append(f"{schema}.{name}")
    if dialect == "postgresql" and any(len(p.split(".", 1)[1].encode()) > 63 for p in picked):
        raise symx.Infeasible()
    tabs = [Tab(p, "id", "s?") for p in picked]
    child = Tab("test.zchild", "id", *[f"r{i}?" for i in range(count)], "s?", fks=[])
    child.fks = [Fk([f"r{i}"], p, ["id"]) for i, p in enumerate(picked)]
    spec = Spec(*tabs, child)
    planner = dict(select=["*"], targets={p: {"all": True} for p in picked})
    again = ctx.flag("again")
    sampler = COMPACT if ctx.flag("compact") else {}
    rels = sampling.source_rels(ctx, spec, 1)
    log = Log()
    engine = Engine(SymDB(ctx, spec, rels, dialect), "source", log, "rel")
    engine.pooled = True
    detail = f"{picked} {sampler}"
    plan = sampling.guarded(ctx, "planning succeeds", lambda: sampling.run_plan(engine, planner))[0]
    ctx.witness("all are materialised", set(picked) <= needed(spec, plan, sampler, []))
    run_again(ctx, engine, plan, sampler, spec, 2 if again else 1)
    Seen(ctx, engine, plan, dialect, detail)


def run_again(ctx, engine, plan, sampler, spec, times):
    """The same sampler, used this often."""
    import shutil

    from subsetter.config_model import DirectoryOutputConfig
    from subsetter.sampler import Sampler

    d = world.scratch_dir()
    try:
        s = Sampler(world.source_config(engine), sampling.sampler_config(sampler, DirectoryOutputConfig(mode="directory", directory=d)))
        for _ in range(times):
            sampling.guarded(ctx, "sampling succeeds", lambda: s.sample(plan))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(tier):
    deep = tier == "thorough"
    hs = []
    settings = [{}, COMPACT, {"compact": {"columns": {}}}, {"compact": {"primary_keys": True, "start_key": 5}}]
    for i, s in enumerate(scenarios.scenarios(tier)):
        for d in ("sqlite", "mysql", "postgresql"):
            if not deep and d != "mysql" and (i + (d == "sqlite")) % 2:
                continue
            hs.append(Harness(f"runs/{s.name}/{d}", runs, dict(scenario=s, dialect=d, settings=settings[:4 if deep else 3], k=2 if deep else 1), validate=1))
    for d in ("mysql", "sqlite", "postgresql"):
        hs.append(Harness(f"several/{d}", several, dict(dialect=d, parents=[1, 2, 3, 4] if deep else [1, 3], k=2 if deep else 1), validate=1))
        hs.append(Harness(f"selves/{d}", selves, dict(dialect=d, k=2 if deep else 1), validate=1))
        for i, g in enumerate(CLASSES):
            hs.append(Harness(f"names/{i}/{d}", names, dict(dialect=d, group=g, count=3 if deep and len(g) < 6 else 2), validate=1))
    return Check(PROP, hs,
                 bounds={"rows": "2 per table (quick: 1)", "references from one statement": "1 to 4", "names": NAMES,
                         "settings": ["none", "every primary key renumbered", "a column other than the key renumbered"]},
                 assumptions=["statements are compared by the tables they read; contents of temporary tables symbolically"],
                 outside=["source tables that have the name of a temporary table", "plans written by hand"])
