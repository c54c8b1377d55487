"""Run the real planner and sampler against a symbolic (or, in replay, a real) source database."""
from __future__ import annotations

import os
import shutil
from typing import Any, Callable, Dict, List, Optional, Sequence, Tuple

from lib import symx, world
from lib.symx import And, Eq, Implies, Not, Or, Sum, B2I
from lib.symsql import Cell, Rel, Row, same, same_row
from lib.world import Fk, Log, Spec, SymDB, SymEngine, Tab


class Run:
    def __init__(self):
        self.plan = None
        self.src: Dict[str, Rel] = {}
        self.out: Dict[str, Rel] = {}
        self.log = Log()
        self.engine = None
        self.obligations: List[Tuple[str, Any]] = []
        self.dest = None


def source_rels(ctx, spec: Spec, k, extra=(), full=False, **kw) -> Dict[str, Rel]:
    rels = {}
    for t in spec.tabs.values():
        n = k.get(t.full, k.get("*", 2)) if isinstance(k, dict) else k
        rels[t.full] = world.sym_rel(ctx, t, n, full=full, **kw)
    world.assume_fks(ctx, spec, rels, extra)
    return rels


def make_source(ctx, spec, rels, dialect, mode, log, text_preds=None, force_stub=False):
    if ctx.concrete and dialect == "sqlite" and not force_stub and not ctx.force_stub:
        return world.real_engine(spec, rels, ctx.attempt)
    db = SymDB(ctx, spec, rels, dialect)
    return SymEngine(db, "source", log, mode, text_preds)


def source_cfg(engine):
    return world.source_config(engine)


def sampler_config(sampler: Dict[str, Any], output):
    from subsetter.config_model import SamplerConfig

    sampler = dict(sampler)
    late = sampler.pop("_late", None)
    cfg = SamplerConfig(output=output, **sampler)
    if late is not None:
        late(cfg)
    return cfg


def run_plan(engine, planner: Dict[str, Any]):
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    return Planner(source_cfg(engine), PlannerConfig(**planner)).plan()


def kept_columns(t, sampler) -> List[str]:
    """The columns of a table that no configured filter omits."""
    gone = {c for f in (sampler or {}).get("filters", {}).get(t.full, []) if f.get("op") == "omit" for c in f["columns"]}
    return [c for c in t.colnames if c not in gone]


def run_sample_dir(ctx, engine, plan, sampler, spec, truncate=False, create=False) -> Dict[str, Rel]:
    from subsetter.config_model import DirectoryOutputConfig
    from subsetter.sampler import Sampler

    d = world.scratch_dir()
    try:
        for t in spec.tabs.values():  # left over from an earlier run
            if t.full in plan.queries:
                with open(os.path.join(d, f"{t.full}.json"), "w", encoding="utf-8") as f:
                    f.write('{"left over": "' + "x" * 200 + '"}\n')
        cfg = sampler_config(sampler, DirectoryOutputConfig(mode="directory", directory=d))
        Sampler(source_cfg(engine), cfg).sample(plan, truncate=truncate, create=create)
        out = world.read_directory(d, {t.full: kept_columns(t, sampler) for t in spec.tabs.values()})
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if d in world.SCRATCH:
            world.SCRATCH.remove(d)
    return out


def run_sample_stub_dest(ctx, engine, plan, sampler, spec, log, dialect) -> Dict[str, Rel]:
    """Sample into a stub database (used to see what is written in database mode)."""
    from subsetter.sampler import Sampler

    db = SymDB(ctx, spec, {}, dialect)
    dest = SymEngine(db, "destination", log, "row")
    cfg = sampler_config(sampler, world.output_config(dest))
    Sampler(source_cfg(engine), cfg).sample(plan)
    return {f"{s}.{n}": r for (s, n), r in db.rels.items()}


def simulate(ctx, spec: Spec, k, planner, sampler=None, dialect="sqlite", text_preds=None, extra=(), plan=None,
             transform_plan=None, force_stub=False, full=False, rels=None, **kw) -> Run:
    run = Run()
    run.src = rels if rels is not None else source_rels(ctx, spec, k, extra, full=full, **kw)
    run.engine = make_source(ctx, spec, run.src, dialect, "rel", run.log, text_preds, force_stub)
    run.plan = plan if plan is not None else run_plan(run.engine, planner)
    if transform_plan is not None:
        run.plan = transform_plan(run.plan)
    run.out = run_sample_dir(ctx, run.engine, run.plan, sampler or {}, spec)
    run.obligations = list(getattr(run.engine, "obligations", []))
    if ctx.concrete and hasattr(run.engine, "dispose"):
        run.engine.dispose()
    return run


class Transfer(Run):
    """A run into a destination database (or a directory), row by row."""

    def __init__(self):
        super().__init__()
        self.before: Dict[str, Rel] = {}
        self.error: Optional[Exception] = None


def transfer(ctx, spec: Spec, rels: Dict[str, Rel], planner=None, sampler=None, dialect="sqlite", dest=None,
             dest_rels=None, dest_dialect=None, output=None, plan=None, truncate=False, create=False, directory=False,
             text_preds=None, force_stub=False, source_mode="row", dest_mode="row", on_dest=None, run=None,
             enforce=False, read: Optional[Spec] = None) -> Transfer:
    """Plan and sample into a destination; the symbolic engines hand out one proxy per value."""
    from subsetter.sampler import Sampler

    run = run if run is not None else Transfer()
    run.src = rels
    dest_dialect = dest_dialect or dialect
    real = ctx.concrete and not force_stub and not ctx.force_stub
    if real and dialect == "sqlite":
        run.engine = world.real_engine(spec, rels, ctx.attempt)
    else:
        run.engine = SymEngine(SymDB(ctx, spec, rels, dialect), "source", run.log, source_mode, text_preds)
    run.plan = plan if plan is not None else run_plan(run.engine, planner)
    if directory:
        run.out = run_sample_dir(ctx, run.engine, run.plan, sampler or {}, spec, truncate, create)
        return run
    dspec = dest or spec
    run.before = {t: (r.copy() if hasattr(r, "copy") else r) for t, r in (dest_rels or {}).items()}
    if real and dest_dialect == "sqlite":
        eng = world.real_engine(dspec, dest_rels or {}, ctx.attempt)
        world.log_real(eng, "destination", run.log, enforce)
    else:
        eng = SymEngine(SymDB(ctx, dspec, {t: r.copy() for t, r in (dest_rels or {}).items()}, dest_dialect),
                        "destination", run.log, dest_mode)
        eng.db.enforce = enforce
    run.dest = eng
    if on_dest is not None:
        on_dest(eng)
    cfg = sampler_config(sampler or {}, world.output_config(eng, **(output or {})))
    Sampler(source_cfg(run.engine), cfg).sample(run.plan, truncate=truncate, create=create)
    if isinstance(eng, SymEngine):
        run.out = {f"{s}.{n}": r for (s, n), r in eng.db.rels.items()}
    else:
        run.out = {t.full: world.read_real(eng, t) for t in (read or dspec).tabs.values()}
        eng.dispose()
    if hasattr(run.engine, "dispose"):
        run.engine.dispose()
    return run


def guarded(ctx, label: str, fn: Callable, allow: Callable[[Exception], bool] = lambda e: False):
    """Call code under test; an unexpected exception is a violation. Returns (result, exception)."""
    try:
        return fn(), None
    except Exception as exc:  # pylint: disable=broad-except
        if allow(exc):
            return None, exc
        ctx.fail(label, f"{type(exc).__name__}: {exc}"[:300])
        raise


# ----------------------------------------------------------------------------------------------- oracles
def plan_refs(plan) -> Dict[str, set]:
    """For each planned table the sampled tables its query reads."""
    out = {}
    for table, query in plan.queries.items():
        found = set()

        def ctxfn(ident, found=found):
            raise NotImplementedError

        stack = [query]
        seen = set()
        while stack:
            x = stack.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if hasattr(x, "table_schema") and hasattr(x, "table_name"):
                if x.sampled:
                    found.add(f"{x.table_schema}.{x.table_name}")
            if hasattr(type(x), "model_fields"):
                stack.extend(getattr(x, f) for f in type(x).model_fields)
            elif isinstance(x, (list, tuple)):
                stack.extend(x)
            elif isinstance(x, dict):
                stack.extend(x.values())
        out[table] = found
    return out


def sampling_order(plan) -> List[str]:
    refs = plan_refs(plan)
    order = list(plan.queries)
    pos = {t: i for i, t in enumerate(order)}
    if all(pos.get(d, 10 ** 6) < pos[t] for t in order for d in refs[t]):
        return order
    done: List[str] = []
    rest = sorted(order)
    while rest:
        for t in rest:
            if all(d in done for d in refs[t]):
                done.append(t)
                rest.remove(t)
                break
        else:
            return order
    return done


def count_equal(rel: Rel, cells) -> Any:
    return Sum(B2I(And(r.g, same_row(r.cells, cells))) for r in rel.rows)


def member(rel: Rel, cells) -> Any:
    return Or(*(And(r.g, same_row(r.cells, cells)) for r in rel.rows))


def in_output(run: Run, table: str):
    """[(source row, condition that it is in the output)]"""
    return [(r, And(r.g, member(run.out[table], r.cells))) for r in run.src[table].rows]


def check_subset_no_dups(ctx, run: Run, table: str, label="rows"):
    """Every written row is a source row of the table, and none is written twice."""
    src, out = run.src[table], run.out.get(table)
    if out is None:
        ctx.fail(label, f"{table}: nothing written")
        return
    ctx.check(label + ": written rows are source rows",
              And(*(Implies(o.g, member(src, o.cells)) for o in out.rows)), table,
              witness=Or(*(o.g for o in out.rows)))
    dup = []
    for i, a in enumerate(out.rows):
        for b in out.rows[:i]:
            dup.append(And(a.g, b.g, same_row(a.cells, b.cells)))
    ctx.check(label + ": no row written twice", Not(Or(*dup)), table)


def referenced_by(run: Run, table: str, row: Row, child: str, fk: Fk):
    """some row of child's output refers to this row of table"""
    out = run.out[child]
    return Or(*(And(c.g, world.refers(out, c, fk.cols, run.src[table], row, fk.dst_cols)) for c in out.rows))


def has_sampled_parent(run: Run, table: str, row: Row, fk: Fk):
    out = run.out[fk.dst]
    return Or(*(And(p.g, world.refers(run.src[table], row, fk.cols, out, p, fk.dst_cols)) for p in out.rows))


def fk_closure(ctx, run: Run, edges: Sequence[Tuple[str, Fk]], label="foreign keys of the sample hold"):
    for child, fk in edges:
        if child not in run.out:
            continue
        if fk.dst not in run.out:
            ctx.fail(label, f"{child} {fk}: referenced table not sampled")
            continue
        co, po = run.out[child], run.out[fk.dst]
        some = Or(*(And(r.g, *(Not(co.cell(r, c).null) for c in fk.cols)) for r in co.rows))
        ctx.check(label, And(*(world.fk_holds(co, r, fk, po) for r in co.rows)), f"{child} {fk}", witness=some)
