"""C28: sampling streams rows, however large the tables are."""
from __future__ import annotations

import builtins
import contextlib
import io
import os
from unittest import mock

import sqlalchemy as sa

from lib import sampling, symx, world
from lib.runner import Check, Harness
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C28"
ALL = {"all": True}
SPEC = Spec(Tab("test.users", "id", "s?"), Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"]), Tab("test.kinds", "id", "s?"))
TABLES = list(SPEC.tabs)
CONSTANTS = ("SOURCE_BUFFER_SIZE", "DESTINATION_BUFFER_SIZE")
SAMPLERS = {
    "plain": {}, "compact": {"compact": {"primary_keys": True}}, "multiplied": {"multiplicity": {"multiplier": 3}},
    "filtered": {"filters": {t: [{"op": "null", "columns": ["s"]}] for t in TABLES}},
    "compact and multiplied": {"compact": {"primary_keys": True}, "multiplicity": {"multiplier": 2}},
}
PLANNERS = {
    "forwards": {"targets": {"test.users": ALL}, "passthrough": ["test.kinds"]},
    "backwards": {"targets": {"test.orders": ALL, "test.kinds": ALL}},
    "materialised": {"targets": {"test.orders": {"percent": 100}, "test.users": ALL}, "passthrough": ["test.kinds"]},
}
OUTPUTS = {"error": {}, "skip": {"conflict_strategy": "skip"}, "replace": {"conflict_strategy": "replace"}, "merge": {"merge": True}}


class Memory:
    """Counts the rows a run has in its hands: taken from the source and not written yet."""

    def __init__(self, factor, directory):
        self.directory = directory
        self.factor, self.held, self.peak, self.statement, self.whole = factor, 0, 0, 0, 0
        self.read = self.written = 0

    def take(self, n=1):
        self.read += n
        self.held += n * self.factor
        self.peak = max(self.peak, self.held)

    def give(self, n=1):
        self.written += n
        self.held = max(0, self.held - n)
        self.statement = max(self.statement, n)

    @contextlib.contextmanager
    def __call__(self):
        mem, C = self, world.SymConnection
        execute, result, options = C.execute, C._result, C.execution_options

        def _options(c, **kw):
            if c.engine.role == "source":
                c.__dict__.setdefault("options_set", {}).update(kw)
            return options(c, **kw)

        def _execute(c, stmt, parameters=None, *, execution_options=None):
            opts = dict(getattr(stmt, "_execution_options", None) or {})
            opts.update(c.__dict__.get("options_set", {}))
            opts.update(execution_options or {})
            c.current = opts
            if c.engine.role == "destination" and (isinstance(stmt, sa.sql.dml.Insert) or hasattr(stmt, "conflict_strategy")):
                n = len(parameters) if isinstance(parameters, (list, tuple)) else 1
                mem.give(n)
            return execute(c, stmt, parameters, execution_options=execution_options)

        def _result(c, rel):
            res = result(c, rel)
            if c.engine.role != "source" or len(rel.cols) < 2:
                return res
            per = c.current.get("yield_per")
            streamed = per is not None or c.current.get("stream_results")
            size = per or c.current.get("max_row_buffer", 1000)
            rows = res.iterator

            def taken():
                left = True
                while left:
                    chunk = []
                    while left and (not streamed or len(chunk) < size):
                        try:
                            chunk.append(next(rows))
                        except StopIteration:
                            left = False
                    mem.take(len(chunk))
                    if not streamed:
                        mem.whole = max(mem.whole, len(chunk))
                    yield from chunk
            res.iterator = taken()
            return res

        real_open = builtins.open

        class File:
            def __init__(self, f):
                self.f, self.text = f, ""

            def __getattr__(self, name):
                return getattr(self.f, name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close()
                return False

            def write(self, text):
                n = text.count("\n")
                if n:
                    mem.give(n)
                return self.f.write(text)

            def writelines(self, lines):
                for x in lines:
                    self.write(x)

        def _open(path, mode="r", *a, **k):
            f = real_open(path, mode, *a, **k)
            ours = self.directory and isinstance(path, (str, os.PathLike)) and os.path.abspath(path).startswith(self.directory + os.sep)
            return File(f) if ours and set(mode) & set("wax") else f

        with mock.patch.object(C, "execute", _execute), mock.patch.object(C, "_result", _result), \
                mock.patch.object(C, "execution_options", _options), mock.patch.object(builtins, "open", _open), mock.patch.object(io, "open", _open):
            yield self


@contextlib.contextmanager
def batches(read, write):
    """Small batches. Constants of other names are all given the same size; batches that are not constants stay as they are."""
    from subsetter import sampler

    if all(isinstance(getattr(sampler, c, None), int) for c in CONSTANTS):
        with mock.patch.object(sampler, CONSTANTS[0], read), mock.patch.object(sampler, CONSTANTS[1], write):
            yield read, write
        return
    names = [k for k, v in vars(sampler).items() if type(v) is int and v >= 100]
    with contextlib.ExitStack() as stack:
        for k in names:
            stack.enter_context(mock.patch.object(sampler, k, read))
        yield (read, read) if names else (5000, 5000)


def plan_of(planner, factor):
    conf = {"select": ["test.*"], **PLANNERS[planner]}
    if factor > 1 and "passthrough" in conf:  # their rows are not multiplied, so that their rows would not count the same
        conf["targets"] = {**conf["targets"], **{t: ALL for t in conf.pop("passthrough")}}
    return conf


def streaming(ctx, dialect, outputs, samplers, planners, sizes, rows, directory):
    from subsetter.sampler import Sampler

    name, planner = ctx.choose("sampler", samplers), ctx.choose("planner", planners)
    output = ctx.choose("output", outputs)
    read, write = (ctx.int(f"{x} batch", 1, sizes) for x in ("read", "write"))
    if output == "merge" and "multiplied" in name:
        raise symx.Infeasible()
    factor = SAMPLERS[name].get("multiplicity", {}).get("multiplier", 1)
    # As many rows as the solver likes; their number decides where batches end.
    n = ctx.int("rows", 0, rows)
    count = next(i for i in range(rows + 1) if i == rows or ctx.branch(symx.Eq(n, i)))
    big = ctx.choose("large table", TABLES)
    spec = SPEC
    with batches(read, write) as sized:
        limit = factor * (sized[0] + 1) + sized[1] + 1
        rels = sampling.source_rels(ctx, spec, {big: 0, "*": 1}, full=True)
        rels[big] = world.sym_rel(ctx, spec.tabs[big], 0)
        cols = spec.tabs[big].colnames
        from lib.symsql import Cell, Row

        for i in range(count):
            cells = [Cell(False, i + 1, "int")] + [Cell(False, 1, "int") if c == "user_id" else Cell(False, ctx.int(f"{big}[{i}].{c}", 0, 9, wrap=False), "int") for c in cols[1:]]
            rels[big].rows.append(Row(True, cells))
        for t, rel in rels.items():
            for r in rel.rows:
                for c in rel.cols:
                    if t != big or c == "user_id":
                        ctx.assume(symx.Not(rel.cell(r, c).null) if rel.cell(r, c).null is not False else True)
                        if c == "user_id" or c == "id" and t != big:
                            ctx.assume(symx.Eq(rel.cell(r, c).val, 1))
        if big == "test.users" and not count:
            rels["test.orders"].rows.clear()
        log = world.Log()
        src = SymEngine(SymDB(ctx, spec, rels, dialect), "source", log, "row")
        plan = sampling.run_plan(SymEngine(SymDB(ctx, spec, rels, dialect), "source", world.Log(), "rel"), plan_of(planner, factor))
        detail = f"{name} {output} {count} rows in {big} {dialect}"
        out_dir = world.scratch_dir() if directory else None
        memory = Memory(factor, out_dir)
        dst = None
        if directory:
            cfg = sampling.sampler_config(SAMPLERS[name], {"mode": "directory", "directory": out_dir})
        else:
            dst = SymEngine(SymDB(ctx, spec, {}, dialect), "destination", log, "row")
            cfg = sampling.sampler_config(SAMPLERS[name], world.output_config(dst, **OUTPUTS[output]))
        with memory():
            _, exc = sampling.guarded(ctx, "sampling succeeds", lambda: Sampler(sampling.source_cfg(src), cfg).sample(plan))
        total = sum(len(r.rows) for r in rels.values())
        ctx.witness("large", symx.raw(limit * 2 < memory.read * factor) if type(limit) is not int else sized[0] == 5000 or limit * 2 < memory.read * factor)
        ctx.check("rows are read once", memory.read <= total, f"{detail}: {memory.read} of {total}")
        ctx.check("what is read is written", memory.written >= memory.read * factor, f"{detail}: {memory.written} of {memory.read}")
        ctx.check("rows are read as they are written", symx.raw(limit >= memory.peak), f"{detail}: {memory.peak} rows held")
        ctx.check("results are not fetched as a whole", not memory.whole, f"{detail}: {memory.whole}")
        ctx.check("no statement writes more than a batch", symx.raw(limit >= memory.statement), f"{detail}: {memory.statement}")


def build(tier):
    deep = tier == "thorough"
    ds = ["postgresql", "mysql", "sqlite"]
    sizes = 6 if deep else 3
    hs = []
    for i, (name, planner) in enumerate((s, p) for s in SAMPLERS for p in PLANNERS):
        for d in ds if deep else [ds[i % 3]]:
            hs.append(Harness(f"{name}/{planner}/{d}", streaming, dict(
                dialect=d, outputs=list(OUTPUTS) if deep else [list(OUTPUTS)[(i + i // 4) % (3 if "multiplied" in name else 4)]], samplers=[name], planners=[planner], sizes=sizes,
                rows=12 if deep else 8, directory=False), validate=1))
    hs.append(Harness("directory", streaming, dict(dialect="postgresql", outputs=["error"], samplers=list(SAMPLERS), planners=list(PLANNERS), sizes=sizes,
                                                   rows=12 if deep else 8, directory=True), validate=1))
    return Check(PROP, hs,
                 bounds={"rows": f"0-{12 if deep else 8} in any one of the tables (the number is symbolic), one in the others", "batches": f"read and write batches of 1-{sizes} rows (symbolic)",
                         "samplers": list(SAMPLERS), "planners": list(PLANNERS), "outputs": ["directory", *OUTPUTS],
                         "limit": "copies per row * (read batch + 1) + write batch + 1 rows"},
                 assumptions=["a result is fetched as a whole unless stream_results or yield_per is asked for, and then in pieces of yield_per (max_row_buffer, 1000) rows",
                              "the batch sizes are the constants SOURCE_BUFFER_SIZE and DESTINATION_BUFFER_SIZE, or else all constants of sampler.py that are 100 or more; "
                              "where there are none, it is only checked that results are streamed"],
                 outside=["memory used by the drivers and by SQLAlchemy", "the size of a row", "plans and schemas, which are held as a whole"])
