"""C26: failures are never silent."""
from __future__ import annotations

import builtins
import contextlib
import io
import os
from unittest import mock

import sqlalchemy as sa

from lib import cli, sampling, symx, world
from lib.runner import Check, Harness
from lib.symsql import same
from lib.symx import And, B2I, Eq, Implies, Not, Sum
from lib.trace import Claims
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C26"
ALL = {"all": True}
KINDS = {
    "connection lost": lambda: sa.exc.OperationalError("lost", None, Exception("server closed the connection")),
    "read only": lambda: sa.exc.OperationalError("ro", None, Exception("The MySQL server is running with the --read-only option so it cannot execute this statement")),
    "constraint": lambda: sa.exc.IntegrityError("no", None, Exception("constraint failed")),
    "data": lambda: sa.exc.DataError("no", None, Exception("value out of range")),
    "other": lambda: RuntimeError("out of memory"),
    "lookup": lambda: KeyError("x"),
    "value": lambda: ValueError("bad value"),
    "operating system": lambda: OSError(28, "No space left on device"),
    "no message": Exception,
    "interrupted": KeyboardInterrupt,
}


class Faults:
    """One of the things that are asked of the databases and of the file system fails."""

    def __init__(self, ctx, place, kind, where):
        self.ctx, self.place, self.kind, self.where = ctx, place, kind, where
        self.n, self.broke = 0, None

    def event(self, role, what):
        if role != self.place or self.broke or (self.where and not what.startswith(self.where)):
            return
        self.n += 1
        if self.ctx.branch(Eq(self.at, self.n)):
            self.broke = f"{what} (number {self.n})"
            raise KINDS[self.kind]()

    @contextlib.contextmanager
    def __call__(self):
        self.at = self.ctx.int("fails at", 1, 400)
        ev, C, E = self.event, world.SymConnection, world.SymEngine
        execute, commit, connect, result, reflect = C.execute, C.commit, E.connect, C._result, sa.MetaData.reflect

        def _execute(c, stmt, *a, **k):
            ev(c.engine.role, f"statement {type(stmt).__name__}")
            return execute(c, stmt, *a, **k)

        def _commit(c):
            ev(c.engine.role, "commit")
            return commit(c)

        def _connect(e, **kw):
            ev(e.role, "connect")
            return connect(e, **kw)

        def _result(c, rel):
            res = result(c, rel)
            rows = res.iterator

            def fetched():
                for r in rows:
                    ev(c.engine.role, "fetch")
                    yield r
                ev(c.engine.role, "fetch the end")
            res.iterator = fetched()
            return res

        def _reflect(md, bind, *a, **k):
            ev(bind.role, "reflect")
            return reflect(md, bind, *a, **k)

        real_open = builtins.open

        class File:
            def __init__(self, f):
                self.f = f

            def __getattr__(self, name):
                return getattr(self.f, name)

            def __enter__(self):
                return self

            def write(self, text):
                ev("files", "write")
                return self.f.write(text)

            def __exit__(self, t, *a):
                self.f.close()
                if t is None:
                    ev("files", "close")
                return False

            def close(self):
                self.f.close()
                ev("files", "close")

        def _open(path, mode="r", *a, **k):
            if not isinstance(path, (str, os.PathLike)) or not set(mode) & set("wax+"):
                return real_open(path, mode, *a, **k)
            if not os.path.abspath(path).startswith(os.getcwd() + os.sep):
                return real_open(path, mode, *a, **k)
            ev("files", "open")
            return File(real_open(path, mode, *a, **k))

        with mock.patch.object(C, "execute", _execute), mock.patch.object(C, "commit", _commit), mock.patch.object(E, "connect", _connect), \
                mock.patch.object(C, "_result", _result), mock.patch.object(sa.MetaData, "reflect", _reflect), \
                mock.patch.object(builtins, "open", _open), mock.patch.object(io, "open", _open):
            yield self


USERS, ORDERS = Tab("test.users", "id", "s?"), Tab("test.orders", "id", "user_id?", "s?", fks=["user_id->test.users(id)"])
LAYOUTS = {
    "two": (Spec(USERS, ORDERS), {"targets": {"test.users": ALL}}),
    "backwards": (Spec(USERS, ORDERS, Tab("test.notes", "id", "user_id?", fks=["user_id->test.users(id)"])), {"targets": {"test.orders": ALL, "test.notes": {"in": {"id": [1, 2]}}}}),
    "passthrough": (Spec(USERS, ORDERS, Tab("test.kinds", "id", "s?")), {"targets": {"test.orders": ALL}, "passthrough": ["test.kinds"]}),
}
SAMPLERS = {"plain": {}, "compact": {"compact": {"primary_keys": True}}, "multiplied": {"multiplicity": {"multiplier": 2}}}
OUTPUTS = {"error": {}, "skip": {"conflict_strategy": "skip"}, "merge": {"merge": True}}


def once(ctx, spec, rels, there_rels, planner, sampler, dialect, output, action, flags, faults, verbose=()):
    """One run of the command, in a directory of its own."""
    database = output != "directory"
    sampler = dict(sampler)
    sampler["output"] = dict({"mode": "database", "dialect": "mysql"}, **OUTPUTS[output]) if database else {"mode": "directory", "directory": "out"}
    conf = {"source": {"dialect": "mysql"}, "planner": dict({"select": ["test.*"]}, **planner), "sampler": sampler}
    log = world.Log()

    def engines():
        src = SymEngine(SymDB(ctx, spec, {t: r.copy() for t, r in rels.items()}, dialect), "source", log, "row")
        gone = set(spec.tabs) if "--create" in flags else ()
        there = Spec(*(t for t in spec.tabs.values() if t.full not in gone))
        there.extra_schemas = sorted({t.split(".")[0] for t in spec.tabs})
        return src, SymEngine(SymDB(ctx, there, {t: r.copy() for t, r in there_rels.items() if t not in gone}, dialect), "destination", log, "row") if database else None

    with cli.directory():
        cli.write("subsetter.yaml", conf)
        os.mkdir("out")
        plan = None
        if action == "sample":
            res = cli.run(["plan", "-o", "plan.yaml"], engines()[0])
            if not res.ok:
                raise AssertionError(res.messages)
        src, dst = engines()
        argv = {"plan": ["plan", "-o", "p.yaml"], "plan to stdout": ["plan"], "sample": ["sample", *flags], "subset": ["subset", *flags]}[action]
        with faults() if faults else contextlib.nullcontext():
            try:
                res = cli.run([*verbose, *argv], src, dst)
            except KeyboardInterrupt:  # ends the process
                res = cli.Outcome()
                res.code, res.messages = 130, ["interrupted"]
            except Exception as exc:  # pylint: disable=broad-except
                if faults is None or not faults.broke:
                    raise
                res = cli.Outcome()  # the interpreter prints it and exits
                res.code, res.messages = 1, [repr(exc)]
        out = None
        if action.startswith("plan"):
            plan = res.stdout
            if action == "plan" and os.path.exists("p.yaml"):
                with open("p.yaml", encoding="utf-8") as f:
                    plan = f.read()
        elif res.ok:
            if database:
                out = {f"{s}.{n}": r for (s, n), r in dst.db.rels.items()}
            else:
                out = world.read_directory("out", {t.full: t.colnames for t in spec.tabs.values()})
    return res, out, plan, log


def runs(ctx, layout, dialect, place, where, actions, outputs, samplers, kinds, flag_sets, verbose):
    spec, planner = LAYOUTS[layout]
    action, output = ctx.choose("action", actions), ctx.choose("output", outputs)
    if action.startswith("plan") and (output != outputs[0] or place == "destination") or place == "destination" and output == "directory":
        raise symx.Infeasible()
    name, flags = ctx.choose("sampler", samplers), ctx.choose("flags", flag_sets)
    if action.startswith("plan") and (name != samplers[0] or flags != flag_sets[0]) or output == "directory" and "--create" in flags:
        raise symx.Infeasible()
    kind = ctx.choose("kind of failure", kinds)
    talk = ctx.choose("verbose", verbose)
    if action == "plan to stdout" and place == "files":
        raise symx.Infeasible()
    # One row per table, with its references: what fails is what varies.
    rels, there = (sampling.source_rels(ctx, spec, 1, full=True, pk_lo=k, pk_hi=k, prefix=p) for k, p in ((1, ""), (50, "destination:")))
    for t in spec.tabs.values():
        for rel in (rels[t.full], there[t.full]):
            for r in rel.rows:
                for c in [fk.cols[0] for fk in t.fks] + (["s"] if "s" in t.colnames else []):
                    ctx.assume(Not(rel.cell(r, c).null))
    detail = f"{layout} {action} {output} {name} {flags} {place} {kind} {talk}"
    args = (ctx, spec, rels, there, planner, SAMPLERS[name], dialect, output, action, flags)
    res0, out0, plan0, _ = once(*args, None)
    ctx.check("the run succeeds", res0.ok, f"{res0.messages} {detail}")
    if not res0.ok:
        return
    faults = Faults(ctx, place, kind, where)
    res, out, plan, _ = once(*args, faults, talk)
    if not faults.broke:
        raise symx.Infeasible()
    detail = f"{faults.broke} {detail}"
    if not res.ok:
        ctx.witness("failed", True)
        ctx.check("a failure is reported", bool(res.messages) or isinstance(res.code, str), detail)
        ctx.check("the status says that the run failed", res.code not in (0, None, False), detail)
        return
    # Only what is not needed for the result may fail without the run failing.
    ctx.witness("went on", True)
    if action.startswith("plan"):
        ctx.check("a run that succeeds wrote the whole plan", plan == plan0, detail)
        return
    claims = Claims(ctx)
    for t in out0:
        a, b = out0[t], out.get(t)
        ctx.check("a run that succeeds wrote every table", b is not None and a.cols == b.cols, f"{t} {detail}")
        for r in [*a.rows, *b.rows]:
            n = [Sum(B2I(And(o.g, *(same(p, q) for p, q in zip(o.cells, r.cells)))) for o in z.rows) for z in (a, b)]
            claims.check("a run that succeeds wrote every row", Implies(r.g, Eq(*n)), f"{t} {detail}", witness=r.g)
    claims.flush()


GOOD = {"source": {"dialect": "mysql"}, "planner": {"select": ["test.*"], "targets": {"test.users": ALL}},
        "sampler": {"output": {"mode": "database", "dialect": "mysql"}}}


def bad_inputs():
    """(what is wrong, command line, configuration, plan)"""
    def conf(**changes):
        return {k: v for k, v in {**GOOD, **changes}.items() if v is not None}

    planner = lambda **kw: conf(planner=dict(GOOD["planner"], **kw))
    sampler = lambda **kw: conf(sampler=dict(GOOD["sampler"], **kw))
    output = lambda **kw: conf(sampler={"output": dict(GOOD["sampler"]["output"], **kw)})
    select = lambda t, **kw: {"queries": {t: {"statement": dict({"type": "select", "from": {"schema": t.split(".")[0], "table": t.split(".")[1]}}, **kw)}}}
    plan, subset, sample = ["plan"], ["subset"], ["sample"]
    return [
        ("no configuration file", plan, None, None), ("no configuration file", subset, None, None), ("no configuration file", sample, None, select("test.users")),
        ("not YAML", plan, "a: [", None), ("not YAML", subset, "a: b: c", None), ("not a mapping", subset, "- 1", None), ("text", plan, "hello", None),
        ("no planner", plan, conf(planner=None), None), ("no planner", subset, conf(planner=None), None),
        ("no targets", plan, conf(planner={"select": ["test.*"]}), None), ("a setting of the wrong type", plan, planner(targets={"test.users": {"percent": "many"}}), None),
        ("a dialect that does not exist", subset, conf(source={"dialect": "oracle"}), None),
        ("a target that does not exist", plan, planner(targets={"test.nothing": ALL}), None), ("a target that does not exist", subset, planner(targets={"test.nothing": ALL}), None),
        ("a target that is ignored", subset, planner(ignore=["test.users"]), None), ("nothing is selected", subset, planner(select=["other.*"]), None),
        ("an ignored table that is needed", subset, planner(targets={"test.orders": ALL}, ignore=["test.users"]), None),
        ("passthrough that depends on others", subset, planner(passthrough=["test.orders"]), None),
        ("a constraint on a column that does not exist", subset, planner(table_constraints={"test.users": [{"column": "nope", "operator": "=", "value": 1}]}), None),
        ("no plan", sample, conf(), None), ("an empty plan", sample, conf(), ""), ("a plan that is not YAML", sample, conf(), "a: ["),
        ("a plan of something else", sample, conf(), {"tables": 1}), ("a plan with an unknown statement", sample, conf(), {"queries": {"test.users": {"statement": {"type": "drop"}}}}),
        ("a plan of a table that does not exist", sample, conf(), select("test.nothing")), ("a plan that uses a column that does not exist", sample, conf(), select("test.users", columns=["nope"])),
        ("a filter on a column that does not exist", subset, sampler(filters={"test.users": [{"op": "null", "columns": ["nope"]}]}), None),
        ("a filter that does not exist", subset, sampler(filters={"test.users": [{"op": "nope", "columns": ["s"]}]}), None),
        ("two tables become one", subset, output(remap=[{"search": r"test\.\w+", "replace": "test.users"}]), None),
        ("a destination table that does not exist", subset, output(remap=[{"search": "users", "replace": "people"}]), None),
        ("a table without a schema", subset, output(remap=[{"search": r"test\.", "replace": ""}]), None),
        ("a directory that does not exist", subset, conf(sampler={"output": {"mode": "directory", "directory": "nowhere"}}), None),
        ("a plan file that cannot be written", ["plan", "-o", "nowhere/p.yaml"], conf(), None),
        ("a foreign key that is compacted", subset, sampler(compact={"columns": {"test.orders": ["user_id"]}}), None),
        ("an unknown conflict strategy", subset, output(conflict_strategy="maybe"), None),
        ("a plan that cannot be read", ["sample", "-p", "out"], conf(), None), ("an unknown action", ["import"], conf(), None), ("an unknown option", ["subset", "--nope"], conf(), None),
        ("no action", [], conf(), None),
    ]


def refusals(ctx, dialect):
    """What cannot be done is refused, and nothing is written."""
    what, argv, conf, plan = ctx.choose("what is wrong", bad_inputs())
    spec = LAYOUTS["two"][0]
    rels = sampling.source_rels(ctx, spec, 1, full=True)
    log = world.Log()
    src = SymEngine(SymDB(ctx, spec, {t: r.copy() for t, r in rels.items()}, dialect), "source", log, "row")
    dst = SymEngine(SymDB(ctx, spec, {}, dialect), "destination", log, "row")
    flags = ctx.choose("flags", [[], ["--truncate"]]) if argv[:1] in (["subset"], ["sample"]) else []
    verbose = ctx.choose("verbose", [[], ["-v"], ["-vv"], ["-vvv"]])
    with cli.directory():
        if conf is not None:
            cli.write("subsetter.yaml", conf)
        if plan is not None:
            cli.write("plan.yaml", plan)
        os.mkdir("out")
        real = "dialect" in what and "exist" in what or what in ("an unknown action", "an unknown option", "no action")
        res = cli.run([*verbose, *argv, *flags], src, dst)
        plans = [f for f in os.listdir(".") if f not in ("subsetter.yaml", "plan.yaml", "out")] + os.listdir("out")
    detail = f"{what} {argv} {flags} {verbose} {res.messages}"[:400]
    ctx.witness("refused", not res.ok)
    ctx.check("what cannot be done is refused", res.code not in (0, None, False), detail)
    ctx.check("a refusal is explained", real or bool(res.messages), detail)
    ctx.check("no plan is printed", not res.stdout.strip(), f"{detail} {res.stdout[:200]}")
    ctx.check("no files are written", not plans, f"{detail} {plans}")
    if what not in ("a plan that uses a column that does not exist",):
        written = [e.op for e in log.events if e.role == "destination" and e.op in ("insert", "delete", "update", "create_table", "drop_table")]
        ctx.check("nothing is written", not written, f"{detail} {written}")


def build(tier):
    deep = tier == "thorough"
    hs = []
    ds = ["postgresql", "mysql", "sqlite"]
    every, main = list(KINDS), ["read only", "connection lost", "other"]
    for i, layout in enumerate(LAYOUTS):
        for j, place in enumerate(("source", "destination", "files")):
            for d in ds if deep else [ds[(i + j) % 3]]:
                hs.append(Harness(f"{layout}/{place}/{d}", runs, dict(
                    layout=layout, dialect=d, place=place, where="", actions=["subset", "sample", "plan", "plan to stdout"] if deep or layout == "two" else ["subset"],
                    outputs=["directory"] if place == "files" else ["error", "directory", "merge"] if deep else ["error", "directory"] if place == "source" else ["error", "merge"],
                    samplers=list(SAMPLERS) if deep else list(SAMPLERS)[:2] if place != "files" else ["plain"], kinds=main if deep else main[(i + j) % 2:][:1] if place != "files" else ["operating system"],
                    flag_sets=[["--truncate"], ["--create"], []] if deep or place == "destination" else [["--truncate"]], verbose=[[]]), validate=1))
    for place, where, d in (("source", "", "mysql"), ("destination", "", "postgresql"), ("files", "", "sqlite")):
        hs.append(Harness(f"kinds/{place}", runs, dict(
            layout="two", dialect=d, place=place, where=where, actions=["subset", "plan"], outputs=["directory" if place == "files" else "skip"], samplers=["plain"],
            kinds=every if deep or place != "files" else ["operating system", "value", "interrupted"], flag_sets=[["--truncate"]],
            verbose=[[], ["-vvv"]] if deep or place != "files" else [[]]), validate=1))
    for d in ds if deep else ds[:1]:
        hs.append(Harness(f"refusals/{d}", refusals, dict(dialect=d), validate=1))
    return Check(PROP, hs,
                 bounds={"failures": "any one connection, statement, commit, fetched row or reflection of either database, or opening, writing or closing "
                                     "of a file (its number is symbolic)", "kinds": list(KINDS), "layouts": list(LAYOUTS), "samplers": list(SAMPLERS),
                         "outputs": ["directory", *OUTPUTS], "rows": "1 per table, values other than keys symbolic", "refused": [b[0] for b in bad_inputs()]},
                 assumptions=["what fails once works when tried again", "a result does not end early without an error"],
                 outside=["several failures in one run", "what is left behind by a run that fails (see C15)", "writing to standard output"])
