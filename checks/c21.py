"""C21: layered configuration files are merged key by key."""
from __future__ import annotations

import contextlib
import os
from unittest import mock

from lib import cli, symx, world
from lib.runner import Check, Harness
from lib.symx import Eq
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C21"
GONE = object()

#: every setting of the documented configuration: what it is, with a value for each file and an empty value
LEAVES = {
    "source.dialect": ["mysql", "postgres", "sqlite"], "source.host": str, "source.port": int, "source.username": str,
    "source.password": str, "source.database": str, "source.isolation_level": ["SERIALIZABLE", "READ COMMITTED", "REPEATABLE READ"],
    "source.session_sqls": [list, str], "source.sqlite_databases.foo": str, "source.ssl.require": bool,
    "source.ssl.client.cert": str, "source.ssl.client.key": str, "source.ssl.server.rootcert": str,
    "source.ssl.server.verify": ["cert", "identity", "none"],
    "planner.select": [list, str], "planner.targets.a.t.amount": int, "planner.targets.a.t.percent": int, "planner.targets.a.t.all": bool,
    "planner.targets.a.t.sql": str, "planner.targets.a.t.in.c": [list, int], "planner.targets.a.t.like.c": [list, str],
    "planner.table_constraints.a.t": [list, lambda n: {"column": f"c{n}", "operator": "=", "value": n}],
    "planner.passthrough": [list, str], "planner.ignore": [list, str],
    "planner.ignore_fks": [list, lambda n: {"src_table": f"a.t{n}", "dst_table": "a.u"}],
    "planner.extra_fks": [list, lambda n: {"src_table": f"a.t{n}", "src_columns": ["x"], "dst_table": "a.u", "dst_columns": ["y"]}],
    "planner.infer_foreign_keys": ["schema", "all", "none"], "planner.include_dependencies": bool,
    "sampler.output.mode": ["database", "directory", "database"], "sampler.output.directory": str, "sampler.output.host": str,
    "sampler.output.dialect": ["mysql", "postgres", "sqlite"],
    "sampler.output.port": int, "sampler.output.remap": [list, lambda n: {"search": f"x{n}", "replace": "y"}],
    "sampler.output.conflict_strategy": ["replace", "skip", "error"], "sampler.output.merge": bool,
    "sampler.output.ssl.require": bool,
    "sampler.filters.a.t": [list, lambda n: {"op": "null", "columns": [f"c{n}"]}],
    "sampler.multiplicity.multiplier": int, "sampler.multiplicity.ignore_tables": [list, str],
    "sampler.multiplicity.extra_columns.a.t": [list, str], "sampler.multiplicity.ignore_primary_key_columns.a.t": [list, str],
    "sampler.infer_foreign_keys": ["schema", "all", "none"], "sampler.compact.primary_keys": bool,
    "sampler.compact.auto_increment_keys": bool, "sampler.compact.columns.a.t": [list, str], "sampler.compact.start_key": int,
}


def keys(path):
    """The keys of a path; names of tables have a dot in them."""
    return [k.replace("/", ".") for k in path.replace("a.t", "a/t").replace("b.u", "b/u").split(".")]


def value(ctx, path, n):
    """What file n sets this to."""
    kind = LEAVES[path]

    def one(k, m):
        if k is str:
            return str(ctx.int(f"{path}#{m}", 0, 9)) if not ctx.concrete else f"v{ctx.int(f'{path}#{m}', 0, 9)}"
        if k is int:
            return m + 2
        if k is bool:
            return m % 2 == 0
        return k(m)

    if isinstance(kind, list) and kind[0] is list:
        return [one(kind[1], n * 10 + i) for i in range(2 - n % 2)]
    if isinstance(kind, list):
        return kind[n % 3]
    return one(kind, n)


def empty(path):
    kind = LEAVES[path]
    if isinstance(kind, list):
        return [] if kind[0] is list else kind[2]
    return {str: "", int: 0, bool: False}[kind]


def put(doc, ks, v):
    for k in ks[:-1]:
        if not isinstance(doc.get(k), dict):
            doc[k] = {}
        doc = doc[k]
    doc[ks[-1]] = v


# ------------------------------------------------------------------------------------------- what is expected
def effective(files):
    """The settings that hold: a setting is that of the last file that says anything about it or about what it is part of."""
    def at(doc, path):
        """('map'|'value'|'blocked'|'silent', value) of this document about this path."""
        for k in path:
            if not isinstance(doc, dict):
                return "blocked", None
            if k not in doc:
                return "silent", None
            doc = doc[k]
        return ("map", None) if isinstance(doc, dict) else ("value", doc)

    files = [f for f in files if f is not None]
    paths = set()

    def collect(doc, path):
        if isinstance(doc, dict):
            for k, v in doc.items():
                paths.add((*path, k))
                collect(v, (*path, k))
    for f in files:
        collect(f, ())

    def final(path):
        for f in reversed(files):
            what, v = at(f, path)
            if what != "silent":
                return what, v
        return "silent", None

    out = {}
    for path in sorted(paths, key=lambda p: (len(p), [str(k) for k in p])):
        if any(final(path[:i])[0] != "map" for i in range(1, len(path))):
            continue
        what, v = final(path)
        if what in ("map", "value"):
            put(out, list(path), {} if what == "map" else v)
    return out


def captured(argv, docs=(), stdin=None):
    """subsetter <argv>: what it is configured with when it starts to plan and sample."""
    import subsetter.planner
    import subsetter.sampler
    from subsetter.plan_model import SubsetPlan

    seen = {}

    def note(cls, name):
        def init(self, *args, **kwargs):
            for a in (*args, *kwargs.values()):
                seen.setdefault(f"{name}:{type(a).__name__}", a)
        return mock.patch.object(cls, "__init__", init)

    with contextlib.ExitStack() as stack:
        stack.enter_context(note(subsetter.planner.Planner, "plan"))
        stack.enter_context(note(subsetter.sampler.Sampler, "sample"))
        stack.enter_context(mock.patch.object(subsetter.planner.Planner, "plan", lambda self, *a, **k: SubsetPlan(queries={})))
        stack.enter_context(mock.patch.object(subsetter.sampler.Sampler, "sample", lambda self, *a, **k: None))
        out = cli.run(argv, stdin=stdin)
    got = {"source": seen.get("plan:DatabaseConfig"), "source again": seen.get("sample:DatabaseConfig"),
           "planner": seen.get("plan:PlannerConfig"), "sampler": seen.get("sample:SamplerConfig")}
    return out, {k: v.model_dump(by_alias=True, exclude_unset=True) if v is not None else None for k, v in got.items()}


def flat(doc, path=()):
    if isinstance(doc, dict):
        out = {path: {}} if path else {}
        for k, v in doc.items():
            out.update(flat(v, (*path, k)))
        return out
    if isinstance(doc, list):
        out = {path: []}
        for i, v in enumerate(doc):
            out.update(flat(v, (*path, i)))
        return out
    return {path: doc}


def compare(ctx, out, got, want, detail):
    from subsetter.config_model import SamplerConfig, SubsetterConfig

    try:
        model = SubsetterConfig.model_validate(want)
    except ValueError:
        model = None
    if model is None or model.planner is None:
        ctx.check("settings that are not valid together are refused", not out.ok and not any(got.values()), detail)
        ctx.witness("refused")
        return
    ctx.check("settings that are valid together are accepted", out.ok, f"{detail} {out.messages}")
    ctx.witness("accepted")
    for section, of in (("source", "source"), ("source again", "source"), ("planner", "planner"), ("sampler", "sampler")):
        part = getattr(model, of)
        a = flat(got[section] if got[section] is not None else {})
        b = flat((part if part is not None else SamplerConfig()).model_dump(by_alias=True, exclude_unset=True))
        ctx.check("the settings are those of the files", set(a) == set(b), f"{section} {sorted(map(str, set(a) ^ set(b)))[:4]} {detail}")
        for p in a:
            x, y = symx.detoken(a[p]), symx.detoken(b[p])
            if isinstance(x, symx.SymInt) and isinstance(y, symx.SymInt):
                ctx.check("a setting has the value of the last file that sets it", Eq(x, y), f"{section} {p} {detail}")
            else:
                ctx.check("a setting has the value of the last file that sets it", type(x) is type(y) and x == y,
                          f"{section} {p} {x!r} {y!r} {detail}")


def run(ctx, files, detail, argv=("subset",)):
    with cli.directory():
        names = []
        for i, f in enumerate(files):
            cli.write(f"c{i}.yaml", f)
            names += ["-c", f"c{i}.yaml"]
        out, got = captured([*names, *argv])
    compare(ctx, out, got, effective(files), detail)


def base(ctx):
    return {"source": {"dialect": "mysql", "host": str(ctx.int("base host", 0, 9))},
            "planner": {"select": ["a.*"], "targets": {"b.u": {"all": True}}},
            "sampler": {"output": {"mode": "directory", "directory": str(ctx.int("base directory", 0, 9))},
                        "multiplicity": {"ignore_tables": ["a.x"]}}}


# ------------------------------------------------------------------------------------------- harnesses
def layers(ctx, paths, count):
    """One setting, and the sections it is in, in every file or not."""
    path = ctx.choose("setting", paths)
    ks = keys(path)
    siblings = [p for p in LEAVES if p != path and p.split(".")[0] == path.split(".")[0]]
    near = max(siblings, key=lambda p: sum(1 for a, b in zip(keys(p), ks) if a == b))
    states = ["absent", "set", "empty", "null", "near", *[f"null {i}" for i in range(1, len(ks))], *[f"empty {i}" for i in range(1, len(ks))]]
    files, said = [base(ctx)], []
    for n in range(count):
        s = ctx.choose(f"file {n}", states)
        said.append(s)
        f = {}
        if s == "set":
            put(f, ks, value(ctx, path, n))
        elif s == "empty":
            put(f, ks, empty(path))
        elif s == "null":
            put(f, ks, None)
        elif s == "near":
            put(f, keys(near), value(ctx, near, n))
        elif s != "absent":
            put(f, ks[:int(s[-1])], None if s.startswith("null") else {})
        files.append(f)
    run(ctx, files, f"{path} {said}")


def pairs(ctx, paths, others):
    """Two settings, each in any of three files."""
    a = ctx.choose("setting", paths)
    b = ctx.choose("other", [p for p in others if p != a])
    files = [base(ctx)]
    for n in range(3):
        f = {}
        for p in (a, b):
            if ctx.flag(f"{p} in {n}"):
                put(f, keys(p), value(ctx, p, n))
        files.append(f)
    if files[1:] == [{}] * 3:
        raise symx.Infeasible()
    run(ctx, files, f"{a} {b} {[sorted(flat(f)) for f in files[1:]]}"[:300])


OPEN = {"planner.targets": lambda n: {"amount": n + 2}, "planner.table_constraints": lambda n: [{"column": f"c{n}", "operator": "=", "value": n}],
        "sampler.filters": lambda n: [{"op": "null", "columns": [f"c{n}"]}], "sampler.compact.columns": lambda n: [f"c{n}"],
        "source.sqlite_databases": lambda n: f"f{n}", "planner.targets.a.t.in": lambda n: [n], "planner.targets.a.t.like": lambda n: [f"l{n}"],
        "sampler.multiplicity.extra_columns": lambda n: [f"c{n}"]}


def maps(ctx, path, count):
    """Entries of a mapping that is open to any key."""
    files, base_ = [], base(ctx)
    for n in range(count):
        f = base_ if n == 0 else {}
        entries = {}
        for k in ("a.t", "b.u", "A.t")[:3 if n < 2 else 2]:
            if ctx.flag(f"{k} in {n}"):
                entries[k] = OPEN[path](n)
        if entries or ctx.flag(f"nothing in {n}"):
            target = f
            for k in keys(path):
                target = target.setdefault(k, {})
            target.update(entries)
        files.append(f)
    run(ctx, files, f"{path} {files}"[:300])


SHARED = """
source: {dialect: mysql, %(s)s}
planner:
  select: ["a.*"]
  targets:
    a.t: &x {amount: 2, in: &in {c: &l [1, 2]}, like: {c: [x]}}
    b.u: *x
    c.v: {<<: *x, percent: 3}
    d.w: {all: true, in: *in}
    e.x: {in: {c: *l, d: *l}}
sampler:
  output: &o {mode: database, dialect: mysql, host: h, ssl: &ssl {require: true, server: {verify: cert}}}
  multiplicity: {multiplier: 2, extra_columns: &m {a.t: [c]}, ignore_primary_key_columns: *m}
  compact: {columns: *m}
"""


def shared(ctx):
    """Sections written once and referred to elsewhere in the same file are separate settings."""
    import yaml

    first = SHARED % {"s": "host: x, ssl: {require: true}"}
    over = {}
    for path, v in (("planner.targets.a.t.amount", 7), ("planner.targets.b/u.percent", 9), ("planner.targets.d/w.in.c", [5]),
                    ("planner.targets.c/v.in.e", [6]), ("sampler.multiplicity.extra_columns.a.t", ["z"]),
                    ("sampler.compact.columns.b/u", ["y"]), ("sampler.output.ssl.require", False)):
        if ctx.flag(path):
            put(over, [k.replace("/", ".") for k in keys(path)], v)
    later = {"planner": {"targets": {"a.t": {"like": {"c": ["second"]}}}}} if ctx.flag("third") else {}
    with cli.directory():
        cli.write("a.yaml", first)
        cli.write("b.yaml", over)
        cli.write("c.yaml", later)
        out, got = captured(["-c", "a.yaml", "-c", "b.yaml", "-c", "c.yaml", "subset"])
    compare(ctx, out, got, effective([yaml.safe_load(first), over, later]), f"{over} {later}")


def ways(ctx):
    """However the files are given."""
    how = ctx.choose("how", ["default", "given", "stdin first", "stdin last", "twice", "again", "absolute", "long", "mixed",
                             "missing", "missing last", "default missing", "extra default", "invalid yaml", "list", "text"])
    a = base(ctx)
    b = {"source": {"host": str(ctx.int("later host", 0, 9)), "username": "\u00e9\u2603"}, "planner": {"targets": {"a.t": {"amount": 5}}}}
    command = ctx.choose("command", [["subset"], ["-v", "subset"], ["plan"], ["sample"], ["subset", "--truncate", "--create"]])
    with cli.directory() as d:
        cli.write("subsetter.yaml", a)
        cli.write("a.yaml", a)
        cli.write("b.yaml", b)
        cli.write("plan.yaml", {"queries": {}})
        with open("b.yaml") as f:
            text = f.read()
        with open("b.yaml", "w", encoding="utf-8") as f:
            f.write(text.replace('"\\xE9\\u2603"', "\u00e9\u2603"))
        stdin, files, ok = None, [a, b], True
        with open("b.yaml", encoding="utf-8") as f:
            text = f.read()
        with open("a.yaml", encoding="utf-8") as f:
            text_a = f.read()
        args = ["-c", "a.yaml", "-c", "b.yaml"]
        if how == "default":
            args, files = [], [a]
        elif how == "stdin first":
            args, stdin = ["-c", "-", "-c", "b.yaml"], text_a
        elif how == "stdin last":
            args, stdin = ["-c", "a.yaml", "-c", "-"], text
        elif how == "twice":
            args, files = ["-c", "a.yaml", "-c", "b.yaml", "-c", "a.yaml"], [a, b, a]
        elif how == "again":
            args, files = ["-c", "a.yaml", "-c", "a.yaml"], [a]
        elif how == "absolute":
            args = ["-c", os.path.join(d, "a.yaml"), "-c", os.path.join(d, "b.yaml")]
        elif how == "long":
            args = ["--config", "a.yaml", "--config=b.yaml"]
        elif how == "mixed":
            args = ["-c", "b.yaml", "--config", "a.yaml"]
            files = [b, a]
        elif how == "missing":
            args, ok = ["-c", "nowhere.yaml", "-c", "a.yaml"], False
        elif how == "missing last":
            args, ok = ["-c", "a.yaml", "-c", "nowhere.yaml"], False
        elif how == "default missing":
            os.unlink(os.path.join(d, "subsetter.yaml"))
            args, ok = [], False
        elif how == "extra default":
            cli.write("subsetter.yaml", {"source": {"port": 99}})
        elif how in ("invalid yaml", "list", "text"):
            cli.write("b.yaml", {"invalid yaml": "a: [", "list": "- a\n", "text": "abc\n"}[how])
            ok = False
        out, got = captured([*args, *command], stdin=stdin)
        made = sorted(os.listdir(d))
    if not ok:
        ctx.check("unreadable configuration is refused", not out.ok and not any(got.values()), f"{how} {command} {out.code}")
        ctx.witness("refused")
        return
    if "sample" in command or "plan" in command:
        ctx.check("both commands read the settings", out.ok, f"{how} {command} {out.messages}")
        want = effective(files)
        name, section = ("source", "planner") if "plan" in command else ("source again", "sampler")
        ctx.check("both commands are given the settings", _same(got[name], want["source"], "source") and _same(got[section], want[section], section),
                  f"{how} {command} {got}")
        ctx.check("the other part does not run", got["planner" if section == "sampler" else "sampler"] is None, f"{how} {command} {made}")
        return
    compare(ctx, out, got, effective(files), f"{how} {command}")


def _same(got, want, section):
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig

    cls = {"source": DatabaseConfig, "planner": PlannerConfig, "sampler": SamplerConfig}[section]
    return got == cls.model_validate(want).model_dump(by_alias=True, exclude_unset=True)


NOTHING = ["", "# nothing here\n", "---\n", "{}\n", "null\n", "---\n...\n", "\n\n"]


def blank(ctx, count):
    """Files that set nothing leave the settings of the others."""
    docs = [base(ctx), {"source": {"port": 5}, "planner": {"targets": {"a.t": {"amount": 5}}}}, {"sampler": {"infer_foreign_keys": "all"}}][:count]
    at = ctx.choose("where", range(count + 1))
    text = ctx.choose("text", NOTHING)
    with cli.directory():
        args = []
        for i, f in enumerate([*docs[:at], text, *docs[at:]]):
            cli.write(f"c{i}.yaml", f)
            args += ["-c", f"c{i}.yaml"]
        out, got = captured([*args, "subset"])
    compare(ctx, out, got, effective(docs), f"{at} {text!r}")


# ------------------------------------------------------------------------------------------- defaults
#: what leaving a setting out is documented to mean
DEFAULTS = {
    "planner.table_constraints": {}, "planner.ignore": [], "planner.passthrough": [], "planner.ignore_fks": [], "planner.extra_fks": [],
    "planner.infer_foreign_keys": "none", "planner.include_dependencies": True,
    "sampler.output": {"mode": "directory", "directory": "output"}, "sampler.filters": {}, "sampler.infer_foreign_keys": "none",
    "sampler.multiplicity": {"multiplier": 1, "ignore_tables": [], "extra_columns": {}, "ignore_primary_key_columns": {}},
    "sampler.compact": {"primary_keys": False, "auto_increment_keys": False, "columns": {}, "start_key": 1},
    "source.session_sqls": [], "source.isolation_level": "READ COMMITTED",
    "source.ssl": {"require": False, "server": {"verify": "none"}}, "source.sqlite_databases": {},
}
OUTPUT_DEFAULTS = {"remap": [], "conflict_strategy": "error", "merge": False, "session_sqls": []}


def _get(doc, path):
    for k in path.split("."):
        doc = doc[k]
    return doc


def defaults(ctx, given):
    """Leaving a setting out is as giving the documented default."""
    path = ctx.choose("setting", given)
    partial = ctx.choose("of it", [None, *DEFAULTS[path]]) if isinstance(DEFAULTS[path], dict) else None
    got = []
    for explicit in (False, True):
        conf = {"source": {"dialect": "mysql"}, "planner": {"select": ["a.*"], "targets": {"a.t": {"all": True}}},
                "sampler": {"infer_foreign_keys": "none"}}
        if ctx.flag(f"no sampler {explicit}") and (not explicit or not path.startswith("sampler")):
            del conf["sampler"]
        if explicit:
            v = DEFAULTS[path]
            put(conf, path.split("."), {partial: v[partial]} if partial and path != "sampler.output" else v)
        with cli.directory():
            cli.write("subsetter.yaml", conf)
            out, _ = captured(["subset"])
        got.append(out.ok)
        with cli.directory():
            cli.write("subsetter.yaml", conf)
            full = _full()
        ctx.check("leaving a setting out gives its documented default",
                  path == "source.isolation_level" and not explicit or _covers(_get(full, path), DEFAULTS[path]),
                  f"{path} {_get(full, path)!r}")
    ctx.check("every setting with a default can be left out or given", all(got), path)


def _full():
    import subsetter.planner
    import subsetter.sampler
    from subsetter.plan_model import SubsetPlan

    seen = {}

    def note(*args, **kwargs):
        for a in (*args, *kwargs.values()):
            if hasattr(a, "model_dump"):
                seen[type(a).__name__] = a.model_dump(by_alias=True)

    with contextlib.ExitStack() as stack:
        for cls in (subsetter.planner.Planner, subsetter.sampler.Sampler):
            stack.enter_context(mock.patch.object(cls, "__init__", note))
        stack.enter_context(mock.patch.object(subsetter.planner.Planner, "plan", lambda self, *a, **k: SubsetPlan(queries={})))
        stack.enter_context(mock.patch.object(subsetter.sampler.Sampler, "sample", lambda self, *a, **k: None))
        cli.run(["subset"])
    return {"source": seen.get("DatabaseConfig"), "planner": seen.get("PlannerConfig"), "sampler": seen.get("SamplerConfig")}


def _covers(got, want):
    if isinstance(want, dict) and want:
        return isinstance(got, dict) and all(k in got and _covers(got[k], v) for k, v in want.items())
    return type(got) is type(want) and got == want


SPEC = Spec(Tab("a.u", "id", "s?", "v_id?"), Tab("a.t", "id", "u_id?", "s?", fks=["u_id->a.u(id)"]), Tab("a.v", "id", "s?"))


def omitted(ctx, database):
    """Sampling without a section is as sampling with its documented defaults."""
    from checks.c05 import rendered

    path = ctx.choose("setting", [p for p in DEFAULTS if not p.startswith("source") and p != "sampler.output"])
    which = ctx.choose("in the output", [None, *OUTPUT_DEFAULTS]) if database else None
    rels = {t.full: world.sym_rel(ctx, t, 1, full=database, pk_lo=1, pk_hi=9) for t in SPEC.tabs.values()}
    world.assume_fks(ctx, SPEC, rels)
    logs, files = [], []
    for explicit in (False, True):
        conf = {"source": {"dialect": "mysql"}, "planner": {"select": ["a.t", "a.u"], "targets": {"a.t": {"all": True}}}, "sampler": {}}
        if database:
            conf["sampler"]["output"] = {"mode": "database", "dialect": "mysql"}
        if explicit:
            put(conf, path.split("."), DEFAULTS[path])
            if which:
                conf["sampler"]["output"][which] = OUTPUT_DEFAULTS[which]
        elif not database and ctx.flag("no sampler"):
            del conf["sampler"]
        log = world.Log()
        with cli.directory():
            cli.write("subsetter.yaml", conf)
            os.mkdir("output")
            src = SymEngine(SymDB(ctx, SPEC, {t: r.copy() for t, r in rels.items()}, "mysql"), "source", log, "row" if database else "rel")
            dst = SymEngine(SymDB(ctx, SPEC, {}, "mysql"), "destination", log, "row") if database else None
            out = cli.run(["subset"], src, dst)
            files.append(sorted(os.listdir("output")))
        ctx.check("sampling succeeds", out.ok, f"{path} {explicit} {out.messages}")
        logs.append((rendered(src), rendered(dst) if database else None))
    ctx.check("leaving a setting out is as giving its documented default", logs[0] == logs[1], f"{path} {which}")
    ctx.check("output is written to the documented directory", database or files[0] == files[1] != [], f"{path} {files}")
    ctx.witness("sampled")


def build(tier):
    deep = tier == "thorough"
    paths = list(LEAVES)
    hs = []
    for section in ("source", "planner", "sampler"):
        own = [p for p in paths if p.startswith(section)]
        hs.append(Harness(f"layers/{section}/2 files", layers, dict(paths=own, count=1), validate=1))
        some = own if deep else own[::4]
        hs.append(Harness(f"layers/{section}/3 files", layers, dict(paths=some, count=2), validate=1))
        if deep:
            hs.append(Harness(f"layers/{section}/4 files", layers, dict(paths=own[::5], count=3), validate=1))
        hs.append(Harness(f"pairs/{section}", pairs, dict(paths=own[::1 if deep else 5], others=paths[::2 if deep else 7]), validate=1))
    for p in OPEN:
        hs.append(Harness(f"maps/{p}", maps, dict(path=p, count=3 if deep else 2), validate=1))
    hs.append(Harness("shared", shared, {}, validate=1))
    hs.append(Harness("ways", ways, {}, validate=1))
    hs.append(Harness("blank", blank, dict(count=3 if deep else 2), validate=1))
    hs.append(Harness("defaults", defaults, dict(given=list(DEFAULTS)), validate=1))
    for database in (False, True):
        hs.append(Harness(f"omitted/{'database' if database else 'directory'}", omitted, dict(database=database), validate=1))
    return Check(PROP, hs,
                 bounds={"settings": paths, "files": "a complete first file and 1 to 3 later ones",
                         "states": "each later file sets the setting, gives it an empty value, null, sets one beside it, or gives any section around it as null or empty",
                         "mappings": {p: "3 keys" for p in OPEN}, "ways": "named, default, standard input, repeated, missing, not YAML"},
                 assumptions=["a list is one setting: the last file's list replaces earlier ones",
                              "which settings are valid together is decided by the configuration model of the code under test"],
                 outside=["environment variables (C20)", "-vvv, which also turns on echo"])
