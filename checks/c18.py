"""C18: table renaming is consistent and never merges two tables."""
from __future__ import annotations

import itertools

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import Transfer, guarded, transfer
from lib.symx import And, B2I, Eq, Iff, Implies, Ite, Not, Or, Sum
from lib.trace import Claims, copies, tagged
from lib.world import Fk, Spec, Tab

PROP = "C18"
ALL = {"all": True}
A, B, C = "test.a", "test.b", "other.a"


def exact(a, b):
    return (f"^{a.replace('.', '[.]')}$", b, lambda n: b if n == a else n)


def chain(n, steps):
    for a, b in steps:
        n = n.replace(a, b)
    return n


# (search, replace, what it means)
RULES = [
    (r"^test\.", "dst.", lambda n: "dst." + n[5:] if n.startswith("test.") else n),
    (r"^other\.", "test.", lambda n: "test." + n[6:] if n.startswith("other.") else n),
    (r"a", "b", lambda n: n.replace("a", "b")),
    (r"t", "tt", lambda n: n.replace("t", "tt")),
    (r"$", "_copy", lambda n: n + "_copy"),
    (r"^([a-z]+)\.([a-z_]+)$", r"\2.\1", lambda n: ".".join(reversed(n.split(".", 1)))
     if n.count(".") == 1 and n.replace(".", "").replace("_", "").isalpha() and n.islower()
     and "_" not in n.split(".")[0] else n),
    (r"^(\w+)\.(\w+)$", r"dst.\1_\2", lambda n: "dst." + n.replace(".", "_") if n.count(".") == 1 else n),
    (r"\.[ab]$", ".same", lambda n: n[:-1] + "same" if n.endswith((".a", ".b")) else n),
    (r"^a", "zzz", lambda n: "zzz" + n[1:] if n.startswith("a") else n),
    exact(A, B), exact(B, A), exact(B, "test.c"), exact("dst.a", "dst.b"), exact("test.c", A), exact(C, "Other.A"),
    (r"(?i)^TEST\.A$", r"test.\g<0>", lambda n: "test." + n if n.lower() == "test.a" else n),
    (r"test", "x.y", lambda n: n.replace("test", "x.y")),
    (r"^test\.", "", lambda n: n[5:] if n.startswith("test.") else n),
]


def renamed(rules, n):
    for _, _, f in rules:
        n = f(n)
    return n


def table(n, fks=()):
    return Tab(n, "id", "r?" if fks else "r", "s~?", "tag~", fks=[f for f in fks if f])


SOURCE = {A: table(A), B: table(B, ["r->test.a(id)"]), C: table(C, ["r->test.b(id)"])}
SETTINGS = ["plain", "truncate", "create", "merge", "filter", "multiply", "replace"]


def scenario(ctx, rules, dialect, settings):
    spec = Spec(*SOURCE.values())
    planned = ctx.choose("planned", [[A, B, C], [B, A], [B, C]])
    setting = ctx.choose("setting", settings)
    names = {t: renamed(rules, t) for t in planned}
    bad = any("." not in n for n in names.values())
    clash = len(set(names.values())) < len(planned)
    here = list(dict.fromkeys([*(n for n in names.values() if "." in n), *SOURCE, "dst.a", "test.c"]))
    missing = list(dict.fromkeys(names.values())) if setting == "create" else []
    if setting == "create" and ctx.bool("one exists"):
        missing = missing[1:]
    keep = [n for n in here if n not in missing]
    if dialect == "sqlite":  # names in any case are the same to it
        keep = [n for i, n in enumerate(keep) if n.lower() not in [m.lower() for m in keep[:i]]]
        if any(a != b and a.lower() == b.lower() for a in keep for b in names.values()):
            raise symx.Infeasible()
        schemas = {n.split(".")[0] for n in here}
        if len({n.lower() for n in schemas}) < len(schemas):
            raise symx.Infeasible()
    dest = Spec(*(table(n, [None]) for n in keep), schemas=sorted({n.split(".")[0] for n in here}))
    read = Spec(*(table(n) for n in [*keep, *(m for m in missing if m not in keep and "." in m)]))
    rels = tagged(ctx, spec, 1, full=True, pk_lo=1, pk_hi=40)
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_lo=0 if setting == "merge" else 200, pk_hi=300)
    planner = dict(select=["*"] if len(planned) == 3 else planned, targets={t: ALL for t in planned},
                   include_dependencies=False,
                   ignore_fks=[dict(src_table=B, dst_table=A)] if A not in planned else [])
    sampler = {}
    if setting == "filter":
        sampler["filters"] = {t: [{"op": "null", "columns": ["s"]}] for t in (A, C)}
    if setting == "multiply":
        sampler["multiplicity"] = {"multiplier": 2}
        planner["passthrough"] = [A] if A in planned else []
        planner["targets"].pop(A, None)
    output = {"remap": [{"search": s, "replace": r} for s, r, _ in rules]}
    if setting == "merge":
        output["merge"] = True
    if setting == "replace":
        output["conflict_strategy"] = "replace"

    run = Transfer()
    _, exc = guarded(ctx, "sampling succeeds", lambda: transfer(
        ctx, spec, rels, planner, sampler, dialect, dest=dest, dest_rels=dest_rels, output=output, read=read, run=run,
        truncate=setting == "truncate", create=setting == "create",
        enforce=False), allow=lambda e: (bad or clash) and isinstance(e, ValueError))
    ctx.check("renaming two tables to the same name is refused", (exc is not None) == (bad or clash), str(names))
    did = [e for e in run.log.events if e.role == "destination"
           and (e.op in ("insert", "delete", "insert_select", "create_table", "create_index", "alter_table", "drop_table",
                         "ddl") or e.op.startswith("text:"))]
    if exc is not None:
        ctx.check("nothing is written by a run that is refused", not did, str([(e.op, e.table) for e in did]))
        if not bad:
            ctx.check("the refusal names the table", any(
                n in str(exc) for n in names.values() if list(names.values()).count(n) > 1), str(exc))
        ctx.witness("refused")
        return
    to = {d: s for s, d in names.items()}
    for e in did:
        if e.op in ("insert", "delete", "create_table"):
            ctx.check("only the tables renamed to are acted on", e.table in to, f"{e.op} {e.table}")
    claims = Claims(ctx)
    for d in [t.full for t in read.tabs.values()]:
        out = run.out.get(d)
        if out is None:
            ctx.fail("the table is there", d)
            continue
        n = 0
        if d in run.before and not (setting == "truncate" and d in to):
            before = run.before[d]
            n += len(before.rows)
            for r in before.rows:
                claims.check("rows of other tables and earlier rows are left alone", Or(*(
                    And(c, Iff(out.cell(o, "r").null, before.cell(r, "r").null), Eq(out.cell(o, "id").val, before.cell(r, "id").val))
                    for o, c in copies(out, before, r))), d)
        if d in to:
            s = to[d]
            src = rels[s]
            times = 2 if setting == "multiply" and s != A else 1
            n += times * len(src.rows)
            shift = {}
            if setting == "merge":
                for t, col in ((s, "id"), ({B: A, C: B}.get(s), "r")):
                    if t in names:
                        p = run.before[names[t]]
                        shift[col] = p.cell(p.rows[0], "id").val + 1
            for r in src.rows:
                got = copies(out, src, r)
                claims.check("every row is written to the table that its own is renamed to",
                             Eq(Sum(B2I(c) for _, c in got), times), f"{s} {d}")
                for o, c in got:
                    if setting == "filter" and s in (A, C):
                        claims.check("filters apply to their own table", Implies(c, out.cell(o, "s").null), f"{s} {d}")
                    else:
                        claims.check("filters apply to their own table", Implies(c, And(
                            Iff(out.cell(o, "s").null, src.cell(r, "s").null),
                            Or(src.cell(r, "s").null, Eq(out.cell(o, "s").val, src.cell(r, "s").val)))), f"{s} {d}")
                    if times == 1:
                        claims.check("keys are read from the table renamed to", Implies(c, And(
                            Eq(out.cell(o, "id").val, src.cell(r, "id").val + shift.get("id", 0)),
                            Iff(out.cell(o, "r").null, src.cell(r, "r").null),
                            Or(out.cell(o, "r").null, Eq(out.cell(o, "r").val, src.cell(r, "r").val + shift.get("r", 0))))), f"{s} {d}")
        claims.check("nothing else is in the table", Eq(Sum(B2I(o.g) for o in out.rows), n), d)
    claims.flush()


def lists(ctx, n, dialect, first, settings, pool):
    """Every list of n rules."""
    rules = [RULES[i] for i in first]
    for i in range(n - len(first)):
        rules.append(ctx.choose(f"rule {len(rules)}", [RULES[j] for j in pool]))
    scenario(ctx, rules, dialect, settings)


def build(tier):
    deep = tier == "thorough"
    hs = []
    every = list(range(len(RULES)))
    ds = ("sqlite", "mysql", "postgresql")
    for d in ds:
        hs.append(Harness(f"none/{d}", lists, dict(n=0, dialect=d, first=[], settings=SETTINGS, pool=[]), validate=2))
        hs.append(Harness(f"one/{d}", lists, dict(n=1, dialect=d, first=[], settings=SETTINGS if deep or d == "sqlite"
                          else ["merge", "truncate"], pool=every), validate=2))
    for i in every:
        for d in ds if deep else [ds[i % 3]]:
            hs.append(Harness(f"two/{i}/{d}", lists, dict(n=2, dialect=d, first=[i], settings=SETTINGS if deep else
                      [SETTINGS[(i + k) % 7] for k in range(3)], pool=every), validate=1))
    if deep:
        for i, j in itertools.product(every, every):
            d = ds[(i + j) % 3]
            hs.append(Harness(f"three/{i},{j}/{d}", lists, dict(n=3, dialect=d, first=[i, j], settings=[
                SETTINGS[(i + 2 * j) % 7]], pool=[k for k in every if (i + j + k) % 4 == 0]), validate=0))
    return Check(PROP, hs,
                 bounds={"rules": [r[:2] for r in RULES], "rules in a list": "every list of up to 2, a quarter of those of 3" if deep else "every list of up to 2", "tables": 3,
                         "rows": "1 per table, keys and references symbolic", "settings": SETTINGS},
                 assumptions=["regular expressions mean what Python's re says"],
                 outside=["longer lists of rules", "rules other than those listed", "names that differ in case only on databases where case "
                          "does not matter"])
