"""C14: truncation clears exactly what sampling requires."""
from __future__ import annotations

import itertools

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import Transfer, guarded, transfer
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.trace import Claims, copies, tagged
from lib.world import Fk, Spec, Tab

PROP = "C14"

# Destination tables (names that look alike, several schemas).
LAYOUTS = {
    "plain": ["test.a", "test.b", "test.c", "test.d"],
    "alike": ["test.users", "test.users2", "test.Users_old", "other.users"],
    "case": ["test.users", "test.Users", "test.USERS", "Test.users"],
    "schemas": ["one.t", "two.t", "three.t", "two.tt"],
    "odd": ["test.a*", "test.ab", "test.a[b]", "test.a?"],
}
REMAPS = {
    "same": ([], lambda t: t),
    "schema": ([{"search": r"^src\.(\w+)__", "replace": r"\1."}], lambda t: "src." + t.replace(".", "__")),
    "swap": ([{"search": r"^src\.(.*)_tmp$", "replace": r"\1"}, {"search": r"^(\w+)__", "replace": r"\1."}],
             lambda t: "src." + t.replace(".", "__") + "_tmp"),
}


def closure(names, edges, sampled):
    out, todo = set(sampled), list(sampled)
    while todo:
        x = todo.pop()
        for a, b in edges:
            if b == x and a not in out:
                out.add(a)
                todo.append(a)
    return out


def dest_table(name, names, edges, mark="~"):
    me = names.index(name)
    refs = [j for j, b in enumerate(names) if (name, b) in edges]
    cols = [f"r{j}?{mark if j in refs else chr(126)}" for j in range(len(names)) if j != me]
    fks = [Fk([f"r{j}"], names[j], ["id"]) for j in refs]
    return Tab(name, "id", "tag~", *cols, fks=fks)


def intact(out, before, r):
    return Or(*(And(o, *(Iff(out.cell(row, c).null, before.cell(r, c).null) for c in before.cols),
                    *(Or(before.cell(r, c).null, Eq(out.cell(row, c).val, before.cell(r, c).val))
                      for c in before.cols)) for row, o in copies(out, before, r)))


def scenario(ctx, layout, remap, topo, dialect, sampled_n, mode="truncate", strategy=None):
    names = LAYOUTS[layout]
    rules, source_name = REMAPS[remap]
    truncate = mode in ("truncate", "create")
    edges = set()
    for i, j in itertools.permutations(range(len(names)), 2):
        if topo[i] > topo[j] and (dialect != "sqlite" or names[i].split(".")[0] == names[j].split(".")[0]):
            if (mode != "merge" or len(edges) < 4) and ctx.bool(f"{names[i]}->{names[j]}"):
                edges.add((names[i], names[j]))
    sampled = list(ctx.choose("sampled", [s for k in sampled_n for s in itertools.combinations(names, k)]))
    dest = Spec(*(dest_table(t, names, edges) for t in names))
    src_names = [source_name(t) for t in names]
    src_edges = {(source_name(a), source_name(b)) for a, b in edges if {a, b} <= set(sampled)} if mode == "merge" else ()
    spec = Spec(*(dest_table(source_name(t), src_names, src_edges, "" if mode == "merge" else "~") for t in sampled))
    rels = tagged(ctx, spec, 1, full=True, pk_hi=40)
    for t in sampled:  # references of the rows written: rows written by the same run, or those left
        for a, b in edges:
            if a == t:
                rel = rels[source_name(t)]
                c = rel.cell(rel.rows[0], f"r{names.index(b)}")
                if b in sampled:
                    p = rels[source_name(b)]
                    ctx.assume(Or(c.null, Eq(c.val, p.cell(p.rows[0], "id").val)))
                else:
                    ctx.assume(c.null)
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_lo=50, pk_hi=90)
    planner = dict(select=["*"], targets={source_name(t): {"all": True} for t in sampled})
    output = {"remap": rules} if rules else {}
    if strategy:
        output["conflict_strategy"] = strategy
    sampler = {}
    if mode == "merge":
        output["merge"] = True
    if mode.startswith("create"):
        gone = [t for t in sampled if ctx.bool(f"{t} does not exist yet") and not any(b == t or a == t for a, b in edges)]
        for t in gone:
            del dest.tabs[t]
            del dest_rels[t]
        dest.extra_schemas = sorted({t.split(".")[0] for t in names})
    real = Spec(*(dest_table(t, names, edges) for t in names))
    plan = None
    if layout == "odd":
        from lib.sampling import run_plan
        from subsetter.plan_model import SubsetPlan

        plan = SubsetPlan(queries={source_name(t): dict(statement=dict(type_="select", from_=dict(
            table_schema=source_name(t).split(".")[0], table_name=source_name(t).split(".")[1]))) for t in sampled})
    run, _ = guarded(ctx, "sampling succeeds", lambda: transfer(
        ctx, spec, rels, planner, sampler, dialect, dest=dest, dest_rels=dest_rels, output=output, plan=plan,
        truncate=truncate, create=mode.startswith("create"), enforce=True, read=real))
    cleared = closure(names, edges, sampled) if truncate else set()
    claims = Claims(ctx)
    for t in names:
        out = run.out.get(t)
        if out is None:
            ctx.fail("the table is still there", t)
            continue
        if t in run.before:
            before = run.before[t]
            for r in before.rows:
                if t in cleared:
                    claims.check("tables sampled into, and those that refer to them, are emptied",
                                 Not(Or(*(c for _, c in copies(out, before, r)))), t)
                else:
                    claims.check("no other table is touched", intact(out, before, r), t)
        n = Sum(B2I(o.g) for o in out.rows)
        rows = (1 if t in sampled else 0) + (1 if t in run.before and t not in cleared else 0)
        claims.check("nothing else is left in the table", Eq(n, rows), t)
        if t in sampled and mode != "merge":
            src = rels[source_name(t)]
            for r in src.rows:
                claims.check("sampled rows are written", intact(out, src, r), t)
    claims.flush()
    dels = {e.table for e in run.log.events if e.role == "destination" and e.op == "delete"}
    ctx.check("only these are emptied", dels <= cleared, str(sorted(dels)))


def cyclic(ctx, dialect, n, create):
    """Destination tables that refer to each other in a cycle: emptied as well, or nothing is done at all."""
    names = LAYOUTS["plain"][:n]
    edges = {(a, b) for a, b in itertools.product(names, names) if ctx.bool(f"{a}->{b}")}
    if not any(t in closure(names, edges, [b for a, b in edges if a == t]) - {None} for t in names):
        raise symx.Infeasible()
    sampled = [names[0]] if not create else names[:2]
    dest = Spec(*(Tab(t, "id", "tag~", *(f"r{j}?~" for j in range(n)),
                      fks=[Fk([f"r{j}"], b, ["id"]) for j, b in enumerate(names) if (t, b) in edges]) for t in names))
    spec = Spec(*(Tab(t, "id", "tag~", *(f"r{j}?~" for j in range(n))) for t in sampled))
    rels, dest_rels = tagged(ctx, spec, 1, full=True, pk_hi=40), tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_lo=50, pk_hi=90)
    for rel in [*rels.values(), *dest_rels.values()]:
        for r in rel.rows:
            for j in range(n):
                ctx.assume(rel.cell(r, f"r{j}").null)
    run = Transfer()
    claims = Claims(ctx)
    try:
        transfer(ctx, spec, rels, dict(select=["*"], targets={t: {"all": True} for t in sampled}), {}, dialect, dest=dest, dest_rels=dest_rels,
                 truncate=True, create=create, enforce=True, force_stub=True, run=run)
    except Exception as exc:  # pylint: disable=broad-except
        ctx.witness("refused", True)
        ctx.check("nothing is emptied or written if that is refused", not run.log.of("destination", "delete", "insert", "update"), f"{sorted(edges)} {exc}"[:300])
        return
    cleared = closure(names, edges, sampled)
    for t in names:
        out, before = run.out[t], run.before[t]
        for r in before.rows:
            gone = Not(Or(*(c for _, c in copies(out, before, r))))
            claims.check("tables sampled into, and those that refer to them, are emptied" if t in cleared else "no other table is touched",
                         gone if t in cleared else intact(out, before, r), f"{t} {sorted(edges)}")
    claims.flush()


def build(tier):
    deep = tier == "thorough"
    hs = []

    def add(name, **kw):
        hs.append(Harness(name, scenario, kw, validate=2))

    topos = [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)]
    ds = ["postgresql", "mysql", "sqlite"]
    for i, topo in enumerate(topos if deep else topos[:3]):
        add(f"plain/{''.join(map(str, topo))}/{ds[i % 3]}", layout="plain", remap="same", topo=topo,
            dialect=ds[i % 3], sampled_n=[1, 2, 3, 4] if deep else [1, 2] if i else [1])
    for layout, d0 in (("alike", 0), ("schemas", 1), ("odd", 2), ("case", 0)):
        for d in (ds if layout != "case" else ds[:1]) if deep else [ds[d0]]:
            for topo in topos if deep else topos[2:3]:
                for remap in REMAPS:
                    if remap != "same" and layout in ("odd", "case") or remap == "same" and layout == "schemas" and d == "sqlite":
                        continue
                    add(f"{layout}/{remap}/{''.join(map(str, topo))}/{d}", layout=layout, remap=remap, topo=topo,
                        dialect=d, sampled_n=[1, 2] if deep else [1] if remap != "schema" else [2])
    for mode in ("keep", "merge", "create", "create, keep"):
        for d in ds if deep else ["sqlite"]:
            add(f"{mode}/{d}", layout="plain", remap="schema", topo=topos[3], dialect=d, sampled_n=[2], mode=mode)
    for st in ("skip", "replace"):
        add(f"keep {st}", layout="plain", remap="same", topo=topos[2], dialect="postgresql", sampled_n=[2], mode="keep",
            strategy=st)
        add(f"truncate {st}", layout="plain", remap="same", topo=topos[2], dialect="mysql", sampled_n=[2],
            strategy=st)
    for i, d in enumerate(ds):
        hs.append(Harness(f"cycles/{d}", cyclic, dict(dialect=d, n=3 if deep or i == 0 else 2, create=i == 1), validate=1))
    return Check(PROP, hs,
                 bounds={"destination": "4 tables, every acyclic foreign key graph per arrangement of names, 1 row each with "
                                        "symbolic keys and references", "sampled": "every set of the stated sizes",
                         "names": LAYOUTS, "renaming": list(REMAPS),
                         "cycles": "every foreign key graph of 3 tables with a cycle: refused before anything is done, or emptied"},
                 assumptions=["the destination satisfies its foreign keys and checks them after every statement",
                              "the rows sampled refer to rows sampled or nothing"],
                 outside=["names that differ by case only on servers that do not tell them apart"])
