"""C13: destination writes respect foreign-key order."""
from __future__ import annotations

import itertools

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Rel
from lib.symx import And, B2I, Eq, Implies, Not, Or, Sum
from lib.trace import Claims, copies, tagged
from lib.world import Fk, Spec, SymDB, SymEngine, Tab

PROP = "C13"
NAMES = ["test.a", "test.b", "test.c", "test.d", "test.e"]


def acyclic_edges(ctx, names, topo, allowed=None):
    """foreign keys of an acyclic graph; topo gives the place of every table"""
    out = set()
    for i, j in itertools.permutations(range(len(names)), 2):
        if topo[i] > topo[j] and (allowed is None or (names[i], names[j]) in allowed):
            if ctx.bool(f"{names[i]}->{names[j]}"):
                out.add((names[i], names[j]))
    return out


def table(name, refs, fks=None, extra=()):
    """a table with one nullable reference for each of refs"""
    short = lambda t: t.split(".")[1].split("_")[-1]
    fks = refs if fks is None else fks
    return Tab(name, "id", "tag~", *(f"{short(r)}_ref~?" for r in refs), *extra,
               fks=[f"{short(r)}_ref->{f}(id)" for r, f in zip(refs, fks) if f])


def refs_of(name, edges):
    return [b for a, b in sorted(edges) if a == name]


def events(run, op):
    return [(i, e.table) for i, e in enumerate(run.log.events) if e.role == "destination" and e.op == op]


def ordered(ctx, run, dest_edges, planned, truncate):
    """What the statements on the destination say about the order of its tables."""
    ins, dels = events(run, "insert"), events(run, "delete")
    for op, evs, first, detail in (("insert", ins, 1, "written"), ("delete", dels, 0, "emptied")):
        when = {}
        for i, t in evs:
            when.setdefault(t, []).append(i)
        for child, parent in dest_edges:
            if child in when and parent in when:
                a, b = (parent, child) if first else (child, parent)
                ctx.check("tables are written and emptied in the order of their foreign keys",
                          max(when[a]) < min(when[b]), f"{a} is {detail} before {b}")
    ctx.check("rows are written to planned tables only", {t for _, t in ins} <= set(planned), str(ins))
    if not truncate:
        ctx.check("nothing is emptied without truncate", not dels, str(dels))


def rows_arrive(ctx, run, pairs):
    """Every row of a planned table is there exactly once."""
    claims = Claims(ctx)
    for src_t, dst_t in pairs:
        src, out = run.src[src_t], run.out.get(dst_t)
        if out is None:
            ctx.fail("every planned table is written", dst_t)
            return
        for r in src.rows:
            n = Sum(B2I(And(c, *(Eq(out.cell(o, k).null, src.cell(r, k).null) for k in src.cols),
                            *(Or(src.cell(r, k).null, Eq(out.cell(o, k).val, src.cell(r, k).val)) for k in src.cols)))
                    for o, c in copies(out, src, r))
            claims.check("every planned table is written exactly once", Implies(r.g, Eq(n, 1)), dst_t, witness=r.g)
    claims.flush()


def scenario(ctx, n, topo, dialect, renamed, mode):
    """
    mode: "empty" (all tables exist and hold nothing), "truncate" (they hold rows that refer to each other),
    "create" (some are created) or "create, truncate"
    """
    names = NAMES[:n]
    edges = acyclic_edges(ctx, names, topo)
    spec = Spec(*(table(t, refs_of(t, edges)) for t in names))
    new = {t: ("copy." + {"a": "c", "b": "a", "c": "b", "d": "e", "e": "d"}[t[-1]] + "_" + t[-1] if renamed else t)
           for t in names}
    there = [t for t in names if "create" not in mode or ctx.bool(f"{t} exists")]
    # The keys of tables that exist can only lead to tables that exist.
    tabs = []
    for t in there:
        refs = refs_of(t, edges)
        tabs.append(table(new[t], [new[r] for r in refs], [new[r] if r in there else None for r in refs]))
    extra_edges = set()
    if "truncate" in mode and there:
        # and a table that is not sampled, in the middle
        up = ctx.choose("unsampled table refers to", [None, *there])
        if up:
            tabs.append(table(new[up].split(".")[0] + ".aa", [new[up]]))
            extra_edges.add((new[up].split(".")[0] + ".aa", new[up]))
    for t in tabs:  # the columns are those of the source
        for c in t.cols:
            for s in spec.tabs.values():
                for f in s.fks:
                    if new[s.full] == t.full and c.name == f"{new[f.dst].split('.')[1].split('_')[-1]}_ref":
                        c.name = f.cols[0]
    dest = Spec(*tabs, schemas=["copy" if renamed else "test"])
    full = Spec(*(table(new[t], [new[r] for r in refs_of(t, edges)]) for t in names))
    rels = tagged(ctx, spec, 1, full=True, pk_hi=50)
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_hi=50) if "truncate" in mode else {}
    planner = dict(select=["test.*"], targets={t: {"all": True} for t in names})
    output = {"remap": [{"search": "^test\\." + t[-1] + "$", "replace": new[t]} for t in names]} if renamed else {}
    run, _ = guarded(ctx, "sampling succeeds", lambda: transfer(
        ctx, spec, rels, planner, {}, dialect, dest=dest, dest_rels=dest_rels, output=output, create="create" in mode,
        truncate="truncate" in mode, enforce=True, read=Spec(*full.tabs.values(), *(
            t for t in dest.tabs.values() if t.full not in full.tabs))))
    dest_edges = {(new[a], new[b]) for a, b in edges if a not in there or b in there} | extra_edges
    ordered(ctx, run, dest_edges, new.values(), "truncate" in mode)
    rows_arrive(ctx, run, [(t, new[t]) for t in names])
    for t, rel in run.out.items():
        for f in (run.dest.db.foreign_keys() if isinstance(run.dest, SymEngine) else []):
            if f"{f[0][0]}.{f[0][1]}" == t:
                ctx.check("foreign keys of the destination hold afterwards",
                          And(*(world.fk_holds(rel, r, f[1], run.out[f[1].dst]) for r in rel.rows)), f"{t} {f[1]}")


def own_keys(ctx, dialect, truncate):
    """The keys of the destination are not those of the source."""
    names = NAMES[:3]
    dest_edges = set()
    topo = ctx.choose("topological order", [(0, 1, 2), (2, 1, 0), (1, 2, 0), (1, 0, 2), (0, 2, 1), (2, 0, 1)])
    dest_edges = acyclic_edges(ctx, names, topo)
    if len(dest_edges) < 2:
        raise symx.Infeasible()
    cols = {t: [r for r in names if r != t] for t in names}
    spec = Spec(*(table(t, cols[t], [None, None]) for t in names))
    dest = Spec(*(table(t, cols[t], [r if (t, r) in dest_edges else None for r in cols[t]]) for t in names),
                table("test.unused", ["test.a"], [None]))
    rels = tagged(ctx, spec, 1, full=True, pk_hi=50)
    for a, b in dest_edges:
        f = Fk([f"{b[-1]}_ref"], b, ["id"])
        for r in rels[a].rows:
            ctx.assume(world.fk_holds(rels[a], r, f, rels[b]))
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_hi=50) if truncate else {}
    planner = dict(select=["test.*"], targets={t: {"all": True} for t in names})
    run, _ = guarded(ctx, "sampling succeeds", lambda: transfer(
        ctx, spec, rels, planner, {}, dialect, dest=dest, dest_rels=dest_rels, truncate=truncate, enforce=True))
    ordered(ctx, run, dest_edges, names, truncate)
    rows_arrive(ctx, run, [(t, t) for t in names])


def sort(ctx, n, topo, places):
    """The order computed for a graph whose edges are symbolic."""
    from subsetter.solver import toposort
    from checks.c03 import name

    perm = ctx.choose("places in sets", places)
    names = [name(f"t{i}", perm[i]) for i in range(n)]
    edges = acyclic_edges(ctx, names, topo)
    graph = {u: {b for a, b in edges if a == u} for u in names}
    order, _ = guarded(ctx, "an order is found", lambda: toposort(graph))
    ctx.check("every table once", sorted(order) == sorted(names), str(order))
    for a, b in edges:
        ctx.check("referenced tables come first", order.index(b) < order.index(a), f"{sorted(edges)}: {order}")


def missing(ctx, dialect):
    """A planned table that the destination lacks is refused before anything is emptied or written."""
    names = NAMES[:3]
    spec = Spec(table("test.a", []), table("test.b", ["test.a"]), table("test.c", ["test.b"]))
    there = [t for t in names if ctx.bool(f"{t} exists")]
    if len(there) == 3:
        raise symx.Infeasible()
    dest = Spec(*(table(t, [r for r in [f.dst for f in spec.tabs[t].fks]],
                        [r if r in there else None for r in [f.dst for f in spec.tabs[t].fks]]) for t in there),
                schemas=["test"])
    rels = tagged(ctx, spec, 1, full=True)
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True)
    run = None
    from lib.sampling import Transfer

    run = Transfer()
    try:
        transfer(ctx, spec, rels, dict(select=["test.*"], targets={t: {"all": True} for t in names}), {}, dialect,
                 dest=dest, dest_rels=dest_rels, truncate=ctx.flag("truncate"), run=run)
        ctx.fail("a missing destination table is refused", str(there))
    except ValueError:
        pass
    except Exception as exc:  # pylint: disable=broad-except
        ctx.fail("a missing destination table is refused", f"{type(exc).__name__}: {exc}"[:200])
    ctx.check("nothing is emptied or written before that", not events(run, "delete") and not events(run, "insert"), "")


def build(tier):
    deep = tier == "thorough"
    hs = []
    t3 = list(itertools.permutations(range(3)))
    for d in (["sqlite", "mysql", "postgresql"] if deep else ["sqlite", "postgresql"]):
        for mode in ("empty", "truncate", "create", "create, truncate"):
            topos = t3 if deep else (t3[0], t3[3], t3[5]) if mode in ("truncate", "create") else (t3[0], t3[4])
            for renamed in (False, True):
                for topo in topos:
                    hs.append(Harness(f"3 tables/{mode}/{'renamed' if renamed else 'same names'}/"
                                      f"{''.join(map(str, topo))}/{d}", scenario,
                                      dict(n=3, topo=topo, dialect=d, renamed=renamed, mode=mode), validate=2))
        for truncate in (False, True):
            hs.append(Harness(f"own keys/{'truncate' if truncate else 'empty'}/{d}", own_keys,
                              dict(dialect=d, truncate=truncate), validate=2))
        hs.append(Harness(f"missing/{d}", missing, dict(dialect=d), validate=2))
    for topo in [(2, 0, 3, 1), (0, 1, 2, 3), (3, 2, 1, 0)] if deep else [(2, 0, 3, 1)]:
        for mode in ("empty", "truncate") if deep else ("empty",):
            hs.append(Harness(f"4 tables/{mode}/{''.join(map(str, topo))}", scenario,
                              dict(n=4, topo=topo, dialect="postgresql", renamed=deep and mode == "empty", mode=mode),
                              validate=2))
    for topo in [(2, 0, 4, 1, 3), (0, 1, 2, 3, 4), (4, 3, 2, 1, 0)] if deep else [(2, 0, 4, 1, 3)]:
        hs.append(Harness(f"order of 5/{''.join(map(str, topo))}", sort, dict(
            n=5, topo=topo, places=list(itertools.permutations(range(5)))[3::40] if deep else [(3, 1, 4, 0, 2)]),
            validate=1))
    return Check(PROP, hs,
                 bounds={"tables": "every acyclic foreign key graph of 3 tables (4 in thorough and one arrangement of names in "
                                   "quick), 1 row each with symbolic keys and references, every subset of them already in the "
                                   "destination", "order": "every acyclic graph of 5 tables per arrangement"},
                 assumptions=["the source satisfies the foreign keys of source and destination",
                              "the destination checks foreign keys after every statement"],
                 outside=["tables that refer to themselves", "destination tables not sampled that refer to each other in a cycle"])
