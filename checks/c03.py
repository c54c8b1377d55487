"""C03: a valid sampling order is found exactly when one exists."""
from __future__ import annotations

import itertools
import re

from lib import scenarios, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, make_source, run_plan, sampling_order
from lib.world import Spec, SymDB, SymEngine, Tab

PROP = "C03"


class Name(str):
    """A node whose place in the iteration order of sets is chosen."""

    place = 0

    def __hash__(self):
        return self.place


def name(text, place):
    n = Name(text)
    n.place = place
    return n


def closure(nodes, edges, targets):
    """Tables related to a target."""
    seen, todo = set(targets), list(targets)
    while todo:
        u = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == u and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return seen


def cyclic(nodes, edges):
    """Is there a directed cycle among these nodes?"""
    left = set(nodes)
    while True:
        sinks = {u for u in left if not any(a == u and b in left for a, b in edges)}
        if not sinks:
            return bool(left)
        left -= sinks


def judge(ctx, order, cycle, names, edges, targets, detail):
    """Either a valid order or an actual cycle."""
    related = closure(names, edges, targets)
    if cyclic(related, edges):
        ctx.check("a plan is refused when there is a foreign key cycle", order is None, detail)
        ok = cycle is not None and len(cycle) > 0 and len(set(cycle)) == len(cycle) and set(cycle) <= related and all(
            (cycle[i], cycle[(i + 1) % len(cycle)]) in edges for i in range(len(cycle)))
        ctx.check("the cycle named exists", ok, f"{detail}: {cycle}")
        return
    ctx.check("an order is found when there is no foreign key cycle", order is not None, detail)
    ctx.check("every related table is ordered once", sorted(order) == sorted(related), f"{detail}: {order}")
    for i, u in enumerate(order):
        before = order[:i]
        out = [v for v in before if (u, v) in edges]
        inc = [v for v in before if (v, u) in edges]
        if u in targets:
            ctx.check("a target has no foreign key to an earlier table", not out, f"{detail}: {order}")
        else:
            ctx.check("links to earlier tables run in one direction", bool(out) != bool(inc), f"{detail}: {order}")


def choose_graph(ctx, names, loops, acyclic=None):
    edges = set()
    for i, j in itertools.product(range(len(names)), repeat=2):
        if i == j and not loops or acyclic is not None and acyclic.index(i) <= acyclic.index(j):
            continue
        if ctx.bool(f"{names[i]}->{names[j]}"):
            edges.add((names[i], names[j]))
    return edges


def solver(ctx, n, loops, places, inserted, acyclic=None):
    """The order of a graph."""
    from subsetter.solver import CycleException, order_graph

    perm = ctx.choose("places in sets", places)
    names = [name(f"t{i}", perm[i]) for i in range(n)]
    source = name("", perm[n])
    edges = choose_graph(ctx, names, loops, acyclic)
    targets = [t for t in names if ctx.bool(f"target {t}")]
    if not targets:
        raise symx.Infeasible()
    ins = ctx.choose("order of insertion", inserted)
    graph = {}
    for i in ins:
        if i < n:
            graph[names[i]] = {b for a, b in edges if a == names[i]}
    graph[source] = set(targets)
    keep = {u: set(vs) for u, vs in graph.items()}
    order = cycle = None
    try:
        order = order_graph(graph, source)
    except CycleException as exc:
        cycle = list(exc.cycle)
    except Exception as exc:  # pylint: disable=broad-except
        ctx.fail("an order or a cycle is returned", f"{type(exc).__name__}: {exc}")
    ctx.check("the graph is left as it was", graph == keep, "")
    if order is not None:
        ctx.check("the targets come from the source", order[0] == source, str(order))
        order = order[1:]
    judge(ctx, order, cycle, names, edges, set(targets), f"{sorted(edges)} {targets}")
    if order is not None and perm != tuple(range(n + 1)):
        plain = {str(u): {str(v) for v in vs} for u, vs in keep.items()}
        other = order_graph({u: plain[u] for u in sorted(plain)}, "")
        ctx.check("the order does not depend on the order of sets", [str(u) for u in order] == other[1:],
                  f"{sorted(edges)} {targets}")


def planner(ctx, n, loops, acyclic=None, crits=1):
    """The order of a plan; the tables are reflected in two orders."""
    names = [f"test.t{i}" for i in range(n)]
    edges = choose_graph(ctx, names, loops, acyclic)
    targets = [t for t in names if ctx.bool(f"target {t}")]
    if not targets:
        raise symx.Infeasible()

    def spec_of(order):
        tabs = []
        for i in order:
            refs = [b for a, b in sorted(edges) if a == names[i]]
            tabs.append(Tab(names[i], "id", *(f"{b[5:]}_ref?" for b in refs),
                            fks=[f"{b[5:]}_ref->{b}(id)" for b in refs]))
        return Spec(*tabs)

    plans = []
    for order, tgt in ((range(n), targets), (reversed(range(n)), targets[::-1])):
        spec = spec_of(list(order))
        run = world.Log()
        engine = make_source(ctx, spec, {t: world.sym_rel(ctx, spec.tabs[t], 0, prefix="x") for t in names}, "sqlite",
                             "rel", run)
        result = cycle = None
        try:
            result = run_plan(engine, dict(select=["test.*"], targets={t: {"all": True} for t in tgt}))
        except ValueError as exc:
            cycle = re.findall(r"test\.t\d+", str(exc))
            if len(cycle) > 1 and cycle[0] == cycle[-1]:
                cycle.pop()
        except Exception as exc:  # pylint: disable=broad-except
            ctx.fail("an order or a cycle is returned", f"{type(exc).__name__}: {exc}")
        plans.append(result)
        order_ = sampling_order(result) if result is not None else None
        judge(ctx, order_, cycle, names, edges, set(targets), f"{sorted(edges)} {targets}")
        if ctx.concrete and hasattr(engine, "dispose"):
            engine.dispose()
    if plans[0] is not None and plans[1] is not None:
        ctx.check("the plan does not depend on the order in which tables are found",
                  plans[0].queries == plans[1].queries and list(plans[0].queries) == list(plans[1].queries),
                  f"{sorted(edges)} {targets}")


def build(tier):
    hs = []
    deep = tier == "thorough"
    p3 = list(itertools.permutations(range(4)))
    hs.append(Harness("solver/3", solver, dict(n=3, loops=True, places=p3 if deep else p3[1::6],
                                               inserted=[(0, 1, 2), (2, 0, 1)][not deep:]), validate=1))
    p4 = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1), (1, 3, 4, 0, 2)]
    hs.append(Harness("solver/4", solver, dict(n=4, loops=False, places=p4 if deep else p4[2:3],
                                               inserted=[(0, 1, 2, 3)]), validate=1))
    for i, topo in enumerate([(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]):
        if deep or i == 2:
            hs.append(Harness(f"solver/5 acyclic {i}", solver, dict(
                n=5, loops=False, places=[(3, 1, 4, 0, 2, 5)], inserted=[(0, 1, 2, 3, 4)], acyclic=topo), validate=1))
    hs.append(Harness("planner/3", planner, dict(n=3, loops=deep), validate=2))
    if deep:
        hs.append(Harness("planner/4 acyclic", planner, dict(n=4, loops=False, acyclic=(2, 0, 3, 1)), validate=2))
    return Check(PROP, hs,
                 bounds={"tables": "every directed graph of 3 tables (with self-references) and of 4 tables, every acyclic "
                                   "graph of 5 tables in one arrangement of the names (thorough: three)",
                         "targets": "every set", "iteration orders of sets": "3 tables: 4 (thorough: all 24) orders; others: "
                                    + str(len(p4) if deep else 1)},
                 assumptions=["a set of few names is iterated in the order of their hashes"],
                 outside=["larger graphs", "which one of several cycles is named"])
