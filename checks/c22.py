"""C22: table selection is closed, exact and safe."""
from __future__ import annotations

import itertools

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import make_source, run_plan
from lib.world import Spec, Tab

PROP = "C22"
NAMES = {3: ["test.b", "other.a", "test.a"], 4: ["test.b", "other.b", "test.a", "other.a"]}

# select, ignore, passthrough, target
ROLES = {"all": list(itertools.product([0, 1], repeat=4)),
         "most": [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (1, 0, 1, 0), (0, 1, 1, 0),
                  (1, 0, 0, 1), (0, 0, 0, 1), (1, 1, 0, 1), (0, 0, 1, 1)],
         "some": [(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0, 1), (0, 0, 0, 1), (0, 1, 0, 0)],
         "few": [(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0, 1)]}


def reach(start, edges):
    out, todo = set(start), list(start)
    while todo:
        u = todo.pop()
        for a, b in edges:
            if a == u and b not in out:
                out.add(b)
                todo.append(b)
    return out


def connected(start, nodes, edges):
    both = {(a, b) for a, b in edges if a in nodes and b in nodes}
    return reach(start, both | {(b, a) for a, b in both})


def expected(tables, real, kept, select, ignore, passthrough, targets, deps):
    """The planned tables, or None if the configuration is to be refused."""
    through = passthrough & tables
    chosen = (select | through) & tables
    if deps:
        chosen = reach(chosen, real)
    kept = {(a, b) for a, b in kept if a in chosen}
    if deps and any(b in ignore and a not in ignore for a, b in kept):
        return None
    if any(a in through and b not in through for a, b in kept):
        return None
    nodes = chosen - ignore - through
    if not targets <= nodes:
        return None
    return through | connected(targets, nodes, kept)


def named(query):
    """Tables read by a query of the plan."""
    found, stack = set(), [query]
    while stack:
        x = stack.pop()
        if hasattr(x, "table_schema"):
            found.add(f"{x.table_schema}.{x.table_name}")
        elif hasattr(type(x), "model_fields"):
            stack.extend(getattr(x, f) for f in type(x).model_fields)
        elif isinstance(x, (list, tuple)):
            stack.extend(x)
        elif isinstance(x, dict):
            stack.extend(x.values())
    return found


def schema(tables, edges):
    tabs = []
    for t in tables:
        refs = [b for a, b in sorted(edges) if a == t]
        tabs.append(Tab(t, "id", *(f"{b.replace('.', '_')}?" for b in refs),
                        fks=[f"{b.replace('.', '_')}->{b}(id)" for b in refs]))
    return Spec(*tabs)


def judge(ctx, spec, conf, want, ignore, detail, targets, dialect="sqlite"):
    engine = make_source(ctx, spec, {t: world.sym_rel(ctx, tab, 0) for t, tab in spec.tabs.items()}, dialect, "rel",
                         world.Log())
    plan = exc = None
    try:
        plan = run_plan(engine, conf)
    except ValueError as e:
        exc = e
    except Exception as e:  # pylint: disable=broad-except
        ctx.fail("planning succeeds or is refused", f"{type(e).__name__}: {e} {detail}"[:300])
    finally:
        if ctx.concrete and hasattr(engine, "dispose"):
            engine.dispose()
    if want is None:
        ctx.check("configurations that would break foreign keys are refused", plan is None, detail)
        ctx.check("the refusal says why", any(t in str(exc) or t.split(".")[1] in str(exc) for t in spec.tabs)
                  or any(t in str(exc) for t in targets), str(exc))
        ctx.witness("refused")
        return None
    ctx.check("other configurations are planned", exc is None, f"{detail}: {exc}")
    ctx.check("the tables planned are exactly those selected", set(plan.queries) == want, f"{detail}: {sorted(plan.queries)}")
    ctx.check("passthrough tables are marked as such", set(plan.passthrough) == want & set(conf["passthrough"]), detail)
    read = set().union(*(named(q) for q in plan.queries.values())) if plan.queries else set()
    ctx.check("ignored tables are never read", not (read & ignore - set(plan.passthrough)), f"{detail}: {sorted(read)}")
    ctx.check("queries read planned tables only", read <= set(plan.queries), f"{detail}: {sorted(read)}")
    ctx.witness("planned", bool(want))
    return plan


def graph(ctx, n, topo, roles, deps, edits=False, few=False):
    """Every acyclic graph and every assignment of roles."""
    names = NAMES[n]
    edges = set()
    for i, j in itertools.permutations(range(n), 2):
        if topo.index(i) < topo.index(j) and ctx.bool(f"{names[i]}->{names[j]}"):
            edges.add((names[i], names[j]))
    role = {t: ctx.choose(f"role of {t}", ROLES[roles]) for t in names}
    select, ignore, passthrough, targets = ({t for t in names if role[t][k]} for k in range(4))
    if not targets and not (passthrough and n == 3) or few and (len(targets) > 1 or len(ignore) > 1 or len(passthrough) > 1):
        raise symx.Infeasible()
    kept = set(edges)
    conf = dict(select=sorted(select), ignore=sorted(ignore), passthrough=sorted(passthrough),
                targets={t: {"all": True} for t in sorted(targets)}, include_dependencies=deps)
    if edits:
        gone = ctx.choose("ignored foreign key", [None, *sorted(edges)])
        pairs = [(names[i], names[j]) for i, j in itertools.permutations(range(n), 2) if topo.index(i) < topo.index(j)]
        more = ctx.choose("extra foreign key", [None, *pairs])
        if gone:
            kept -= {gone}
            conf["ignore_fks"] = [dict(src_table=gone[0], dst_table=gone[1])]
        real = set(edges)
        tables = set(names)
        start = (select | passthrough) & tables
        got = reach(start, real) if deps else start
        if deps and gone and reach(start, kept) != got:
            raise symx.Infeasible()  # are tables behind an ignored foreign key selected?
        if more:
            if more[0] in got and more[1] in got:
                kept.add(more)
            conf["extra_fks"] = [dict(src_table=more[0], src_columns=["id"], dst_table=more[1], dst_columns=["id"])]
    want = expected(set(names), edges, kept, select, ignore, passthrough, targets, deps)
    judge(ctx, schema(names, edges), conf, want, ignore, f"{sorted(edges)} {role}", targets)


# ------------------------------------------------------------------------------------------------- names
LIKE = ["test.a", "test.ab", "test.a*", "test.A", "test.a[b]", "tests.a", "tes.ta", "test.a?", "test.b a"]
PATTERNS = ["test.a", "test.*", "test.a*", "*.a", "*", "test.a?", "test.[ab]", "test.[!a]*", "test.a[*]", "t*.*a", "test.A",
            "test.a[[]b]", "nothing.*", "*a", "test"]


def glob_match(name, pat):
    """Shell patterns."""
    if not pat:
        return not name
    c = pat[0]
    if c == "*":
        return any(glob_match(name[i:], pat[1:]) for i in range(len(name) + 1))
    if c == "[":
        neg = pat[1:2] == "!"
        start = 2 if neg else 1
        end = pat.find("]", start + 1)
        if end > 0:
            if not name:
                return False
            return (name[0] in pat[start:end]) != neg and glob_match(name[1:], pat[end + 1:])
    return bool(name) and (c == "?" or c == name[0]) and glob_match(name[1:], pat[1:])


def patterns(ctx, how):
    """Selection is by pattern, everything else by name."""
    spec = Spec(*(Tab(t, "id", "r?", fks=["r->other.z(id)"] if t == "test.ab" else []) for t in LIKE), Tab("other.z", "id"))
    names = [*LIKE, "other.z"]
    select, ignore, passthrough = ["other.y"], [], []
    if how == "select":
        select = [ctx.choose("pattern", PATTERNS), ctx.choose("another pattern", ["other.y", *PATTERNS])]
    else:
        select = ["*"]
        name = ctx.choose("name", [*names, "test.*", "*.a", "test.missing", "TEST.a"])
        if how == "ignore":
            ignore = [name]
        else:
            passthrough = [name]
            select = [ctx.choose("pattern", ["test.a", "test.a*", "other.y"])]
    chosen = {t for t in names if any(glob_match(t, p) for p in select)}
    target = ctx.choose("target", names)
    edges = {("test.ab", "other.z")}
    want = expected(set(names), edges, edges, chosen, set(ignore), set(passthrough), {target}, True)
    judge(ctx, spec, dict(select=select, ignore=ignore, passthrough=passthrough, targets={target: {"all": True}}), want,
          set(ignore), f"{select} {ignore} {passthrough} {target}", {target}, "postgresql")


def build(tier):
    deep = tier == "thorough"
    hs = []
    for k, topo in enumerate(itertools.permutations(range(3))):
        for deps in (True, False):
            if deep or k == (4 if deps else 5):
                hs.append(Harness(f"3 tables/{k}/{'closed' if deps else 'open'}", graph, dict(
                    n=3, topo=topo, roles="all" if deep and k in (0, 3, 4) else "most", deps=deps), validate=2))
            if deep or k == (3 if deps else 1):
                hs.append(Harness(f"edited foreign keys/{k}/{'closed' if deps else 'open'}", graph, dict(
                    n=3, topo=topo, roles="some" if deep else "few", deps=deps, edits=True), validate=2))
    for topo in [(0, 1, 2, 3), (3, 1, 2, 0), (2, 3, 0, 1), (1, 0, 3, 2)][:2 if deep else 1]:
        hs.append(Harness(f"4 tables/{topo}", graph, dict(n=4, topo=topo, roles="few", deps=True,
                                                              few=not deep), validate=2))
    for how in ("select", "ignore", "passthrough"):
        hs.append(Harness(f"names/{how}", patterns, dict(how=how), validate=2))
    return Check(PROP, hs,
                 bounds={"tables": "every acyclic graph of 3 tables with combinations of being selected, ignored, passed "
                                   "through and targeted; of 4 tables in 1 (thorough 2) topological orders with 5 roles",
                         "foreign keys": "one ignored, one extra", "names": LIKE, "patterns": PATTERNS},
                 assumptions=["a kept foreign key into an ignored table is refused only while referenced tables are pulled in"],
                 outside=["cycles (see C03)", "tables reachable only through a foreign key that is itself ignored"])
