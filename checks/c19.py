"""C19: inferred foreign keys are exactly the unambiguous matches."""
from __future__ import annotations

import itertools

from lib import sampling, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, make_source, run_plan, transfer
from lib.symsql import same
from lib.symx import And, B2I, Eq, Implies, Not, Or, Sum
from lib.trace import Claims, copies, tagged
from lib.world import Fk, Spec, Tab

PROP = "C19"
ALL = {"all": True}
# primary key, other columns
SHAPES = [("u_id", ()), ("o_id", ("u_id",)), ("id", ("u_id", "o_id")), ("u_id,o_id", ()), ("o_id", ("id",)), ("", ("u_id",)),
          ("id", ()), ("u_id", ("o_id",)), ("id", ("U_id", "o_id"))]
LAYOUTS = {"one schema": ["test.a", "test.b", "test.c"], "two schemas": ["test.a", "other.b", "test.c"],
           "same names": ["test.t", "other.t", "test.u"], "four": ["test.a", "other.a", "test.b", "other.b"]}


def unique_matches(tabs, mode):
    """The foreign keys that the names of columns stand for: [(table, column, referenced table)]."""
    out = []
    if mode == "none":
        return out
    for t in tabs:
        for c in t.colnames:
            found = [p for p in tabs if p.pk == (c,) and (mode == "all" or p.schema == t.schema)]
            if len(found) == 1 and found[0] is not t:
                out.append((t.full, c, found[0].full))
    return out


def table(full, shape, declared=()):
    pk, cols = shape
    return Tab(full, *(c for c in pk.split(",") if c), *(c + "?" for c in cols), "s?", "tag~", pk=pk, fks=list(declared))


def attempt(ctx, spec, conf):
    engine = make_source(ctx, spec, {t: world.sym_rel(ctx, tab, 0, distinct_rows=False) for t, tab in spec.tabs.items()},
                         "postgresql", "rel", world.Log())
    try:
        return run_plan(engine, conf), None
    except ValueError as exc:
        return None, exc
    except Exception as exc:  # pylint: disable=broad-except
        ctx.fail("planning succeeds or is refused", f"{type(exc).__name__}: {exc}"[:300])


def with_keys(spec, found):
    """The same tables with these foreign keys declared."""
    tabs = []
    for t in spec.tabs.values():
        n = Tab(t.full, pk=t.pk)
        n.cols = t.cols
        n.fks = list(t.fks)
        for a, c, b in found:
            if a == t.full and not any(f.cols == (c,) and f.dst == b and f.dst_cols == (c,) for f in t.fks):
                n.fks.append(Fk((c,), b, (c,)))
        tabs.append(n)
    return Spec(*tabs)


def references(query):
    """Sampled tables that a query refers to, as often as it does."""
    found, stack = [], [query]
    while stack:
        x = stack.pop()
        if getattr(x, "sampled", False):
            found.append(f"{x.table_schema}.{x.table_name}")
        if hasattr(type(x), "model_fields"):
            stack.extend(getattr(x, f) for f in type(x).model_fields)
        elif isinstance(x, (list, tuple)):
            stack.extend(x)
    return sorted(found)


def outputs(ctx, spec, plan, rels):
    """What a plan samples."""
    return sampling.simulate(ctx, spec, 1, None, {}, "postgresql", rels=rels, plan=plan).out


def plans(ctx, layout, mode, shapes):
    names = LAYOUTS[layout]
    chosen = [ctx.choose(f"shape of {n}", shapes) for n in names]
    tabs = [table(n, s) for n, s in zip(names, chosen)]
    declared = ctx.choose("declared", ["nothing", "a match", "something else"])
    first = next(((t, c, p) for t in tabs for c in t.colnames for p in tabs if p is not t and p.pk == (c,)), None)
    if declared != "nothing":
        if first is None:
            raise symx.Infeasible()
        t, c, p = first
        t.fks.append(Fk((c,), p.full, (c,) if declared == "a match" else (p.pk[0],)))
        if declared == "something else":
            t.fks[-1] = Fk(("s",), p.full, p.pk)
    spec = Spec(*tabs)
    deps = ctx.choose("select", ["all", "some"])
    select = ["*"] if deps == "all" else [n for n in names if n != names[-1]]
    if deps == "some" and first is not None and names[-1] in (first[0].full, first[2].full) and declared != "nothing":
        raise symx.Infeasible()
    inside = [t for t in tabs if t.full in select or deps == "all"]
    found = unique_matches(inside, mode)
    ignore = ctx.choose("ignored", [None, *found[:1]])
    conf = dict(select=select, include_dependencies=deps == "all",
                ignore_fks=[dict(src_table=ignore[0], dst_table=ignore[2])] if ignore else [])
    target = ctx.choose("targets", [[names[0]], [names[1]], [names[0], names[1]]])
    through = ctx.choose("passthrough", [[], [names[2]]]) if deps == "all" else []
    conf.update(targets={t: ALL if i else {"in": {"s": [1]}} for i, t in enumerate(target)}, passthrough=through)
    got, exc = attempt(ctx, spec, dict(conf, infer_foreign_keys=mode))
    want, why = attempt(ctx, with_keys(spec, found), dict(conf, infer_foreign_keys="none"))
    detail = f"{layout} {chosen} {mode} {declared} {deps} {target} {through} {ignore}"
    ctx.check("inference plans and refuses what declared foreign keys would", (got is None) == (want is None),
              f"{detail}: {exc} / {why}")
    ctx.witness("an inferred key", any(True for a, c, b in found) and got is not None)
    if got is None or want is None or got == want:
        return
    ctx.check("the same tables are planned", set(got.queries) == set(want.queries),
              f"{detail}: {sorted(got.queries)} / {sorted(want.queries)}")
    for t in got.queries:
        a, b = references(got.queries[t]), references(want.queries[t])
        ctx.check("no foreign key is duplicated", set(a) != set(b) or a == b, f"{detail}: {t}: {a} / {b}")
    rels = {t.full: world.sym_rel(ctx, t, 1, prefix="cmp:", distinct_rows=False) for t in spec.tabs.values()}
    a, b = (outputs(ctx, spec, plan, rels) for plan in (got, want))
    for t in a:
        ctx.check("the same rows are sampled", And(*(Eq(
            Sum(B2I(And(o.g, *(same(x, y) for x, y in zip(o.cells, r.cells)))) for o in a[t].rows),
            Sum(B2I(And(o.g, *(same(x, y) for x, y in zip(o.cells, r.cells)))) for o in b[t].rows))
            for r in [*a[t].rows, *b[t].rows])), detail)


SAMPLED = {
    "match": [("test.a", ("u_id", ())), ("test.b", ("o_id", ("u_id",)))],
    "two": [("test.a", ("u_id", ())), ("test.b", ("o_id", ("u_id",))), ("test.c", ("id", ("u_id", "o_id")))],
    "elsewhere": [("test.a", ("u_id", ())), ("other.b", ("o_id", ("u_id",)))],
    "ambiguous": [("test.a", ("u_id", ())), ("other.a", ("u_id", ())), ("test.b", ("o_id", ("u_id",)))],
    "ambiguous here": [("test.a", ("u_id", ())), ("test.aa", ("u_id", ())), ("test.b", ("o_id", ("u_id",)))],
    "composite": [("test.a", ("u_id", ())), ("test.b", ("o_id", ())), ("test.ab", ("u_id,o_id", ()))],
    "same column": [("test.a", ("id", ())), ("test.b", ("o_id", ("id",)))],
}
SETTINGS = [{"compact": {"primary_keys": True}}, {"multiplicity": {"multiplier": 2}}, {"merge": True}, {}]


def samples(ctx, layout, mode, dialect):
    """Renumbering follows inferred foreign keys just as it follows declared ones."""
    tabs = [table(n, s) for n, s in SAMPLED[layout]]
    declared = ctx.bool("declared")
    found = unique_matches(tabs, mode)
    if declared:
        every = unique_matches(tabs, "all")
        if not every:
            raise symx.Infeasible()
        t, c, p = every[0]
        next(x for x in tabs if x.full == t).fks.append(Fk((c,), p, (c,)))
    spec = Spec(*tabs)
    setting = ctx.choose("setting", SETTINGS)
    setting = dict(setting)
    if layout == "composite" and ("multiplicity" in setting or "merge" in setting):
        raise symx.Infeasible()
    output = {"merge": True} if setting.pop("merge", None) else {}
    rels = tagged(ctx, with_keys(spec, found), {tabs[0].full: 2, "*": 1}, full=True, pk_lo=0, pk_hi=20)
    dest = Spec(*(table(n, s) for n, s in SAMPLED[layout]))
    dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=5000, full=True, pk_lo=0, pk_hi=20) if output else {}
    queries = {n: dict(statement=dict(type_="select", from_=dict(table_schema=n.split(".")[0], table_name=n.split(".")[1])))
               for n, _ in SAMPLED[layout]}
    from subsetter.plan_model import SubsetPlan

    outs = []
    for sp, infer in ((spec, mode), (with_keys(spec, found), "none")):
        run, exc = guarded(ctx, "sampling succeeds", lambda: transfer(
            ctx, sp, rels, None, dict(setting, infer_foreign_keys=infer), dialect, dest=dest, dest_rels=dest_rels,
            output=output, plan=SubsetPlan(queries=queries)), allow=lambda e: isinstance(e, ValueError))
        outs.append(run)
    detail = f"{layout} {mode} {setting} {output} {declared}"
    ctx.check("sampling is refused just as with declared foreign keys", (outs[0] is None) == (outs[1] is None), detail)
    if outs[0] is None:
        return
    claims = Claims(ctx)
    for t in spec.tabs:
        a, b = outs[0].out[t], outs[1].out[t]
        for r in [*a.rows, *b.rows]:
            n = [Sum(B2I(And(o.g, *(same(x, y) for x, y in zip(o.cells, r.cells)))) for o in x.rows) for x in (a, b)]
            claims.check("keys are renumbered as with declared foreign keys", Eq(*n), f"{t} {detail}", witness=r.g)
    claims.flush()


def build(tier):
    deep = tier == "thorough"
    hs = []
    for layout, names in LAYOUTS.items():
        for mode in ("schema", "all", "none"):
            if layout == "four":
                if deep or mode == "schema":
                    hs.append(Harness(f"plans/{layout}/{mode}", plans, dict(layout=layout, mode=mode, shapes=[
                        SHAPES[i] for i in ((0, 1, 2, 6) if deep else (0, 1, 2))]), validate=1))
                continue
            if mode == "none" and not deep and layout != "one schema":
                continue
            shapes = SHAPES if deep else [SHAPES[i] for i in ((0, 1, 2, 3, 7) if mode != "none" else (0, 1, 2))]
            hs.append(Harness(f"plans/{layout}/{mode}", plans, dict(layout=layout, mode=mode, shapes=shapes), validate=1))
            if mode == "schema" and layout == "one schema":
                hs.append(Harness("plans/letter case", plans, dict(layout=layout, mode=mode, shapes=[
                    SHAPES[i] for i in (0, 4, 8)]), validate=1))
    for layout in SAMPLED:
        for i, mode in enumerate(("schema", "all", "none")):
            for d in ("sqlite", "mysql", "postgresql"):
                if deep or d == ("sqlite", "mysql", "postgresql")[(i + len(layout)) % 3]:
                    hs.append(Harness(f"samples/{layout}/{mode}/{d}", samples, dict(layout=layout, mode=mode, dialect=d),
                                      validate=1))
    return Check(PROP, hs,
                 bounds={"tables": "3 with every combination of the shapes, 4 with fewer", "shapes (key, other columns)": SHAPES,
                         "layouts": LAYOUTS, "sampled": list(SAMPLED), "rows": "up to 2"},
                 assumptions=["the tables in scope are those selected (planning) or planned (sampling)"],
                 outside=["a plan that lacks a table which made an inference ambiguous while planning, sampled with inference on"])
