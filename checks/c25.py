"""C25: passthrough tables are copied verbatim and in full."""
from __future__ import annotations

from lib import scenarios, sampling, world
from lib.runner import Check, Harness
from lib.sampling import check_subset_no_dups, guarded, in_output, transfer
from lib.symsql import Rel, Row, same, same_row
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.world import Fk, Spec, Tab

PROP = "C25"

FLAT = Spec(Tab("test.zones", "id", "s~?", "g:text~?"),
            Tab("test.countries", "id", "zone_id?", "s~?", fks=["zone_id->test.zones(id)"]),
            Tab("test.users", "id", "country_id?", "s~?", fks=["country_id->test.countries(id)"]))
LINK = Spec(Tab("test.zones", "id", "s~?", "g:text~?"), Tab("test.countries", "id", "s~?"),
            Tab("test.pairs", "zone_id", "country_id", "s~?", pk="zone_id,country_id",
                fks=["zone_id->test.zones(id)", "country_id->test.countries(id)"]),
            Tab("test.users", "id", "zone_id?", "country_id?", "s~?",
                fks=["zone_id->test.zones(id)", "country_id->test.countries(id)"]))
KEYLESS = Spec(Tab("test.zones", "s~?", "g:text~?", pk=""), Tab("test.users", "id", "s~?"))
SPECS = {
    "chain": (FLAT, ["test.zones", "test.countries"], "test.users"),
    "pairs": (LINK, ["test.zones", "test.countries", "test.pairs"], "test.users"),
    "keyless": (KEYLESS, ["test.zones"], "test.users"),
}
SETTINGS = [
    {},
    {"compact": {"primary_keys": True}},
    {"compact": {"auto_increment_keys": True, "start_key": 50}},
    {"compact": {"columns": {"test.zones": ["id"], "test.users": ["id"]}}},
    {"multiplicity": {"multiplier": 2}},
    {"multiplicity": {"multiplier": 3}, "compact": {"primary_keys": True}},
    {"multiplicity": {"multiplier": 2, "ignore_tables": ["test.users"]}},
    {"multiplicity": {"multiplier": 2, "extra_columns": {"test.zones": ["id"]}}},
    {"multiplicity": {"multiplier": 2, "ignore_primary_key_columns": {"test.users": ["id"]}}, "_strategy": "replace"},
    {"filters": {"test.users": [{"op": "null", "columns": ["s"]}]}},
]
OUTPUTS = ["directory", "database", "merge", "merge again", "renamed", "renamed merge"]
CRITS = [{"all": True}, {"in": {"s": [1]}}, {"amount": 1}, {"percent": 50}, {"in": {"s": []}}]


def verbatim(ctx, run, table, spec, out=None, filtered=()):
    src = run.src[table]
    out = out or run.out.get(table)
    if out is None:
        ctx.fail("passthrough table is written", table)
        return
    ctx.check("nothing but source rows is written",
              And(*(Implies(o.g, Or(*(And(r.g, same_row(r.cells, o.cells)) for r in src.rows))) for o in out.rows)),
              table, witness=Or(*(o.g for o in out.rows)))
    for r in src.rows:
        n = Sum(B2I(And(o.g, same_row(o.cells, r.cells))) for o in out.rows)
        ctx.check("every row is written once and unchanged", Implies(r.g, Eq(n, 1)), table, witness=r.g)


def settings(ctx, which, dialect):
    spec, passthrough, target = SPECS[which]
    output = ctx.choose("output", OUTPUTS)
    merge = "merge" in output
    sampler = ctx.choose("settings", [s for s in SETTINGS if which != "keyless" or "columns" not in
                                      s.get("compact", {})])
    sampler = dict(sampler)
    strategy = sampler.pop("_strategy", None)
    crit = ctx.choose("criteria", CRITS[:3])
    k = {target: 1}
    for t in passthrough:
        k[t] = 2 if t != "test.countries" or which == "pairs" else 1
    rels = sampling.source_rels(ctx, spec, k, full=True)
    planner = dict(select=["test.*"], targets={target: crit}, passthrough=passthrough)
    out_conf = {}
    dest_rels = {}
    dest = spec
    if strategy and output != "directory":
        out_conf["conflict_strategy"] = strategy
    renamed = "renamed" in output
    if merge:
        out_conf["merge"] = True
        # users that exist already
        dest_rels[target] = world.sym_rel(ctx, spec.tabs[target], 1, prefix="dest:", full=True)
        for c in [c for f in spec.tabs[target].fks for c in f.cols]:
            dest_rels[target].cell(dest_rels[target].rows[0], c).null = True
    if output == "merge again" and which != "keyless":
        # one of the rows has been copied before
        first = rels[passthrough[0]]
        dest_rels[passthrough[0]] = Rel(first.cols, [Row(first.rows[0].g, list(first.rows[0].cells))], first.kinds)
    if renamed:
        out_conf["remap"] = [{"search": r"^test\.", "replace": "copy.p_"}]
        name = lambda t: t.replace("test.", "copy.p_")
        dest = Spec(*(Tab(name(t.full), *t.cols, pk=",".join(t.pk), fks=[
            f"{','.join(f.cols)}->{name(f.dst)}({','.join(f.dst_cols)})" for f in t.fks]) for t in spec.tabs.values()))
        dest_rels = {name(t): r for t, r in dest_rels.items()}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, spec, rels, planner, sampler, dialect, dest=dest, dest_rels=dest_rels, output=out_conf,
        directory=output == "directory"))
    for t in passthrough:
        verbatim(ctx, run, t, spec, run.out.get(name(t)) if renamed else None)


def selection(ctx, which, dialect):
    """Whatever is selected and targeted, in every order of the tables."""
    spec, passthrough, target = SPECS[which]
    chosen = ctx.choose("passthrough", [passthrough, passthrough[:1]])
    crit = ctx.choose("criteria", CRITS)
    select = ctx.choose("select", [["test.*"], [target]])
    if len(chosen) != len(passthrough) and which == "pairs" and select != ["test.*"]:
        pass
    planner = dict(select=select, targets={target: crit}, passthrough=list(chosen))
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: sampling.simulate(
        ctx, spec, 2, planner, {}, dialect, scenarios.TEXT_PREDS))
    for t in chosen:
        verbatim(ctx, run, t, spec)
        ctx.check("listed as passthrough", t in run.plan.passthrough and t in run.plan.queries, t)


def filtered(ctx, dialect):
    """Configured filters are all that alters a passthrough table."""
    rels = sampling.source_rels(ctx, FLAT, {"test.zones": 2, "test.countries": 1, "test.users": 1}, full=True)
    planner = dict(select=["test.*"], targets={"test.users": {"all": True}},
                   passthrough=["test.zones", "test.countries"])
    sampler = {"filters": {"test.zones": [{"op": "constant", "columns": ["s"], "values": [5]}]},
               "multiplicity": {"multiplier": ctx.choose("multiplier", [1, 2])}}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, FLAT, rels, planner, sampler, dialect, directory=ctx.flag("directory")))
    verbatim(ctx, run, "test.countries", FLAT)
    src, out = rels["test.zones"], run.out["test.zones"]
    from lib.symsql import Rel, cell_of_py

    want = Rel(src.cols, [Row(r.g, [cell_of_py(5) if c == "s" else x for c, x in zip(src.cols, r.cells)])
                          for r in src.rows])
    run.src = {"test.zones": want}
    verbatim(ctx, run, "test.zones", FLAT, out)


def build(tier):
    ds = ["sqlite", "postgresql", "mysql"] if tier == "thorough" else ["sqlite", "mysql"]
    hs = []
    for d in ds:
        for w in SPECS:
            hs.append(Harness(f"settings/{w}/{d}", settings, dict(which=w, dialect=d)))
            hs.append(Harness(f"selection/{w}/{d}", selection, dict(which=w, dialect=d)))
        hs.append(Harness(f"filtered/{d}", filtered, dict(dialect=d)))
    return Check(PROP, hs,
                 bounds={"rows": "2 per passthrough table, 1 or 2 of the others; values, NULLs and draws symbolic",
                         "settings": SETTINGS, "outputs": OUTPUTS},
                 assumptions=["the source satisfies its keys and foreign keys"],
                 outside=["table constraints on passthrough tables", "other filters (see C10)"])
