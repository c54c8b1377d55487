"""C08: merging never collides and keeps foreign keys intact."""
from __future__ import annotations

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Cell, same, same_row
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.trace import Claims, copies, is_copy, present, tagged
from lib.world import Col, Fk, Spec, Tab

PROP = "C08"
T = Tab
ALL = {"all": True}
IN = {"in": {"s": [1]}}


def S(name, spec, targets, k=2, dk=1, planner=None, sampler=None, passthrough=(), inferred=(), dest=None, remap=(),
      dialects=("sqlite", "mysql", "postgresql"), settings=({},), **kw):
    return dict(name=name, spec=spec, targets=targets, k=k, dk=dk, planner=planner or {}, sampler=sampler or {},
                passthrough=list(passthrough), inferred=list(inferred), dest=dest or spec, remap=list(remap),
                dialects=dialects, settings=list(settings), **kw)


TWO = Spec(T("test.users", "id", "s?", "tag~"),
           T("test.orders", "id", "user_id?", "s~?", "tag~", fks=["user_id->test.users(id)"]))
PASS = Spec(T("test.countries", "id", "s~?", "tag~"),
            T("test.users", "id", "country_id?", "s?", "tag~", fks=["country_id->test.countries(id)"]),
            T("test.orders", "id", "user_id", "country_id?", "s~?", "tag~",
              fks=["user_id->test.users(id)", "country_id->test.countries(id)"]))


def dest_of(spec, names):
    """the same schema under other table names"""
    tabs = []
    for t in spec.tabs.values():
        n = Tab(names.get(t.full, t.full), pk=t.pk, uniques=t.uniques)
        n.cols = list(t.cols)
        n.fks = [Fk(f.cols, names.get(f.dst, f.dst), f.dst_cols) for f in t.fks]
        tabs.append(n)
    return Spec(*tabs)


SCENARIOS = [
    S("two", TWO, [{"test.users": ALL, "test.orders": ALL}, {"test.users": IN}, {"test.orders": ALL}],
      settings=[{}, {"compact": {"primary_keys": True, "start_key": 0}}, {"multiplicity": {"multiplier": 2}},
                {"filters": {"test.users": [{"op": "null", "columns": ["s"]}]}}]),
    S("key is a foreign key", Spec(T("test.users", "id", "s?", "tag~"),
                                   T("test.profiles", "id", "s~?", "tag~", fks=["id->test.users(id)"]),
                                   T("test.pics", "id", "profile_id", "s~?", "tag~",
                                     fks=["profile_id->test.profiles(id)"])),
      [{"test.users": ALL, "test.profiles": ALL, "test.pics": ALL}, {"test.pics": ALL}],
      k={"test.users": 2, "*": 1}, settings=[{}, {"compact": {"columns": {"test.users": ["id"]}}}]),
    S("long chain", Spec(T("test.d", "id", "c_id", "tag~", fks=["c_id->test.c(id)"]),
                         T("test.c", "id", "tag~", fks=["id->test.b(id)"]),
                         T("test.b", "id", "tag~", fks=["id->test.a(id)"]), T("test.a", "id", "tag~")),
      [{"test.a": ALL}, {"test.d": ALL}], k=1),
    S("pairs", Spec(T("test.users", "id", "s?", "tag~"), T("test.groups", "id", "tag~"),
                    T("test.members", "user_id", "group_id", "s~?", "tag~", pk="user_id,group_id",
                      fks=["user_id->test.users(id)", "group_id->test.groups(id)"]),
                    T("test.notes", "id", "u?", "g?", "tag~", fks=["u,g->test.members(user_id,group_id)"])),
      [{"test.users": ALL, "test.members": ALL}, {"test.groups": ALL}], k={"test.members": 2, "test.users": 2, "*": 1}),
    S("passthrough", PASS, [{"test.users": ALL, "test.orders": ALL}, {"test.orders": ALL}],
      planner={"passthrough": ["test.countries"]}, passthrough=["test.countries"],
      k={"test.countries": 2, "*": 1}, settings=[{}, {"compact": {"primary_keys": True}}]),
    S("passthrough chain", Spec(T("test.zones", "id", "s~?", "tag~"),
                                T("test.countries", "id", "zone_id", "s~?", "tag~",
                                  fks=["zone_id->test.zones(id)"]),
                                T("test.users", "id", "country_id", "zone_id?", "tag~",
                                  fks=["country_id->test.countries(id)", "zone_id->test.zones(id)"])),
      [{"test.users": ALL}], planner={"passthrough": ["test.countries", "test.zones"]},
      passthrough=["test.zones", "test.countries"], k=1),
    S("parallel", Spec(T("test.users", "id", "tag~"),
                       T("test.mails", "id", "from_id?", "to_id?", "tag~",
                         fks=["from_id->test.users(id)", "to_id->test.users(id)"])),
      [{"test.users": ALL, "test.mails": ALL}, {"test.mails": ALL}], k={"test.users": 2, "*": 1}),
    S("self reference", Spec(T("test.staff", "id", "boss_id?", "tag~", fks=["boss_id->test.staff(id)"])),
      [{"test.staff": ALL}], dest=Spec(T("test.staff", "id", "boss_id?", "tag~")), planner={"ignore_fks": [{"src_table": "test.staff", "dst_table": "test.staff"}]}),
    S("cross schema", Spec(T("one.users", "id", "s?", "tag~"),
                           T("two.users", "id", "user_id?", "tag~", fks=["user_id->one.users(id)"])),
      [{"one.users": ALL, "two.users": ALL}], dialects=("sqlite", "mysql")),
    S("renamed", TWO, [{"test.users": ALL, "test.orders": ALL}], dest=dest_of(
        TWO, {"test.users": "out.people", "test.orders": "out.users"}),
      remap=[{"search": r"test\.users", "replace": "out.people"}, {"search": r"test\.orders", "replace": "out.users"}]),
    S("renamed passthrough", PASS, [{"test.orders": ALL}], dest=dest_of(
        PASS, {"test.countries": "out.lands", "test.users": "out.countries", "test.orders": "out.users"}),
      remap=[{"search": r"test\.users", "replace": "out.XX"}, {"search": r"test\.countries", "replace": "out.lands"},
             {"search": r"out\.XX", "replace": "out.countries"}, {"search": r"test\.orders", "replace": "out.users"}],
      planner={"passthrough": ["test.countries"]}, passthrough=["test.countries"], k=1),
    S("inferred", Spec(T("test.users", "user_id", "s?", "tag~"), T("test.orders", "order_id", "user_id?", "tag~")),
      [{"test.users": ALL, "test.orders": ALL}], planner={"infer_foreign_keys": "schema"},
      sampler={"infer_foreign_keys": "schema"}, inferred=[("test.orders", Fk(["user_id"], "test.users", ["user_id"]))]),
    S("unrelated numbers", Spec(T("test.users", "id", "nr?", "s?", "tag~"),
                                T("test.orders", "id", "user_id?", "nr", "tag~", fks=["user_id->test.users(id)"])),
      [{"test.users": ALL, "test.orders": ALL}], k=1),
    S("not in the plan", Spec(T("test.zones", "id", "tag~"), T("test.users", "id", "zone_id?", "tag~",
                                                                fks=["zone_id->test.zones(id)"])),
      [{"test.users": ALL}], planner={"ignore": ["test.zones"], "ignore_fks": [
          {"src_table": "test.users", "dst_table": "test.zones"}]}, k=1, partial=True),
]
STRATEGIES = ["error", "skip", "replace"]


def dest_name(sc, table):
    import re

    for r in sc["remap"]:
        table = re.sub(r["search"], r["replace"], table)
    return table


def scenario(ctx, sc, dialect):
    targets = ctx.choose("targets", sc["targets"])
    setting = ctx.choose("settings", sc["settings"])
    strategy = ctx.choose("conflict strategy", STRATEGIES if setting == {} and sc["name"] == "two" else STRATEGIES[:1])
    spec = sc["spec"]
    planner = dict({"select": [f"{s}.*" for s in spec.schemas]}, targets=targets, **sc["planner"])
    sampler = dict(sc["sampler"], **setting)
    full = ctx.flag("no row missing") if sc.get("partial") else True
    rels = tagged(ctx, spec, sc["k"], extra=sc["inferred"], full=full, pk_lo=0)
    dest_rels = tagged(ctx, sc["dest"], sc["dk"], prefix="dest:", base=2000, pk_lo=0,
                       extra=[(dest_name(sc, t), Fk(f.cols, dest_name(sc, f.dst), f.dst_cols))
                              for t, f in sc["inferred"]])
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, spec, rels, planner, sampler, dialect, dest=sc["dest"], dest_rels=dest_rels,
        output={"merge": True, "conflict_strategy": strategy, "remap": sc["remap"]}))
    base = transfer(ctx, spec, rels, planner, {k: v for k, v in sampler.items() if k == "infer_foreign_keys"}, dialect,
                    directory=True, plan=run.plan)
    claims = Claims(ctx)
    verify(ctx, claims, sc, run, base, setting.get("multiplicity", {}).get("multiplier", 1), setting)
    claims.flush()


def verify(ctx, claims, sc, run, base, m, setting):
    spec = sc["spec"]
    edges = [(t.full, f) for t in spec.tabs.values() for f in t.fks] + sc["inferred"]
    changed = {"test.users": {"s"}} if "filters" in setting else {}
    for t in spec.tabs.values():
        dt = dest_name(sc, t.full)
        out = run.out[dt]
        before = run.before[dt]
        through = t.full in sc["passthrough"]
        for r in before.rows:
            n = Sum(B2I(And(o.g, same_row(o.cells, r.cells))) for o in out.rows)
            claims.check("rows already in the destination are left untouched", Implies(r.g, Eq(n, 1)), dt, witness=r.g)
        for i, a in enumerate(out.rows):
            for b in out.rows[:i]:
                claims.check("identifiers are distinct",
                             Not(And(a.g, b.g, *(Eq(out.cell(a, c).val, out.cell(b, c).val) for c in t.pk))), dt)
        if t.full not in run.plan.queries:
            claims.check("tables outside the plan are not written", Eq(out.count(), before.count()), dt)
            continue
        src = run.src[t.full]
        sampled = base.out[t.full]
        for o in out.rows:
            known = [is_copy(out, o, src, r) for r in src.rows] + [is_copy(out, o, before, r) for r in before.rows]
            claims.check("only sampled rows are added", Implies(o.g, Or(*known)), dt)
        for r in src.rows:
            here = present(sampled, src, r)
            cs = copies(out, src, r)
            n = Sum(B2I(c) for _, c in cs)
            if through:
                exists = Or(*(And(b.g, *(Eq(before.cell(b, c).val, src.cell(r, c).val) for c in t.pk))
                              for b in before.rows))
                claims.check("passthrough rows are inserted where their key is not present yet",
                             Implies(here, Eq(n, symx.Ite(exists, 0, 1))), dt, witness=And(here, Not(exists)))
                claims.check("passthrough rows are unshifted",
                             And(*(Implies(c, same_row(o.cells, r.cells)) for o, c in cs)), dt)
                continue
            claims.check("every sampled row is merged", Implies(here, Eq(n, m)), dt, witness=here)
            claims.check("only sampled rows are merged", Implies(Not(here), Eq(n, 0)), dt)
            for o, c in cs:
                for b in before.rows:
                    claims.check("no identifier of the destination is reused", Not(And(
                        c, b.g, *(Eq(before.cell(b, x).val, out.cell(o, x).val) for x in t.pk))), dt,
                        witness=And(c, b.g))
                row_claims(claims, sc, run, edges, t, src, r, out, o, c, dt, m, changed.get(t.full, ()))


def row_claims(claims, sc, run, edges, t, src, r, out, o, c, dt, m, changed):
    keys = set(t.pk)
    for full, f in edges:
        if full != t.full:
            continue
        nulls = Or(*(src.cell(r, x).null for x in f.cols))
        keys |= set(f.cols) if f.dst in run.plan.queries else set()
        for x in f.cols:
            claims.check("NULL foreign keys stay NULL", Implies(And(c, src.cell(r, x).null), out.cell(o, x).null),
                         f"{dt} {f}")
        if f.dst not in run.plan.queries:
            continue
        dd = dest_name(sc, f.dst)
        psrc, pout = run.src[f.dst], run.out[dd]
        ok = nulls
        if f.dst in sc["passthrough"]:
            claims.check("foreign keys to passthrough tables are unshifted",
                         Implies(c, And(*(same(src.cell(r, x), out.cell(o, x)) for x in f.cols))), f"{dt} {f}")
            ok = Or(ok, *(And(p.g, world.refers(out, o, f.cols, pout, p, f.dst_cols)) for p in pout.rows))
        else:
            for p in psrc.rows:
                ref = And(p.g, world.refers(src, r, f.cols, psrc, p, f.dst_cols))
                for q, qc in copies(pout, psrc, p):
                    ok = Or(ok, And(ref, qc, world.refers(out, o, f.cols, pout, q, f.dst_cols)))
        if (t.full, f.dst) in sc.get("loose", ()):
            continue
        claims.check("foreign keys refer to the merged copy of their row", Implies(c, ok), f"{dt} {f}",
                     witness=And(c, Not(nulls)))
    for col in t.cols:
        if col.name not in keys and col.name not in changed:
            claims.check("other columns are unchanged", Implies(c, same(src.cell(r, col.name), out.cell(o, col.name))),
                         f"{dt}.{col.name}")


def build(tier):
    hs = []
    for sc in SCENARIOS:
        for d in sc["dialects"]:
            if tier == "quick" and d == "postgresql" and sc["name"] not in ("two", "renamed passthrough"):
                continue
            if tier == "quick" and d == "mysql" and sc["name"] not in ("two", "passthrough", "cross schema"):
                continue
            hs.append(Harness(f"{sc['name']}/{d}", scenario, dict(sc=sc, dialect=d)))
    return Check(PROP, hs,
                 bounds={"rows": "up to 2 per source table, up to 1 (or none) per destination table; keys, foreign "
                                 "keys, NULLs, criteria symbolic", "schemas": [s["name"] for s in SCENARIOS],
                         "dialects": ["sqlite", "mysql", "postgresql"]},
                 assumptions=["keys are integers >= 0 (documented)", "source and destination satisfy their keys and "
                              "foreign keys"],
                 outside=["tables whose primary key is not a single integer nor made of foreign keys (documented as not "
                          "mergeable)", "tables whose primary key is a foreign key to a passthrough table",
                          "unique columns that are not keys"])
