"""C09: multiplicity makes disjoint, self-consistent copies."""
from __future__ import annotations

from lib import sampling, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Cell, same
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.trace import Claims, copies, is_copy, present, tagged
from lib.world import Col, Fk, Spec, Tab
from checks.c08 import PASS, TWO

PROP = "C09"
T = Tab
ALL = {"all": True}
IN = {"in": {"s": [1]}}


def S(name, spec, targets, k=2, planner=None, sampler=None, inferred=(), mult=({},), settings=({},), refused=False,
      dest=None):
    return dict(dest=dest, name=name, spec=spec, targets=targets, k=k, planner=planner or {}, sampler=sampler or {},
                inferred=list(inferred), mult=list(mult), settings=list(settings), refused=refused)


SCENARIOS = [
    S("two", TWO, [{"test.users": ALL, "test.orders": ALL}, {"test.users": IN}, {"test.orders": ALL}],
      mult=[{}, {"ignore_tables": ["test.orders", "test.users"]}, {"extra_columns": {"test.orders": ["user_id"]}}],
      settings=[{}, {"compact": {"primary_keys": True, "start_key": 0}},
                {"filters": {"test.orders": [{"op": "null", "columns": ["user_id"]}],
                             "test.users": [{"op": "omit", "columns": ["s"]}]}},
                {"filters": {"test.orders": [{"op": "omit", "columns": ["s"]}]}}]),
    S("leaf ignored", TWO, [{"test.users": ALL, "test.orders": ALL}], mult=[{"ignore_tables": ["test.users"]}], k=2),
    S("parent multiplied only", TWO, [{"test.users": ALL, "test.orders": ALL}],
      mult=[{"ignore_tables": ["test.orders"]}], k=1, refused=True),
    S("key is a foreign key", Spec(T("test.pics", "id", "profile_id", "s~?", "tag~",
                                     fks=["profile_id->test.profiles(id)"]),
                                   T("test.profiles", "id", "s~?", "tag~", fks=["id->test.users(id)"]),
                                   T("test.users", "id", "s?", "tag~")),
      [{"test.users": ALL, "test.profiles": ALL, "test.pics": ALL}, {"test.pics": ALL}],
      k={"test.users": 2, "*": 1}, settings=[{}, {"compact": {"columns": {"test.users": ["id"]}}}]),
    S("chain of keys", Spec(T("test.d", "nr", "c", "tag~", fks=["c->test.c(c)"], pk="nr"),
                            T("test.c", "c", "tag~", fks=["c->test.b(b)"]),
                            T("test.b", "b", "tag~", fks=["b->test.a(a)"]), T("test.a", "a", "tag~")),
      [{"test.a": ALL}, {"test.d": ALL}], k=1,
      mult=[{}, {"ignore_primary_key_columns": {"test.c": ["c"], "test.b": ["b"]}}]),
    S("pairs", Spec(T("test.users", "id", "s?", "tag~"), T("test.groups", "id", "tag~"),
                    T("test.members", "user_id", "group_id", "s~?", "tag~", pk="user_id,group_id",
                      fks=["user_id->test.users(id)", "group_id->test.groups(id)"]),
                    T("test.notes", "id", "u?", "g?", "tag~", fks=["u,g->test.members(user_id,group_id)"])),
      [{"test.users": ALL, "test.members": ALL}, {"test.groups": ALL}], k={"test.members": 2, "test.users": 2, "*": 1},
      mult=[{}, {"ignore_primary_key_columns": {"test.members": ["user_id"]}}]),
    S("settings", Spec(T("test.users", "id", "s?", "tag~"),
                       T("test.prefs", "user_id", "key", "val?", "tag~", pk="user_id,key",
                         fks=["user_id->test.users(id)"])),
      [{"test.users": ALL, "test.prefs": ALL}], k={"test.users": 1, "*": 2},
      mult=[{}, {"ignore_primary_key_columns": {"test.prefs": ["key"]}},
            {"ignore_primary_key_columns": {"test.prefs": ["key"]}, "extra_columns": {"test.prefs": ["val"]}}]),
    S("passthrough", PASS, [{"test.users": ALL, "test.orders": ALL}, {"test.orders": ALL}],
      planner={"passthrough": ["test.countries"]}, k={"test.countries": 2, "*": 1},
      settings=[{}, {"compact": {"primary_keys": True}}]),
    S("parallel", Spec(T("test.users", "id", "tag~"),
                       T("test.mails", "id", "from_id?", "to_id?", "tag~",
                         fks=["from_id->test.users(id)", "to_id->test.users(id)"])),
      [{"test.users": ALL, "test.mails": ALL}], k={"test.users": 2, "*": 1}),
    S("other key", Spec(T("test.users", "id", "code", "s?", "tag~"),
                        T("test.logs", "id", "code?", "user_id?", "tag~",
                          fks=["code->test.users(code)", "user_id->test.users(id)"])),
      [{"test.users": ALL, "test.logs": ALL}], k=1,
      mult=[{}, {"extra_columns": {"test.users": ["code"]}}]),
    S("inferred", Spec(T("test.users", "user_id", "s?", "tag~"), T("test.orders", "order_id", "user_id?", "tag~")),
      [{"test.users": ALL, "test.orders": ALL}], planner={"infer_foreign_keys": "schema"},
      sampler={"infer_foreign_keys": "schema"}, inferred=[("test.orders", Fk(["user_id"], "test.users", ["user_id"]))]),
    S("self reference", Spec(T("test.staff", "id", "boss_id?", "tag~", fks=["boss_id->test.staff(id)"])),
      [{"test.staff": ALL}], dest=Spec(T("test.staff", "id", "boss_id?", "tag~")), planner={"ignore_fks": [{"src_table": "test.staff", "dst_table": "test.staff"}]}),
    S("keyless", Spec(T("test.users", "id", "s?", "tag~"),
                      T("test.logs", "user_id?", "s~?", "tag~", pk="", fks=["user_id->test.users(id)"])),
      [{"test.users": ALL, "test.logs": ALL}], k={"test.users": 1, "*": 2}),
    S("nothing to map", Spec(T("test.users", "id", "s?", "tag~"), T("test.logs", "s?", "tag~", pk="")),
      [{"test.users": ALL, "test.logs": ALL}], mult=[{}, {"ignore_tables": ["test.logs"]}]),
    S("text key", Spec(T("test.users", "name:text", "s?", "tag~")), [{"test.users": ALL}], k=1, refused=True),
    S("text key ignored", Spec(T("test.users", "name:text", "s?", "tag~"), T("test.orders", "id", "user:text?", "tag~",
                                                                            fks=["user->test.users(name)"])),
      [{"test.users": ALL, "test.orders": ALL}], k=1, mult=[{"ignore_tables": ["test.users"]}]),
    S("cross schema", Spec(T("one.users", "id", "s?", "tag~"),
                           T("two.users", "id", "user_id?", "tag~", fks=["user_id->one.users(id)"])),
      [{"one.users": ALL, "two.users": ALL}], k=1,
      mult=[{}, {"ignore_tables": ["one.users"]}]),
]
OUTPUTS = ["directory", "database"]


def multiplied(sc, mult, plan):
    """{table: columns} as documented; tables that are copied are its keys."""
    exempt = set(plan.passthrough) | set(mult.get("ignore_tables", []))
    out = {}
    for t in sc["spec"].tabs.values():
        if t.full in plan.queries and t.full not in exempt:
            out[t.full] = (set(t.pk) - set(mult.get("ignore_primary_key_columns", {}).get(t.full, ()))
                           | set(mult.get("extra_columns", {}).get(t.full, ())))
    for _ in range(len(sc["spec"].tabs) * 3):
        for full, f in edges(sc):
            for c, d in zip(f.cols, f.dst_cols):
                if d in out.get(f.dst, ()):
                    out.setdefault(full, set()).add(c)
    return out, exempt


def edges(sc):
    return [(t.full, f) for t in sc["spec"].tabs.values() for f in t.fks] + sc["inferred"]


def scenario(ctx, sc, dialect):
    spec = sc["spec"]
    targets = ctx.choose("targets", sc["targets"])
    setting = ctx.choose("settings", sc["settings"])
    mult = ctx.choose("multiplicity", sc["mult"])
    m = ctx.choose("multiplier", [2, 3])
    output = ctx.choose("output", OUTPUTS)
    planner = dict({"select": [f"{s}.*" for s in spec.schemas]}, targets=targets, **sc["planner"])
    sampler = dict(sc["sampler"], **setting)
    rels = tagged(ctx, spec, sc["k"], extra=sc["inferred"], full=True, pk_lo=-5)
    run, exc = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, spec, rels, planner, {**sampler, "multiplicity": {"multiplier": m, **mult}}, dialect,
        dest=sc["dest"], directory=output == "directory"), allow=lambda e: sc["refused"] and isinstance(e, ValueError))
    if sc["refused"]:
        ctx.check("keys that cannot be multiplied are refused", exc is not None, sc["name"])
        ctx.witness("refused")
        return
    base = transfer(ctx, spec, rels, planner, sampler, dialect, plan=run.plan, dest=sc["dest"], directory=output == "directory")
    claims = Claims(ctx)
    verify(claims, sc, run, base, mult, m)
    claims.flush()


def verify(claims, sc, run, base, mult, m):
    spec = sc["spec"]
    cols, exempt = multiplied(sc, mult, run.plan)
    for t in spec.tabs.values():
        if t.full not in base.out:
            continue
        src, out, once = run.src[t.full], run.out[t.full], base.out[t.full]
        own = cols.get(t.full, set())
        n = 1 if t.full in exempt else m
        claims.check("the columns are the same", out.cols == once.cols, t.full)
        for o in out.rows:
            claims.check("only sampled rows are written", Implies(o.g, Or(*(is_copy(out, o, once, r)
                                                                           for r in once.rows))), t.full)
        for r in once.rows:
            cs = copies(out, once, r)
            claims.check("rows are written as often as configured",
                         Implies(r.g, Eq(Sum(B2I(c) for _, c in cs), n)), t.full, witness=r.g)
            for i in range(n):
                exact = Sum(B2I(And(c, *(same(out.cell(o, x), shifted(once.cell(r, x), x in own and n > 1, m, i))
                                         for x in out.cols))) for o, c in cs)
                claims.check("copies have their keys mapped and everything else verbatim", Implies(r.g, exact >= 1),
                             t.full, witness=r.g)
        if t.pk and (own & set(t.pk) or n == 1) and all(c in out.cols for c in t.pk):
            for i, a in enumerate(out.rows):
                for b in out.rows[:i]:
                    claims.check("no two rows share a key", Not(And(a.g, b.g, *(
                        Eq(out.cell(a, c).val, out.cell(b, c).val) for c in t.pk))), t.full)
    # consistency: the copy of the referenced row that carries the same number
    for full, f in edges(sc):
        if full not in base.out or f.dst not in base.out:
            continue
        if any(c not in base.out[full].cols for c in f.cols) or not all(d in cols.get(f.dst, ()) for d in f.dst_cols):
            continue
        once, out, ponce, pout = base.out[full], run.out[full], base.out[f.dst], run.out[f.dst]
        for o in out.rows:
            nonnull = And(o.g, *(Not(out.cell(o, c).null) for c in f.cols))
            ok = []
            for r in once.rows:
                for p in ponce.rows:
                    ref = And(is_copy(out, o, once, r), p.g, world.refers(once, r, f.cols, ponce, p, f.dst_cols))
                    if ref is False:
                        continue
                    for q, qc in copies(pout, ponce, p):
                        ok.append(And(ref, qc, world.refers(out, o, f.cols, pout, q, f.dst_cols)))
            if (full, f.dst) == ("test.staff", "test.staff"):
                pass
            claims.check("foreign keys refer to a copy of their row", Implies(nonnull, Or(*ok)), f"{full} {f}",
                         witness=nonnull)


def shifted(cell, on, m, i):
    if not on:
        return cell
    return Cell(cell.null, cell.val * m + i, "int")


def build(tier):
    hs = []
    for sc in SCENARIOS:
        for d in (["sqlite", "mysql", "postgresql"] if tier == "thorough" else ["sqlite"]):
            if d == "postgresql" and sc["name"] == "cross schema":
                pass
            hs.append(Harness(f"{sc['name']}/{d}", scenario, dict(sc=sc, dialect=d)))
    return Check(PROP, hs,
                 bounds={"rows": "up to 2 per table; keys (from -5), foreign keys, NULLs, criteria symbolic",
                         "multiplier": [2, 3], "schemas": [s["name"] for s in SCENARIOS]},
                 assumptions=["the source satisfies its keys and foreign keys", "the copies keep the order of the "
                              "documented formula: new = old * multiplier + copy"],
                 outside=["multipliers above 3"])
