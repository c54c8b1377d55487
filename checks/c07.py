"""C07: compaction renumbers keys densely and consistently."""
from __future__ import annotations

from lib import sampling, scenarios, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, simulate
from lib.symsql import Cell, NULL, Rel, Row, same
from lib.trace import Claims
from lib.symx import And, B2I, Eq, Iff, Implies, Ite, Not, Or, Sum
from lib.world import Col, Fk, Spec, Tab

PROP = "C07"
T = Tab


def S(name, spec, targets, compacts, planner=None, sampler=None, dialects=("sqlite", "mysql"), k=2, extra=(),
      inferred=(), ignored=()):
    return dict(name=name, spec=spec, targets=targets, compacts=compacts, planner=planner or {}, sampler=sampler or {},
                dialects=dialects, k=k, extra=list(extra), inferred=list(inferred), ignored=list(ignored))


PK = {"primary_keys": True}
AUTO = {"auto_increment_keys": True}


def cols(**kw):
    return {"columns": {t.replace("__", "."): c for t, c in kw.items()}}


IN = {"in": {"s": [1, 2]}}
PCT = {"percent": 50}
ONE = {"amount": 1}

SCENARIOS = [
    S("plain", Spec(T("test.users", "id", "s?", "tag~"),
                    T("test.orders", "id", "user_id?", "s?", "tag~", fks=["user_id->test.users(id)"])),
      [{"test.users": IN}, {"test.orders": IN}, {"test.users": PCT}, {"test.orders": ONE},
       {"test.users": ONE, "test.orders": IN}],
      [PK, AUTO, cols(test__users=["id"]), cols(test__orders=["id"]), {}], dialects=("sqlite", "mysql", "postgresql"),
      k=3),
    S("other columns", Spec(T("test.users", "id", "code", "nr?", "s?", "tag~", uniques=["code"]),
                            T("test.logs", "id", "code?", "user_id?", "s?", "tag~",
                              fks=["code->test.users(code)", "user_id->test.users(id)"])),
      [{"test.users": IN}, {"test.logs": IN}],
      [cols(test__users=["code"]), cols(test__users=["nr"]), cols(test__users=["id", "code"]),
       {**PK, **cols(test__users=["code", "nr"])}]),
    S("parallel", Spec(T("test.users", "id", "s?", "tag~"),
                       T("test.mails", "id", "from_id?", "to_id?", "s?", "tag~",
                         fks=["from_id->test.users(id)", "to_id->test.users(id)"])),
      [{"test.users": IN}, {"test.mails": IN}], [PK, cols(test__users=["id"])]),
    S("chain", Spec(T("test.users", "id", "s?", "tag~"),
                    T("test.profiles", "id", "s?", "tag~", fks=["id->test.users(id)"]),
                    T("test.pics", "id", "profile_id?", "s?", "tag~", fks=["profile_id->test.profiles(id)"])),
      [{"test.users": IN}, {"test.profiles": IN}, {"test.pics": IN}],
      [cols(test__users=["id"]), cols(test__users=["id"], test__pics=["id"])]),
    S("long chain", Spec(T("test.users", "id", "s?", "tag~"),
                         T("test.profiles", "id", "s?", "tag~", fks=["id->test.users(id)"]),
                         T("test.admins", "id", "s?", "tag~", fks=["id->test.profiles(id)"]),
                         T("test.acts", "id", "admin_id?", "s?", "tag~", fks=["admin_id->test.admins(id)"])),
      [{"test.users": IN}, {"test.admins": IN}], [cols(test__users=["id"])]),
    S("composite", Spec(T("test.parent", "a", "b", "s?", "tag~", pk="a,b"),
                        T("test.child", "id", "pa?", "pb?", "s?", "tag~", fks=["pa,pb->test.parent(a,b)"])),
      [{"test.parent": IN}, {"test.child": IN}],
      [cols(test__parent=["a"]), cols(test__parent=["b"]), cols(test__parent=["a", "b"])], k=3),
    S("composite leaf", Spec(T("test.users", "id", "s?", "tag~"),
                             T("test.items", "nr", "a", "b", "user_id?", "s?", "tag~", pk="a,b",
                               fks=["user_id->test.users(id)"])),
      [{"test.users": IN}, {"test.items": IN}],
      [cols(test__items=["nr"]), cols(test__items=["b"]), {**PK, **cols(test__items=["a"])}]),
    S("composite swapped", Spec(T("test.parent", "a", "b", "s?", "tag~", pk="b,a"),
                                T("test.child", "id", "pa?", "pb?", "s?", "tag~", fks=["pb,pa->test.parent(b,a)"])),
      [{"test.parent": IN}, {"test.child": IN}], [cols(test__parent=["a"]), cols(test__parent=["b"])]),
    S("passthrough", Spec(T("test.countries", "id", "s?", "tag~"),
                          T("test.users", "id", "country_id?", "s?", "tag~",
                            fks=["country_id->test.countries(id)"]),
                          T("test.orders", "id", "user_id?", "country_id?", "s?", "tag~",
                            fks=["user_id->test.users(id)", "country_id->test.countries(id)"])),
      [{"test.users": IN}, {"test.orders": IN}],
      [PK, AUTO, cols(test__countries=["id"]), cols(test__countries=["id"], test__users=["id"])],
      planner={"passthrough": ["test.countries"]}),
    S("cross schema", Spec(T("one.users", "id", "s?", "tag~"),
                           T("two.users", "id", "user_id?", "s?", "tag~", fks=["user_id->one.users(id)"])),
      [{"one.users": IN}, {"two.users": IN}],
      [PK, cols(one__users=["id"]), cols(two__users=["id"])], dialects=("sqlite", "mysql", "postgresql")),
    S("inferred", Spec(T("test.users", "user_id", "s?", "tag~"), T("test.orders", "order_id", "user_id?", "s?", "tag~")),
      [{"test.users": IN}, {"test.orders": IN}], [PK], planner={"infer_foreign_keys": "schema"},
      sampler={"infer_foreign_keys": "schema"},
      inferred=[("test.orders", Fk(["user_id"], "test.users", ["user_id"]))]),
    S("self reference", Spec(T("test.staff", "id", "boss_id?", "s?", "tag~", fks=["boss_id->test.staff(id)"]),
                             T("test.tasks", "id", "staff_id?", "s?", "tag~", fks=["staff_id->test.staff(id)"])),
      [{"test.staff": {"all": True}}, {"test.staff": IN}], [PK, cols(test__staff=["id"])],
      planner={"ignore_fks": [{"src_table": "test.staff", "dst_table": "test.staff"}]},
      ignored=[("test.staff", "test.staff")]),
    S("diamond", Spec(T("test.a", "id", "s?", "tag~"), T("test.b", "id", "a_id?", "s?", "tag~", fks=["a_id->test.a(id)"]),
                      T("test.c", "id", "a_id", "b_id?", "s?", "tag~",
                        fks=["a_id->test.a(id)", "b_id->test.b(id)"])),
      [{"test.a": IN}, {"test.c": IN}], [PK, cols(test__a=["id"]), cols(test__b=["id"], test__a=["id"])]),
    S("text key", Spec(T("test.users", "name:text", "nr", "s?", "tag~"),
                       T("test.orders", "id", "user:text?", "s?", "tag~", fks=["user->test.users(name)"])),
      [{"test.users": IN}, {"test.orders": IN}], [PK, AUTO, cols(test__users=["nr"])]),
    S("auto", Spec(T("test.users", Col("id", autoinc=False), "s?", "tag~"),
                   T("test.orders", "id", "user_id?", "s?", "tag~", fks=["user_id->test.users(id)"]),
                   T("test.items", "id", "order_id?", "s?", "tag~", fks=["order_id->test.orders(id)"])),
      [{"test.users": IN}, {"test.items": IN}], [AUTO, PK], dialects=("mysql",)),
    S("keyless", Spec(T("test.users", "id", "s?", "tag~", pk="", uniques=["id"]),
                      T("test.orders", "id", "user_id?", "s?", "tag~", fks=["user_id->test.users(id)"])),
      [{"test.users": IN}, {"test.orders": IN}], [cols(test__users=["id"]), PK]),
]


def tagged(ctx, sc):
    rels = {}
    n = 0
    for t in sc["spec"].tabs.values():
        rel = world.sym_rel(ctx, t, sc["k"], lo=0, hi=4)
        for r in rel.rows:
            n += 1
            r.cells[rel.idx("tag")] = Cell(False, 1000 + n, "int", opaque=True)
        rels[t.full] = rel
    world.assume_fks(ctx, sc["spec"], rels, [*sc["extra"], *sc["inferred"]])
    for full, f in edges(sc):
        if len(f.cols) > 1:  # keys are referenced completely or not at all
            for r in rels[full].rows:
                first = rels[full].cell(r, f.cols[0]).null
                ctx.assume(And(*(Iff(first, rels[full].cell(r, c).null) for c in f.cols[1:])))
    return rels


def edges(sc):
    return [(t.full, f) for t in sc["spec"].tabs.values() for f in t.fks] + sc["inferred"] + sc["extra"]


def compacted(sc, conf, passthrough):
    """{table: columns} as documented."""
    out = {}
    for t, cs in conf.get("columns", {}).items():
        if t not in passthrough and cs:
            out[t] = set(cs)
    for t in sc["spec"].tabs.values():
        if t.full in passthrough or len(t.pk) != 1 or t.col(t.pk[0]).kind == "text":
            continue
        if conf.get("primary_keys") or conf.get("auto_increment_keys") and t.col(t.pk[0]).autoinc is not False:
            out.setdefault(t.full, set()).add(t.pk[0])
    return out


def lex_lt(rel, a, b, keys):
    lt = False
    for c in reversed(keys):
        x, y = rel.cell(a, c), rel.cell(b, c)
        lt = Or(x.val < y.val, And(Eq(x.val, y.val), lt))
    return lt


def scenario(ctx, sc, dialect, symbolic_start):
    conf = ctx.choose("compact", sc["compacts"])
    targets = ctx.choose("targets", sc["targets"])
    passthrough = set(sc["planner"].get("passthrough", []))
    expect = compacted(sc, conf, passthrough)
    planner = dict({"select": [f"{s}.*" for s in sc["spec"].schemas]}, targets=targets, **sc["planner"])
    refused = any(c in expect.get(t, ()) for t, f in edges(sc) for c in f.cols)
    start = ctx.int("start", -5, 50) if symbolic_start else ctx.choose("start key", [1, 0, 7])
    sampler = dict(sc["sampler"], compact=conf, _late=lambda cfg: setattr(cfg.compact, "start_key", start))
    rels = tagged(ctx, sc)
    run, exc = guarded(ctx, "planning and sampling succeed", lambda: simulate(
        ctx, sc["spec"], sc["k"], planner, sampler, dialect, scenarios.TEXT_PREDS, rels=rels),
        allow=lambda e: refused and isinstance(e, ValueError))
    ctx.check("compacting foreign keys is refused", not refused or exc is not None, repr(conf))
    if exc is not None:
        ctx.witness("refused")
        return
    verify(ctx, sc, run, expect, symx.raw(start))
    if not any("percent" in c or "amount" in c for c in targets.values()):
        base = sampling.Run()
        log = world.Log()
        eng = sampling.make_source(ctx, sc["spec"], rels, dialect, "rel", log, scenarios.TEXT_PREDS)
        base.out = sampling.run_sample_dir(ctx, eng, run.plan, {}, sc["spec"])
        if hasattr(eng, "dispose"):
            eng.dispose()
        for t, rel in rels.items():
            if t in run.out:
                ctx.check("the sampled rows are the same as without compaction",
                          And(*(Iff(present(run, t, rel, r), present(base, t, rel, r)) for r in rel.rows)), t)


def tag_of(rel, row):
    return rel.cell(row, "tag").val


def present(run, t, src, r):
    out = run.out[t]
    return Or(*(And(o.g, Eq(tag_of(out, o), tag_of(src, r))) for o in out.rows))


def verify(ctx, sc, run, expect, start):
    claims = Claims(ctx)
    _verify(claims, sc, run, expect, start)
    claims.flush()


def _verify(ctx, sc, run, expect, start):
    for t in sc["spec"].tabs.values():
        if t.full not in run.out:
            continue
        src, out = run.src[t.full], run.out[t.full]
        ctx.check("written rows stem from source rows",
                  And(*(Implies(o.g, Or(*(And(r.g, Eq(tag_of(out, o), tag_of(src, r))) for r in src.rows)))
                        for o in out.rows)), t.full, witness=Or(*(o.g for o in out.rows)))
        for r in src.rows:
            n = Sum(B2I(And(o.g, Eq(tag_of(out, o), tag_of(src, r)))) for o in out.rows)
            ctx.check("no source row is written twice", n <= 1, t.full)
        own = expect.get(t.full, set())
        order = [c.name for c in t.cols if c.name in t.pk]  # the order of the columns of the primary key
        total = Sum(B2I(present(run, t.full, src, r)) for r in src.rows)
        for r in src.rows:
            here = present(run, t.full, src, r)
            for o in out.rows:
                it = And(o.g, Eq(tag_of(out, o), tag_of(src, r)))
                if it is False:
                    continue
                for c in t.cols:
                    got = out.cell(o, c.name)
                    if c.name in own:
                        if t.pk:
                            rank = Sum(B2I(And(present(run, t.full, src, p), lex_lt(src, p, r, order)))
                                       for p in src.rows if p is not r)
                            ctx.check("compacted columns are numbered densely in key order",
                                      Implies(it, And(Not(got.null), Eq(got.val, start + rank))),
                                      f"{t.full}.{c.name}", witness=it)
                        else:
                            ctx.check("compacted columns are numbered densely",
                                      Implies(it, And(Not(got.null), got.val >= start, got.val < start + total)),
                                      f"{t.full}.{c.name}", witness=it)
                        continue
                    want = new_value(ctx, sc, run, expect, t, r, c.name)
                    if want is None:
                        ctx.check("other columns are unchanged", Implies(it, same(got, src.cell(r, c.name))),
                                  f"{t.full}.{c.name}", witness=it)
                    else:
                        known, val = want
                        ctx.check("foreign keys carry the new identifier", Implies(And(it, known), same(got, val)),
                                  f"{t.full}.{c.name}", witness=And(it, known, Not(val.null)))
                        ctx.check("NULL foreign keys stay NULL", Implies(And(it, src.cell(r, c.name).null), got.null),
                                  f"{t.full}.{c.name}")
        for c in own:
            for i, a in enumerate(out.rows):
                for b in out.rows[:i]:
                    ctx.check("new identifiers are distinct",
                              Not(And(a.g, b.g, Eq(out.cell(a, c).val, out.cell(b, c).val))), f"{t.full}.{c}")


def remote(sc, expect, t, col):
    """the foreign key by which the column takes its value from a compacted column, if any"""
    for full, f in edges(sc):
        if full == t.full and col in f.cols:
            d = f.dst_cols[f.cols.index(col)]
            if d in expect.get(f.dst, ()) or remote(sc, expect, sc["spec"].tabs[f.dst], d) and f.dst != t.full:
                return f, d
    return None


def new_value(ctx, sc, run, expect, t, r, col):
    """(condition under which it is determined, expected cell) or None if the column must not change"""
    rem = remote(sc, expect, t, col)
    if rem is None:
        return None
    f, d = rem
    src = run.src[t.full]
    nulls = Or(*(src.cell(r, c).null for c in f.cols))
    if f.dst not in run.out:
        ctx.check("foreign keys carry the new identifier", False, f"{f.dst} not sampled")
    dst, out = run.src[f.dst], run.out[f.dst]
    val, known = NULL, nulls
    for p in dst.rows:
        ref = And(p.g, world.refers(src, r, f.cols, dst, p, f.dst_cols))
        for o in out.rows:
            it = And(o.g, Eq(tag_of(out, o), tag_of(dst, p)), ref)
            if it is False:
                continue
            c = out.cell(o, d)
            val = Cell(Ite(it, c.null, val.null), Ite(it, c.val, val.val), "int")
            known = Or(known, it)
    if (t.full, f.dst) not in sc["ignored"]:
        ctx.check("referenced rows are sampled", Implies(present(run, t.full, src, r), known), f"{t.full} {f}")
    return known, val


def refusal(ctx, dialect):
    """Explicit compaction of a foreign key column fails before anything is written."""
    name, table, bad = ctx.choose("case", [("plain", "test.orders", ["user_id"]), ("plain", "test.orders", ["id", "user_id"]),
                                           ("composite", "test.child", ["pa"]), ("composite", "test.child", ["pb"]),
                                           ("composite", "test.child", ["pa", "id"]),
                                           ("chain", "test.profiles", ["id"]), ("chain", "test.pics", ["profile_id"])])
    sc = next(s for s in SCENARIOS if s["name"] == name)
    conf = {"columns": {table: bad}}
    if ctx.flag("with primary keys") and name != "chain":
        conf = {**PK, **conf}
    planner = dict(select=["test.*"], targets=ctx.choose("targets", sc["targets"]))
    rels = tagged(ctx, sc)
    log = world.Log()
    run, exc = guarded(ctx, "refusal", lambda: simulate(
        ctx, sc["spec"], sc["k"], planner, {"compact": conf}, dialect, scenarios.TEXT_PREDS, rels=rels),
        allow=lambda e: isinstance(e, ValueError))
    ctx.check("compacting foreign keys is refused", exc is not None, repr(conf))
    ctx.witness("refused explicitly")


def build(tier):
    hs = []
    for sc in SCENARIOS:
        ds = sc["dialects"] if tier == "thorough" else sc["dialects"][:2]
        for d in ds:
            sc2 = dict(sc, k=3) if tier == "thorough" and sc["name"] not in ("chain", "diamond", "passthrough", "other columns") else sc
            hs.append(Harness(f"{sc['name']}/{d}", scenario, dict(sc=sc2, dialect=d, symbolic_start=True)))
    hs.append(Harness("refusal", refusal, dict(dialect="sqlite")))
    return Check(PROP, hs,
                 bounds={"rows": "2 or 3 per table, each present or absent; keys, foreign keys, criteria, NULLs, draws "
                                 "and the start key (-5..50) symbolic",
                         "schemas": [s["name"] for s in SCENARIOS]},
                 assumptions=["composite foreign keys are NULL in all columns or in none",
                              "ignored foreign keys whose row is not sampled are not constrained",
                              "the source satisfies its keys and foreign keys"],
                 outside=["keys of more than two columns", "compaction of non-integer columns"])
