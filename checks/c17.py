"""C17: generated keys never clash with sampled ones afterwards."""
from __future__ import annotations

from lib import pgtext, sampling, symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Rel
from lib.symx import And, Eq, Iff, Implies, Ite, Not, Or
from lib.trace import Claims, tagged
from lib.world import Col, Fk, Spec, Tab
from checks.c08 import TWO, dest_name, dest_of

PROP = "C17"
T = Tab
ALL = {"all": True}

NAMES = Spec(T("test.Users", "Id", "s?", "tag~"), T("test.or der", "from", "user_id?", "tag~",
                                                   fks=["user_id->test.Users(Id)"]))
QUOTES = Spec(T('te"st.us"er', 'i"d', "s?", "tag~"))
ORDER = Spec(T("test.users", "tag~", "s?", "id", pk="id"),
             T("test.items", "tenant", Col("nr", autoinc=True), "s?", "tag~", pk="tenant,nr"),
             T("test.plain", Col("id", autoinc=False), "tag~"), T("test.keyless", "a", "tag~", pk=""))
PKFK = Spec(T("test.users", "id", "tag~"), T("test.profiles", Col("id", autoinc=True), "tag~",
                                              fks=["id->test.users(id)"]))
SAMPLERS = [{}, {"compact": {"primary_keys": True, "start_key": 0}}, {"multiplicity": {"multiplier": 2}},
            {"filters": {"test.users": [{"op": "omit", "columns": ["s"]}], "test.orders": [{"op": "null", "columns":
                                                                                           ["user_id"]}]}}]
OUTPUTS = [{}, {"merge": True}, {"conflict_strategy": "skip"}, {"conflict_strategy": "replace"}]
CASES = {
    "plain": dict(spec=TWO, k={"test.users": 3, "test.orders": 1}, outputs=OUTPUTS, samplers=SAMPLERS),
    "names": dict(spec=NAMES, k={"test.Users": 2, "*": 1}, outputs=OUTPUTS[:2], samplers=[{}]),
    "quotes": dict(spec=QUOTES, source="postgresql", k=2, outputs=OUTPUTS[:2], samplers=[{}]),
    "order": dict(spec=ORDER, source="postgresql", k=2, outputs=OUTPUTS[:1], samplers=SAMPLERS[:1] + SAMPLERS[2:3]),
    "key is a foreign key": dict(spec=PKFK, k={"test.users": 2, "*": 1}, outputs=OUTPUTS, samplers=[{}]),
    "renamed": dict(spec=TWO, dest=dest_of(TWO, {"test.users": "test.orders", "test.orders": "out.users"}), k=1,
                    remap=[{"search": r"test\.orders", "replace": "out.users"},
                           {"search": r"test\.users", "replace": "test.orders"}], outputs=OUTPUTS[:2], samplers=[{}]),
    "passthrough": dict(spec=TWO, k=1, planner={"passthrough": ["test.users"]}, outputs=OUTPUTS, samplers=[{}]),
    "created": dict(spec=TWO, k=1, dest=Spec(schemas=["test"]), create=True, outputs=OUTPUTS[:2], samplers=[{}]),
}


def scenario(ctx, case):
    c = CASES[case]
    spec, dest = c["spec"], c.get("dest", c["spec"])
    sampler = ctx.choose("sampler", c["samplers"])
    output = ctx.choose("output", c["outputs"])
    through = c.get("planner", {}).get("passthrough", [])
    targets = {t: ALL for t in spec.tabs if t not in through}
    planner = dict({"select": [f"{s}.*" for s in spec.schemas]}, targets=targets, **c.get("planner", {}))
    rels = tagged(ctx, spec, c["k"], full=True, pk_lo=0)
    dest_rels = {}
    if dest.tabs and ("merge" in output or "conflict_strategy" in output):
        dest_rels = tagged(ctx, dest, 1, prefix="dest:", base=2000, full=True, pk_lo=0, fks=False)
    sc = {"remap": c.get("remap", [])}
    start = {}

    def on_dest(eng):
        for key, st in eng.db.seq.items():
            st["called"] = symx.raw(ctx.bool(f"{key} called"))
            st["last"] = symx.raw(ctx.int(f"{key} last", 1, 2000))
            ctx.assume(Implies(Not(st["called"]), Eq(st["last"], 1)))
            start[key] = dict(st)

    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, spec, rels, planner, sampler, c.get("source", "sqlite"), dest=dest, dest_rels=dest_rels, dest_dialect="postgresql",
        output={**output, "remap": sc["remap"]}, create=c.get("create", False), on_dest=on_dest),
        allow=lambda e: type(e).__name__ == "IntegrityError" and "conflict_strategy" not in output)
    if run is None:
        return
    claims = Claims(ctx)
    seqs = run.dest.db.seq
    written = {dest_name(sc, t) for t in run.plan.queries}
    for key, st in seqs.items():
        old = start.get(key, {"called": False, "last": 1})
        name = f"{key[0]}.{key[1]}"
        claims.check("the sequence is never moved backwards",
                     And(pgtext.next_value(st) >= pgtext.next_value(old), Implies(old["called"], st["called"])), name)
        if name not in written:
            claims.check("other sequences are left alone", Eq(pgtext.next_value(st), pgtext.next_value(old)), name)
            continue
        out = run.out[name]
        for r in out.rows:
            new = And(r.g, out.cell(r, "tag").val < 2000) if dest_rels else r.g
            claims.check("the next generated key is greater than every key written",
                         Implies(new, pgtext.next_value(st) > out.cell(r, key[2]).val), name,
                         witness=And(new, pgtext.next_value(old) <= out.cell(r, key[2]).val))
    claims.flush()


def generated(ctx):
    """Keys that are left to the destination are generated and leave the sequence consistent."""
    rels = tagged(ctx, TWO, {"test.users": 2, "*": 1}, full=True)
    planner = dict(select=["test.*"], targets={"test.users": ALL, "test.orders": ALL})
    sampler = {"filters": {"test.orders": [{"op": "omit", "columns": ["id"]}]}}
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, TWO, rels, planner, sampler, "sqlite", dest_dialect="postgresql"))
    out = run.out["test.orders"]
    st = run.dest.db.seq[("test", "orders", "id")]
    ctx.check("generated keys stay behind the sequence",
              And(*(Implies(r.g, pgtext.next_value(st) > out.cell(r, "id").val) for r in out.rows)), "test.orders",
              witness=Or(*(r.g for r in out.rows)))


def other_dialects(ctx, dialect):
    """Databases whose generated keys follow explicit inserts are left to do so."""
    rels = tagged(ctx, TWO, 1, full=True)
    planner = dict(select=["test.*"], targets={"test.users": ALL, "test.orders": ALL})
    run, _ = guarded(ctx, "planning and sampling succeed", lambda: transfer(
        ctx, TWO, rels, planner, {}, dialect, output=ctx.choose("output", OUTPUTS)))
    ctx.check("no sequence is touched", not run.log.of("destination", "setval", "select_text"), dialect)


def build(tier):
    hs = [Harness(n, scenario, dict(case=n)) for n in CASES]
    hs.append(Harness("generated", generated))
    for d in ("sqlite", "mysql"):
        hs.append(Harness(f"other/{d}", other_dialects, dict(dialect=d)))
    return Check(PROP, hs,
                 bounds={"rows": "up to 3 written rows per table, up to 1 existing one; keys (from 0), the state of the "
                                 "sequence (called or not, any value up to 2000) symbolic", "cases": list(CASES),
                         "samplers": SAMPLERS, "outputs": OUTPUTS},
                 assumptions=["sequences count upwards from 1; one that was never used is still at 1",
                              "setval, pg_sequence_last_value, currval, nextval and pg_get_serial_sequence behave as "
                              "documented by PostgreSQL (lib/pgtext.py)"],
                 outside=["sequences on columns outside the primary key"])
