"""C15: conflict strategies do what they say on every dialect."""
from __future__ import annotations

import sqlalchemy as sa

from lib import symx, world
from lib.runner import Check, Harness
from lib.sampling import guarded, transfer
from lib.symsql import Cell, NULL, Rel, Row, cell_of_py, same
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum
from lib.trace import Claims, tagged
from lib.world import Col, Spec, Tab
from checks.c12 import small_buffers

PROP = "C15"
T = Tab
ALL = {"all": True}
STRATEGIES = ["error", "skip", "replace"]


def twice(cols):
    c = cols["id"]
    return Cell(c.null, c.val * 2, "int")


def shape(source, dest=None, pk="id", filters=(), computed=(), k=2, kd=2, mult=None, **kw):
    return dict(source=source, dest=dest or source, pk=pk, filters=list(filters), computed=set(computed), k=k, kd=kd,
                mult=mult, kw=kw)


BASE = ["id", "name:text~?", "s~?", "tag~"]
SHAPES = {
    "plain": shape(BASE),
    "text key": shape(["id:text", "s~?", "tag~"]),
    "key last": shape(["name:text~?", "tag~", "s~?", "id"]),
    "pair": shape(["a", "b", "s~?", "tag~"], pk="a,b"),
    "pair apart": shape(["a", "s~?", "b", "tag~", "c~?"], pk="b,a"),
    "pair of keys only": shape(["a", "b"], pk="a,b"),
    "key only": shape(["id"]),
    "no key": shape(["a?", "s~?", "tag~"], pk=""),
    "omitted column": shape(BASE, filters=[{"op": "omit", "columns": ["name"]}]),
    "omitted columns": shape(BASE, filters=[{"op": "omit", "columns": ["s", "name"]}]),
    "only the key is written": shape(["id", "name:text~?", "s~?", "tag~?"],
                                     filters=[{"op": "omit", "columns": ["s", "name", "tag"]}]),
    "constant": shape(BASE, filters=[{"op": "constant", "columns": ["s"], "values": [9]}]),
    "null": shape(BASE, filters=[{"op": "null", "columns": ["s", "name"]}]),
    "more columns": shape(BASE, dest=["x~?", "id", "name:text~?", "y~?", "s~?", "tag~", "z~?"]),
    "permuted": shape(BASE, dest=["tag~", "s~?", "name:text~?", "id"]),
    "computed": shape(BASE, dest=["id", "name:text~?", Col("s", null=True, computed=("id * 2", twice)), "tag~"],
                      computed=["s"]),
    "key only but for computed": shape(["id", "s~?"], dest=["id", Col("s", null=True, computed=("id * 2", twice))],
                                       computed=["s"]),
    "multiplied": shape(BASE, mult=2, k=1, kd=3),
    "no primary key but a unique column": shape(["id", "s~?", "tag~"], pk="", uniques=["id"], kd=1),
}


def scenario(ctx, which, dialect):
    sh = SHAPES[which]
    strategy = ctx.choose("strategy", STRATEGIES)
    spec = Spec(T("test.t", *sh["source"], pk=sh["pk"], **sh["kw"]))
    dspec = Spec(T("test.t", *sh["dest"], pk=sh["pk"], **sh["kw"]))
    st, dt = spec.tabs["test.t"], dspec.tabs["test.t"]
    rels = tagged(ctx, spec, sh["k"])
    before = tagged(ctx, dspec, sh["kd"], prefix="dest:", base=2000)
    size = ctx.choose("buffer", [None, 0] if sh["k"] > 1 else [None])
    sampler = {"filters": {"test.t": sh["filters"]}}
    if sh["mult"]:
        sampler["multiplicity"] = {"multiplier": sh["mult"]}
    src, old = rels["test.t"], before["test.t"].copy()
    key = list(st.pk) or [c for u in sh["kw"].get("uniques", ()) for c in u.split(",")]
    # the rows that are to be written
    written_cols = [c for c in st.colnames if c not in sh["computed"]
                    and not any(f["op"] == "omit" and c in f["columns"] for f in sh["filters"])]
    todo = []
    for r in src.rows:
        for i in range(sh["mult"] or 1):
            vals = {}
            for c in written_cols:
                v = src.cell(r, c)
                for f in sh["filters"]:
                    if f["op"] == "constant" and c in f["columns"]:
                        v = cell_of_py(f["values"][f["columns"].index(c)])
                    if f["op"] == "null" and c in f["columns"]:
                        v = NULL
                if sh["mult"] and c in st.pk:
                    v = Cell(v.null, v.val * sh["mult"] + i, "int")
                vals[c] = v
            todo.append((r.g, vals))

    def clash(vals, e):
        return And(e.g, *(same(vals[c], old.cell(e, c)) for c in key)) if key else False

    conflict = Or(*(And(g, clash(v, e)) for g, v in todo for e in old.rows))
    strategy_now = strategy if st.pk else "error"
    with small_buffers(size):
        run, exc = guarded(ctx, "planning and sampling succeed", lambda: transfer(
            ctx, spec, rels, dict(select=["test.*"], targets={"test.t": ALL}), sampler, dialect, dest=dspec,
            dest_rels=before, output={"conflict_strategy": strategy}),
            allow=lambda e: strategy_now == "error" and isinstance(e, sa.exc.IntegrityError))
    if exc is not None:
        ctx.check("fails only if there is a conflict", conflict, strategy, witness=conflict)
        return
    if strategy_now == "error":
        ctx.check("fails if there is a conflict", Not(conflict), strategy)
    out = run.out["test.t"]
    claims = Claims(ctx)

    def final(vals, e):
        """the row as it is to be found in the end: vals written over the existing row e"""
        def holds(o):
            parts = []
            for c in out.cols:
                if c in sh["computed"]:
                    continue
                if e is None:
                    want = vals.get(c, NULL)
                elif vals is not None and c in vals and c not in key and strategy_now == "replace":
                    want = vals[c]
                else:
                    want = old.cell(e, c)
                parts.append(same(out.cell(o, c), want))
            return And(o.g, *parts)
        return holds

    def count(pred):
        return Sum(B2I(pred(o)) for o in out.rows)

    if key and st.pk:
        for e in old.rows:
            hits = [And(g, clash(v, e)) for g, v in todo]
            claims.check("rows without a conflict are left alone", Implies(
                And(e.g, Not(Or(*hits))), Eq(count(final(None, e)), 1)), strategy, witness=And(e.g, Not(Or(*hits))))
            for (g, v), h in zip(todo, hits):
                label = ("skip leaves the existing row unchanged" if strategy == "skip" else
                         "replace overwrites exactly the written columns")
                claims.check(label, Implies(h, Eq(count(final(v, e)), 1)), strategy,
                             witness=h if strategy != "error" else None)
        for g, v in todo:
            free = And(g, *(Not(clash(v, e)) for e in old.rows))
            claims.check("rows without a conflict are inserted unchanged", Implies(free, Eq(count(final(v, None)), 1)),
                         strategy, witness=free)
        total = Sum(B2I(e.g) for e in old.rows) + Sum(
            B2I(And(g, *(Not(clash(v, e)) for e in old.rows))) for g, v in todo)
        claims.check("nothing else is written", Eq(Sum(B2I(o.g) for o in out.rows), total), strategy)
    else:
        for e in old.rows:
            claims.check("rows without a conflict are left alone", Implies(e.g, Eq(count(final(None, e)), 1)), strategy)
        for g, v in todo:
            claims.check("rows without a conflict are inserted unchanged", Implies(g, Eq(count(final(v, None)), 1)),
                         strategy, witness=g)
        claims.check("nothing else is written", Eq(Sum(B2I(o.g) for o in out.rows), Sum(
            B2I(e.g) for e in old.rows) + Sum(B2I(g) for g, _ in todo)), strategy)
    for o in out.rows:
        for c in sh["computed"]:
            claims.check("computed columns follow", Implies(o.g, same(out.cell(o, c), twice({
                "id": out.cell(o, "id")}))), strategy)
    claims.flush()


def equal_keys(ctx, which, dialect):
    """Rows written in one run that are given the same key by a filter."""
    cols, pk, const = {"plain": (["id", "name:text~?", "s~?", "tag~"], "id", [("id", 5)]),
                       "pair": (["a", "b", "s~?", "tag~"], "a,b", [("a", 1), ("b", 2)]),
                       "key only": (["id", "x~?"], "id", [("id", 7), ("x", 1)])}[which]
    spec = Spec(T("test.t", *cols, pk=pk))
    strategy = ctx.choose("strategy", STRATEGIES)
    rels = tagged(ctx, spec, 2, full=True)
    before = tagged(ctx, spec, 1, prefix="dest:", base=2000)
    src, old = rels["test.t"], before["test.t"].copy()
    filt = [{"op": "constant", "columns": [c for c, _ in const], "values": [v for _, v in const]}]
    key = pk.split(",")
    fixed = {c: cell_of_py(v) for c, v in const}
    size = ctx.choose("buffer", [None, 0])
    with small_buffers(size):
        run, exc = guarded(ctx, "planning and sampling succeed", lambda: transfer(
            ctx, spec, rels, dict(select=["test.*"], targets={"test.t": ALL}), {"filters": {"test.t": filt}}, dialect,
            dest_rels=before, output={"conflict_strategy": strategy}),
            allow=lambda e: strategy == "error" and isinstance(e, sa.exc.IntegrityError))
    ctx.check("fails if there is a conflict", (exc is not None) == (strategy == "error"), strategy)
    if exc is not None:
        return
    out = run.out["test.t"]
    e = old.rows[0]
    taken = And(e.g, *(same(old.cell(e, c), fixed[c]) for c in key))
    at = [(o, And(o.g, *(same(out.cell(o, c), fixed[c]) for c in key))) for o in out.rows]
    claims = Claims(ctx)
    claims.check("one row per key", Eq(Sum(B2I(c) for _, c in at), 1), strategy)

    def from_row(o, r):
        return And(*(same(out.cell(o, c), fixed.get(c, src.cell(r, c))) for c in out.cols if c not in key))

    for o, c in at:
        kept = And(*(same(out.cell(o, x), old.cell(e, x)) for x in out.cols))
        copy = Or(*(from_row(o, r) for r in src.rows))
        claims.check(f"{strategy} among rows of one run", Implies(c, symx.Ite(taken, kept, copy) if strategy == "skip"
                                                                  else copy), strategy, witness=And(c, taken))
    claims.flush()


def build(tier):
    ds = ["sqlite", "mysql", "postgresql"]
    hs = []
    for d in ds:
        for w in SHAPES:
            hs.append(Harness(f"{w}/{d}", scenario, dict(which=w, dialect=d)))
        for w in ("plain", "pair", "key only"):
            hs.append(Harness(f"equal keys/{w}/{d}", equal_keys, dict(which=w, dialect=d)))
    return Check(PROP, hs,
                 bounds={"rows": "up to 2 written (3 with copies) and 2 or 3 existing rows; presence, keys and values symbolic",
                         "tables": list(SHAPES), "dialects": ds, "strategies": STRATEGIES},
                 assumptions=["rows conflict on the primary key only, not on other unique constraints",
                              "INSERT ... ON CONFLICT, ON DUPLICATE KEY UPDATE and INSERT IGNORE work as the databases document"],
                 outside=["the state left behind by a run that fails", "conflicts on other unique constraints"])
