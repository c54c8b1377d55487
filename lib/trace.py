"""Follows rows through a run: every row carries its own constant in the column "tag" (see SPECS of the checks)."""
from __future__ import annotations

from typing import Any, Dict, List, Optional

from lib import symx, world
from lib.symsql import Cell, Rel, Row, same
from lib.symx import And, B2I, Eq, Iff, Implies, Not, Or, Sum


def tagged(ctx, spec, k, prefix="", base=1000, extra=(), fks=True, **kw) -> Dict[str, Rel]:
    """Symbolic contents whose rows can be told apart."""
    rels = {}
    n = 0
    for t in spec.tabs.values():
        size = k.get(t.full, k.get("*", 2)) if isinstance(k, dict) else k
        rel = world.sym_rel(ctx, t, size, prefix=prefix, **kw)
        for r in rel.rows:
            n += 1
            if "tag" in rel.cols:
                r.cells[rel.idx("tag")] = Cell(False, base + n, "int", opaque=True)
        rels[t.full] = rel
    if fks:
        world.assume_fks(ctx, spec, rels, extra)
    return rels


def is_copy(out: Rel, o: Row, src: Rel, r: Row):
    return And(o.g, Eq(out.cell(o, "tag").val, src.cell(r, "tag").val))


def copies(out: Rel, src: Rel, r: Row):
    """[(row written, condition that it is a copy of r)]"""
    res = []
    for o in out.rows:
        c = is_copy(out, o, src, r)
        if c is not False:
            res.append((o, c))
    return res


def present(out: Rel, src: Rel, r: Row):
    return Or(*(c for _, c in copies(out, src, r)))


class Claims:
    """Collects claims and decides them together per label and detail."""

    def __init__(self, ctx):
        self.ctx, self.all = ctx, {}

    def check(self, label, prop, detail="", witness=None):
        props, wits = self.all.setdefault((label, detail), ([], []))
        props.append(prop)
        if witness is not None:
            wits.append(witness)

    def flush(self):
        for (label, detail), (props, wits) in self.all.items():
            self.ctx.check(label, And(*props), detail, witness=Or(*wits) if wits else None)
        self.all = {}
