"""
Symbolic evaluation of SQLAlchemy Core statements.

A relation is a list of rows; a row has a presence guard and cells; a cell is (null?, value, kind). Guards and
nullness are booleans (Python or SMT), values are integers or reals (Python or SMT). Text values are represented by
codes into an ordered pool of strings, so equality, order and LIKE are all decided on the codes. Statements are
evaluated with bag semantics and SQL's three-valued logic.
"""
from __future__ import annotations

import bisect
import hashlib
import fnmatch
import re
from typing import Any, Callable, Dict, List, Optional, Tuple

import sqlalchemy as sa
from sqlalchemy.sql import elements as E
from sqlalchemy.sql import functions as F
from sqlalchemy.sql import operators as O
from sqlalchemy.sql import selectable as S

from lib import symx
from lib.symx import And, Eq, FALSE, Iff, Implies, Inconclusive, Ite, Lt, Not, Or, Sum, B2I, SymInt, SymStr, z3


class Pool:
    """
    An ordered pool of texts: symbolic texts range over it. Pool text i has the code i * STEP; any other text has
    a code of its own between its neighbours, which depends on the text alone (other processes repeat the path).
    """

    STEP = 2 ** 57

    def __init__(self, texts):
        self.texts = sorted(set(texts))
        self.codes = {t: i * self.STEP for i, t in enumerate(self.texts)}
        self.by_code = {c: t for t, c in self.codes.items()}

    def code(self, s: str) -> int:
        c = self.codes.get(s)
        if c is None:
            raw = s.encode("utf-8", "surrogatepass")
            c = bisect.bisect_left(self.texts, s) * self.STEP - self.STEP + 1
            c += int.from_bytes(raw[:4].ljust(4, b"\0"), "big") << 24
            c += int.from_bytes(hashlib.sha1(raw).digest()[:3], "big") if len(raw) > 4 or 0 in raw else 0
            if self.by_code.setdefault(c, s) != s:
                raise Inconclusive("two texts with one code")
            self.codes[s] = c
        return c

    def text(self, code: int) -> str:
        return self.by_code[code]

    def matching(self, term, pred):
        """The text with this code satisfies a predicate over texts."""
        if isinstance(term, int):
            return bool(pred(self.text(term)))
        return Or(*(Eq(term, self.codes[t]) for t in list(self.codes) if pred(t)))

    @property
    def size(self):
        return len(self.texts)


POOL = Pool(["", "a", "ab", "b", "ba", "c"])


def like_match(text: str, pattern: str) -> bool:
    rx = "".join(".*" if ch == "%" else "." if ch == "_" else re.escape(ch) for ch in pattern)
    return re.fullmatch(rx, text, re.S | re.I) is not None


class Cell:
    __slots__ = ("null", "val", "kind", "opaque")

    def __init__(self, null, val, kind="int", opaque=False):
        self.opaque = opaque
        self.null = null
        self.val = val
        self.kind = kind

    def __repr__(self):
        return f"Cell({self.null},{self.val},{self.kind})"


NULL = Cell(True, 0, "null")


class B3:
    """Three-valued truth: t = is true, n = is unknown."""

    __slots__ = ("t", "n")

    def __init__(self, t, n=False):
        self.t = t
        self.n = n

    @property
    def f(self):
        return And(Not(self.t), Not(self.n))


class Row:
    __slots__ = ("g", "cells")

    def __init__(self, g, cells):
        self.g = g
        self.cells = cells


class Rel:
    def __init__(self, cols: List[str], rows: List[Row], kinds: Optional[List[str]] = None):
        self.cols = list(cols)
        self.rows = rows
        self.kinds = kinds or ["int"] * len(self.cols)

    def idx(self, col: str) -> int:
        return self.cols.index(col)

    def cell(self, row: Row, col: str) -> Cell:
        return row.cells[self.cols.index(col)]

    def count(self):
        return Sum(B2I(r.g) for r in self.rows)

    def copy(self) -> "Rel":
        return Rel(self.cols, [Row(r.g, list(r.cells)) for r in self.rows], self.kinds)


def same(a: Cell, b: Cell):
    """Identical including NULL = NULL (grouping, distinct, result comparison)."""
    if a is b:
        return True
    return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), Eq(a.val, b.val)))


def same_row(a: List[Cell], b: List[Cell]):
    return And(*(same(x, y) for x, y in zip(a, b)))


def eq3(a: Cell, b: Cell) -> B3:
    n = Or(a.null, b.null)
    return B3(And(Not(n), Eq(a.val, b.val)), n)


def and3(*xs: B3) -> B3:
    t = And(*(x.t for x in xs))
    f = Or(*(x.f for x in xs))
    return B3(t, And(Not(t), Not(f)))


def or3(*xs: B3) -> B3:
    t = Or(*(x.t for x in xs))
    f = And(*(x.f for x in xs))
    return B3(t, And(Not(t), Not(f)))


def not3(x: B3) -> B3:
    return B3(x.f, x.n)


def cell_of_b3(b: B3) -> Cell:
    return Cell(b.n, Ite(b.t, 1, 0), "int")


def b3_of_cell(c: Cell) -> B3:
    v = c.val
    return B3(And(Not(c.null), Not(Eq(v, 0))), c.null)


def ite_cell(c, a: Cell, b: Cell) -> Cell:
    kind = a.kind if a.kind != "null" else b.kind
    return Cell(Ite(c, a.null, b.null), Ite(c, a.val, b.val), kind)


def _ite_bool(c, a, b):
    return Or(And(c, a), And(Not(c), b))


class Unsupported(Inconclusive):
    pass


def cell_of_py(v) -> Cell:
    """A cell for a Python value handed to the database."""
    v = symx.detoken(v)
    if v is None:
        return NULL
    if isinstance(v, Cell):
        return v
    if type(v) is SymInt:
        return Cell(False, v.term, "int")
    if type(v) is SymStr:
        return Cell(False, v.term, "text")
    if type(v) is symx.SymReal:
        return Cell(False, v.term, "real")
    if type(v) is bool:
        return Cell(False, int(v), "int")
    if type(v) is int:
        return Cell(False, v, "int")
    if type(v) is float:
        return Cell(False, symx.real_val(v), "real")
    if type(v) is str:
        return Cell(False, POOL.code(v), "text")
    raise Unsupported(f"bound value of type {type(v)}")


class Evaluator:
    """
    tables: callable(sa.Table) -> Rel with the current contents.
    text_preds: maps raw SQL conditions to functions(env lookup) -> B3.
    """

    def __init__(self, tables: Callable[[sa.Table], Rel], fresh: Callable[[str], str],
                 text_preds: Optional[Dict[str, Callable]] = None, on_ref: Optional[Callable] = None,
                 dialect: str = "sqlite", text_queries: Optional[Dict[str, Callable]] = None):
        self.tables = tables
        self.fresh = fresh
        self.text_preds = text_preds or {}
        self.text_queries = text_queries or {}
        self.on_ref = on_ref
        self.dialect = dialect
        self.obligations: List[Tuple[str, Any]] = []
        self._subcache: Dict[Any, Any] = {}

    # ------------------------------------------------------------------------------ queries
    def query(self, stmt, env=None) -> Rel:
        env = env or []
        if isinstance(stmt, S.CompoundSelect):
            return self._compound(stmt, env)
        if isinstance(stmt, S.Select):
            return self._select(stmt, env)
        if isinstance(stmt, S.Subquery) or isinstance(stmt, S.CTE) or isinstance(stmt, S.Alias):
            return self.query(stmt.element, env)
        if isinstance(stmt, (S.ScalarSelect,)):
            return self.query(stmt.element, env)
        if isinstance(stmt, S.SelectStatementGrouping):
            return self.query(stmt.element, env)
        if isinstance(stmt, S.TableClause):
            return self.tables(stmt)
        if isinstance(stmt, S.TextualSelect) or isinstance(stmt, E.TextClause):
            text = stmt.element.text if isinstance(stmt, S.TextualSelect) else stmt.text
            if text in self.text_queries:
                return self.text_queries[text](self)
            raise Unsupported("raw SQL query: " + text[:80])
        raise Unsupported(f"statement {type(stmt).__name__}")

    def _compound(self, stmt, env) -> Rel:
        rels = [self.query(s, env) for s in stmt.selects]
        kw = stmt.keyword.name if hasattr(stmt.keyword, "name") else str(stmt.keyword)
        cols, kinds = rels[0].cols, list(rels[0].kinds)
        for r in rels[1:]:
            for i, k in enumerate(r.kinds):
                if kinds[i] == "null":
                    kinds[i] = k
        if kw in ("UNION", "UNION_ALL"):
            out = Rel(cols, [r for rel in rels for r in rel.rows], kinds)
            if kw == "UNION":
                out = self._distinct(out)
        elif kw in ("INTERSECT", "EXCEPT"):
            acc = self._distinct(rels[0])
            for rel in rels[1:]:
                rows = []
                for r in acc.rows:
                    inb = Or(*(And(o.g, same_row(r.cells, o.cells)) for o in rel.rows))
                    rows.append(Row(And(r.g, inb if kw == "INTERSECT" else Not(inb)), r.cells))
                acc = Rel(cols, rows, kinds)
            out = acc
        else:
            raise Unsupported("compound " + kw)
        if stmt._limit_clause is not None or stmt._offset_clause is not None:
            out = self._limit(out, stmt, [None] * len(out.rows))
        return out

    @staticmethod
    def _distinct(rel: Rel) -> Rel:
        rows = []
        for i, r in enumerate(rel.rows):
            dup = Or(*(And(o.g, same_row(o.cells, r.cells)) for o in rel.rows[:i]))
            rows.append(Row(And(r.g, Not(dup)), r.cells))
        return Rel(rel.cols, rows, rel.kinds)

    # ------------------------------------------------------------------------------ from
    @staticmethod
    def _flat_froms(froms):
        out = []
        for f in froms:
            out.append(f)
            if isinstance(f, S.Join):
                out.extend(Evaluator._flat_froms([f.left, f.right]))
            elif isinstance(f, S.FromGrouping):
                out.extend(Evaluator._flat_froms([f.element]))
        return out

    def _froms(self, stmt, env):
        froms = list(stmt.get_final_froms())
        enclosing = []
        for scope in env:
            enclosing.extend(scope["froms"])
        if enclosing:
            if stmt._correlate:
                froms = [f for f in froms if not (f in stmt._correlate and f in enclosing)]
            elif stmt._correlate_except is not None:
                froms = [f for f in froms if f in stmt._correlate_except or f not in enclosing]
            elif stmt._auto_correlate and len(froms) > 1:
                froms2 = [f for f in froms if f not in enclosing]
                if not froms2:
                    raise Unsupported("query correlates every FROM")
                froms = froms2
        return froms

    def _from_rows(self, f, env) -> List[Tuple[Any, Dict[Any, Dict[str, Cell]]]]:
        """[(guard, {from: {column key: cell}})]"""
        if isinstance(f, S.FromGrouping):
            return self._from_rows(f.element, env)
        if isinstance(f, S.Join):
            left = self._from_rows(f.left, env)
            right = self._from_rows(f.right, env)
            scope_froms = self._flat_froms([f])
            out = []
            matched_right = [[] for _ in right]
            null_right = {}
            for _, rb in right[:1]:
                null_right = {k: {c: NULL_OF(v) for c, v in cells.items()} for k, cells in rb.items()}
            if not right:
                null_right = self._null_binding(f.right)
            for lg, lb in left:
                matches = []
                for ri, (rg, rb) in enumerate(right):
                    b = {**lb, **rb}
                    on = True
                    if f.onclause is not None:
                        on = self.cond(f.onclause, [*env, {"froms": scope_froms, "b": b}]).t
                    g = And(lg, rg, on)
                    matches.append(g)
                    matched_right[ri].append(g)
                    if g is not False:
                        out.append((g, b))
                if f.isouter or f.full:
                    g = And(lg, Not(Or(*matches)))
                    if g is not False:
                        out.append((g, {**lb, **null_right}))
            if f.full:
                nl = {}
                for _, lb in left[:1]:
                    nl = {k: {c: NULL_OF(v) for c, v in cells.items()} for k, cells in lb.items()}
                for ri, (rg, rb) in enumerate(right):
                    g = And(rg, Not(Or(*matched_right[ri])))
                    out.append((g, {**nl, **rb}))
            return out
        rel = self._from_rel(f, env)
        keys = self._from_keys(f, rel)
        return [(r.g, {f: dict(zip(keys, r.cells))}) for r in rel.rows]

    def _null_binding(self, f):
        if isinstance(f, S.Join):
            return {**self._null_binding(f.left), **self._null_binding(f.right)}
        return {f: {c.key: NULL for c in f.columns}}

    def _from_rel(self, f, env) -> Rel:
        if isinstance(f, S.TableClause):
            if self.on_ref:
                self.on_ref(f)
            return self.tables(f)
        if isinstance(f, S.Alias) and isinstance(f.element, S.TableClause):
            if self.on_ref:
                self.on_ref(f.element)
            return self.tables(f.element)
        if isinstance(f, (S.Subquery, S.CTE, S.Alias, S.Lateral)):
            key = (id(f), len(env))
            if isinstance(f, S.Lateral):
                return self.query(f.element, env)
            if isinstance(f, S.CTE):
                # a CTE is evaluated once per statement
                if key not in self._subcache:
                    self._subcache[key] = (f, self.query(f.element, env))
                return self._subcache[key][1]
            return self.query(f.element, env)
        if isinstance(f, S.SelectStatementGrouping):
            return self.query(f.element, env)
        raise Unsupported(f"FROM {type(f).__name__}")

    @staticmethod
    def _from_keys(f, rel: Rel) -> List[str]:
        if isinstance(f, S.TableClause) or (isinstance(f, S.Alias) and isinstance(f.element, S.TableClause)):
            return list(rel.cols)
        keys = [c.key for c in f.columns]
        if len(keys) != len(rel.cols):
            return list(rel.cols)
        return keys

    # ------------------------------------------------------------------------------ select
    def _select(self, stmt, env) -> Rel:
        froms = self._froms(stmt, env)
        flat = self._flat_froms(froms)
        if len({id(f) for f in flat}) < len(flat):
            raise sa.exc.OperationalError("a table is joined twice under the same name", None, Exception(str(stmt)[:300]))
        rows: List[Tuple[Any, Dict]] = [(True, {})]
        for f in froms:
            frows = self._from_rows(f, env)
            rows = [(And(g, g2), {**b, **b2}) for g, b in rows for g2, b2 in frows]
            rows = [(g, b) for g, b in rows if g is not False]

        def scope(b):
            return [*env, {"froms": flat, "b": b}]

        criteria = list(stmt._where_criteria)
        if len(criteria) > 1 and any(isinstance(c, E.TextClause) for c in criteria):
            criteria = [E.BooleanClauseList._construct_raw(O.and_, criteria)]
        for crit in criteria:
            rows = [(And(g, self.cond(crit, scope(b)).t), b) for g, b in rows]
            rows = [(g, b) for g, b in rows if g is not False]

        cols = self._select_columns(stmt)
        names = [self._col_name(c, i) for i, c in enumerate(cols)]
        has_agg = any(self._has_aggregate(c) for c in cols) or bool(stmt._having_criteria and not stmt._group_by_clauses)
        group_by = list(stmt._group_by_clauses)

        if group_by or has_agg:
            groups = self._group(rows, group_by, scope)
            out_rows, evals = [], []
            for g, members, rep in groups:
                cells = [self.value(c, scope(rep), members=members, scope=scope) for c in cols]
                hv = And(*(self.cond(h, scope(rep), members=members, scope=scope).t for h in stmt._having_criteria))
                out_rows.append(Row(And(g, hv), cells))
                evals.append(rep)
            if group_by:
                self._fd_obligation(rows, group_by, cols, scope)
            rows2 = [(r.g, b) for r, b in zip(out_rows, evals)]
            rel = Rel(names, out_rows)
        else:
            windows = self._windows(cols, rows, scope)
            out_rows = []
            for i, (g, b) in enumerate(rows):
                out_rows.append(Row(g, [self.value(c, scope(b), window=(windows, i)) for c in cols]))
            rows2 = rows
            rel = Rel(names, out_rows)
        rel.kinds = self._kinds(cols, rel)

        if stmt._distinct:
            if stmt._distinct_on:
                raise Unsupported("DISTINCT ON")
            rel = self._distinct(rel)
        if stmt._limit_clause is not None or stmt._offset_clause is not None:
            rel = self._limit(rel, stmt, [scope(b) for _, b in rows2])
        return rel

    @staticmethod
    def _kinds(cols, rel):
        kinds = []
        for i, c in enumerate(cols):
            k = None
            for r in rel.rows:
                if r.cells[i].kind != "null":
                    k = r.cells[i].kind
                    break
            if k is None:
                k = "text" if isinstance(c.type, sa.String) else "int"
            kinds.append(k)
        return kinds

    @staticmethod
    def _select_columns(stmt):
        out = []
        for c in stmt._raw_columns:
            if isinstance(c, (S.FromClause,)):
                out.extend(c.columns)
            elif isinstance(c, E.TextClause):
                out.append(c)
            else:
                out.append(c)
        return out

    @staticmethod
    def _col_name(c, i):
        name = getattr(c, "name", None) or getattr(c, "key", None)
        return str(name) if name is not None else f"anon_{i}"

    def _group(self, rows, group_by, scope):
        if not group_by:
            members = [(g, b) for g, b in rows]
            rep = rows[0][1] if rows else {}
            return [(True, members, rep)]
        keys = [[self.value(c, scope(b)) for c in group_by] for _, b in rows]
        out = []
        for i, (g, b) in enumerate(rows):
            first = And(g, Not(Or(*(And(rows[j][0], same_row(keys[j], keys[i])) for j in range(i)))))
            members = [(And(rows[j][0], same_row(keys[j], keys[i])), rows[j][1]) for j in range(len(rows))]
            out.append((first, members, b))
        return out

    def _fd_obligation(self, rows, group_by, cols, scope):
        """Columns selected outside aggregates must be functionally dependent on the grouping key."""
        keys = [[self.value(c, scope(b)) for c in group_by] for _, b in rows]
        plain = [c for c in cols if not self._has_aggregate(c)]
        vals = [[self.value(c, scope(b)) for c in plain] for _, b in rows]
        bad = []
        for i in range(len(rows)):
            for j in range(i):
                bad.append(And(rows[i][0], rows[j][0], same_row(keys[i], keys[j]), Not(same_row(vals[i], vals[j]))))
        self.obligations.append(("grouped columns depend on the grouping key", Not(Or(*bad))))

    def _order_keys(self, clauses, sc):
        out = []
        for c in clauses:
            desc = False
            while isinstance(c, E.UnaryExpression) and c.modifier is not None:
                if c.modifier is O.desc_op:
                    desc = not desc
                elif c.modifier is not O.asc_op:
                    raise Unsupported("ORDER BY modifier")
                c = c.element
            if isinstance(c, E._label_reference):
                c = c.element
                return self._order_keys([c, *clauses[len(out) + 1:]], sc) if not out else out + self._order_keys(
                    [c, *clauses[len(out) + 1:]], sc)
            out.append((desc, c))
        return out

    def _limit(self, rel: Rel, stmt, scopes) -> Rel:
        def const(clause):
            if clause is None:
                return None
            v = getattr(clause, "value", None)
            if v is None and getattr(clause, "callable", None) is not None:
                v = clause.callable()
            if type(v) is SymInt:
                return v.term
            if v is None:
                raise Unsupported("LIMIT expression")
            return int(v)

        limit, offset = const(stmt._limit_clause), const(stmt._offset_clause)
        if self.dialect == "sqlite" and type(limit) is int and limit < 0:
            limit = None
        order = list(stmt._order_by_clauses)
        n = len(rel.rows)
        if not offset and limit is not None and type(limit) is int and limit >= n:
            return rel
        if n > 64 and not order and all(r.g is True for r in rel.rows) and type(limit) in (int, type(None)) \
                and type(offset) in (int, type(None)):
            # large constant contents (see C12): the rows are taken in the order in which they are stored
            return Rel(rel.cols, rel.rows[offset or 0:][:limit], rel.kinds)
        before = self._before(rel.rows, order, scopes)
        out = []
        for i, r in enumerate(rel.rows):
            rank = Sum(B2I(And(rel.rows[j].g, before(j, i))) for j in range(len(rel.rows)) if j != i)
            g = r.g
            if limit is not None:
                top = limit + (offset or 0)
                c = rank < top
                g = And(g, c)
            if offset:
                g = And(g, rank >= offset)
            out.append(Row(g, r.cells))
        return Rel(rel.cols, out, rel.kinds)

    def _before(self, rows, order, scopes):
        """before(j, i): row j is ordered strictly before row i (ties broken arbitrarily but consistently)."""
        n = len(rows)
        keys = []
        is_random = False
        for c in order:
            desc = False
            while True:
                if isinstance(c, E._label_reference):
                    c = c.element
                elif isinstance(c, E.UnaryExpression) and c.modifier in (O.desc_op, O.asc_op):
                    desc ^= c.modifier is O.desc_op
                    c = c.element
                else:
                    break
            if self._is_random(c):
                is_random = True
                break
            vals = []
            for i in range(n):
                if scopes[i] is None:
                    raise Unsupported("ORDER BY on a compound select")
                vals.append(self.value(c, scopes[i]))
            keys.append((desc, vals))
        tie = self._permutation(n) if (is_random or True) else None

        def before(j, i):
            acc = tie[j] < tie[i]
            for desc, vals in reversed(keys):
                a, b = vals[j], vals[i]
                lt = self._null_lt(a, b)
                gt = self._null_lt(b, a)
                if desc:
                    lt, gt = gt, lt
                acc = Or(lt, And(Not(gt), acc))
            return acc

        return before

    def _null_lt(self, a: Cell, b: Cell):
        """a sorts before b. NULLs first on sqlite/mysql, last on postgresql."""
        base = And(Not(a.null), Not(b.null), Lt(a.val, b.val))
        if self.dialect == "postgresql":
            return Or(base, And(Not(a.null), b.null))
        return Or(base, And(a.null, Not(b.null)))

    def _permutation(self, n):
        """Arbitrary tie-breaking order: distinct fresh integers."""
        if n <= 1:
            return [0] * n
        ctx = symx.cur()
        if ctx.concrete:
            import random as _r

            p = list(range(n))
            _r.Random(ctx.attempt).shuffle(p)
            return p
        name = self.fresh("tie")
        vs = [ctx.int(f"{name}.{i}", wrap=False) for i in range(n)]
        ctx.assume(z3.Distinct(*vs))
        return vs

    @staticmethod
    def _is_random(c):
        return isinstance(c, F.FunctionElement) and getattr(c, "name", "").lower() in ("random", "rand")

    @staticmethod
    def _has_aggregate(c):
        from sqlalchemy.sql import visitors

        for el in visitors.iterate(c):
            if isinstance(el, E.Over):
                return False
        for el in visitors.iterate(c):
            if isinstance(el, F.FunctionElement) and getattr(el, "name", "").lower() in ("max", "min", "count", "sum"):
                return True
        return False

    def _windows(self, cols, rows, scope):
        """Values of window functions per row, computed over the filtered rows."""
        from sqlalchemy.sql import visitors

        out: Dict[int, List[Cell]] = {}
        for c in cols:
            for el in visitors.iterate(c):
                if isinstance(el, E.Over) and id(el) not in out:
                    name = getattr(el.element, "name", "").lower()
                    if name not in ("row_number", "rank", "dense_rank", "count"):
                        raise Unsupported("window function " + name)
                    order = list(el.order_by.clauses) if el.order_by is not None else []
                    part = list(el.partition_by.clauses) if el.partition_by is not None else []
                    scopes = [scope(b) for _, b in rows]
                    rws = [Row(g, []) for g, _ in rows]
                    pk = [[self.value(p, s) for p in part] for s in scopes]
                    if name == "count":
                        vals = [Cell(False, Sum(B2I(And(rws[j].g, same_row(pk[i], pk[j]))) for j in range(len(rows))))
                                for i in range(len(rows))]
                    elif name == "row_number":
                        before = self._before(rws, order, scopes)
                        vals = []
                        for i in range(len(rows)):
                            vals.append(Cell(False, 1 + Sum(
                                B2I(And(rws[j].g, same_row(pk[i], pk[j]), before(j, i)))
                                for j in range(len(rows)) if j != i)))
                    else:
                        keyv = [[self.value(o, s) for o in order] for s in scopes]

                        def less(j, i):
                            acc = False
                            for a, b in reversed(list(zip(keyv[j], keyv[i]))):
                                acc = Or(self._null_lt(a, b), And(same(a, b), acc))
                            return acc

                        vals = []
                        for i in range(len(rows)):
                            terms = []
                            for j in range(len(rows)):
                                c2 = And(rws[j].g, same_row(pk[i], pk[j]), less(j, i))
                                if name == "dense_rank":
                                    c2 = And(c2, Not(Or(*(And(rws[k].g, same_row(pk[i], pk[k]),
                                                              same_row(keyv[k], keyv[j])) for k in range(j)))))
                                terms.append(B2I(c2))
                            vals.append(Cell(False, 1 + Sum(terms)))
                    out[id(el)] = vals
        return out

    # ------------------------------------------------------------------------------ expressions
    def _lookup(self, col, env) -> Cell:
        table = getattr(col, "table", None)
        for scope in reversed(env):
            b = scope["b"]
            if table is not None and table in b:
                cells = b[table]
                if col.key in cells:
                    return cells[col.key]
                if col.name in cells:
                    return cells[col.name]
        if table is not None:
            for scope in reversed(env):
                for f, cells in scope["b"].items():
                    try:
                        corr = f.corresponding_column(col)
                    except Exception:  # pylint: disable=broad-except
                        corr = None
                    if corr is not None and corr.key in cells:
                        return cells[corr.key]
        found = []
        for scope in reversed(env):
            for f, cells in scope["b"].items():
                if col.key in cells and (table is None or getattr(f, "name", None) == getattr(table, "name", 0)):
                    found.append(cells[col.key])
            if found:
                break
        if len(found) == 1:
            return found[0]
        raise Unsupported(f"column {col} cannot be resolved")

    def cond(self, e, env, **kw) -> B3:
        if isinstance(e, E.Grouping):
            return self.cond(e.element, env, **kw)
        if isinstance(e, E.True_):
            return B3(True)
        if isinstance(e, E.False_):
            return B3(False)
        if isinstance(e, E.Null):
            return B3(False, True)
        if isinstance(e, E.AsBoolean):
            x = self.cond(e.element, env, **kw)
            return not3(x) if e.operator is O.is_false else x
        if isinstance(e, (E.BooleanClauseList, E.ExpressionClauseList)):
            if any(isinstance(c, E.TextClause) for c in e.clauses):
                return self._text_cond(self._text_tokens(e, env, **kw))
            xs = [self.cond(c, env, **kw) for c in e.clauses]
            if e.operator is O.and_:
                return and3(*xs)
            if e.operator is O.or_:
                return or3(*xs)
        if isinstance(e, S.Exists):
            el = e.element
            while isinstance(el, (E.Grouping, S.SelectStatementGrouping, S.ScalarSelect)):
                el = el.element
            rel = self.query(el, env)
            return B3(Or(*(r.g for r in rel.rows)))
        if isinstance(e, E.UnaryExpression):
            if e.operator is O.inv:
                return not3(self.cond(e.element, env, **kw))
            if e.operator is O.exists:
                el = e.element
                while isinstance(el, (E.Grouping, S.SelectStatementGrouping, S.ScalarSelect)):
                    el = el.element
                rel = self.query(el, env)
                return B3(Or(*(r.g for r in rel.rows)))
            if e.operator is None and e.modifier is None:
                return self.cond(e.element, env, **kw)
        if isinstance(e, E.BinaryExpression):
            r = self._binary(e, env, **kw)
            if isinstance(r, B3):
                return r
            return b3_of_cell(r)
        if isinstance(e, E.TextClause):
            return self._text_cond(self._text_tokens(e, env, **kw))
        if isinstance(e, E.Label):
            return self.cond(e.element, env, **kw)
        if isinstance(e, E.BindParameter) and isinstance(e.effective_value, bool):
            return B3(e.effective_value)
        return b3_of_cell(self.value(e, env, **kw))

    # Raw SQL is spliced into the statement as it is: whether it is parenthesised decides what it means.
    def _text_tokens(self, e, env, **kw) -> List[Any]:
        """The tokens of a condition: '(', ')', 'and', 'or', 'not' and B3 values."""
        if isinstance(e, E.TextClause):
            text = e.text
            atoms = sorted(self.text_preds, key=len, reverse=True)
            out: List[Any] = []
            i = 0
            while i < len(text):
                if text[i].isspace():
                    i += 1
                    continue
                if text[i] in "()":
                    out.append(text[i])
                    i += 1
                    continue
                m = re.match(r"(and|or|not)\b", text[i:], re.I)
                if m:
                    out.append(m[1].lower())
                    i += len(m[1])
                    continue
                for a in atoms:
                    if text.startswith(a, i):
                        out.append(self.text_preds[a](lambda key: self._text_lookup(key, env), e))
                        i += len(a)
                        break
                else:
                    raise Unsupported("raw SQL condition: " + text[:80])
            return out
        if isinstance(e, (E.BooleanClauseList, E.ExpressionClauseList)) and e.operator in (O.and_, O.or_):
            out = []
            for c in e.clauses:
                if out:
                    out.append("and" if e.operator is O.and_ else "or")
                out.extend(self._text_tokens(c, env, **kw))
            return out
        if isinstance(e, E.Grouping):
            return ["(", *self._text_tokens(e.element, env, **kw), ")"]
        return [self.cond(e, env, **kw)]

    @staticmethod
    def _text_cond(tokens) -> B3:
        pos = [0]

        def peek():
            return tokens[pos[0]] if pos[0] < len(tokens) else None

        def unary():
            t = peek()
            pos[0] += 1
            if t == "not":
                return not3(unary())
            if t == "(":
                r = disj()
                if peek() != ")":
                    raise Unsupported("raw SQL: unbalanced parentheses")
                pos[0] += 1
                return r
            if not isinstance(t, B3):
                raise Unsupported(f"raw SQL: unexpected {t!r}")
            return t

        def conj():
            xs = [unary()]
            while peek() == "and":
                pos[0] += 1
                xs.append(unary())
            return and3(*xs)

        def disj():
            xs = [conj()]
            while peek() == "or":
                pos[0] += 1
                xs.append(conj())
            return or3(*xs)

        r = disj()
        if peek() is not None:
            raise Unsupported("raw SQL: trailing tokens")
        return r

    def _text_lookup(self, key, env) -> Cell:
        for scope in reversed(env):
            for f, cells in scope["b"].items():
                if isinstance(f, S.TableClause) and key in cells:
                    return cells[key]
            for f, cells in scope["b"].items():
                if key in cells:
                    return cells[key]
        raise Unsupported("column in raw SQL: " + key)

    def _tuple_items(self, e):
        while isinstance(e, E.Grouping):
            e = e.element
        if isinstance(e, E.Tuple):
            return list(e.clauses)
        return None

    def _binary(self, e, env, **kw):
        op = e.operator
        if op in (O.in_op, O.not_in_op):
            return self._in(e, env, op is O.not_in_op, **kw)
        lt, rt = self._tuple_items(e.left), self._tuple_items(e.right)
        if lt is not None and rt is not None and op in (O.eq, O.ne):
            parts = [eq3(self.value(a, env, **kw), self.value(b, env, **kw)) for a, b in zip(lt, rt)]
            r = and3(*parts)
            return r if op is O.eq else not3(r)
        if op in (O.is_, O.is_not):
            right = e.right
            if isinstance(right, E.Null):
                a = self.value(e.left, env, **kw)
                return B3(a.null) if op is O.is_ else B3(Not(a.null))
            if isinstance(right, (E.True_, E.False_)):
                c = self.cond(e.left, env, **kw)
                v = c.t if isinstance(right, E.True_) else c.f
                return B3(v) if op is O.is_ else B3(Not(v))
            raise Unsupported("IS expression")
        if op is O.is_distinct_from or op is O.is_not_distinct_from:
            s = same(self.value(e.left, env, **kw), self.value(e.right, env, **kw))
            return B3(Not(s)) if op is O.is_distinct_from else B3(s)
        if op in (O.like_op, O.not_like_op, O.ilike_op, O.not_ilike_op):
            a = self.value(e.left, env, **kw)
            pat = getattr(e.right, "effective_value", None)
            if not isinstance(pat, str):
                raise Unsupported("LIKE pattern")
            hit = POOL.matching(a.val, lambda t: like_match(t, pat))
            r = B3(And(Not(a.null), hit), a.null)
            return not3(r) if op in (O.not_like_op, O.not_ilike_op) else r
        if op is O.between_op or op is O.not_between_op:
            a = self.value(e.left, env, **kw)
            lo, hi = (self.value(x, env, **kw) for x in e.right.clauses)
            r = and3(self._cmp(lo, a, lambda x, y: x <= y), self._cmp(a, hi, lambda x, y: x <= y))
            return not3(r) if op is O.not_between_op else r
        cmp_ops = {O.eq: lambda x, y: Eq(x, y), O.ne: lambda x, y: Not(Eq(x, y)), O.lt: lambda x, y: x < y,
                   O.le: lambda x, y: x <= y, O.gt: lambda x, y: x > y, O.ge: lambda x, y: x >= y}
        if op in cmp_ops:
            a, b = self.value(e.left, env, **kw), self.value(e.right, env, **kw)
            return self._cmp(a, b, cmp_ops[op])
        arith = {O.add: lambda x, y: x + y, O.sub: lambda x, y: x - y, O.mul: lambda x, y: x * y}
        if op in arith:
            a, b = self.value(e.left, env, **kw), self.value(e.right, env, **kw)
            return Cell(Or(a.null, b.null), arith[op](a.val, b.val), "int")
        if op in (O.mod,):
            a, b = self.value(e.left, env, **kw), self.value(e.right, env, **kw)
            return Cell(Or(a.null, b.null), a.val % b.val, "int")
        if op in (O.and_, O.or_):
            f = and3 if op is O.and_ else or3
            return f(self.cond(e.left, env, **kw), self.cond(e.right, env, **kw))
        raise Unsupported(f"operator {op}")

    @staticmethod
    def _cmp(a: Cell, b: Cell, f) -> B3:
        n = Or(a.null, b.null)
        if n is True:
            return B3(False, True)
        if {a.kind, b.kind} == {"int", "text"}:
            raise Unsupported("comparison between text and number")
        return B3(And(Not(n), f(a.val, b.val)), n)

    def _in(self, e, env, negate, **kw):
        items = self._tuple_items(e.left)
        lefts = [self.value(x, env, **kw) for x in (items if items is not None else [e.left])]
        right = e.right
        while isinstance(right, (E.Grouping, S.SelectStatementGrouping)) and not isinstance(
                getattr(right, "element", None), (E.ClauseList, E.ExpressionClauseList)):
            right = right.element
        rows: List[Tuple[Any, List[Cell]]] = []
        if isinstance(right, (S.SelectBase, S.Subquery, S.ScalarSelect)):
            rel = self.query(right, env)
            rows = [(r.g, r.cells) for r in rel.rows]
        elif isinstance(right, E.BindParameter):
            vals = right.effective_value
            for v in vals:
                vv = list(v) if items is not None else [v]
                rows.append((True, [cell_of_py(x) for x in vv]))
        else:
            el = right.element if isinstance(right, E.Grouping) else right
            clauses = getattr(el, "clauses", None)
            if clauses is None:
                raise Unsupported(f"IN {type(right).__name__}")
            for c in clauses:
                parts = self._tuple_items(c)
                rows.append((True, [self.value(x, env, **kw) for x in (parts if parts is not None else [c])]))
        hits, unknowns = [], []
        for g, cells in rows:
            if len(cells) != len(lefts):
                raise Unsupported("IN arity")
            r = and3(*(eq3(a, b) for a, b in zip(lefts, cells)))
            hits.append(And(g, r.t))
            unknowns.append(And(g, r.n))
        t = Or(*hits)
        res = B3(t, And(Not(t), Or(*unknowns)))
        return not3(res) if negate else res

    def value(self, e, env, members=None, scope=None, window=None) -> Cell:
        kw = dict(members=members, scope=scope, window=window)
        if isinstance(e, (E.Label, E.Grouping)):
            return self.value(e.element, env, **kw)
        if isinstance(e, E.Null):
            return NULL
        if isinstance(e, E.True_):
            return Cell(False, 1)
        if isinstance(e, E.False_):
            return Cell(False, 0)
        if isinstance(e, E.BindParameter):
            return cell_of_py(e.effective_value)
        if isinstance(e, E.ColumnClause):
            if e.is_literal or getattr(e, "table", None) is None and e.name in ("*", "1"):
                if e.name == "*":
                    return Cell(False, 1)
                try:
                    return Cell(False, int(e.name))
                except ValueError as exc:
                    raise Unsupported("literal column") from exc
            return self._lookup(e, env)
        if isinstance(e, E.TextClause):
            try:
                return Cell(False, int(e.text))
            except ValueError as exc:
                raise Unsupported("raw SQL expression: " + e.text[:60]) from exc
        if isinstance(e, E.Over):
            if window is None or id(e) not in window[0]:
                raise Unsupported("window function here")
            return window[0][id(e)][window[1]]
        if isinstance(e, E.Case):
            out = self.value(e.else_, env, **kw) if e.else_ is not None else NULL
            for cond, val in reversed(list(e.whens)):
                if e.value is not None:
                    c = eq3(self.value(e.value, env, **kw), self.value(cond, env, **kw)).t
                else:
                    c = self.cond(cond, env, **kw).t
                out = ite_cell(c, self.value(val, env, **kw), out)
            return out
        if isinstance(e, (E.Cast, E.TypeCoerce)):
            return self.value(e.clause, env, **kw)
        if isinstance(e, S.ScalarSelect):
            rel = self.query(e.element, env)
            out = NULL
            for r in reversed(rel.rows):
                out = ite_cell(r.g, r.cells[0], out)
            return out
        if isinstance(e, S.Exists):
            return cell_of_b3(self.cond(e, env, **kw))
        if isinstance(e, F.FunctionElement):
            return self._function(e, env, **kw)
        if isinstance(e, E.UnaryExpression):
            if e.operator is O.neg:
                a = self.value(e.element, env, **kw)
                return Cell(a.null, -a.val, a.kind)
            if e.operator is O.distinct_op:
                return self.value(e.element, env, **kw)
            return cell_of_b3(self.cond(e, env, **kw))
        if isinstance(e, E.BinaryExpression):
            r = self._binary(e, env, **kw)
            return cell_of_b3(r) if isinstance(r, B3) else r
        if isinstance(e, (E.BooleanClauseList, E.AsBoolean)):
            return cell_of_b3(self.cond(e, env, **kw))
        if isinstance(e, E.ExpressionClauseList):
            if e.operator in (O.and_, O.or_):
                return cell_of_b3(self.cond(e, env, **kw))
            vals = [self.value(c, env, **kw) for c in e.clauses]
            f = {O.add: lambda x, y: x + y, O.sub: lambda x, y: x - y, O.mul: lambda x, y: x * y}.get(e.operator)
            if f is None:
                raise Unsupported(f"operator {e.operator}")
            acc = vals[0]
            for v in vals[1:]:
                acc = Cell(Or(acc.null, v.null), f(acc.val, v.val), "int")
            return acc
        raise Unsupported(f"expression {type(e).__name__}")

    def _function(self, e, env, members=None, scope=None, window=None) -> Cell:
        kw = dict(members=members, scope=scope, window=window)
        name = getattr(e, "name", "").lower()
        args = list(e.clauses)
        if name in ("random", "rand"):
            return random_cell(self, self.dialect)
        if name in ("coalesce", "ifnull"):
            out = NULL
            for a in reversed(args):
                v = self.value(a, env, **kw)
                out = ite_cell(v.null, out, v)
            return out
        if name == "abs":
            v = self.value(args[0], env, **kw)
            return Cell(v.null, Ite(v.val < 0, -v.val, v.val))
        if name in ("max", "min", "count", "sum"):
            if members is None:
                raise Unsupported("aggregate here")
            rows = members
            if name == "count":
                a = args[0] if args else None
                if a is None or isinstance(a, E.ColumnClause) and a.name == "*" or isinstance(a, E.TextClause):
                    return Cell(False, Sum(B2I(g) for g, _ in rows))
                distinct = isinstance(a, E.UnaryExpression) and a.operator is O.distinct_op
                vals = [(g, self.value(a, scope(b))) for g, b in rows]
                terms = []
                for i, (g, v) in enumerate(vals):
                    c = And(g, Not(v.null))
                    if distinct:
                        c = And(c, Not(Or(*(And(vals[j][0], Not(vals[j][1].null), Eq(vals[j][1].val, v.val))
                                            for j in range(i)))))
                    terms.append(B2I(c))
                return Cell(False, Sum(terms))
            vals = [(g, self.value(args[0], scope(b))) for g, b in rows]
            acc = NULL
            for g, v in vals:
                take = And(g, Not(v.null))
                if name == "sum":
                    merged = Ite(acc.null, v.val, acc.val + v.val)
                else:
                    better = (v.val > acc.val) if name == "max" else (v.val < acc.val)
                    merged = Ite(Or(acc.null, better), v.val, acc.val)
                acc = Cell(And(acc.null, Not(take)), Ite(take, merged, acc.val), v.kind)
            return acc
        if not args:
            return sql_scalar(self, compiled_text(e, self.dialect))
        raise Unsupported("function " + name)


def random_cell(ev, dialect: str) -> Cell:
    """One call of the random function of the dialect: a fraction, or a 64-bit integer on sqlite."""
    ctx = symx.cur()
    name = ev.fresh("rnd")
    if ctx.concrete:
        import random as _r

        rng = ctx.__dict__.setdefault("sql_rng", _r.Random(ctx.attempt))
        if dialect == "sqlite":
            v = ctx.values_in.get(name, rng.randint(-(2 ** 63), 2 ** 63 - 1))
            cell = Cell(False, int(v), "int")
        else:
            cell = Cell(False, z3.RealVal(repr(ctx.values_in.get(name, rng.random()))), "real")
        ctx.__dict__.setdefault("draws", []).append(cell)
        return cell
    if dialect == "sqlite":
        cell = Cell(False, ctx.int(name, -(2 ** 63), 2 ** 63 - 1, wrap=False), "int")
    else:
        v = ctx.real(name, 0, 1)
        ctx.assume(v < 1)
        cell = Cell(False, v, "real")
    ctx.__dict__.setdefault("draws", []).append(cell)
    return cell


def compiled_text(e, dialect: str) -> str:
    from lib import world

    return str(e.compile(dialect=world.dialect(dialect)))


_TOK = re.compile(r"\s*(?:(\d+\.\d*|\.\d+|\d+)|([A-Za-z_]\w*)|(<<|>>|<=|>=|<>|\|\||.))")


def sql_scalar(ev, text: str) -> Cell:
    """Arithmetic over literals and the random function, as found in dialect-specific SQL fragments."""
    toks = [m.groups() for m in _TOK.finditer(text.strip())]
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None, None, None)

    def take(sym):
        if peek()[2] != sym:
            raise Unsupported("SQL expression: " + text[:80])
        pos[0] += 1

    def atom():
        num, word, sym = peek()
        if num is not None:
            pos[0] += 1
            if "." in num:
                return Cell(False, z3.RealVal(num), "real")
            if int(num) > 2 ** 63 - 1:
                return Cell(False, z3.RealVal(num), "real")
            return Cell(False, int(num), "int")
        if word is not None:
            pos[0] += 1
            take("(")
            args = []
            while peek()[2] != ")":
                args.append(expr(0))
                if peek()[2] == ",":
                    pos[0] += 1
            take(")")
            w = word.lower()
            if w in ("random", "rand") and not args:
                return random_cell(ev, ev.dialect)
            if w == "abs" and len(args) == 1:
                v = args[0].val
                return Cell(False, Ite(v < 0, -v, v), args[0].kind)
            raise Unsupported("SQL function " + word)
        if sym == "(":
            pos[0] += 1
            c = expr(0)
            take(")")
            return c
        if sym == "-":
            pos[0] += 1
            c = atom()
            return Cell(False, -c.val, c.kind)
        raise Unsupported("SQL expression: " + text[:80])

    prec = {"&": 1, "+": 2, "-": 2, "*": 3, "/": 3, "%": 3}

    def real(v):
        if symx.is_term(v):
            return z3.ToReal(v) if z3.is_int(v) else v
        return z3.RealVal(v)

    def apply(op, a, b):
        if op == "/":
            if "real" not in (a.kind, b.kind):
                raise Unsupported("integer division")
            return Cell(False, real(a.val) / real(b.val), "real")
        if op == "%":
            if not isinstance(b.val, int) or a.kind != "int":
                raise Unsupported("modulo")
            m = a.val % b.val  # truncated division, as in C
            return Cell(False, Ite(And(a.val < 0, Not(Eq(m, 0))), m - b.val, m), "int")
        if op == "&":
            if not isinstance(b.val, int) or b.val < 0 or (b.val & (b.val + 1)) or a.kind != "int":
                raise Unsupported("bitwise and")
            return Cell(False, a.val % (b.val + 1), "int")
        kind = "real" if "real" in (a.kind, b.kind) else "int"
        x, y = (real(a.val), real(b.val)) if kind == "real" else (a.val, b.val)
        return Cell(False, {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op](), kind)

    def expr(p):
        a = atom()
        while peek()[2] in prec and prec[peek()[2]] >= p:
            op = peek()[2]
            pos[0] += 1
            a = apply(op, a, expr(prec[op] + 1))
        return a

    out = expr(0)
    if pos[0] != len(toks):
        raise Unsupported("SQL expression: " + text[:80])
    return out


def _shares(a: Row, b: Row) -> bool:
    """The rows have a column in common that varies (structurally, so this is only a heuristic)."""
    for x, y in zip(a.cells, b.cells):
        if x is y and x.null is not True:
            return True
        if symx.is_term(x.val) and symx.is_term(y.val):
            if x.val.eq(y.val):
                return True
        elif not symx.is_term(x.val) and not symx.is_term(y.val) and x.null is not True and y.null is not True:
            if type(x.val) is type(y.val) and x.val == y.val and (x.opaque or y.opaque):
                return True
    return False


def compress(ctx, rel: Rel) -> Rel:
    """The same bag of rows with fewer candidates: candidates that exclude each other become one."""
    if ctx.concrete or len(rel.rows) < 2:
        return rel
    rows: List[Row] = []
    for b in rel.rows:
        if b.g is False or not symx.is_pybool(b.g) and not ctx.feasible(b.g):
            continue
        for i, a in enumerate(rows):
            if _shares(a, b) and not ctx.feasible(And(a.g, b.g)):
                rows[i] = Row(Or(a.g, b.g), [x if x is y else _ite_opaque(a.g, x, y) for x, y in zip(a.cells, b.cells)])
                break
        else:
            rows.append(b)
    return Rel(rel.cols, rows, rel.kinds)


def _ite_opaque(c, a: Cell, b: Cell) -> Cell:
    out = ite_cell(c, a, b)
    out.opaque = a.opaque or b.opaque
    return out


def NULL_OF(cell: Cell) -> Cell:
    return Cell(True, 0, cell.kind)
