"""
Databases for the harnesses: a symbolic source and destination that stand in for SQLAlchemy engines, and real sqlite
databases with the same contents for replaying counterexamples and validating the encoding.
"""
from __future__ import annotations

import itertools
import json
import logging
import os
import re
import shutil
import tempfile
from typing import Any, Dict, List, Optional, Sequence, Tuple

import sqlalchemy as sa
from sqlalchemy.engine.result import IteratorResult, SimpleResultMetaData
from sqlalchemy.sql import dml
from sqlalchemy.sql import ddl as saddl
from sqlalchemy.sql import elements as E
from sqlalchemy.sql import selectable as S

from lib import symx
from lib.symx import And, Eq, Implies, Inconclusive, Ite, Not, Or, Sum, B2I, SymInt, SymStr, z3
from lib.symsql import POOL, Cell, Evaluator, NULL, Rel, Row, Unsupported, cell_of_py, compress, same, same_row

logging.disable(logging.CRITICAL)

# --------------------------------------------------------------------------------------------- determinism
# Sets of schema objects are ordered by hash; make the hash a function of the path instead of the address.
_hash_ids = itertools.count(1)
HASH_SALT = [0]


def _stable_hash(self):
    h = self.__dict__.get("_vhash")
    if h is None:
        h = self.__dict__["_vhash"] = (next(_hash_ids) ^ HASH_SALT[0])
    return h


for _cls in (sa.Table, sa.ForeignKeyConstraint, sa.UniqueConstraint, sa.PrimaryKeyConstraint, sa.CheckConstraint,
             sa.Index, sa.ForeignKey):
    _cls.__hash__ = _stable_hash  # type: ignore


def reset_path(salt: int = 0):
    global _hash_ids
    _hash_ids = itertools.count(1)
    HASH_SALT[0] = salt


symx.RESET_HOOKS.append(reset_path)


# --------------------------------------------------------------------------------------------- JSON of proxies
def _patch_json():
    from json import encoder

    orig = encoder._make_iterencode
    defaults = dict(zip(orig.__code__.co_varnames[: orig.__code__.co_argcount][-len(orig.__defaults__):],
                        orig.__defaults__))

    def intstr(o):
        if type(o) is SymInt:
            return json.encoder.encode_basestring_ascii(str(o))
        return int.__repr__(o)

    names = orig.__code__.co_varnames[: orig.__code__.co_argcount][-len(orig.__defaults__):]
    new = tuple(intstr if n == "_intstr" else defaults[n] for n in names)
    orig.__defaults__ = new

    c_enc = encoder.encode_basestring_ascii
    py_enc = encoder.encode_basestring

    def enc(o):
        return c_enc(str(o)) if type(o) is SymStr else c_enc(o)

    def enc2(o):
        return py_enc(str(o)) if type(o) is SymStr else py_enc(o)

    encoder.encode_basestring_ascii = enc
    encoder.encode_basestring = enc2


_patch_json()


# --------------------------------------------------------------------------------------------- schema specs
class Col:
    def __init__(self, name, kind="int", null=False, computed=None, autoinc=None, sa_type=None, opaque=False):
        self.name, self.kind, self.null, self.computed, self.autoinc = name, kind, null, computed, autoinc
        self.opaque = opaque  # handed out row by row as a token the code cannot look into
        self.sa_type = sa_type

    def type_(self):
        if self.sa_type is not None:
            return self.sa_type
        return {"int": sa.Integer, "text": lambda: sa.String(20), "real": sa.Float, "bool": sa.Boolean,
                "time": sa.DateTime, "big": sa.BigInteger, "json": sa.JSON}[self.kind]()


JSON_NULL = -777  # the value of a cell that holds JSON null, which drivers hand out as None just like NULL


class Fk:
    def __init__(self, cols, dst, dst_cols, name=None):
        self.cols, self.dst, self.dst_cols, self.name = tuple(cols), dst, tuple(dst_cols), name

    def __repr__(self):
        return f"{','.join(self.cols)}->{self.dst}({','.join(self.dst_cols)})"


class Tab:
    """
    Tab("test.users", "id", "s?", "g:text~?", pk="id", fks=["boss->test.users(id)"])
    "?" marks nullable columns, "~" opaque ones (see Col).
    """

    def __init__(self, full, *cols, pk=None, fks=(), uniques=(), indexes=(), checks=(), autoinc=None):
        self.full = full
        self.schema, self.name = full.split(".", 1)
        self.cols: List[Col] = []
        for c in cols:
            if isinstance(c, Col):
                self.cols.append(c)
                continue
            null, opaque = "?" in c[-2:], "~" in c[-2:]
            c = c.rstrip("?~")
            name, _, kind = c.partition(":")
            self.cols.append(Col(name, kind or "int", null, opaque=opaque))
        if pk is None:
            pk = self.cols[0].name
        self.pk: Tuple[str, ...] = tuple(p for p in (pk.split(",") if isinstance(pk, str) else pk) if p)
        self.fks: List[Fk] = []
        for f in fks:
            if isinstance(f, Fk):
                self.fks.append(f)
                continue
            m = re.fullmatch(r"(.+)->(.+?)\((.+)\)", f)
            self.fks.append(Fk(m[1].split(","), m[2], m[3].split(",")))
        self.uniques = [tuple(u.split(",")) if isinstance(u, str) else tuple(u) for u in uniques]
        self.indexes = list(indexes)  # (name, cols, unique)
        self.checks = list(checks)
        self.autoinc = autoinc

    def col(self, name) -> Col:
        for c in self.cols:
            if c.name == name:
                return c
        raise KeyError(name)

    @property
    def colnames(self):
        return [c.name for c in self.cols]


def table_to_sa(t: Tab, md: sa.MetaData) -> sa.Table:
    args: List[Any] = []
    for c in t.cols:
        kw: Dict[str, Any] = {}
        if c.computed:
            cargs = [sa.Computed(c.computed[0])]
        else:
            cargs = []
        if c.autoinc is not None:
            kw["autoincrement"] = c.autoinc
        args.append(sa.Column(c.name, c.type_(), *cargs, primary_key=c.name in t.pk,
                              nullable=(c.null if c.name not in t.pk else False), **kw))
    for i, f in enumerate(t.fks):
        args.append(sa.ForeignKeyConstraint(list(f.cols), [f"{f.dst}.{c}" for c in f.dst_cols], name=f.name))
    for u in t.uniques:
        args.append(sa.UniqueConstraint(*u))
    for chk in t.checks:
        args.append(sa.CheckConstraint(chk))
    tab = sa.Table(t.name, md, *args, schema=t.schema)
    for name, cols, uniq, *kw in t.indexes:
        sa.Index(name, *(sa.text(c) if "(" in c else tab.c[c] for c in cols), unique=uniq, _table=tab,
                 **(kw[0] if kw else {}))
    return tab


class Spec:
    def __init__(self, *tabs: Tab, schemas: Sequence[str] = ()):
        self.tabs: Dict[str, Tab] = {t.full: t for t in tabs}
        self.extra_schemas = list(schemas)

    @property
    def schemas(self):
        out = []
        for t in self.tabs.values():
            if t.schema not in out:
                out.append(t.schema)
        for s in self.extra_schemas:
            if s not in out:
                out.append(s)
        return out

    def metadata(self) -> sa.MetaData:
        md = sa.MetaData()
        for t in self.tabs.values():
            table_to_sa(t, md)
        return md

    @property
    def cross_schema(self):
        return any(f.dst.split(".")[0] != t.schema for t in self.tabs.values() for f in t.fks)


# --------------------------------------------------------------------------------------------- symbolic contents
def sym_rel(ctx, t: Tab, k: int, prefix: str = "", full=False, pk_lo=1, pk_hi=1000, lo=-1000, hi=1000,
            distinct_rows=True) -> Rel:
    """k symbolic rows for one table with primary key, uniqueness assumptions (not foreign keys)."""
    rows = []
    cols = t.colnames
    keycols = set(t.pk)
    fkcols = {c for f in t.fks for c in f.cols}
    for i in range(k):
        if full:
            g: Any = True
        else:
            g = symx.raw(ctx.bool(f"{prefix}{t.full}[{i}].present"))
        cells = []
        for c in t.cols:
            base = f"{prefix}{t.full}[{i}].{c.name}"
            null = symx.raw(ctx.bool(base + ".null")) if c.null and c.name not in keycols and not c.computed else False
            if c.kind == "text":
                v = ctx.int(base, 0, POOL.size - 1, wrap=False) * POOL.STEP
                cells.append(Cell(null, v, "text"))
            elif c.kind == "bool":
                cells.append(Cell(null, ctx.int(base, 0, 1, wrap=False), "int"))
            elif c.kind == "json":
                v = ctx.int(base, -1, 3, wrap=False)
                cells.append(Cell(null, Ite(v < 0, JSON_NULL, v), "json"))
            elif c.computed:
                cells.append(None)
            else:
                if c.name in keycols or c.name in fkcols:
                    v = ctx.int(base, pk_lo, pk_hi, wrap=False)
                else:
                    v = ctx.int(base, lo, hi, wrap=False)
                cells.append(Cell(null, v, "int"))
        for j, c in enumerate(t.cols):
            if c.computed:
                cells[j] = c.computed[1](dict(zip(cols, cells)))
            if c.opaque:
                cells[j].opaque = True
        rows.append(Row(g, cells))
    kinds = ["text" if c.kind == "text" else "int" for c in t.cols]
    rel = Rel(cols, rows, kinds)
    if not full:
        for a, b in zip(rows, rows[1:]):
            ctx.assume(Implies(b.g, a.g))
    if t.pk:
        for a, b in zip(rows, rows[1:]):
            lt: Any = False
            for p in reversed(t.pk):
                x, y = rel.cell(a, p), rel.cell(b, p)
                lt = Or(x.val < y.val, And(Eq(x.val, y.val), lt))
            ctx.assume(lt)
    elif distinct_rows:
        for a, b in itertools.combinations(rows, 2):
            ctx.assume(Implies(And(a.g, b.g), Not(same_row(a.cells, b.cells))))
    for u in [*t.uniques, *(ix[1] for ix in t.indexes if ix[2] and len(ix) == 3 and set(ix[1]) <= set(cols))]:
        for a, b in itertools.combinations(rows, 2):
            eqs = And(*(And(Not(rel.cell(a, c).null), Not(rel.cell(b, c).null),
                            Eq(rel.cell(a, c).val, rel.cell(b, c).val)) for c in u))
            ctx.assume(Not(And(a.g, b.g, eqs)))
    return rel


def refers(child: Rel, r: Row, cols, parent: Rel, p: Row, pcols):
    """row r references row p (key equality, no NULLs); does not look at guards."""
    out = []
    for c, pc in zip(cols, pcols):
        a, b = child.cell(r, c), parent.cell(p, pc)
        out.append(And(Not(a.null), Not(b.null), Eq(a.val, b.val)))
    return And(*out)


def fk_holds(child: Rel, r: Row, fk: Fk, parent: Rel):
    """if r is present and its key is non-null it has a present match in parent"""
    nonnull = And(*(Not(child.cell(r, c).null) for c in fk.cols))
    return Implies(And(r.g, nonnull), Or(*(And(p.g, refers(child, r, fk.cols, parent, p, fk.dst_cols))
                                           for p in parent.rows)))


def assume_fks(ctx, spec: Spec, rels: Dict[str, Rel], extra: Sequence[Tuple[str, Fk]] = ()):
    pairs = [(t.full, f) for t in spec.tabs.values() for f in t.fks] + list(extra)
    for full, f in pairs:
        if full in rels and f.dst in rels:
            for r in rels[full].rows:
                ctx.assume(fk_holds(rels[full], r, f, rels[f.dst]))


# --------------------------------------------------------------------------------------------- dialects
def make_dialect(name: str):
    if name == "sqlite":
        from sqlalchemy.dialects.sqlite import pysqlite
        import sqlite3

        d = pysqlite.dialect(dbapi=sqlite3)
        d.supports_default_values = True
    elif name == "postgresql":
        from sqlalchemy.dialects.postgresql import psycopg2

        d = psycopg2.dialect()
    elif name == "mysql":
        from sqlalchemy.dialects.mysql import pymysql

        d = pymysql.dialect()
        d.server_version_info = (8, 0, 30)
        d._requires_alias_for_on_duplicate_key = True
        d._needs_correct_for_88718_96365 = False
    else:
        raise ValueError(name)
    d.has_table = lambda conn, table, schema=None, **kw: conn._has_table(schema, table)
    d.has_index = lambda conn, table, index, schema=None, **kw: conn._has_index(schema, table, index)
    d.has_sequence = lambda conn, seq, schema=None, **kw: False
    d.has_schema = lambda conn, schema, **kw: schema in conn.engine.db.schemas
    d.default_schema_name = {"sqlite": "main", "postgresql": "public", "mysql": "test"}[name]
    return d


_DIALECTS: Dict[str, Any] = {}


def dialect(name: str):
    if name not in _DIALECTS:
        _DIALECTS[name] = make_dialect(name)
    return _DIALECTS[name]


# --------------------------------------------------------------------------------------------- events
class Event:
    __slots__ = ("seq", "role", "op", "table", "stmt", "params", "conn", "temp", "sql", "nrows")

    def __init__(self, seq, role, op, table, stmt=None, params=None, conn=None, temp=False, sql="", nrows=None):
        self.seq, self.role, self.op, self.table, self.stmt, self.params = seq, role, op, table, stmt, params
        self.conn, self.temp, self.sql, self.nrows = conn, temp, sql, nrows

    def __repr__(self):
        return f"<{self.seq} {self.role} {self.op} {self.table}{' temp' if self.temp else ''}>"


class Log:
    def __init__(self):
        self.events: List[Event] = []

    def add(self, role, op, table, **kw):
        self.events.append(Event(len(self.events), role, op, table, **kw))

    def of(self, role, *ops):
        return [e for e in self.events if e.role == role and (not ops or e.op in ops)]


# --------------------------------------------------------------------------------------------- tokens
class OutCell:
    """A cell of a result row in relation mode: printable, recoverable, otherwise opaque."""

    __slots__ = ("row", "cell", "tok")

    def __init__(self, row, cell):
        self.row, self.cell, self.tok = row, cell, None

    def __str__(self):
        if self.tok is None:
            self.tok = symx.token_of(self, "cell")
        return self.tok

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


_ALWAYS = Row(True, [])


def py_of_cell(ctx, c: Cell):
    """Row mode: decide nullness, hand out a proxy (or the plain value if it is constant)."""
    if c.opaque and not ctx.concrete:
        return OutCell(_ALWAYS, c)
    n = c.null
    if n is not False and ctx.branch(n):
        return None
    if c.kind == "text":
        if isinstance(c.val, int):
            return POOL.text(c.val)
        return SymStr(c.val, POOL)
    if c.kind == "json" and ctx.branch(Eq(c.val, JSON_NULL)):
        return None
    if not symx.is_term(c.val):
        return c.val
    if c.kind == "real":
        v = z3.simplify(c.val)
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / v.denominator_as_long()
    s = z3.simplify(c.val)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(c.val)


# --------------------------------------------------------------------------------------------- symbolic engine
class SymDB:
    def __init__(self, ctx, spec: Spec, rels: Dict[str, Rel], dialect_name: str):
        self.ctx = ctx
        self.metadata = spec.metadata()
        self.schemas = list(spec.schemas)
        self.spec = spec
        self.rels: Dict[Tuple[str, str], Rel] = {}
        for t in spec.tabs.values():
            kinds = ["text" if c.kind == "text" else "int" for c in t.cols]
            self.rels[(t.schema, t.name)] = rels.get(t.full) or Rel(t.colnames, [], kinds)
        self.dialect_name = dialect_name
        self.computed: Dict[Tuple[str, str], Dict[str, Any]] = {
            (t.schema, t.name): {c.name: c.computed[1] for c in t.cols if c.computed} for t in spec.tabs.values()}
        # sequences behind generated keys (postgresql): lib.pgtext
        self.seq: Dict[Tuple[str, str, str], Dict[str, Any]] = {}
        if dialect_name == "postgresql":
            for t in self.metadata.tables.values():
                if t.autoincrement_column is not None:
                    self.seq[(t.schema, t.name, t.autoincrement_column.name)] = {"called": False, "last": 1}
        self.ddl: List[Any] = []
        self.enforce = False  # check foreign keys after every statement

    def foreign_keys(self) -> List[Tuple[Tuple[str, str], "Fk", Tuple[str, str]]]:
        """(table, key, referenced table) of the keys declared in this database"""
        out = []

        def add(con):
            t, ref = con.table, con.referred_table
            if self.dialect_name == "sqlite" and ref.schema != t.schema and t not in self.metadata.tables.values():
                return  # not written into the statement
            out.append(((t.schema, t.name), Fk([c.name for c in con.columns], f"{ref.schema}.{ref.name}",
                                               [e.column.name for e in con.elements]), (ref.schema, ref.name)))

        for t in self.metadata.tables.values():
            for con in t.foreign_key_constraints:
                add(con)
        for kind, obj, _ in self.ddl:
            if kind == "table":
                for con in obj.foreign_key_constraints:
                    if self.dialect_name == "sqlite" or not con.use_alter:
                        add(con)
            elif kind == "constraint" and isinstance(obj, sa.ForeignKeyConstraint):
                add(obj)
        return out

    def broken_keys(self, key):
        """conditions under which a foreign key from or to this table does not hold"""
        for child, fk, parent in self.foreign_keys():
            if key in (child, parent) and child in self.rels:
                rel, ref = self.rels[child], self.rels.get(parent)
                for r in rel.rows:
                    ok = fk_holds(rel, r, fk, ref) if ref is not None else And(
                        *(rel.cell(r, c).null for c in fk.cols))
                    yield fk, child, Not(ok)

    def snapshot(self):
        return {k: r.copy() for k, r in self.rels.items()}


class SymEngine:
    def __init__(self, db: SymDB, role: str, log: Log, mode: str = "rel", text_preds=None, text_queries=None):
        self.db, self.role, self.log, self.mode = db, role, log, mode
        self.dialect = dialect(db.dialect_name)
        self.text_preds, self.text_queries = text_preds or {}, text_queries or {}
        self.conns = 0
        self.session: Dict[str, Any] = {}
        self.obligations: List[Tuple[str, Any]] = []
        self.fresh_count: Dict[str, int] = {}
        made = db.ctx.__dict__.setdefault("engines_made", {})
        made[role] = made.get(role, 0) + 1
        self.scope = role if made[role] == 1 else f"{role}{made[role]}"  # of the names of fresh variables
        self.insert_hook = None
        self.opts: Dict[str, Any] = {}

    # attributes used by SQLAlchemy code
    @property
    def name(self):
        return self.dialect.name

    @property
    def driver(self):
        return self.dialect.driver

    @property
    def engine(self):
        return self

    @property
    def url(self):
        return sa.engine.URL.create(drivername=self.db.dialect_name)

    def fresh(self, base):
        n = self.fresh_count.get(base, 0)
        self.fresh_count[base] = n + 1
        return f"{self.scope}.{base}#{n}"

    def execution_options(self, **kw):
        return self

    def connect(self, **kw):
        self.conns += 1
        return SymConnection(self, self.conns)

    def begin(self, **kw):
        return _Begin(self.connect())

    def dispose(self, *a, **k):
        pass

    def update_execution_options(self, **kw):
        pass

    def _run_ddl_visitor(self, visitorcallable, element, **kwargs):
        with self.begin() as conn:
            conn._run_ddl_visitor(visitorcallable, element, **kwargs)


class _Begin:
    def __init__(self, conn):
        self.conn = conn

    def __enter__(self):
        return self.conn

    def __exit__(self, t, v, tb):
        if t is None:
            self.conn.commit()
        self.conn.close()
        return False


class _Txn:
    def __init__(self, conn):
        self.conn = conn
        self.is_active = True

    def commit(self):
        self.conn.commit()

    def rollback(self):
        self.conn.rollback()

    close = rollback

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.conn.commit()
        else:
            self.conn.rollback()
        return False


def _db_error(kind, msg):
    return kind(msg, None, Exception(msg))


class SymResult(IteratorResult):
    """A real SQLAlchemy result over symbolic rows, with a row count."""

    def __init__(self, keys, iterator, rowcount=-1):
        super().__init__(SimpleResultMetaData(keys), iterator)
        self.rowcount = rowcount
        self.returns_rows = True
        self.lastrowid = None
        self.context = None

    def yield_per(self, num):
        return super().yield_per(num)


class _NoRows:
    def __init__(self, rowcount):
        self.rowcount = rowcount
        self.returns_rows = False
        self.lastrowid = None
        self.inserted_primary_key = None

    def close(self):
        pass

    def __iter__(self):
        raise sa.exc.ResourceClosedError("This result object does not return rows. It has been closed automatically.")

    fetchall = all = first = scalar = fetchone = __iter__


class SymConnection:
    def __init__(self, engine: SymEngine, ident: int):
        self.engine = engine
        self.dialect = engine.dialect
        self.db = engine.db
        self.ident = ident
        self.temps: Dict[Tuple[Optional[str], str], Rel] = {}
        self.temp_indexes: set = set()
        self.closed = False
        self.saved = None
        self.info: Dict[str, Any] = {}
        self.open_refs: Dict[str, int] = {}

    # -- context / transactions
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def execution_options(self, **kw):
        return self

    def get_execution_options(self):
        return {}

    _execution_options: Dict[str, Any] = {}

    def begin(self):
        return _Txn(self)

    begin_nested = begin

    def in_transaction(self):
        return self.saved is not None

    def get_transaction(self):
        return _Txn(self)

    @property
    def connection(self):
        return self

    def _mark(self):
        if self.saved is None:
            self.saved = self.db.snapshot()

    def commit(self):
        self.saved = None
        self.engine.log.add(self.engine.role, "commit", None, conn=self.ident)

    def rollback(self):
        if self.saved is not None:
            self.db.rels = self.saved
            self.saved = None
        self.engine.log.add(self.engine.role, "rollback", None, conn=self.ident)

    def close(self):
        if not self.closed:
            self.closed = True
            if self.saved is not None:
                self.db.rels = self.saved
                self.saved = None

    def detach(self):
        pass

    def invalidate(self, *a):
        self.close()

    # -- schema
    def _key(self, schema, name):
        return (schema if schema is not None else self.dialect.default_schema_name, name)

    def _has_table(self, schema, name):
        return self._temp(schema, name) is not None or self._key(schema, name) in self.db.rels

    def _has_index(self, schema, table, index):
        return False

    def _temp(self, schema, name):
        lookup = name.lower() if self.dialect.name in ("sqlite", "mysql") else name
        for (s, n), rel in self.temps.items():
            n2 = n.lower() if self.dialect.name in ("sqlite", "mysql") else n
            if n2 == lookup:
                if self.dialect.name == "mysql":
                    if (s or self.dialect.default_schema_name) == (schema or self.dialect.default_schema_name):
                        return (s, n)
                elif schema is None:
                    return (s, n)
        return None

    def _rel(self, table) -> Rel:
        schema, name = getattr(table, "schema", None), table.name
        tk = self._temp(schema, name)
        if tk is not None:
            rel = self.temps[tk]
            return self._as(rel, table)
        key = self._key(schema, name)
        if key not in self.db.rels:
            raise _db_error(sa.exc.OperationalError, f"no such table: {schema}.{name}")
        return self._as(self.db.rels[key], table)

    @staticmethod
    def _as(rel: Rel, table) -> Rel:
        cols = [c.key for c in table.columns]
        names = [c.name for c in table.columns]
        if names == rel.cols and cols == rel.cols:
            return rel
        missing = [n for n in names if n not in rel.cols]
        if missing:
            raise _db_error(sa.exc.OperationalError, f"no such column: {missing}")
        idx = [rel.cols.index(n) for n in names]
        return Rel(cols, [Row(r.g, [r.cells[i] for i in idx]) for r in rel.rows], [rel.kinds[i] for i in idx])

    def _is_temp(self, table):
        return self._temp(getattr(table, "schema", None), table.name) is not None

    @staticmethod
    def schema_for_object(obj):
        return obj.schema

    # -- DDL
    def _run_ddl_visitor(self, visitorcallable, element, **kwargs):
        visitorcallable(self.dialect, self, **kwargs).traverse_single(element)

    def _tabname(self, table):
        return f"{table.schema}.{table.name}" if table.schema is not None else table.name

    def _ddl(self, stmt):
        log, role = self.engine.log, self.engine.role
        sql = str(stmt.compile(dialect=self.dialect))
        if isinstance(stmt, saddl.CreateTable):
            t = stmt.element
            temp = any("TEMP" in p.upper() for p in getattr(t, "_prefixes", []))
            rel = Rel([c.name for c in t.columns], [],
                      ["text" if isinstance(c.type, sa.String) else "int" for c in t.columns])
            log.add(role, "create_table", self._tabname(t), stmt=stmt, conn=self.ident, temp=temp, sql=sql)
            if temp:
                if self._temp(t.schema, t.name) is not None:
                    raise _db_error(sa.exc.OperationalError, f"table {t.name} already exists")
                if self.dialect.name == "postgresql" and t.schema is not None:
                    raise _db_error(sa.exc.ProgrammingError, "cannot create temporary relation in non-temporary schema")
                if self.dialect.name == "sqlite" and t.schema is not None:
                    raise _db_error(sa.exc.OperationalError, "temporary table name must be unqualified")
                self.temps[(t.schema, t.name)] = rel
            else:
                key = self._key(t.schema, t.name)
                if key in self.db.rels:
                    raise _db_error(sa.exc.OperationalError, f"table {t.name} already exists")
                self.db.rels[key] = rel
                if self.saved is not None:
                    self.saved[key] = rel
                self.db.ddl.append(("table", t, stmt))
                if self.dialect.name == "postgresql" and re.search(r"\b(BIG|SMALL)?SERIAL\b|\bIDENTITY\b", sql):
                    self.db.seq[(*key, t.autoincrement_column.name)] = {"called": False, "last": 1}
            return
        if isinstance(stmt, saddl.CreateIndex):
            t = stmt.element.table
            log.add(role, "create_index", self._tabname(t), stmt=stmt, conn=self.ident, temp=self._is_temp(t), sql=sql)
            self.db.ddl.append(("index", stmt.element, stmt))
            return
        if isinstance(stmt, saddl.AddConstraint):
            log.add(role, "alter_table", self._tabname(stmt.element.table), stmt=stmt, conn=self.ident, sql=sql)
            self.db.ddl.append(("constraint", stmt.element, stmt))
            return
        if isinstance(stmt, saddl.DropTable):
            t = stmt.element
            tk = self._temp(t.schema, t.name)
            log.add(role, "drop_table", self._tabname(t), stmt=stmt, conn=self.ident, temp=tk is not None, sql=sql)
            if tk is not None:
                del self.temps[tk]
            else:
                self.db.rels.pop(self._key(t.schema, t.name), None)
            return
        log.add(role, "ddl", None, stmt=stmt, conn=self.ident, sql=sql)
        if isinstance(stmt, saddl.CreateSchema):
            return
        raise Unsupported(f"DDL {type(stmt).__name__}")

    # -- statements
    def exec_driver_sql(self, sql, parameters=None, execution_options=None):
        return self.execute(sa.text(sql), parameters)

    def scalar(self, stmt, parameters=None, **kw):
        return self.execute(stmt, parameters).scalar()

    def scalars(self, stmt, parameters=None, **kw):
        return self.execute(stmt, parameters).scalars()

    def stream(self, *a, **k):
        return self.execute(*a, **k)

    def _evaluator(self, params=None, stmt=None) -> Evaluator:
        eng = self.engine
        if stmt is not None:
            self._check_reopen(stmt)
        return Evaluator(self._rel, eng.fresh, eng.text_preds, None, self.dialect.name, eng.text_queries)

    def _check_reopen(self, stmt):
        """MySQL cannot refer to a temporary table more than once in the same statement."""
        if self.dialect.name != "mysql" or not self.temps:
            return
        sql = str(stmt.compile(dialect=self.dialect))
        for schema, name in self.temps:
            # Names without the schema are those of aliases.
            n = len(re.findall(rf"(?<![\w.`])`?{re.escape(schema or '')}`?\.`?{re.escape(name)}`?(?![\w.`])", sql))
            if n > 1:
                raise _db_error(sa.exc.OperationalError, f"Can't reopen table: '{name}'")

    def execute(self, stmt, parameters=None, *, execution_options=None):
        if self.closed:
            raise sa.exc.ResourceClosedError("This Connection is closed")
        if isinstance(stmt, str):
            raise sa.exc.ObjectNotExecutableError(stmt)
        log, role = self.engine.log, self.engine.role
        if isinstance(stmt, saddl.ExecutableDDLElement):
            self._ddl(stmt)
            return _NoRows(-1)
        if isinstance(stmt, (S.SelectBase,)):
            ev = self._evaluator(stmt=stmt)
            tables = sorted({self._tabname(f) for f in _tables_in(stmt)})
            log.add(role, "select", ",".join(tables), stmt=stmt, conn=self.ident, params=parameters)
            if parameters:
                stmt = stmt.params(parameters)
            rel = ev.query(stmt)
            self._obligations(ev)
            return self._result(rel)
        if isinstance(stmt, dml.Delete):
            return self._delete(stmt)
        if isinstance(stmt, dml.Update):
            log.add(role, "update", self._tabname(stmt.table), stmt=stmt, conn=self.ident, temp=self._is_temp(stmt.table))
            raise Unsupported("UPDATE")
        if isinstance(stmt, dml.Insert) and stmt.select is not None:
            return self._insert_select(stmt)
        if isinstance(stmt, E.TextClause):
            return self._text(stmt, parameters)
        if isinstance(stmt, S.TextualSelect):
            return self._text(stmt.element, parameters)
        if isinstance(stmt, dml.Insert) or hasattr(stmt, "conflict_strategy") or isinstance(stmt, E.ClauseElement):
            return self._insert(stmt, parameters)
        raise Unsupported(f"statement {type(stmt).__name__}")

    def _obligations(self, ev):
        for label, prop in ev.obligations:
            self.engine.obligations.append((label, prop))

    def _result(self, rel: Rel):
        ctx, mode = self.db.ctx, self.engine.mode
        if mode == "rel":
            rel = compress(ctx, rel)

            def gen():
                for r in rel.rows:
                    if r.g is False:
                        continue
                    yield tuple(OutCell(r, c) for c in r.cells)
        else:
            def gen():
                for r in rel.rows:
                    if r.g is True or ctx.branch(r.g):
                        yield tuple(py_of_cell(ctx, c) for c in r.cells)
        return SymResult(rel.cols, gen(), rowcount=-1)

    def _insert_select(self, stmt):
        table = stmt.table
        temp = self._is_temp(table)
        self.engine.log.add(self.engine.role, "insert_select", self._tabname(table), stmt=stmt, conn=self.ident,
                            temp=temp)
        ev = self._evaluator(stmt=stmt.select)
        rel = ev.query(stmt.select)
        self._obligations(ev)
        names = [n if isinstance(n, str) else n.name for n in (stmt._select_names or [c.name for c in table.columns])]
        if len(names) != len(rel.cols):
            raise _db_error(sa.exc.OperationalError, "INSERT column count mismatch")
        if not temp:
            if self._key(table.schema, table.name) not in self.db.rels:
                raise _db_error(sa.exc.OperationalError, f"no such table: {table.name}")
            self._mark()
            raise Unsupported("INSERT .. SELECT into a permanent table")
        tk = self._temp(table.schema, table.name)
        target = self.temps[tk]
        pk = [c.name for c in table.primary_key.columns]
        new = []
        rel = compress(self.db.ctx, rel)
        for r in rel.rows:
            cells = []
            for c in target.cols:
                cells.append(r.cells[names.index(c)] if c in names else NULL)
            new.append(Row(r.g, cells))
        if pk:
            bad = []
            allrows = target.rows + new
            idx = [target.cols.index(c) for c in pk]
            for i, a in enumerate(allrows):
                if i >= len(target.rows):
                    bad.append(And(a.g, Or(*(a.cells[k].null for k in idx))))
                for j in range(max(i + 1, len(target.rows)), len(allrows)):
                    b = allrows[j]
                    bad.append(And(a.g, b.g, *(And(Not(a.cells[k].null), Not(b.cells[k].null),
                                                   Eq(a.cells[k].val, b.cells[k].val)) for k in idx)))
            cond = Or(*bad)
            if cond is not False and self.db.ctx.branch(cond):
                raise _db_error(sa.exc.IntegrityError, f"UNIQUE constraint failed: {table.name}.{pk}")
        kinds = [rel.kinds[names.index(c)] if c in names else "int" for c in target.cols]
        self.temps[tk] = Rel(target.cols, target.rows + new, kinds)
        count = Sum(B2I(r.g) for r in new)
        return _NoRows(SymInt(count) if symx.is_term(count) else count)

    def _delete(self, stmt):
        table = stmt.table
        self.engine.log.add(self.engine.role, "delete", self._tabname(table), stmt=stmt, conn=self.ident,
                            temp=self._is_temp(table))
        key = self._key(table.schema, table.name)
        tk = self._temp(table.schema, table.name)
        if tk is None and key not in self.db.rels:
            raise _db_error(sa.exc.OperationalError, f"no such table: {key}")
        self._mark()
        rel = self.temps[tk] if tk is not None else self.db.rels[key]
        crit = list(stmt._where_criteria)
        rows = []
        if crit:
            ev = self._evaluator()
            bound = self._as(rel, table)
            for r, br in zip(rel.rows, bound.rows):
                env = [{"froms": [table], "b": {table: dict(zip(bound.cols, br.cells))}}]
                hit = And(*(ev.cond(c, env).t for c in crit))
                rows.append(Row(And(r.g, Not(hit)), r.cells))
        new = Rel(rel.cols, [r for r in rows if r.g is not False], rel.kinds)
        if tk is not None:
            self.temps[tk] = new
        else:
            self.db.rels[key] = new
            self._enforce(key)
        return _NoRows(-1)

    def _enforce(self, key):
        if not self.db.enforce:
            return
        for fk, child, bad in self.db.broken_keys(key):
            if bad is not False and self.db.ctx.branch(bad):
                raise _db_error(sa.exc.IntegrityError, f"FOREIGN KEY constraint failed: {child} {fk}")

    # -- inserts into destination tables: semantics read off the SQL the real compiler produces
    def _insert(self, stmt, parameters):
        if parameters is None:
            plist: List[Dict[str, Any]] = [{}]
        elif isinstance(parameters, dict):
            plist = [parameters]
        else:
            plist = list(parameters)
        if not plist:
            plist = [{}]
        keys = list(plist[0])
        multi = None
        if isinstance(stmt, dml.Insert) and (stmt._multi_values or stmt._values):
            multi = _literal_values(stmt)
            if multi is not None and parameters is None:
                plist, keys = multi, list(multi[0])
        for p in plist:
            if set(p) - set(keys) or set(keys) - set(p):
                raise sa.exc.InvalidRequestError("parameter groups differ")
        compiled = stmt.compile(dialect=self.dialect, column_keys=None if multi is not None else keys)
        sql = str(compiled)
        ins = parse_insert(sql, self.dialect.name)
        if ins is None:
            raise Unsupported("statement: " + sql[:100])
        schema, name, cols, verb, target, sets = ins
        if cols is None:
            cols = keys
        key = self._key(schema, name)
        self.engine.log.add(self.engine.role, "insert", f"{key[0]}.{key[1]}", stmt=stmt, params=plist, conn=self.ident,
                            sql=sql, temp=self._temp(schema, name) is not None, nrows=len(plist))
        if key not in self.db.rels:
            raise _db_error(sa.exc.OperationalError, f"no such table: {key}")
        self._mark()
        jsons = {n for n, b in compiled.binds.items() if isinstance(b.type, sa.JSON)
                 and b.type.dialect_impl(self.dialect).should_evaluate_none}
        if jsons:  # None is JSON null to them
            plist = [{k: Cell(False, JSON_NULL, "json") if v is None and k in jsons else v for k, v in p.items()}
                     for p in plist]
        insert_rows(self, key, cols, plist, verb, target, sets)
        self._enforce(key)
        return _NoRows(len(plist))

    def _text(self, stmt, parameters):
        sql = stmt.text
        role, log = self.engine.role, self.engine.log
        params = dict(parameters or {}) if not isinstance(parameters, (list, tuple)) else {}
        for k, b in stmt._bindparams.items():
            if k not in params and not b.required:
                params[k] = b.effective_value
        if sql in self.engine.text_queries:
            log.add(role, "select", "text", stmt=stmt, conn=self.ident, params=params, sql=sql)
            return self._result(self.engine.text_queries[sql](self))
        m = re.match(r"\s*(\w+)", sql)
        word = (m[1] if m else "").upper()
        if word == "SELECT":
            log.add(role, "select_text", None, stmt=stmt, params=params, conn=self.ident, sql=sql)
            from lib.pgtext import eval_select

            rows = eval_select(self, sql, params)
            return SymResult([f"v{i}" for i in range(len(rows[0]))], iter(rows))
        m = re.fullmatch(r"\s*(?:DELETE\s+FROM|TRUNCATE(?:\s+TABLE)?)\s+([\w.\"`]+)\s*(CASCADE)?\s*;?\s*", sql, re.I)
        if m:
            parts = [p.strip('"`') for p in m[1].split(".")]
            schema, name = parts if len(parts) == 2 else (None, parts[0])
            key = self._key(schema, name)
            log.add(role, "delete", f"{key[0]}.{key[1]}", stmt=stmt, conn=self.ident, sql=sql)
            if key not in self.db.rels:
                raise _db_error(sa.exc.OperationalError, f"no such table: {key}")
            self._mark()
            self.db.rels[key] = Rel(self.db.rels[key].cols, [], self.db.rels[key].kinds)
            self._enforce(key)
            return _NoRows(-1)
        log.add(role, "text:" + word.lower(), None, stmt=stmt, params=params, conn=self.ident, sql=sql)
        if word in ("SET", "PRAGMA", "BEGIN", "COMMIT", "ANALYZE"):
            return _NoRows(-1)
        if word in ("CREATE", "DROP", "ALTER", "INSERT", "UPDATE", "DELETE", "REPLACE", "TRUNCATE"):
            return _NoRows(-1)
        raise Unsupported("raw SQL: " + sql[:80])


def _tables_in(stmt):
    from sqlalchemy.sql import visitors

    seen = []
    for el in visitors.iterate(stmt):
        if isinstance(el, S.TableClause) and el not in seen:
            seen.append(el)
    return seen


def _literal_values(stmt):
    def conv(d):
        out = {}
        for k, v in d.items():
            name = k if isinstance(k, str) else k.name
            out[name] = v.effective_value if isinstance(v, E.BindParameter) else v
        return out

    if stmt._multi_values:
        out = []
        for group in stmt._multi_values:
            for d in group:
                if not isinstance(d, dict):
                    return None
                out.append(conv(d))
        return out
    return [conv(stmt._values)]


_ID = r'(?:"(?:[^"]|"")+"|`(?:[^`]|``)+`|\[[^\]]+\]|\w+)'


def _unq(s: str) -> str:
    s = s.strip()
    if s and s[0] in '"`[':
        return s[1:-1].replace(s[0] * 2, s[0])
    return s


_IDS = rf"\(\s*{_ID}(?:\s*,\s*{_ID})*\s*\)"


def _unq_list(s: str) -> List[str]:
    return [_unq(x) for x in re.findall(_ID, s)]


def parse_insert(sql: str, dialect_name: str):
    """(schema, table, columns, verb, conflict target, {col: source col}) of an INSERT statement."""
    s = " ".join(sql.split())
    if dialect_name in ("mysql", "postgresql"):
        s = s.replace("%%", "%")  # escaped for the drivers
    m = re.match(rf"(INSERT|REPLACE)( OR IGNORE| OR REPLACE| OR ABORT| OR ROLLBACK| OR FAIL| IGNORE)? INTO "
                 rf"({_ID})(?:\.({_ID}))?", s, re.I)
    if not m:
        return None
    verb = "error"
    opt = (m[2] or "").strip().upper()
    if opt in ("OR IGNORE", "IGNORE"):
        verb = "ignore"
    elif opt == "OR REPLACE" or m[1].upper() == "REPLACE":
        verb = "replace"
    upper = s.upper()
    wrong = {"sqlite": [opt == "IGNORE", " ON DUPLICATE KEY " in upper],
             "mysql": [opt.startswith("OR "), " ON CONFLICT " in upper],
             "postgresql": [bool(opt), m[1].upper() == "REPLACE", " ON DUPLICATE KEY " in upper]}
    if any(wrong.get(dialect_name, ())):
        raise _db_error(sa.exc.ProgrammingError, f"syntax error on {dialect_name}: {s[:60]}")
    schema, name = (_unq(m[3]), _unq(m[4])) if m[4] else (None, _unq(m[3]))
    rest = s[m.end():].strip()
    cols: Optional[List[str]] = []
    if rest.startswith("("):
        ids = re.match(_IDS, rest)
        if ids is None and not rest.startswith("()"):
            raise Unsupported("INSERT column list: " + rest[:80])
        cols = _unq_list(ids[0]) if ids else []
        rest = rest[ids.end() if ids else 2:].strip()
    tail = re.search(r"\b(ON CONFLICT|ON DUPLICATE KEY|AS \w+ ON DUPLICATE KEY|RETURNING)\b", rest, re.I)
    values, rest = (rest[:tail.start()], rest[tail.start():]) if tail else (rest, "")
    target: Any = None
    sets: Dict[str, str] = {}
    if not rest:
        return schema, name, cols, verb, target, sets
    m = re.fullmatch(rf"ON CONFLICT ?({_IDS})? ?DO NOTHING( RETURNING .*)?", rest, re.I)
    if m:
        target = _unq_list(m[1]) if m[1] else None
        return schema, name, cols, "ignore", target, sets
    m = re.fullmatch(r"ON CONFLICT ?\(([^)]*)\) ?DO UPDATE SET (.*?)( RETURNING .*)?", rest, re.I)
    if m:
        target = _unq_list(m[1])
        one = rf"({_ID}) = excluded\.({_ID})"
        if not re.fullmatch(rf"{one}(?:, {one})*", m[2].strip(), re.I):
            raise Unsupported("ON CONFLICT SET " + m[2])
        for a in re.finditer(one, m[2], re.I):
            sets[_unq(a[1])] = _unq(a[2])
        return schema, name, cols, "update", target, sets
    m = re.fullmatch(r"(?:AS (\w+) )?ON DUPLICATE KEY UPDATE (.*)", rest, re.I)
    if m:
        one = rf"(?:{_ID}\.)?({_ID}) = (?:VALUES\(({_ID})\)|(\w+)\.({_ID}))"
        if not re.fullmatch(rf"{one}(?:, {one})*", m[2].strip(), re.I):
            raise Unsupported("ON DUPLICATE KEY " + m[2])
        for a in re.finditer(one, m[2], re.I):
            if a[3] and a[3] != m[1]:
                raise Unsupported("ON DUPLICATE KEY " + m[2])
            sets[_unq(a[1])] = _unq(a[2] or a[4])
        return schema, name, cols, "update", None, sets
    if rest.upper().startswith("RETURNING"):
        return schema, name, cols, verb, target, sets
    raise Unsupported("INSERT tail: " + rest[:80])


def _cell_in(v):
    v = symx.detoken(v)
    if isinstance(v, OutCell):
        return v.cell, v.row.g
    return cell_of_py(v), True


def insert_rows(conn: SymConnection, key, cols, plist, verb, target, sets):
    """Execute one INSERT for every parameter row, in order."""
    db, ctx = conn.db, conn.db.ctx
    rel = db.rels[key]
    meta = db_table(db, key)
    computed = db.computed.get(key, {})
    for c in cols:
        if c not in rel.cols:
            raise _db_error(sa.exc.OperationalError, f"table {key} has no column named {c}")
        if c in computed or (meta is not None and meta.columns[c].computed is not None):
            raise _db_error(sa.exc.OperationalError, f"cannot INSERT into generated column {c}")
    for c in sets:
        if c in computed:
            raise _db_error(sa.exc.OperationalError, f"cannot UPDATE generated column {c}")
    pk = [c.name for c in meta.primary_key.columns] if meta is not None else []
    uniques = [pk] if pk else []
    if meta is not None:
        for con in meta.constraints:
            if isinstance(con, sa.UniqueConstraint):
                uniques.append([c.name for c in con.columns])
        for ix in meta.indexes:
            if ix.unique and all(isinstance(e, sa.Column) for e in ix.expressions) and not any(
                    k.endswith("_where") and v is not None for k, v in ix.dialect_kwargs.items()):
                uniques.append([c.name for c in ix.columns])
    if target is not None and not any(set(u) == set(target) for u in uniques):
        raise _db_error(sa.exc.OperationalError,
                        "ON CONFLICT clause does not match any PRIMARY KEY or UNIQUE constraint")
    rel = db.rels[key] = rel.copy()
    index: List[Dict[Any, List[Row]]] = [{} for _ in uniques]  # constant keys; the other rows are "loose"
    loose: set = set()

    def enter(row, keys):
        if keys is None or any(k is None for k in keys):
            loose.add(id(row))
            return
        for i, k in enumerate(keys):
            index[i].setdefault(k, []).append(row)

    for e in rel.rows if uniques else ():
        enter(e, [_const_key(rel, e, u) for u in uniques])
    for p in plist:
        g: Any = True
        cells: List[Any] = [None] * len(rel.cols)
        for k, v in p.items():
            if k not in cols:
                continue
            c, rg = _cell_in(v)
            g = And(g, rg)
            cells[rel.cols.index(k)] = c
        for i, name in enumerate(rel.cols):
            if cells[i] is None and name not in computed:
                autocol = meta.autoincrement_column if meta is not None else None
                if (name in pk and len(pk) == 1 and autocol is not None and autocol.name == name):
                    cells[i] = Cell(False, _generated_key(conn, key, name, rel), "int")
                else:
                    cells[i] = NULL
        for i, name in enumerate(rel.cols):
            if name in computed:
                cells[i] = computed[name](dict(zip(rel.cols, cells)))
        for i, name in enumerate(rel.cols):
            if meta is not None and not meta.columns[name].nullable and cells[i].null is not False:
                bad = And(g, cells[i].null)
                if bad is not False and ctx.branch(bad):
                    if verb == "ignore" and conn.dialect.name != "postgresql":
                        raise Unsupported("INSERT IGNORE of a NULL key")
                    raise _db_error(sa.exc.IntegrityError, f"NOT NULL constraint failed: {key}.{name}")
        new = Row(g, cells)

        def clash(e, u):
            return And(e.g, g, *(And(Not(rel.cell(e, c).null), Not(rel.cell(new, c).null),
                                     Eq(rel.cell(e, c).val, rel.cell(new, c).val)) for c in u))

        cands = rel.rows
        new_keys = None
        if uniques:
            new_keys = [_const_key(rel, new, u) for u in uniques]
            if all(k is not None for k in new_keys):
                hit = {id(e): e for i, k in enumerate(new_keys) for e in index[i].get(k, ()) if e.g is not False}
                cands = [e for e in rel.rows if id(e) in hit or id(e) in loose] if hit or loose else []
        per = [[clash(e, u) for u in uniques] for e in cands]
        if verb == "error":
            cond = Or(*(c for row in per for c in row))
            if cond is not False and ctx.branch(cond):
                raise _db_error(sa.exc.IntegrityError, f"UNIQUE constraint failed: {key}")
        elif verb == "ignore":
            hits, errs = [], []
            for row in per:
                for u, c in zip(uniques, row):
                    (hits if target is None or set(u) == set(target) else errs).append(c)
            err = And(Or(*errs), Not(Or(*hits)))
            if err is not False and ctx.branch(err):
                raise _db_error(sa.exc.IntegrityError, f"UNIQUE constraint failed: {key}")
            new.g = And(g, Not(Or(*hits)))
        elif verb == "replace":
            for e, row in zip(cands, per):
                e.g = And(e.g, Not(Or(*row)))
        elif verb == "update":
            hits, errs = [], []
            for e, row in zip(cands, per):
                h = Or(*(c for u, c in zip(uniques, row) if target is None or set(u) == set(target)))
                x = Or(*(c for u, c in zip(uniques, row) if not (target is None or set(u) == set(target))))
                errs.append(x)
                hits.append(h)
                old = list(e.cells)
                for c, src in sets.items():
                    i, j = rel.cols.index(c), rel.cols.index(src)
                    e.cells[i] = Cell(Ite(h, new.cells[j].null, old[i].null), Ite(h, new.cells[j].val, old[i].val),
                                      old[i].kind if old[i].kind != "null" else new.cells[j].kind)
                for i, name in enumerate(rel.cols):
                    if name in computed and h is not False:
                        e.cells[i] = computed[name](dict(zip(rel.cols, e.cells)))
            err = And(Or(*errs), Not(Or(*hits)))
            if err is not False and ctx.branch(err):
                raise _db_error(sa.exc.IntegrityError, f"UNIQUE constraint failed: {key}")
            new.g = And(g, Not(Or(*hits)))
            for e in cands:
                if sets and id(e) not in loose:
                    loose.add(id(e))  # its values may have changed
        if new.g is not False:
            rel.rows.append(new)
            enter(new, new_keys)


def _const_key(rel, row, cols):
    """The values of the row's key if they are constants (None otherwise)."""
    out = []
    for c in cols:
        cell = rel.cell(row, c)
        if cell.null is not False or isinstance(cell.val, bool) or not isinstance(cell.val, int):
            return None
        out.append(cell.val)
    return tuple(out)


def _generated_key(conn, key, name, rel):
    ctx = conn.db.ctx
    st = conn.db.seq.get((*key, name))
    if st is not None:
        v = Ite(st["called"], st["last"] + 1, st["last"])
        st["called"], st["last"] = True, v
        return v
    v = ctx.int(conn.engine.fresh(f"auto.{key[0]}.{key[1]}.{name}"), wrap=False)
    for r in rel.rows:
        c = rel.cell(r, name)
        ctx.assume(Implies(r.g, v > c.val) if symx.is_term(v) else Or(Not(r.g), v > c.val))
    return v


def db_table(db: SymDB, key) -> Optional[sa.Table]:
    t = db.metadata.tables.get(f"{key[0]}.{key[1]}")
    if t is not None:
        return t
    for kind, obj, _ in db.ddl:
        if kind == "table" and (obj.schema, obj.name) == key:
            return obj
    return None


# --------------------------------------------------------------------------------------------- reflection
def _reflect_into(target: sa.MetaData, db: SymDB, schema, only=None):
    for t in db.metadata.tables.values():
        if t.schema == schema and (only is None or t.name in only):
            if f"{t.schema}.{t.name}" not in target.tables:
                _copy_table(target, db, t)


def _copy_table(target, db, t):
    new = t.to_metadata(target)
    for fk in t.foreign_key_constraints:
        ref = fk.referred_table
        if f"{ref.schema}.{ref.name}" not in target.tables:
            _copy_table(target, db, ref)
    return new


_orig_reflect = sa.MetaData.reflect


def _reflect(self, bind, schema=None, views=False, resolve_fks=True, **kw):
    eng = getattr(bind, "engine", bind)
    db = getattr(eng, "db", None)
    if isinstance(db, SymDB):
        only = kw.get("only")
        if callable(only):
            raise Unsupported("reflect(only=callable)")
        _reflect_into(self, db, schema if schema is not None else eng.dialect.default_schema_name, only)
        return None
    spec = _REFLECT_AS.get(id(eng))
    if spec is not None:
        db = _ReflectHolder(spec)
        _reflect_into(self, db, schema if schema is not None else "main", kw.get("only"))
        return None
    return _orig_reflect(self, bind, schema=schema, views=views, resolve_fks=resolve_fks, **kw)


sa.MetaData.reflect = _reflect  # type: ignore
_REFLECT_AS: Dict[int, Spec] = {}


class _ReflectHolder:
    def __init__(self, spec):
        self.metadata = spec.metadata()


class SymInspector:
    def __init__(self, bind):
        self.bind = bind
        self.engine = bind.engine
        self.dialect = self.engine.dialect
        self.db: SymDB = self.engine.db

    @property
    def default_schema_name(self):
        return self.dialect.default_schema_name

    def get_schema_names(self, **kw):
        return list(self.db.schemas)

    def _t(self, name, schema):
        return self.db.metadata.tables[f"{schema or self.default_schema_name}.{name}"]

    def get_table_names(self, schema=None, **kw):
        return [t.name for t in self.db.metadata.tables.values() if t.schema == (schema or self.default_schema_name)]

    def get_view_names(self, schema=None, **kw):
        return []

    def has_table(self, table_name, schema=None, **kw):
        return f"{schema or self.default_schema_name}.{table_name}" in self.db.metadata.tables

    def has_schema(self, schema, **kw):
        return schema in self.db.schemas

    def get_columns(self, table_name, schema=None, **kw):
        return [dict(name=c.name, type=c.type, nullable=c.nullable, default=None, autoincrement="auto")
                for c in self._t(table_name, schema).columns]

    def get_pk_constraint(self, table_name, schema=None, **kw):
        pk = self._t(table_name, schema).primary_key
        return dict(name=pk.name, constrained_columns=[c.name for c in pk.columns])

    def get_foreign_keys(self, table_name, schema=None, **kw):
        return [dict(name=f.name, constrained_columns=[c.name for c in f.columns],
                     referred_schema=f.referred_table.schema, referred_table=f.referred_table.name,
                     referred_columns=[e.column.name for e in f.elements], options={})
                for f in self._t(table_name, schema).foreign_key_constraints]

    def get_unique_constraints(self, table_name, schema=None, **kw):
        return [dict(name=u.name, column_names=[c.name for c in u.columns])
                for u in self._t(table_name, schema).constraints if isinstance(u, sa.UniqueConstraint)]

    def get_check_constraints(self, table_name, schema=None, **kw):
        return [dict(name=u.name, sqltext=str(u.sqltext))
                for u in self._t(table_name, schema).constraints if isinstance(u, sa.CheckConstraint)]

    def get_indexes(self, table_name, schema=None, **kw):
        return [dict(name=i.name, column_names=[c.name for c in i.columns], unique=i.unique)
                for i in self._t(table_name, schema).indexes]

    def get_table_options(self, *a, **k):
        return {}

    def get_table_comment(self, *a, **k):
        return {"text": None}


sa.inspection._inspects(SymEngine)(SymInspector)
sa.inspection._inspects(SymConnection)(SymInspector)


# --------------------------------------------------------------------------------------------- configs
def source_config(engine):
    from subsetter.common import DatabaseConfig

    class StubSource(DatabaseConfig):
        def database_engine(self, env_prefix=None):
            return engine

    return StubSource(dialect={"sqlite": "sqlite", "postgresql": "postgres", "mysql": "mysql"}[engine.dialect.name])


def output_config(engine, **kw):
    from subsetter.config_model import DatabaseOutputConfig

    class StubOutput(DatabaseOutputConfig):
        def database_engine(self, env_prefix=None):
            return engine

    return StubOutput(mode="database",
                      dialect={"sqlite": "sqlite", "postgresql": "postgres", "mysql": "mysql"}[engine.dialect.name],
                      **kw)


# --------------------------------------------------------------------------------------------- real databases
SCRATCH: List[str] = []


def scratch_dir() -> str:
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="sbv_", dir=base)
    SCRATCH.append(d)
    return d


def cleanup_scratch():
    while SCRATCH:
        shutil.rmtree(SCRATCH.pop(), ignore_errors=True)


def real_engine(spec: Spec, rels: Dict[str, Rel], attempt: int = 0, create=True):
    """A real sqlite database with the given concrete contents; one attached file per schema."""
    from subsetter.common import DatabaseConfig

    d = scratch_dir()
    schemas = [s for s in spec.schemas if s != "main"]
    cfg = DatabaseConfig(dialect="sqlite", sqlite_databases={s: os.path.join(d, f"{s}.db") for s in schemas},
                         database=os.path.join(d, "main.db"))
    engine = cfg.database_engine()
    import random as _random

    rng = _random.Random(attempt)

    @sa.event.listens_for(engine, "connect")
    def _fn(dbapi_connection, _):
        if attempt >= 0:
            dbapi_connection.create_function("random", 0, lambda: RANDOM_FN[0](rng))

    md = spec.metadata()
    with engine.begin() as conn:
        md.create_all(conn)
    with engine.begin() as conn:
        for t in spec.tabs.values():
            rel = rels.get(t.full)
            if rel is None:
                continue
            for r in rel.rows:
                if not symx.cur().branch(r.g):
                    continue
                vals = {}
                for c, cell in zip(t.cols, r.cells):
                    if c.computed:
                        continue
                    vals[c.name] = concrete_value(cell, c)
                conn.execute(md.tables[t.full].insert().values(vals))
    if spec.cross_schema:
        _REFLECT_AS[id(engine)] = spec
    return engine


def log_real(engine, role, log: Log, enforce=False):
    """Log the statements a real sqlite database is given."""
    engine.dispose()

    @sa.event.listens_for(engine, "connect")
    def _connect(dbapi_connection, _):
        if enforce:
            dbapi_connection.execute("PRAGMA foreign_keys=ON")

    @sa.event.listens_for(engine, "before_cursor_execute")
    def _execute(conn, cursor, statement, parameters, context, executemany):
        m = re.match(r"\s*(INSERT(?:\s+OR\s+\w+)?\s+INTO|DELETE\s+FROM|CREATE\s+TABLE|CREATE(?:\s+UNIQUE)?\s+INDEX|"
                     r"DROP\s+TABLE|ALTER\s+TABLE|UPDATE)\s+((?:\"[^\"]*\"|`[^`]*`|[\w.])+)", statement, re.I)
        if not m:
            return
        op = "_".join(m[1].lower().replace(" into", "").replace(" from", "").replace("unique ", "").split())
        name = m[2].replace('"', "").replace("`", "")
        log.add(role, op, name if "." in name else f"main.{name}", sql=statement)


def _replayed_random(rng):
    """The next random number of the counterexample, as a real sqlite database asks for it."""
    ctx = symx.cur()
    draws = ctx.__dict__.setdefault("draws", [])
    v = ctx.values_in.get(f"source.rnd#{len(draws)}", rng.randint(-(2 ** 63), 2 ** 63 - 1))
    draws.append(Cell(False, int(v), "int"))
    return int(v)


RANDOM_FN = [_replayed_random]


def concrete_value(cell: Cell, col: Optional[Col] = None):
    ctx = symx.cur()
    if ctx.branch(cell.null):
        return sa.null() if col is not None and col.kind == "json" else None
    v = cell.val
    if symx.is_term(v):
        v = ctx.concretize(v)
    if cell.kind == "json" and v == JSON_NULL:
        return sa.JSON.NULL
    if cell.kind == "text":
        return POOL.text(v)
    if col is not None and col.kind == "bool":
        return bool(v)
    return v


def read_real(engine, tab: Tab) -> Rel:
    kinds = ["text" if c.kind == "text" else "int" for c in tab.cols]
    with engine.connect() as conn:
        rows = conn.exec_driver_sql(
            f'SELECT {", ".join(chr(34) + c + chr(34) for c in tab.colnames)} FROM "{tab.schema}"."{tab.name}"').fetchall()

    def cell(v, c):
        if c.kind == "json" and isinstance(v, str):
            v = json.loads(v)
            return cell_of_py(JSON_NULL if v is None else v)
        return cell_of_py(v)

    return Rel(tab.colnames, [Row(True, [cell(v, c) for v, c in zip(r, tab.cols)]) for r in rows], kinds)


def read_directory(path: str, tabs: Dict[str, List[str]]) -> Dict[str, Rel]:
    """Rows written as JSON lines, with tokens turned back into the cells they stand for."""
    out: Dict[str, Rel] = {}
    for fn in sorted(os.listdir(path)):
        if not fn.endswith(".json"):
            continue
        full = fn[:-5]
        rows, cols, orders = [], tabs.get(full), []
        with open(os.path.join(path, fn), encoding="utf-8") as f:
            for line in f:
                d = json.loads(line)
                orders.append(list(d))
                if cols is None:
                    cols = list(d)
                g: Any = True
                cells = []
                for c in cols:
                    if c not in d:
                        symx.cur().fail("columns", f"{full}: row written without column {c}: {sorted(d)}")
                    cell, rg = _cell_in(d[c])
                    g = And(g, rg)
                    cells.append(cell)
                if set(d) - set(cols):
                    symx.cur().fail("columns", f"{full}: unexpected columns {sorted(set(d) - set(cols))}")
                rows.append(Row(g, cells))
        out[full] = Rel(cols or [], rows)
        out[full].orders = orders  # the columns of each row in the order in which they were written
    return out
