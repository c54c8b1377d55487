"""
A SELECT of sequence functions over bound parameters, as PostgreSQL evaluates it. Each column that owns a sequence has
the state {"called": condition, "last": value}; setval and nextval change it at once, whatever the transaction does.
"""
from __future__ import annotations

import re
from typing import Any, Dict, List, Optional

import sqlalchemy as sa

from lib import symx
from lib.symsql import Cell, NULL, Unsupported, cell_of_py, ite_cell
from lib.symx import And, Ite, Not, Or

_TOK = re.compile(r"\s*(?:(\d+)|'((?:[^']|'')*)'|:(\w+)(?!:)|([A-Za-z_]\w*)|(::|<=|>=|<>|.))")


class Seq:
    """A reference to a sequence (what a regclass or the name of one evaluates to)."""

    def __init__(self, key):
        self.key = key

    def __str__(self):
        return "{}.{}_{}_seq".format(*self.key)


def sequence(db, key) -> Dict[str, Any]:
    if key not in db.seq:
        db.seq[key] = {"called": False, "last": 1}
    return db.seq[key]


def next_value(state):
    return Ite(state["called"], state["last"] + 1, state["last"])


def parse_name(conn, text: str):
    """(schema, table) of an SQL name: parts without quotes are folded to lower case."""
    parts: List[str] = []
    pos = 0
    while True:
        m = re.compile(r'\s*(?:"((?:[^"]|"")+)"|([A-Za-z_\u0080-\uffff][\w$\u0080-\uffff]*))\s*').match(text, pos)
        if not m:
            raise _error(sa.exc.ProgrammingError, f"invalid name syntax: {text}")
        parts.append(m[1].replace('""', '"') if m[1] is not None else m[2].lower())
        pos = m.end()
        if pos == len(text):
            break
        if text[pos] != ".":
            raise _error(sa.exc.ProgrammingError, f"invalid name syntax: {text}")
        pos += 1
    if len(parts) > 2:
        raise _error(sa.exc.ProgrammingError, f"cross-database references: {text}")
    schema, name = parts if len(parts) == 2 else (None, parts[0])
    return conn._key(schema, name)


def _error(kind, msg):
    from lib.world import _db_error

    return _db_error(kind, msg)


def eval_select(conn, sql: str, params: Dict[str, Any]):
    """Rows of the result: a list of tuples."""
    toks = [m.groups() for m in _TOK.finditer(sql.strip().rstrip(";"))]
    p = _Parser(conn, toks, params, sql)
    if (p.peek()[3] or "").upper() != "SELECT":
        raise Unsupported("raw SQL: " + sql[:80])
    p.pos += 1
    out = [p.expr()]
    while p.peek()[4] == ",":
        p.pos += 1
        out.append(p.expr())
    if p.pos != len(toks):
        raise Unsupported("raw SQL: " + sql[:80])
    return [tuple(p.python(v) for v in out)]


class _Parser:
    def __init__(self, conn, toks, params, sql):
        self.conn, self.toks, self.params, self.sql, self.pos = conn, toks, params, sql, 0

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else (None,) * 5

    def take(self, sym):
        if self.peek()[4] != sym:
            raise Unsupported("raw SQL: " + self.sql[:80])
        self.pos += 1

    def python(self, v):
        from lib.world import py_of_cell

        if isinstance(v, Seq):
            return str(v)
        if isinstance(v, (str, bool)) or v is None:
            return v
        return py_of_cell(self.conn.db.ctx, v)

    def expr(self):
        a = self.term()
        while self.peek()[4] in ("+", "-"):
            op = self.peek()[4]
            self.pos += 1
            b = self.term()
            if not isinstance(a, Cell) or not isinstance(b, Cell):
                raise Unsupported("arithmetic in raw SQL")
            a = Cell(Or(a.null, b.null), a.val + b.val if op == "+" else a.val - b.val, "int")
        if (self.peek()[3] or "").upper() == "AS":
            self.pos += 2
        return a

    def term(self):
        v = self.atom()
        while self.peek()[4] == "::":
            self.pos += 1
            v = self.cast(v, self.type_())
        return v

    def type_(self):
        word = self.peek()[3]
        if word is None:
            raise Unsupported("raw SQL: " + self.sql[:80])
        self.pos += 1
        return word.lower()

    def cast(self, v, kind):
        if isinstance(v, Seq) or v is None or isinstance(v, Cell):
            return v
        if kind in ("text", "varchar", "name"):
            return v
        if kind == "regclass":
            raise Unsupported("regclass of a name")
        raise Unsupported("cast to " + kind)

    def atom(self):
        num, text, bind, word, sym = self.peek()
        self.pos += 1
        if num is not None:
            return Cell(False, int(num), "int")
        if text is not None:
            return text.replace("''", "'")
        if bind is not None:
            if bind not in self.params:
                raise _error(sa.exc.StatementError, f"A value is required for bind parameter '{bind}'")
            v = self.params[bind]
            if isinstance(v, str) and not isinstance(v, (symx.SymStr,)):
                return str(v)
            return NULL if v is None else cell_of_py(symx.detoken(v))
        if sym == "(":
            v = self.expr()
            self.take(")")
            return v
        if sym == "-":
            v = self.atom()
            return Cell(v.null, -v.val, "int")
        if word is None:
            raise Unsupported("raw SQL: " + self.sql[:80])
        w = word.lower()
        if w in ("true", "false"):
            return w == "true"
        if w == "null":
            return NULL
        self.take("(")
        if w == "cast":
            v = self.expr_as()
            return v
        args = []
        while self.peek()[4] != ")":
            args.append(self.expr())
            if self.peek()[4] == ",":
                self.pos += 1
        self.take(")")
        return self.call(w, args)

    def expr_as(self):
        v = self.term()
        if (self.peek()[3] or "").upper() != "AS":
            raise Unsupported("raw SQL: " + self.sql[:80])
        self.pos += 1
        kind = self.type_()
        self.take(")")
        return self.cast(v, kind)

    def call(self, name, args):
        conn = self.conn
        if name == "coalesce":
            out = NULL
            for a in reversed(args):
                out = ite_cell(a.null, out, a)
            return out
        if name in ("greatest", "least"):
            out = NULL
            for a in args:
                better = And(Not(a.null), Or(out.null, a.val > out.val if name == "greatest" else a.val < out.val))
                out = ite_cell(better, a, out)
            return out
        if name == "quote_ident":
            return '"' + args[0].replace('"', '""') + '"'
        if name == "pg_get_serial_sequence":
            tab, col = args
            key = parse_name(conn, tab)
            if key not in conn.db.rels:
                raise _error(sa.exc.ProgrammingError, f'relation "{tab}" does not exist')
            if str(col) not in conn.db.rels[key].cols:
                raise _error(sa.exc.ProgrammingError, f'column "{col}" of relation "{tab}" does not exist')
            k = (*key, str(col))
            return Seq(k) if k in conn.db.seq else None
        if args and args[0] is None and name in ("pg_sequence_last_value", "setval", "nextval", "currval", "lastval"):
            return NULL  # the functions are strict
        seq = args[0] if args else None
        if not isinstance(seq, Seq):
            raise Unsupported("raw SQL: " + self.sql[:80])
        st = sequence(conn.db, seq.key)
        if name == "pg_sequence_last_value":
            return Cell(Not(st["called"]), st["last"], "int")
        if name == "nextval":
            v = next_value(st)
            st["called"], st["last"] = True, v
            conn.__dict__.setdefault("nextvals", {})[seq.key] = v
            return Cell(False, v, "int")
        if name == "currval":
            if seq.key not in conn.__dict__.get("nextvals", {}):
                raise _error(sa.exc.OperationalError, f'currval of sequence "{seq}" is not yet defined in this session')
            return Cell(False, conn.__dict__["nextvals"][seq.key], "int")
        if name == "setval":
            v = args[1]
            called = args[2] if len(args) > 2 else True
            if not isinstance(called, bool):
                raise Unsupported("setval with a computed third argument")
            bad = And(Not(v.null), v.val < 1)
            if conn.db.ctx.branch(bad):
                raise _error(sa.exc.DataError, f'setval: value is out of bounds for sequence "{seq}"')
            conn.engine.log.add(conn.engine.role, "setval", "{}.{}".format(*seq.key[:2]), conn=conn.ident, params=v)
            if v.null is True:
                return NULL
            st["last"] = Ite(v.null, st["last"], v.val)
            st["called"] = Or(st["called"], And(Not(v.null))) if called else And(st["called"], v.null)
            return v
        raise Unsupported("SQL function " + name)
