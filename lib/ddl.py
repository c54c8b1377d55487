"""Reads CREATE TABLE / CREATE INDEX / ALTER TABLE statements back into definitions and states what rows they allow."""
from __future__ import annotations

import re
from typing import Any, Callable, Dict, List, Optional, Tuple

from lib import symx, world
from lib.symsql import Rel, Row
from lib.symx import And, Eq, Iff, Implies, Not, Or


class Unreadable(symx.Inconclusive):
    pass


def scan(text: str):
    """(position, character, depth) outside of quotes; quoted text is skipped"""
    depth, i = 0, 0
    while i < len(text):
        c = text[i]
        if c in "'\"`":
            j = i + 1
            while True:
                j = text.index(c, j)
                if text[j + 1:j + 2] == c:
                    j += 2
                    continue
                break
            i = j + 1
            continue
        if c == "(":
            depth += 1
        if c == ")":
            depth -= 1
        yield i, c, depth
        i += 1


def split(text: str) -> List[str]:
    out, last = [], 0
    for i, c, d in scan(text):
        if c == "," and d == 0:
            out.append(text[last:i].strip())
            last = i + 1
    out.append(text[last:].strip())
    return [x for x in out if x]


def group(text: str) -> Tuple[str, str]:
    """'(a, b) rest' -> ('a, b', 'rest')"""
    text = text.strip()
    if not text.startswith("("):
        raise Unreadable(f"expected a list: {text[:80]}")
    for i, c, d in scan(text):
        if c == ")" and d == 0:
            return text[1:i], text[i + 1:].strip()
    raise Unreadable(f"unbalanced: {text[:80]}")


def unq(name: str) -> str:
    name = name.strip()
    if name[:1] in "\"`" and name[-1:] == name[:1]:
        return name[1:-1].replace(name[0] * 2, name[0])
    return name


NAME = r"(?:\"(?:[^\"]|\"\")*\"|`[^`]*`|[\w$]+)"


def names(text: str) -> Tuple[str, ...]:
    return tuple(unq(n) for n in split(text))


def qualified(text: str, default: Optional[str] = None) -> Tuple[str, str]:
    """'s.t rest' -> ('s.t', 'rest')"""
    m = re.match(rf"\s*(?:({NAME})\s*\.\s*)?({NAME})", text)
    if not m:
        raise Unreadable(f"name: {text[:60]}")
    schema = unq(m[1]) if m[1] else default
    return (f"{schema}.{unq(m[2])}" if schema else unq(m[2])), text[m.end():].strip()


class Def:
    """One table."""

    def __init__(self, name: str):
        self.name = name
        self.cols: Dict[str, Tuple[str, bool]] = {}  # type, NOT NULL
        self.pk: Tuple[str, ...] = ()
        self.uniques: List[Tuple[str, ...]] = []
        self.checks: List[str] = []
        self.fks: List[world.Fk] = []
        self.indexes: List[Tuple[bool, Tuple[str, ...], Tuple[str, ...], str]] = []


def plain_type(text: str) -> str:
    text = re.sub(r"\s+", " ", text.upper().strip())
    text = re.sub(r"^(BIG|SMALL)SERIAL\b", lambda m: {"BIG": "BIGINT", "SMALL": "SMALLINT"}[m[1]], text)
    text = re.sub(r"^SERIAL\b", "INTEGER", text)
    return re.sub(r"\s*(AUTO_INCREMENT|AUTOINCREMENT|GENERATED (BY DEFAULT|ALWAYS) AS IDENTITY( ?\(.*?\))?)", "", text).strip()


def tidy(text: str) -> str:
    """A condition without outer parentheses and surplus blanks."""
    text = re.sub(r"\s+", " ", text.strip()).replace("%%", "%")
    while text.startswith("("):
        inner, rest = group(text)
        if rest:
            break
        text = inner.strip()
    return text


def create_table(sql: str) -> Def:
    m = re.match(r"\s*CREATE\s+(?:TEMP(?:ORARY)?\s+)?TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?", sql, re.I)
    if not m:
        raise Unreadable(sql[:80])
    name, rest = qualified(sql[m.end():])
    body, _ = group(rest)
    schema = name.split(".")[0] if "." in name else None
    d = Def(name)
    for part in split(body):
        p = re.sub(rf"^CONSTRAINT\s+{NAME}\s+", "", part, flags=re.I)
        up = p.upper()
        if up.startswith("PRIMARY KEY"):
            d.pk = names(group(p[11:])[0])
        elif re.match(r"UNIQUE\s*\(", up):
            d.uniques.append(names(group(p[6:])[0]))
        elif re.match(r"CHECK\s*\(", up):
            d.checks.append(tidy(group(p[5:])[0]))
        elif up.startswith("FOREIGN KEY"):
            cols, rest = group(p[11:])
            d.fks.append(references(names(cols), rest, schema))
        else:
            m = re.match(rf"({NAME})\s+(.*)$", p, re.S)
            col, typ = unq(m[1]), m[2]
            notnull = bool(re.search(r"\bNOT NULL\b", typ, re.I))
            typ = re.sub(r"\s*\bNOT NULL\b", "", typ, flags=re.I)
            if re.search(r"\bPRIMARY KEY\b", typ, re.I):
                d.pk = (col,)
                typ = re.sub(r"\s*\bPRIMARY KEY\b", "", typ, flags=re.I)
            if re.search(r"\bUNIQUE\b", typ, re.I):
                d.uniques.append((col,))
                typ = re.sub(r"\s*\bUNIQUE\b", "", typ, flags=re.I)
            typ = re.sub(r"\s+NULL$", "", typ, flags=re.I)
            d.cols[col] = (plain_type(typ), notnull)
    return d


def references(cols, text: str, schema) -> world.Fk:
    m = re.match(r"\s*REFERENCES\s+", text, re.I)
    if not m:
        raise Unreadable(text[:80])
    name, rest = qualified(text[m.end():], schema)
    dst, rest = group(rest)
    return world.Fk(cols, name, names(dst))


def alter_table(sql: str) -> Tuple[str, world.Fk]:
    m = re.match(r"\s*ALTER\s+TABLE\s+", sql, re.I)
    name, rest = qualified(sql[m.end():])
    m = re.match(rf"ADD\s+(?:CONSTRAINT\s+{NAME}\s+)?FOREIGN\s+KEY\s*", rest, re.I)
    if not m:
        raise Unreadable(sql[:100])
    cols, rest = group(rest[m.end():])
    return name, references(names(cols), rest, name.split(".")[0] if "." in name else None)


def create_index(sql: str):
    """table, (unique, parts, include, where), name"""
    m = re.match(r"\s*CREATE\s+(UNIQUE\s+)?INDEX\s+", sql, re.I)
    if not m:
        raise Unreadable(sql[:80])
    unique = bool(m[1])
    name, rest = qualified(sql[m.end():])
    m = re.match(r"ON\s+", rest, re.I)
    table, rest = qualified(rest[m.end():], name.split(".")[0] if "." in name else None)
    rest = re.sub(r"^USING\s+\w+\s+", "", rest, flags=re.I)
    cols, rest = group(rest)
    include: Tuple[str, ...] = ()
    m = re.match(r"INCLUDE\s*", rest, re.I)
    if m:
        inc, rest = group(rest[m.end():])
        include = names(inc)
    m = re.match(r"WHERE\s+", rest, re.I)
    where = tidy(rest[m.end():]) if m else ""
    parts = tuple(unq(tidy(p)) for p in split(cols))
    return table, (unique, parts, include, where), name


def definitions(events) -> Dict[str, Def]:
    """What the statements logged create."""
    out: Dict[str, Def] = {}
    for e in events:
        if e.op == "create_table":
            d = create_table(e.sql)
            out[d.name] = d
        elif e.op == "create_index":
            table, ix, _ = create_index(e.sql)
            out.setdefault(table, Def(table)).indexes.append(ix)
        elif e.op == "alter_table":
            table, fk = alter_table(e.sql)
            out.setdefault(table, Def(table)).fks.append(fk)
    return out


def definition(tab: world.Tab, dialect) -> Def:
    """The definition a table of a spec stands for."""
    import sqlalchemy as sa

    d = Def(tab.full)
    for c in tab.cols:
        d.cols[c.name] = (plain_type(sa.types.to_instance(c.type_()).compile(dialect=dialect)),
                          not c.null or c.name in tab.pk)
    d.pk = tab.pk
    d.uniques = list(tab.uniques)
    d.checks = [tidy(c) for c in tab.checks]
    d.fks = list(tab.fks)
    for ix in tab.indexes:
        _, cols, unique = ix[:3]
        kw = ix[3] if len(ix) > 3 else {}
        inc = tuple(kw.get(f"{dialect.name}_include", ()))
        where = tidy(str(kw.get(f"{dialect.name}_where", "")))
        d.indexes.append((unique, tuple(unq(tidy(c)) for c in cols), inc, where))
    return d


def distinct(rel: Rel, keys: Callable[[Row], Optional[List[Any]]], when=lambda r: True):
    """No two rows have equal keys (nulls differ from everything)."""
    out = []
    for i, a in enumerate(rel.rows):
        for b in rel.rows[:i]:
            eq = And(*(And(Not(x.null), Not(y.null), Eq(x.val, y.val)) for x, y in zip(keys(a), keys(b))))
            out.append(Not(And(a.g, b.g, when(a), when(b), eq)))
    return And(*out)


def allows(d: Def, rels: Dict[str, Rel], conds, exprs):
    """
    The condition under which the definition accepts the contents.
    conds: text -> function of a row giving its truth value (True, False or null as B3); exprs: text -> cell
    """
    rel = rels[d.name]
    out = []
    for r in rel.rows:
        for c, (_, notnull) in d.cols.items():
            if notnull or c in d.pk:
                out.append(Implies(r.g, Not(rel.cell(r, c).null)))
        for text in d.checks:
            if text not in conds:
                return None
            b = conds[text](lambda c, r=r: rel.cell(r, c))
            out.append(Implies(r.g, Or(b.t, b.n)))
    for cols in [d.pk] * bool(d.pk) + d.uniques:
        out.append(distinct(rel, lambda r, cols=cols: [rel.cell(r, c) for c in cols]))
    for unique, parts, _, where in d.indexes:
        if not unique:
            continue

        def keys(r, parts=parts):
            return [rel.cell(r, p) if p in rel.cols else exprs[p](lambda c: rel.cell(r, c)) for p in parts]

        if any(p not in rel.cols and p not in exprs for p in parts) or where and where not in conds:
            return None
        out.append(distinct(rel, keys, (lambda r: conds[where](lambda c: rel.cell(r, c)).t) if where else lambda r: True))
    for fk in d.fks:
        if fk.dst not in rels:
            return None
        out.append(And(*(world.fk_holds(rel, r, fk, rels[fk.dst]) for r in rel.rows)))
    return And(*out)
