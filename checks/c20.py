"""C20: connections honour the configured settings and TLS policy."""
from __future__ import annotations

import contextlib
import os
import re
import sqlite3
import ssl
import tempfile
from unittest import mock

import psycopg2
import psycopg2.extensions
import psycopg2.extras
import pymysql
import pymysql.connections
import sqlalchemy as sa

from lib import symx
from lib.runner import Check, Harness
from lib.symx import Eq, Ite

PROP = "C20"
FIELDS = ["host", "port", "database", "username", "password"]
ROLES = {"plan": "SUBSET_SOURCE_", "sample": "SUBSET_SOURCE_", "destination": "SUBSET_DESTINATION_"}
NOTHING, LOCALHOST = -1, -2
DIALECTS = ("mysql", "postgres", "sqlite")
NASTY = "@:/%41+ ?#&='\""


class Connecting(BaseException):
    """Raised instead of connecting."""


class Attempt:
    def __init__(self):
        self.driver, self.kwargs = None, {}


@contextlib.contextmanager
def intercepted(attempt, environ, databases=()):
    """Connections are not made but recorded; sqlite only opens these files."""

    def stop(driver):
        def connect(*args, **kwargs):
            if args:
                kwargs["dsn"] = args[0]
            attempt.driver, attempt.kwargs = driver, kwargs
            raise Connecting()
        return connect

    real = sqlite3.connect

    def connect(database, *args, **kwargs):
        if database in databases:
            return real(database, *args, **kwargs)
        attempt.driver, attempt.kwargs = "sqlite", {"database": database}
        raise Connecting()

    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.dict(os.environ, environ))
        for name in [n for n in os.environ if n.startswith("SUBSET_") and n not in environ]:
            del os.environ[name]
        stack.enter_context(mock.patch.object(psycopg2, "connect", stop("postgres")))
        stack.enter_context(mock.patch.object(pymysql, "connect", stop("mysql")))
        stack.enter_context(mock.patch.object(pymysql, "Connect", stop("mysql"), create=True))
        stack.enter_context(mock.patch.object(sqlite3, "connect", connect))
        stack.enter_context(mock.patch.object(sqlite3.dbapi2, "connect", connect))
        yield


_SOURCE = []


def source_file():
    """An sqlite database to sample from."""
    if not _SOURCE or _SOURCE[0] != os.getpid():
        directory = tempfile.TemporaryDirectory(prefix="c20-")
        path = os.path.join(directory.name, "source.db")
        db = sqlite3.connect(path)
        db.execute("create table t (id integer primary key)")
        db.commit()
        db.close()
        _SOURCE[:] = [os.getpid(), path, directory]
    return _SOURCE[1]


def connect_as(role, conf, environ):
    """Connect the way that planning or sampling does: (the connection attempted, why it was not)."""
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.plan_model import SubsetPlan
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler

    attempt = Attempt()
    plan = SubsetPlan(queries={"main.t": dict(statement=dict(type_="select", from_=dict(table_schema="main", table_name="t")))})
    files = [source_file()] if role == "destination" else []
    try:
        with intercepted(attempt, environ, files):
            if role == "plan":
                Planner(DatabaseConfig(**conf), PlannerConfig(select=["*"], targets={})).plan()
            elif role == "sample":
                Sampler(DatabaseConfig(**conf), SamplerConfig()).sample(plan)
            else:
                source = DatabaseConfig(dialect="sqlite", database=files[0], ssl={"require": False})
                Sampler(source, SamplerConfig(output=dict(conf, mode="database"))).sample(plan)
    except Connecting:
        return attempt, None
    except ValueError as exc:
        return None, exc
    return None, None


def settings(ctx, role, dialect, tied):
    """Each setting comes from the configuration, its environment variable or its default."""
    prefix = ROLES[role]
    other = next(p for p in ROLES.values() if p != prefix)
    known = {"localhost": LOCALHOST}

    def text(name):
        t = ctx.int(name, 0, 9, wrap=False)
        known[f"{name}{NASTY}"] = t
        return f"{name}{NASTY}", t

    conf, environ = {}, {}
    if dialect:
        conf["dialect"] = dialect
    of_env = ctx.choose("dialect of the environment", [None, *DIALECTS])
    if of_env:
        environ[prefix + "DIALECT"] = of_env
    environ[other + "DIALECT"] = ctx.choose("other dialect", [d for d in DIALECTS if d not in (dialect, of_env)][:1])
    effective = dialect or of_env or "mysql"
    want = {}
    for n, f in enumerate(FIELDS):
        default = {"host": LOCALHOST, "port": {"mysql": 3306, "postgres": 5432}.get(effective)}.get(f, NOTHING)
        if f == "port":
            a, b, c = (1111, 1111), ("2222", 2222), ("3333", 3333)
        else:
            a, b, c = text(f"configured {f}"), text(f"environment {f}"), text(f"other {f}")
        environ[other + f.upper()] = c[0]
        want[f] = default
        if ctx.bool(f"environment has {f}") if f not in tied else prefix + tied[f].upper() in environ:
            environ[prefix + f.upper()] = b[0]
            want[f] = b[1]
        if ctx.bool(f"configuration has {f}") if f not in tied else tied[f] in conf:
            conf[f] = a[0]
            want[f] = a[1]
    attempt, exc = connect_as(role, conf, environ)
    detail = f"{dialect} {of_env} {sorted(conf)} {sorted(environ)}"
    ctx.check("connects", attempt is not None, f"{detail} {exc}")
    ctx.check("the dialect is the configured one", attempt.driver == effective, f"{attempt.driver} {detail}")
    kw = attempt.kwargs
    if effective == "sqlite":
        given = [t for t, v in known.items() if v is want["database"]]
        ctx.check("database", kw["database"] == (os.path.abspath(given[0]) if given else ":memory:"), f"{kw} {detail}")
        return

    def got(*keys):
        v = next((kw[k] for k in keys if kw.get(k) is not None), None)
        if v is None:
            return NOTHING
        if v not in known:
            ctx.fail("a setting is passed on as it is", f"{keys[0]} {v!r} {detail}")
        return known[v]

    ctx.check("host", Eq(got("host"), want["host"]), detail)
    ctx.check("username", Eq(got("user", "username"), want["username"]), detail)
    ctx.check("password", Eq(got("password", "passwd"), want["password"]), detail)
    ctx.check("port", kw.get("port") == want["port"], f"{kw.get('port')} {detail}")
    if effective == "postgres":
        ctx.check("database", Eq(got("dbname", "database"), want["database"]), detail)
    else:
        v = got("database", "db")
        ctx.check("database", symx.Or(Eq(v, NOTHING), Eq(v, want["database"])), detail)
    ctx.witness("connects to a server")


@contextlib.contextmanager
def recorded_tls(record):
    """Certificates are not loaded but recorded."""

    def note(name):
        def method(self, *args, **kwargs):
            record.setdefault(name, []).append((args, kwargs))
        return method

    with contextlib.ExitStack() as stack:
        for name in ("load_cert_chain", "load_verify_locations", "load_default_certs", "set_default_verify_paths"):
            stack.enter_context(mock.patch.object(ssl.SSLContext, name, note(name)))
        yield


VERIFY = ["none", "cert", "identity"]


def tls(ctx, role, where):
    """TLS that is required is used, and verifies what it is told to."""
    prefix = ROLES[role]
    other = next(p for p in ROLES.values() if p != prefix)
    origin, dialect = where
    conf, environ = {"host": "db.example"}, {}
    if origin == "configuration":
        conf["dialect"] = dialect
    elif origin == "environment":
        environ[prefix + "DIALECT"] = dialect
    required, verify, files = False, "none", {"cert": None, "key": None, "root": None}
    conf["ssl"] = {"client": {}, "server": {}}
    names = {"cert": ("client", "cert", "SSL_CLIENT_CERT"), "key": ("client", "key", "SSL_CLIENT_KEY"),
             "root": ("server", "rootcert", "SSL_SERVER_ROOTCERT")}
    if role != "destination":  # (a source that must not be contacted by TLS is used there)
        environ[other + "SSL_REQUIRE"] = "1"
        environ[other + "SSL_SERVER_VERIFY"] = "identity"
    for f, (_, _, e) in names.items():
        environ[f"{other}{e}"] = f"/other/{f}"
    in_env = ctx.choose("environment requires", [None, "", "1"])
    if in_env is not None:
        environ[prefix + "SSL_REQUIRE"] = in_env
        required = bool(in_env)
    in_conf = ctx.choose("configuration requires", [None, False, True])
    if in_conf is not None:
        conf["ssl"]["require"] = required = in_conf
    in_env = ctx.choose("environment verifies", [None, *VERIFY])
    if in_env is not None:
        environ[prefix + "SSL_SERVER_VERIFY"] = verify = in_env
    in_conf = ctx.choose("configuration verifies", [None, *VERIFY])
    if in_conf is not None:
        conf["ssl"]["server"]["verify"] = verify = in_conf
    have = [*ctx.choose("client", [(0, 0), (1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (0, 3), (2, 0)]), ctx.choose("root", [0, 1, 2, 3])]
    for (f, (section, key, e)), n in zip(names.items(), have):
        if n & 2:
            environ[prefix + e] = files[f] = f"/environment/{f}"
        if n & 1:
            conf["ssl"][section][key] = files[f] = f"/configuration/{f}"
    for section in ("client", "server"):
        if not conf["ssl"][section] and ctx.bool(f"no {section} section"):
            del conf["ssl"][section]
    if not conf["ssl"] and ctx.bool("no section"):
        del conf["ssl"]
    attempt, exc = connect_as(role, conf, environ)
    detail = f"{role} {conf} {environ}"
    if dialect == "sqlite":
        ctx.check("TLS is refused where there is none", (attempt is None) == required, detail)
        return
    ctx.check("connects", attempt is not None, f"{detail} {exc}")
    ctx.check("the dialect is the configured one", attempt.driver == dialect, detail)
    kw = attempt.kwargs
    if dialect == "postgres":
        mode = kw.get("sslmode", "prefer")
        if not required:
            return
        ctx.check("the connection is made with TLS", mode in ("require", "verify-ca", "verify-full"), f"{mode} {detail}")
        ctx.check("the certificate is verified", verify == "none" or mode in ("verify-ca", "verify-full"), f"{mode} {detail}")
        ctx.check("the identity is verified", (verify == "identity") == (mode == "verify-full"), f"{mode} {detail}")
        ctx.check("nothing else is verified", verify != "none" or mode == "require", f"{mode} {detail}")
        ctx.check("client certificate", (kw.get("sslcert"), kw.get("sslkey")) == (files["cert"], files["key"]), f"{kw} {detail}")
        ctx.check("root certificate", kw.get("sslrootcert") == files["root"], f"{kw} {detail}")
        ctx.witness("required")
        return
    record = {}
    try:
        with recorded_tls(record):
            conn = pymysql.connections.Connection(**kw, defer_connect=True)
    except Exception as exc:  # pylint: disable=broad-except
        ctx.fail("the driver accepts the settings", f"{type(exc).__name__}: {exc} {detail}")
    if not required:
        return
    ctx.check("the connection is made with TLS", conn.ssl and getattr(conn, "_ssl_required", True), detail)
    ctx.check("the certificate is verified", (conn.ctx.verify_mode == ssl.CERT_REQUIRED) == (verify != "none"), detail)
    ctx.check("the identity is verified", bool(conn.ctx.check_hostname) == (verify == "identity"), detail)
    ctx.check("TLS is for the host configured", conn.host == "db.example", detail)
    chains = [((*a, *k.values())) for a, k in record.get("load_cert_chain", [])]
    ctx.check("client certificate", chains[-1:] == ([(files["cert"], files["key"], None)] if files["cert"] else [])
              or [tuple(c[:2]) for c in chains[-1:]] == [(files["cert"], files["key"])], f"{chains} {detail}")
    roots = {v for a, k in record.get("load_verify_locations", []) for v in [*a, *k.values()] if v}
    system = ssl.get_default_verify_paths()
    if files["root"]:
        ctx.check("root certificate", roots == {files["root"]} and not record.get("load_default_certs"), f"{roots} {detail}")
    elif verify != "none":
        ctx.check("the authorities of the system are trusted", roots <= {system.cafile, system.capath}
                  and bool(roots or record.get("load_default_certs")), f"{roots} {detail}")
    ctx.witness("required")


class FakeCursor:
    description = None
    rowcount = -1
    arraysize = 1
    lastrowid = None
    itersize = 1
    name = None

    def __init__(self, conn):
        self.conn = self.connection = conn
        self.rows = []

    def execute(self, sql, params=None):
        self.rows = []
        sql = sql.decode() if isinstance(sql, bytes) else str(sql)
        self.conn.statement(sql)
        low = sql.lower()
        value = None
        for key, v in (("version()", "PostgreSQL 16.0" if self.conn.kind == "postgres" else "8.0.30"), ("current_schema", "public"), ("standard_conforming", "on"),
                       ("isolation", "READ-COMMITTED"), ("sql_mode", ""), ("lower_case_table_names", 0), ("select 1", 1)):
            if key in low:
                value = v
                break
        if low.startswith(("select", "show")):
            self.rows = [(value,) if not low.startswith("show var") else ("lower_case_table_names", "0")]
            self.description = [("x", 253 if self.conn.kind == "mysql" else 25, None, None, None, None, None)]

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def fetchmany(self, size=None):
        return self.fetchall()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


class FakeConnection:
    """A connection whose session settings are part of its transaction (postgres) or not (mysql)."""

    server_version = "8.0.30"
    encoding = "UTF8"
    status = 1
    closed = 0
    notices = ()
    charset = "utf8mb4"

    def __init__(self, kind):
        self.kind = kind
        self.autocommit = False if kind == "postgres" else lambda *_: None
        self.done, self.pending, self.isolation = [], [], None
        self.cursor_factory = None
        self.ran = []

    def statement(self, sql):
        self.ran.append(sql)
        m = re.match(r"(?i)set session transaction isolation level (.*)", sql)
        if m:
            self.isolation = m.group(1).upper().strip()
        elif sql.startswith("SET "):
            (self.pending if self.autocommit is False else self.done).append(sql)
        elif sql.upper().strip(" ;") == "COMMIT":
            self.commit()
        elif sql.upper().strip(" ;") == "ROLLBACK":
            self.rollback()

    def cursor(self, *_, **__):
        return FakeCursor(self)

    def commit(self):
        self.done, self.pending = self.done + self.pending, []

    def rollback(self):
        self.pending = []

    def close(self):
        self.closed = 1

    def ping(self, *_, **__):
        pass

    def get_server_info(self):
        return self.server_version

    def character_set_name(self):
        return "utf8mb4"

    def set_isolation_level(self, level):
        self.isolation = {1: "READ COMMITTED", 2: "REPEATABLE READ", 3: "SERIALIZABLE", 4: "READ UNCOMMITTED"}.get(
            level, str(level).upper())
        self.rollback()

    def set_session(self, isolation_level=None, **_):
        self.set_isolation_level(isolation_level)

    @property
    def isolation_level(self):
        return self.isolation

    @isolation_level.setter
    def isolation_level(self, level):
        self.set_isolation_level(level)

    @property
    def effective(self):
        return self.done + self.pending


@contextlib.contextmanager
def faked(made):
    def connect(kind):
        def make(*_, **__):
            made.append(FakeConnection(kind))
            return made[-1]
        return make

    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(psycopg2, "connect", connect("postgres")))
        stack.enter_context(mock.patch.object(pymysql, "connect", connect("mysql")))
        stack.enter_context(mock.patch.object(psycopg2.extras, "register_uuid", lambda *_, **__: None))
        for n in ("register_default_json", "register_default_jsonb", "register_hstore"):
            stack.enter_context(mock.patch.object(psycopg2.extras, n, lambda *_, **__: None))
        stack.enter_context(mock.patch.object(psycopg2.extras.HstoreAdapter, "get_oids", staticmethod(lambda *_: None)))
        stack.enter_context(mock.patch.object(psycopg2.extensions, "register_type", lambda *_: None))
        yield


LEVELS = [None, "READ COMMITTED", "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"]


def sessions(ctx, dialect, steps):
    """Session settings are in effect whenever a connection is used."""
    from subsetter.common import DatabaseConfig

    origin = ctx.choose("dialect from", ["configuration", "environment"])
    n = ctx.choose("settings", [0, 1, 2])
    level = ctx.choose("isolation level", LEVELS)
    if dialect == "sqlite" and level not in (None, "SERIALIZABLE", "READ UNCOMMITTED"):
        raise symx.Infeasible()
    sqls = [f"SET {i} = {v}" for i, v in (("b", 2), ("a", 1))[:n]]
    conf = {"isolation_level": level} if level else {}
    environ = {"SUBSET_SOURCE_DIALECT": dialect} if origin == "environment" else {}
    if origin == "configuration":
        conf["dialect"] = dialect
    made = []
    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.dict(os.environ, environ))
        if origin == "configuration":
            os.environ.pop("SUBSET_SOURCE_DIALECT", None)
        if dialect == "sqlite":
            directory = stack.enter_context(tempfile.TemporaryDirectory(prefix="c20-"))
            files = {a: os.path.join(directory, f"it's {a}.db") for a in ("one", "two")[:n]}
            sqls = [f"PRAGMA {p} = {v}" for p, v in (("cache_size", 77), ("busy_timeout", 99))[:n]]
            conf.update(sqlite_databases=files, database=os.path.join(directory, "main.db"))
        else:
            stack.enter_context(faked(made))
        try:
            engine = DatabaseConfig(session_sqls=sqls, **conf).database_engine(env_prefix="SUBSET_SOURCE_")
        except sa.exc.SQLAlchemyError as exc:
            ctx.fail("connects", f"{type(exc).__name__}: {exc} {conf} {environ}")
        stack.callback(engine.dispose)
        held = []
        for step in range(steps):
            how = ctx.choose(f"step {step}", ["rolled back", "committed", "closed", "kept", "inspected", "lost"])
            try:
                conn = engine.connect()
            except sa.exc.SQLAlchemyError as exc:
                ctx.fail("connects", f"{type(exc).__name__}: {exc} {conf} {environ}")
            judge(ctx, conn, dialect, sqls, level, f"{step} {how} {sqls} {origin}")
            if how in ("rolled back", "committed"):
                conn.execute(sa.text("select 1"))
                (conn.rollback if how == "rolled back" else conn.commit)()
                judge(ctx, conn, dialect, sqls, level, f"after {step} {how} {sqls} {origin}")
            elif how == "inspected" and dialect == "sqlite":
                ctx.check("attached databases", set(sa.inspect(conn).get_schema_names()) == {"main", *files}, origin)
            elif how == "lost":
                conn.invalidate()
            if how == "kept":
                held.append(conn)
            else:
                conn.close()
        for conn in held:
            judge(ctx, conn, dialect, sqls, level, "kept")
            conn.close()
        ctx.witness("settings", n > 0)


def judge(ctx, conn, dialect, sqls, level, detail):
    want = level or ("SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED")
    if dialect == "sqlite":
        raw = conn.connection.dbapi_connection
        for s in sqls:
            name, value = s[7:].split(" = ")
            got = raw.execute(f"PRAGMA {name}").fetchone()[0]
            ctx.check("session settings are in effect", str(got) == value, f"{s} {got} {detail}")
        got = raw.execute("PRAGMA read_uncommitted").fetchone()[0]
        ctx.check("isolation level", got == (1 if want == "READ UNCOMMITTED" else 0), f"{got} {detail}")
        return
    raw = conn.connection.dbapi_connection
    ctx.check("session settings are in effect", [s for s in raw.effective if s in sqls] == sqls, f"{raw.effective} {detail}")
    ctx.check("isolation level", raw.isolation == want, f"{raw.isolation} {want} {detail}")


WHERE = [("configuration", "mysql"), ("environment", "mysql"), ("default", "mysql"), ("configuration", "postgres"),
         ("environment", "postgres"), ("configuration", "sqlite"), ("environment", "sqlite")]


def build(tier):
    deep = tier == "thorough"
    hs = []
    for role in ROLES:
        for d in (None, *DIALECTS):
            hs.append(Harness(f"settings/{role}/{d}", settings, dict(role=role, dialect=d, tied={} if deep else {"username": "host"}), validate=1))
        for i, where in enumerate(WHERE):
            if deep or i in {"plan": (0, 4, 6), "sample": (2, 5), "destination": (0, 1, 3, 4)}[role]:
                hs.append(Harness(f"tls/{role}/{'/'.join(where)}", tls, dict(role=role, where=where), validate=1))
    for d in DIALECTS:
        hs.append(Harness(f"sessions/{d}", sessions, dict(dialect=d, steps=4 if deep else 3), validate=1))
    return Check(PROP, hs,
                 bounds={"settings": FIELDS, "session settings": "up to 2", "steps": 4 if deep else 3},
                 assumptions=["psycopg2 follows sslmode as documented by libpq", "PyMySQL's own TLS context is examined, "
                              "without a handshake", "postgres rolls SET back with its transaction"],
                 outside=["empty settings", "the documented values of environment variables only",
                          "what a server does with the credentials"])
