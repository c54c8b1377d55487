"""Schemas and configurations shared by the sampling checks. Data stays symbolic; structure is split on."""
from __future__ import annotations

import itertools
from typing import Any, Dict, List, Sequence, Tuple

from lib.world import Col, Fk, Spec, Tab

ALL = {"all": True}
IN = {"in": {"s": [1, 2]}}
ONE = {"amount": 1}
PCT = {"percent": 50}
SQL = {"sql": "s > 3"}
LIKE = {"like": {"g": ["a%"]}}


def _cmp_gt3(lookup, e):
    from lib.symsql import B3
    from lib.symx import And, Not

    c = lookup("s")
    return B3(And(Not(c.null), c.val > 3), c.null)


def _n_is_2(lookup, e):
    from lib.symsql import B3
    from lib.symx import And, Eq, Not

    c = lookup("n")
    return B3(And(Not(c.null), Eq(c.val, 2)), c.null)


TEXT_PREDS = {"s > 3": _cmp_gt3, "n = 2": _n_is_2}


class Scenario:
    def __init__(self, name, spec: Spec, targets: Sequence[Dict[str, Any]], k=2, extra: Sequence[Tuple[str, Fk]] = (),
                 ignored: Sequence[Tuple[str, str]] = (), inferred: Sequence[Tuple[str, Fk]] = (), planner=None,
                 dialects=("sqlite",), tiers=("quick", "thorough"), sampler=None):
        self.name, self.spec, self.targets, self.k = name, spec, list(targets), k
        self.extra, self.ignored, self.inferred = list(extra), list(ignored), list(inferred)
        self.planner, self.dialects, self.tiers = dict(planner or {}), dialects, tiers
        self.sampler = sampler or {}
        if extra:
            self.planner["extra_fks"] = [
                dict(src_table=t, src_columns=list(f.cols), dst_table=f.dst, dst_columns=list(f.dst_cols))
                for t, f in extra]
        if ignored:
            self.planner["ignore_fks"] = [dict(src_table=a, dst_table=b) for a, b in ignored]
        self.planner.setdefault("select", [f"{s}.*" for s in spec.schemas])

    @property
    def passthrough(self):
        return set(self.planner.get("passthrough", []))

    def edges(self) -> List[Tuple[str, Fk]]:
        out = []
        for t in self.spec.tabs.values():
            for f in t.fks:
                if (t.full, f.dst) not in self.ignored:
                    out.append((t.full, f))
        out += self.inferred
        out += self.extra
        return out

    def data_edges(self):
        """relationships the source data is assumed to satisfy beyond the schema's own"""
        return [*self.extra, *self.inferred]


def T(*a, **k):
    return Tab(*a, **k)


def combos(tables, crit, nmax=2, extra=()):
    out = [{t: c} for t in tables for c in crit]
    if nmax > 1:
        for a, b in itertools.permutations(tables, 2):
            out.append({a: crit[0], b: crit[-1]})
    return out + list(extra)


def scenarios(tier: str) -> List[Scenario]:
    out: List[Scenario] = []
    users = T("test.users", "id", "s")
    orders = T("test.orders", "id", "user_id?", "s", fks=["user_id->test.users(id)"])
    out.append(Scenario("two", Spec(users, orders), combos(["test.users", "test.orders"], [ALL, IN, ONE, PCT, SQL],
                                                             extra=[{"test.users": {"all": True, "amount": 1}, "test.orders": IN},
                                                                    {"test.users": ONE, "test.orders": IN},
                                                                    {"test.users": PCT, "test.orders": ONE}]),
                        k=3, dialects=("sqlite", "postgresql", "mysql")))
    chain = Spec(T("test.regions", "id", "s"), T("test.users", "id", "region_id?", "s", fks=["region_id->test.regions(id)"]),
                 T("test.orders", "id", "user_id?", "s", fks=["user_id->test.users(id)"]))
    out.append(Scenario("chain", chain, combos(["test.regions", "test.users", "test.orders"], [IN, ALL, ONE])))
    diamond = Spec(T("test.a", "id", "s"), T("test.b", "id", "a_id?", "s", fks=["a_id->test.a(id)"]),
                   T("test.c", "id", "a_id", "s", fks=["a_id->test.a(id)"]),
                   T("test.d", "id", "b_id?", "c_id?", "s", fks=["b_id->test.b(id)", "c_id->test.c(id)"]))
    out.append(Scenario("diamond", diamond, combos(["test.a", "test.b", "test.c", "test.d"], [IN, PCT], 2)))
    parallel = Spec(T("test.accounts", "id", "s"),
                    T("test.transfers", "id", "from_id?", "to_id?", "s",
                      fks=["from_id->test.accounts(id)", "to_id->test.accounts(id)"]))
    out.append(Scenario("parallel", parallel, combos(["test.accounts", "test.transfers"], [IN, ALL]), k=3,
                        dialects=("sqlite", "mysql")))
    comp = Spec(T("test.parent", "a", "b", "s", pk="a,b"),
                T("test.child", "id", "pa?", "pb?", "s", fks=["pa,pb->test.parent(a,b)"]))
    out.append(Scenario("composite", comp, combos(["test.parent", "test.child"], [IN, ALL]), k=3))
    compx = Spec(T("test.parent", "a", "b", "s", pk="a,b"),
                 T("test.child", "id", "pa?", "pb?", "s", fks=["pb,pa->test.parent(a,b)"]))
    out.append(Scenario("composite-swapped", compx, combos(["test.parent", "test.child"], [IN]), k=2))
    uniq = Spec(T("test.users", "id", "code?", "s", uniques=["code"]),
                T("test.logs", "id", "user_code?", "s", fks=["user_code->test.users(code)"]))
    out.append(Scenario("unique-target", uniq, combos(["test.users", "test.logs"], [IN, ONE]), k=3))
    m2m = Spec(T("test.users", "id", "s"), T("test.groups", "id", "s"),
               T("test.members", "user_id", "group_id", "s?", pk="user_id,group_id",
                 fks=["user_id->test.users(id)", "group_id->test.groups(id)"]))
    out.append(Scenario("m2m", m2m, combos(["test.users", "test.groups", "test.members"], [IN, ONE])))
    nopk = Spec(T("test.users", "id", "s"), T("test.events", "user_id?", "s", pk="", fks=["user_id->test.users(id)"]))
    out.append(Scenario("no-key child", nopk, combos(["test.users", "test.events"], [IN, ALL]), k=3))
    nopkp = Spec(T("test.users", "id", "code", "s", pk="", uniques=["id"]),
                 T("test.events", "id", "user_id?", "s", fks=["user_id->test.users(id)"]))
    out.append(Scenario("no-key parent", nopkp, combos(["test.users", "test.events"], [IN]), k=3))
    cross = Spec(T("one.users", "id", "s"), T("two.orders", "id", "user_id?", "s", fks=["user_id->one.users(id)"]),
                 T("two.users", "id", "order_id?", "s", fks=["order_id->two.orders(id)"]))
    out.append(Scenario("cross-schema", cross, combos(["one.users", "two.orders", "two.users"], [IN]),
                        dialects=("sqlite", "postgresql", "mysql")))
    extra = [("test.posts", Fk(["tag"], "test.tags", ["name"]))]
    ex = Spec(T("test.tags", "id", "name", "s"), T("test.posts", "id", "tag?", "s"))
    out.append(Scenario("extra non-unique", ex, combos(["test.tags", "test.posts"], [IN, ALL]), k=3, extra=extra,
                        dialects=("sqlite", "mysql")))
    ex2 = Spec(T("test.tags", "id", "name", "s"), T("test.users", "id", "s"),
               T("test.posts", "id", "tag?", "user_id?", "s", fks=["user_id->test.users(id)"]))
    out.append(Scenario("extra plus schema", ex2, combos(["test.tags", "test.posts", "test.users"], [IN]), extra=extra))
    ex3 = Spec(T("test.tags", "id", "name", "lang", "s"), T("test.posts", "id", "tag?", "lang?", "s"),
               T("test.notes", "id", "tag_id?", "post_id?", "s",
                 fks=["tag_id->test.tags(id)", "post_id->test.posts(id)"]))
    out.append(Scenario("extra composite", ex3, combos(["test.tags", "test.posts", "test.notes"], [IN]),
                        extra=[("test.posts", Fk(["tag", "lang"], "test.tags", ["name", "lang"]))]))
    pas = Spec(T("test.countries", "id", "s"), T("test.users", "id", "country_id?", "s", fks=["country_id->test.countries(id)"]),
               T("test.orders", "id", "user_id?", "country_id", "s",
                 fks=["user_id->test.users(id)", "country_id->test.countries(id)"]))
    out.append(Scenario("passthrough", pas, combos(["test.users", "test.orders"], [IN, ONE]),
                        planner={"passthrough": ["test.countries"]}, dialects=("sqlite", "postgresql", "mysql")))
    pas2 = Spec(T("test.zones", "id", "s"), T("test.countries", "id", "zone_id?", "s", fks=["zone_id->test.zones(id)"]),
                T("test.users", "id", "country_id?", "s", fks=["country_id->test.countries(id)"]))
    out.append(Scenario("passthrough chain", pas2, combos(["test.users"], [IN, ALL]),
                        planner={"passthrough": ["test.countries", "test.zones"]}))
    inf = Spec(T("test.users", "user_id", "s"), T("test.orders", "order_id", "user_id?", "s"),
               T("test.items", "item_id", "order_id?", "user_id?", "s", fks=["order_id->test.orders(order_id)"]))
    infe = [("test.orders", Fk(["user_id"], "test.users", ["user_id"])),
            ("test.items", Fk(["user_id"], "test.users", ["user_id"]))]
    out.append(Scenario("inferred", inf, combos(["test.users", "test.orders", "test.items"], [IN]), inferred=infe,
                        planner={"infer_foreign_keys": "schema"}))
    inf2 = Spec(T("one.users", "user_id", "s"), T("two.orders", "order_id", "user_id?", "s"))
    out.append(Scenario("inferred all", inf2, combos(["one.users", "two.orders"], [IN]),
                        inferred=[("two.orders", Fk(["user_id"], "one.users", ["user_id"]))],
                        planner={"infer_foreign_keys": "all"}))
    ign = Spec(T("test.users", "id", "s"), T("test.orders", "id", "user_id?", "ref_id?", "s",
                                              fks=["user_id->test.users(id)", "ref_id->test.refs(id)"]),
               T("test.refs", "id", "user_id?", "s", fks=["user_id->test.users(id)"]))
    out.append(Scenario("ignored fk", ign, combos(["test.users", "test.orders", "test.refs"], [IN]),
                        ignored=[("test.orders", "test.refs")]))
    one = Spec(T("test.users", "id", "s"), T("test.profiles", "id", "s", fks=["id->test.users(id)"]),
               T("test.pics", "id", "profile_id?", "s", fks=["profile_id->test.profiles(id)"]))
    out.append(Scenario("one-to-one", one, combos(["test.users", "test.profiles", "test.pics"], [IN, ONE])))
    two_par = Spec(T("test.users", "id", "s"), T("test.shops", "id", "owner_id?", "s", fks=["owner_id->test.users(id)"]),
                   T("test.sales", "id", "user_id?", "shop_id?", "s",
                     fks=["user_id->test.users(id)", "shop_id->test.shops(id)"]))
    out.append(Scenario("triangle", two_par, combos(["test.users", "test.shops", "test.sales"], [IN, ALL, ONE]),
                        dialects=("sqlite", "mysql") if tier == "thorough" else ("sqlite",)))
    return [s for s in out if tier in s.tiers]


def random_dag(ctx, n: int, cols_null=True):
    """n tables t0..; table i may reference table j < i; the names run in either direction."""
    names = [f"test.{chr(ord('a') + i)}" for i in range(n)]
    if ctx.flag("names reversed"):
        names = names[::-1]
    tabs = []
    for i in range(n):
        cols, fks = ["id", "s"], []
        for j in range(i):
            if ctx.flag(f"edge {i}->{j}"):
                cols.append(f"r{j}?" if (i + j) % 2 or not cols_null else f"r{j}")
                fks.append(f"r{j}->{names[j]}(id)")
        tabs.append(Tab(names[i], *cols, fks=fks))
    spec = Spec(*tabs)
    return spec, names
