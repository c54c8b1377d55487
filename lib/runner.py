"""
Drives the harnesses of one property: explores every path in parallel, replays counterexamples on the real code,
validates the encoding on solver models, and writes the evidence file.
"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")

from lib import symx
from lib.symx import Cex, Stats


class Harness:
    def __init__(self, name: str, fn: Callable, params: Optional[Dict[str, Any]] = None, tiers=("quick", "thorough"),
                 attempts: int = 8, validate: int = 2, timeout_ms: int = 60000):
        self.name, self.fn, self.params = name, fn, params or {}
        self.tiers, self.attempts, self.validate, self.timeout_ms = tiers, attempts, validate, timeout_ms


class Check:
    """What a checks/<id>.py module provides."""

    def __init__(self, prop: str, harnesses: List[Harness], bounds: Dict[str, Any], assumptions: List[str],
                 outside: List[str]):
        self.prop, self.harnesses, self.bounds = prop, harnesses, bounds
        self.assumptions, self.outside = assumptions, outside


# ------------------------------------------------------------------------------------------------- workers
_CHECK: Optional[Check] = None
_FUNCS: set = set()


def _start_monitoring():
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        return

    def on_start(code, offset):
        if "/subsetter/" in code.co_filename and "/verif/" not in code.co_filename:
            _FUNCS.add(f"{os.path.basename(code.co_filename)}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def _worker_init():
    import signal

    import resource

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # runaway code fails instead of taking the machine down
    _start_monitoring()


def _work(hidx: int, prefixes: List[List[int]], budget_s: float, seed: int, validate_left: int, stop_at: float):
    """Explore from the given prefixes until the time slice is used up."""
    from lib import world

    h = _CHECK.harnesses[hidx]
    stats = Stats()
    todo = list(prefixes)
    found: List[Dict[str, Any]] = []
    t0 = time.monotonic()
    rng = random.Random(f"{seed}/{h.name}/{prefixes[:1]}")
    n = 0
    while todo:
        if n and time.monotonic() - t0 > budget_s or time.time() > stop_at:
            break
        n += 1
        prefix = todo.pop()
        try:
            ctx = symx.run_path(h.fn, h.params, prefix, stats, h.name, h.timeout_ms)
        except Exception as exc:  # pylint: disable=broad-except
            stats.inconclusive += 1
            key = "harness error: " + "".join(traceback.format_exception_only(exc)).strip()[:200]
            key += " @ " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in
                                      reversed(traceback.extract_tb(exc.__traceback__)[-4:]))
            stats.reasons[key] = stats.reasons.get(key, 0) + 1
            continue
        todo.extend(ctx.alternatives)
        for cex in ctx.cexes:
            found.append(_replay_one(h, cex))
        if ctx.outcome == "ok" and validate_left > 0 and (rng.random() < 0.3 or n == 1):
            validate_left -= 1
            try:
                m = ctx._ensure_model()
                cex = Cex(h.name, "validation", "", ctx.decisions, dict(ctx.choices), ctx.model_values(m),
                          dict(ctx.info))
                r = _replay_one(h, cex, validation=True)
                if r["status"] == "not reproduced":
                    stats.validated += 1
                    if len(stats.samples) < 1:
                        stats.samples.append({"harness": h.name, "choices": cex.info,
                                              "values": dict(list(cex.values.items())[:30])})
                elif r["status"] != "skipped":
                    found.append(r)
            except (symx.Infeasible, symx.Inconclusive):
                pass
        if len(found) >= 3 or any(f["label"] == "the run terminates" for f in found):
            break
    world.cleanup_scratch()
    stats.functions = set(_FUNCS)
    return hidx, todo, stats, found, validate_left, n


def _replay_one(h: Harness, cex: Cex, validation=False) -> Dict[str, Any]:
    from lib import world

    out = {"harness": h.name, "label": cex.label, "detail": cex.detail, "cex": cex.to_json(), "status": ""}
    try:
        v = symx.run_concrete(h.fn, h.params, cex, 1 if validation else h.attempts)
        if v is None:
            out["status"] = "not reproduced"
        else:
            out["status"] = "reproduced"
            out["concrete_label"], out["concrete_detail"] = v.label, v.detail
            if validation:
                out["label"], out["detail"] = v.label, v.detail
                out["cex"]["label"], out["cex"]["detail"] = v.label, v.detail
    except symx.Inconclusive as exc:
        out["status"] = "skipped" if validation else "replay inconclusive: " + str(exc)[:200]
    except Exception as exc:  # pylint: disable=broad-except
        tb = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in
                        reversed(traceback.extract_tb(exc.__traceback__)[-5:]))
        out["status"] = f"replay error: {type(exc).__name__}: {exc}"[:300] + " @ " + tb
    finally:
        world.cleanup_scratch()
    return out


# ------------------------------------------------------------------------------------------------- parent
def load_known() -> List[Dict[str, str]]:
    out = []
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                m = re.match(r"known: property=(\S+) match=\[\[(.*?)\]\] (.*)", line)
                if m:
                    out.append({"property": m[1], "match": m[2], "what": m[3]})
    return out


def signature(v: Dict[str, Any]) -> str:
    return f"{v['harness']}|{v['label']}|{v['detail']}"


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default=None, help="regular expression of harness names")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"checks.{args.property.lower()}")
    tier = "thorough" if args.tier == "thorough" else "quick"
    check: Check = mod.build(tier)
    global _CHECK
    _CHECK = check
    if args.only:
        check.harnesses = [h for h in check.harnesses if re.search(args.only, h.name)]
    if args.replay:
        return replay_file(check, args.replay)
    budget = args.budget or (780.0 if tier == "thorough" else 400.0)
    return explore(check, tier, seed, budget, args.jobs, args.verbose, partial=bool(args.only))


def replay_file(check: Check, path: str) -> int:
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    cex = Cex.from_json(d["cex"])
    for h in check.harnesses:
        if h.name == cex.harness:
            r = _replay_one(h, cex)
            print(json.dumps({k: v for k, v in r.items() if k != "cex"}, indent=1))
            return 1 if r["status"] == "reproduced" else 0
    print("no such harness", cex.harness)
    return 2


def explore(check: Check, tier: str, seed: int, budget: float, jobs: int, verbose: bool, partial=False) -> int:
    t0 = time.monotonic()
    stop_at = time.time() + budget
    hs = [i for i, h in enumerate(check.harnesses) if tier in h.tiers]
    total = Stats()
    per: Dict[str, Dict[str, Any]] = {check.harnesses[i].name: {"paths": 0, "s": 0.0} for i in hs}
    pending: Dict[int, List[List[int]]] = {i: [[]] for i in hs}
    validate_left = {i: check.harnesses[i].validate for i in hs}
    running: Dict[Any, int] = {}
    violations: List[Dict[str, Any]] = []
    broken: List[Dict[str, Any]] = []
    known_hits: Dict[str, Dict[str, Any]] = {}
    known = [k for k in load_known() if k["property"] == check.prop]
    seen_sig: set = set()
    stopped = False
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_worker_init) as pool:
        order = list(hs)
        random.Random(seed).shuffle(order)
        rr = 0
        while True:
            # hand out work
            while len(running) < jobs + 2 and not stopped and time.time() < stop_at:
                avail = [i for i in order if pending[i]]
                if not avail:
                    break
                rr += 1
                i = avail[rr % len(avail)]
                share = max(1, len(pending[i]) // jobs)
                batch = [pending[i].pop() for _ in range(min(len(pending[i]), share, 64))]
                slice_s = 0.5 if sum(len(p) for p in pending.values()) < 4 * jobs else 2.0
                vl = validate_left[i]
                take = vl if len(batch) and vl else 0
                validate_left[i] -= take
                fut = pool.submit(_work, i, batch, slice_s, seed, take, stop_at)
                running[fut] = i
            if not running:
                break
            done, _ = cf.wait(list(running), return_when=cf.FIRST_COMPLETED)
            for fut in done:
                i = running.pop(fut)
                hidx, todo, stats, found, vleft, n = fut.result()
                validate_left[i] += vleft
                pending[i].extend(todo)
                per[check.harnesses[i].name]["paths"] += stats.paths
                per[check.harnesses[i].name]["s"] = round(per[check.harnesses[i].name]["s"] + stats.solver_s, 3)
                total.merge(stats)
                for v in found:
                    sig = signature(v)
                    hit = next((k for k in known if re.search(k["match"], sig)), None)
                    if v["status"] == "reproduced":
                        if hit is not None:
                            known_hits.setdefault(hit["match"], {**hit, "example": v})
                        elif sig not in seen_sig:
                            seen_sig.add(sig)
                            violations.append(v)
                            stopped |= v["label"] == "the run terminates" and not verbose
                            if verbose:
                                print("violation:", sig, v["cex"]["info"], flush=True)
                    elif hit is None:
                        broken.append(v)
                        if verbose:
                            print("broken:", sig, v["status"], v["cex"]["info"], v["cex"]["values"], flush=True)
                if len(violations) >= (20 if verbose else 3) or len(broken) >= 200:
                    stopped = True
    wall = time.monotonic() - t0
    left = sum(len(p) for p in pending.values())
    exhaustive = left == 0 and not stopped and total.inconclusive == 0
    vacuous = sorted(l for l in total.wanted if l not in total.witnessed)
    report(check, tier, seed, total, per, wall, exhaustive, left, violations, broken, known_hits, vacuous)
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={check.prop} {k['what']}")
    if violations:
        for v in violations[:3]:
            path = save_replay(check, v)
            print(f"{check.prop}: {v['label']} -- {v['detail']} ({v['harness']})")
            print(f"VIOLATION property={check.prop} replay={path}")
        return 1
    code = 0
    if broken:
        for v in broken[:5]:
            print(f"ERROR: counterexample did not reproduce: {signature(v)}: {v['status']}")
            print("   choices", v["cex"]["info"], "values", v["cex"]["values"])
        code = 2
    if total.inconclusive:
        for r, n in sorted(total.reasons.items(), key=lambda x: -x[1])[:8]:
            print(f"ERROR: inconclusive ({n} paths): {r}")
        code = 2
    if vacuous and exhaustive and not partial:
        print("ERROR: never exercised:", vacuous)
        code = 2
    empty = [n for n, d in per.items() if not d["paths"]]
    if empty and not left and not stopped:
        print("ERROR: no feasible path in", empty)
        code = 2
    if total.obligations == 0:
        print("ERROR: no obligation was generated")
        code = 2
    print(f"{check.prop} {tier}: {total.paths} paths, {total.obligations} obligations "
          f"({total.discharged} discharged, {total.trivial} without a query), {total.queries} queries, "
          f"solver {total.solver_s:.1f}s, {total.validated} models run on the real code, wall {wall:.1f}s"
          + ("" if exhaustive else f", NOT exhaustive ({left} pending)"))
    if verbose:
        for n, d in sorted(per.items(), key=lambda x: -x[1]["paths"]):
            print("   ", n, d)
    return code


def save_replay(check: Check, v) -> str:
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v["cex"], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{check.prop}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": check.prop, **v,
                   "how": f"bin/check {check.prop} --replay {path}"}, f, indent=1, default=str)
    return path


def report(check, tier, seed, total, per, wall, exhaustive, left, violations, broken, known_hits, vacuous):
    ev = {
        "property": check.prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.branches,
            "traces_validated_against_impl": total.validated,
            "samples": total.samples[:6],
            "exhaustive": exhaustive,
            "paths_pending": left,
            "infeasible_paths": total.infeasible,
            "inconclusive_paths": total.inconclusive,
            "obligations_by_label": dict(sorted(total.labels.items())),
            "obligations": total.obligations,
            "discharged": total.discharged,
            "decided_without_query": total.trivial,
            "solver_queries": total.queries,
            "solver_s": round(total.solver_s, 2),
            "functions_encoded": sorted(total.functions),
            "bounds": check.bounds,
            "outside": check.outside,
            "harnesses": per,
            "reachability_witnesses": {l: bool(total.witnessed.get(l)) for l in sorted(total.wanted)},
            "known_findings_seen": [k["what"] for k in known_hits.values()],
            "unreproduced": len(broken),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{check.prop}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
