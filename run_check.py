#!/usr/bin/env python3-vt
"""Decide one property: python3-vt run_check.py <property id>

Environment: VERIF_TIER (quick/thorough), VERIF_SEED, VERIF_REPO (default /repo),
VERIF_JOBS, VERIF_ONLY (scenario name, for debugging), VERIF_VERBOSE.
"""

import gc
import json
import os
import sys
import time
import traceback
import zlib
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
import multiprocessing

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from symx import core, instr, replay  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
VERBOSE = bool(os.environ.get("VERIF_VERBOSE"))
ONLY = os.environ.get("VERIF_ONLY")
DEADLINE = float(os.environ.get("VERIF_DEADLINE", 420 if TIER == "quick" else 840))
CHUNK = int(os.environ.get('VERIF_CHUNK', 40))
MINCHUNK = int(os.environ.get('VERIF_MINCHUNK', 2))


# --- worker ---------------------------------------------------------------------
_trace = None


def shorten(x, key=None):
    "Abbreviate the long inputs of sampled runs, to keep the evidence readable."
    if isinstance(x, dict):
        return {k: shorten(v, k) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [shorten(v) for v in x[:200 if key != "functions_encoded" else None]]
        return y + [f"... {len(x)} items"] if len(x) > len(y) else y
    if isinstance(x, str) and len(x) > 2000:
        return f"{x[:200]}... ({len(x)} characters)"
    return x


def _job(scenario, labels, prefix, max_paths, sample_every):
    global _trace
    core.LABELS = labels
    if _trace is None:
        _trace = instr.FnTrace()
    n = 0

    def cleanup():
        nonlocal n
        n += 1
        if n % 40 == 0:
            gc.collect()
    try:
        r = core.explore(scenario.harness(), scenario.args, prefix=prefix, max_paths=max_paths,
                         sample_every=sample_every, path_cleanup=cleanup,
                         max_decisions=scenario.max_decisions)
        for s in r["samples"]:
            if s.get("obs") is not None:
                pass
    except BaseException:
        gc.collect()
        return {"error": traceback.format_exc()}
    gc.collect()
    r["functions"] = sorted(_trace.seen)
    _trace.seen = set(_trace.seen)
    return r


def spread(prefixes):
    "Order open subtrees: by turns one of the largest, and one from anywhere (pseudo-random, but repeatable)."
    prefixes.sort(key=len)
    h = sorted(prefixes, key=lambda p: zlib.crc32(repr([(e[1], e[2]) for e in p]).encode()))
    out, seen = [], set()
    for pair in zip(prefixes, h):
        for p in pair:
            if id(p) not in seen:
                seen.add(id(p))
                out.append(p)
    prefixes[:] = out


class Explorer:
    "Explores all scenarios in deterministic rounds on a process pool."

    def __init__(self, prop, scenarios, pool, on_violation):
        self.prop = prop
        self.pool = pool
        self.on_violation = on_violation
        self.t0 = time.time()
        self.functions = set()
        self.st = {}
        self.stop = False
        self.out_of_time = False
        self.error = None
        self.futs = {}
        for s in scenarios:
            self.st[s.name] = {
                "s": s, "stats": core.Stats(), "covers": set(), "samples": [], "taints": {},
                "runs": 0, "pending": [[]], "inflight": 0, "next": [], "exhaustive": False,
                "round": 0, "done": False,
                "budget": int(os.environ.get("VERIF_BUDGET", 0)) or s.quick if TIER == "quick" else s.thorough,
            }

    def _launch(self, e):
        "Start a round of e."
        left = e["budget"] - e["runs"]
        spread(e["pending"])
        todo = e["pending"]
        e["pending"], e["next"] = [], []
        e["round"] += 1
        if e["round"] == 1:
            chunk = 24
        else:
            # share the budget among all open subtrees, and keep half of it for the next rounds
            chunk = max(MINCHUNK, min(CHUNK, left // (2 * len(todo) or 1)))
        for prefix in todo:
            if left <= 0:
                e["next"].append(prefix)
                continue
            f = self.pool.submit(_job, e["s"], labels_of(self.prop, e["s"]), prefix, min(chunk, left),
                                 5 if e["round"] <= 2 else 40)
            left -= min(chunk, left)
            self.futs[f] = e
            e["inflight"] += 1

    def run(self):
        for e in self.st.values():
            self._launch(e)
        while self.futs:
            done, _ = wait(self.futs, timeout=5, return_when=FIRST_COMPLETED)
            for f in done:
                e = self.futs.pop(f)
                e["inflight"] -= 1
                if f.cancelled():
                    e["cut"] = True
                else:
                    r = f.result()
                    if "error" in r:
                        self.error = f"{e['s'].name}: {r['error']}"
                        self.stop = True
                    else:
                        self._merge(e, r)
                if not e["inflight"] and not e["done"]:
                    self._round_done(e)
            if time.time() - self.t0 > DEADLINE and not self.stop:
                self.stop = self.out_of_time = True
            if self.stop:
                for f in list(self.futs):
                    f.cancel()

    def _merge(self, e, r):
        e["stats"].add(r["stats"])
        e["runs"] += r["runs"]
        e["covers"] |= set(r["covers"])
        e["samples"] += r["samples"]
        for k, v in r["taints"].items():
            e["taints"][k] = e["taints"].get(k, 0) + v
        e["next"] += r["pending"]
        self.functions |= set(r["functions"])
        if r["violations"]:
            for v in r["violations"]:
                if self.on_violation(e["s"], v):
                    self.stop = True

    def _round_done(self, e):
        if not e["next"] and not e.get("cut"):
            e["exhaustive"] = not (e["stats"].truncated or e["stats"].unknown or e["stats"].tainted)
            e["done"] = True
        elif e["runs"] >= e["budget"] or self.stop:
            e["done"] = True
        else:
            e["pending"] = e["next"]
            self._launch(e)
            return
        if VERBOSE:
            st = e["stats"].dict()
            print(f"# {e['s'].name}: runs={e['runs']} {st} exhaustive={e['exhaustive']} "
                  f"taints={e['taints']} covers={sorted(e['covers'])} "
                  f"pending={len(e['next'])} t={time.time()-self.t0:.1f}", flush=True)


def load_known(pid):
    "known: property=<id> scenario=<name or *> label=<text> :: description"
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, what = line[7:].partition(" :: ")
        kv = dict(x.split("=", 1) for x in head.split(";"))
        kv = {k.strip(): v.strip() for k, v in kv.items()}
        if kv["property"] == pid:
            kv["what"] = what
            out.append(kv)
    return out


def known_match(known, scenario, v):
    for k in known:
        if k.get("scenario", "*") in ("*", scenario.name) and k["label"] == v["label"] \
                and k.get("info", "") in str(v.get("info")):
            return k
    return None


TRACED = ("C32",)       # checked with the library's own detailed logging on


def labels_of(prop, s):
    "The labels of the assertions that count for scenario `s` of `prop`."
    from checks.registry import PROPS
    pid = s.name.split("-")[0] if prop.id in TRACED else prop.id
    return (pid + " ", prop.id + " ") + tuple(PROPS[pid].labels)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    if pid in TRACED:
        os.environ["VERIF_TRACE"] = "1"
    replay.quiet()
    instr.install()
    from checks.registry import PROPS
    prop = PROPS[pid]
    scenarios = [s for s in prop.scenarios if s.tier in ("both", TIER)]
    if ONLY:
        scenarios = [s for s in scenarios if s.name == ONLY]
    known = load_known(pid)
    rep = replay.Replayer()
    tried, confirmed, unconfirmed, known_hits = {}, [], {}, {}
    prefixes = {s.name: labels_of(prop, s) for s in scenarios}

    def relevant(s, label):
        return label.startswith(prefixes[s.name]) or label.startswith("* ")

    def save(s, v, res):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{pid}-{s.name}-{len(confirmed)}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "scenario": s.name, "fn": s.fn, "args": s.args,
                       "label": v["label"], "info": v.get("info"), "inputs": v["inputs"],
                       "replayed": res["violations"]}, f, indent=1)
        return path

    def on_violation(s, v):
        "Replay on the plain code; True to stop."
        if not relevant(s, v["label"]):
            return False
        key = (s.name, v["label"])
        k = known_match(known, s, v)
        if k is not None:
            if k["what"] not in known_hits:
                known_hits[k["what"]] = v
            return False
        if tried.get(key, 0) >= 6:
            return False
        tried[key] = tried.get(key, 0) + 1
        res = rep.run(s.fn, s.args, v["inputs"])
        hits = [x for x in res["violations"] if relevant(s, x["label"])]
        hits = [x for x in hits if known_match(known, s, x) is None]
        if hits:
            path = save(s, v, res)
            confirmed.append((s.name, v["label"], path))
            print(f"# {s.name}: {v['label']}: {v.get('info')}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return not VERBOSE
        unconfirmed.setdefault(key, []).append(
            {"inputs": v["inputs"], "replay": res["status"], "error": res.get("error")})
        if VERBOSE:
            print("# unconfirmed", s.name, v["label"], v.get("info"), v["inputs"], res, flush=True)
        return False

    ctx = multiprocessing.get_context("fork")
    pool = ProcessPoolExecutor(JOBS, mp_context=ctx)
    ex = Explorer(prop, scenarios, pool, on_violation)
    try:
        ex.run()
    finally:
        pool.shutdown(cancel_futures=True)

    # Replay sampled paths on the plain code and compare observations.
    validated = mismatch = 0
    mism = []
    crashed = []
    samples = []
    if not confirmed and not ex.error:
        for e in ex.st.values():
            s = e["s"]
            lim = 25 if TIER == "quick" else 150
            pick = e["samples"]
            if len(pick) > lim:
                step = len(pick) / lim
                pick = [pick[int(i * step)] for i in range(lim)] + [x for x in pick if x.get("tb")]
            for k, smp in enumerate(pick):
                res = rep.run(s.fn, s.args, smp["inputs"])
                hits = [x for x in res["violations"] if relevant(s, x["label"])
                        and known_match(known, s, x) is None]
                if hits:
                    v = dict(hits[0], inputs=smp["inputs"])
                    path = save(s, v, res)
                    confirmed.append((s.name, v["label"], path))
                    print(f"# {s.name}: {v['label']}: {v.get('info')} (path model run on the plain code)")
                    print(f"VIOLATION property={pid} replay={path}", flush=True)
                    break
                if smp.get("obs") is None:
                    if smp.get("tb") and res["status"] == "error":
                        crashed.append(f"{s.name}: {smp['tb']}")
                    continue
                if res["status"] == "ok" and res["obs"] == smp["obs"]:
                    validated += 1
                else:
                    mismatch += 1
                    if len(mism) < 5:
                        mism.append({"scenario": s.name, "inputs": smp["inputs"],
                                     "symbolic": smp["obs"], "concrete": res["obs"],
                                     "status": res["status"], "error": res.get("error")})
                if k < 2 and len(samples) < 8:
                    samples.append({"scenario": s.name, "inputs": smp["inputs"], "observed": smp["obs"]})
    rep.close()

    missing = []
    for e in ex.st.values():
        for c in e["s"].covers:
            if c not in e["covers"]:
                missing.append(f"{e['s'].name}: {c}")

    tot = core.Stats()
    for e in ex.st.values():
        tot.add(e["stats"].dict())
    exhaustive = all(e["exhaustive"] for e in ex.st.values())
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot.paths, "transitions": tot.decisions,
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "violation found before sampling"}],
            "exhaustive": exhaustive,
            "rule": "states = feasible symbolic paths executed to the end (each stands for all inputs "
                    "satisfying its path condition); transitions = branch decisions put to the solver",
            "assertions_discharged": tot.checks,
            "solver_queries": tot.queries, "solver_seconds": round(tot.solver_s, 2),
            "solver_unknown": tot.unknown, "infeasible_or_cut_paths": tot.aborted,
            "unmodelled_paths_run_concretely": tot.tainted,
            "functions_encoded": sorted(ex.functions),
            "bounds": prop.bounds,
            "outside_the_bounds": prop.outside,
            "scenarios": {e["s"].name: {
                "paths": e["stats"].paths, "aborted": e["stats"].aborted, "runs": e["runs"],
                "exhaustive_within_bounds": e["exhaustive"],
                "unexplored_prefixes": 0 if e["exhaustive"] else len(e["next"]),
                "max_decisions_on_a_path": e["stats"].max_depth,
                "covered": sorted(e["covers"]), "unmodelled": e["taints"],
                "args": {k: str(v) for k, v in e["s"].args.items()}} for e in ex.st.values()},
            "replay_mismatches": mismatch, "replay_mismatch_samples": mism,
            "unconfirmed_counterexamples": [
                {"scenario": k[0], "label": k[1], "examples": v[:2]} for k, v in unconfirmed.items()],
            "missing_covers": missing,
            "stopped_by_deadline": ex.out_of_time,
            "known_findings": list(known_hits),
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(shorten(ev), f, indent=1)
    for what in known_hits:
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid}: paths={tot.paths} decisions={tot.decisions} checks={tot.checks} queries={tot.queries} "
          f"exhaustive={exhaustive} validated={validated} mismatches={mismatch} "
          f"unconfirmed={len(unconfirmed)} tainted={tot.tainted} wall={time.time()-t0:.1f}s")
    if ex.error:
        print("ERROR", ex.error)
        if not confirmed:
            return 2
    if confirmed:
        return 1
    if crashed:
        print("ERROR", crashed[0])
        return 2
    if missing and not ONLY:
        # A changed tree may do without some situation; on the committed tree it would mean that
        # a check is vacuous (tools/strict.sh).
        print("NOTE situations not reached:", missing)
        if os.environ.get("VERIF_STRICT"):
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
