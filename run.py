#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--only SUBSTR] [-v]"""

import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from checks import base, registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=0)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = a.prop
    t0 = time.time()
    info = registry.CHECKS[prop]
    budget = 120 if tier == "quick" else 600
    end = time.monotonic() + (480 if tier == "quick" else 6 * 3600)
    jobs = []
    for mod in info["modules"]:
        m = importlib.import_module("checks." + mod)
        for name, fn, args in m.scenarios(prop, tier):
            if a.only and a.only not in name:
                continue
            jobs.append((prop, name, "checks." + mod, fn, args, tier, budget, end))
    n = a.j or min(8, os.cpu_count() or 4)
    results = []
    found = 0
    # long jobs tend to be late in the lists: small chunks, unordered
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(base.run_scenario, jobs, chunksize=1):
            results.append(r)
            if a.v:
                print(f"{r['wall']:8.2f}s {r['name']}: {r['proved']}+{r['sampled']}/{r['obligations']}"
                      f" viol={len(r['violations'])} undec={len(r['undecided'])} nodes={r['nodes']}", flush=True)
            found += bool(r["violations"])
            # the verdict is settled: do not spend the rest of the time on it
            if found >= 40 or found and time.time() - t0 > 90:
                pool.terminate()
                break
    results.sort(key=lambda r: r["name"])
    viol = [v for r in results for v in r["violations"]]
    und = [f"{r['name']}: {u}" for r in results for u in r["undecided"]]
    known = load_known(prop)
    new = [v for v in viol if not matches(v, known)]
    obl = sum(r["obligations"] for r in results)
    proved = sum(r["proved"] for r in results)
    sampled = sum(r["sampled"] for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base.SEED,
        "level": info.get("level", "other"),
        "coverage": {
            "explanation": info["rule"],
            "scenarios": len(results),
            "obligations": obl,
            "discharged": proved,
            "decided_by_term_evaluation_only": sampled,
            "undecided": len(und),
            "undecided_list": und[:40],
            "instance_analyses": sum(r["instances"] for r in results),
            "scenarios_planned": len(jobs),
            "functions_analysed": len(funcs),
            "functions": funcs,
            "abstract_statements": sum(r["stmts"] for r in results),
            "call_sites_evaluated": sum(r["calls"] for r in results),
            "joins": sum(r["joins"] for r in results),
            "max_guard_nodes": max([r["nodes"] for r in results] or [0]),
            "checker_cmd": f"python3 /verif/run.py {prop} --tier {tier}",
            "trusted_base": ["absint (abstract interpreter and library models)", "specification in checks/"],
            "slowest": [[r["name"], r["wall"]] for r in sorted(results, key=lambda r: -r["wall"])[:3]],
            "samples": [r["name"] for r in results[:: max(1, len(results) // 12)]],
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if any(matches(v, [k]) for v in viol):
            print(f"KNOWN-FINDING: property={prop} {k.get('what')}")
    groups = {}
    for r in results:
        for u in r["undecided"]:
            groups.setdefault(u.strip().replace("\n", " ")[-170:], []).append(r["name"])
    for u, ns in list(groups.items())[:6]:
        print(f"UNDECIDED x{len(ns)} (e.g. {ns[0]}): {u}")
    print(f"{prop} [{tier}] scenarios={len(results)} obligations={obl} proved={proved} evaluated={sampled}"
          f" undecided={len(und)} functions={len(funcs)} wall={ev['wall_s']}s")
    if new:
        rp = os.path.join(HERE, "evidence", f"replay-{prop}.json")
        with open(rp, "w") as f:
            json.dump(new[:50], f, indent=1)
        for v in new[:5]:
            print(f"  {v['scenario']} / {v['obligation']}: {v['detail'][:300]}")
            print(f"    at {v['where']}; witness {str(v['witness_inputs'])[:300]} {v['faults'] or ''}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if proved + sampled == 0:
        print("nothing could be decided")
        return 2
    return 0


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k.get("property") == prop]


def matches(v, known):
    for k in known:
        if k["scenario"] == v["scenario"] and k["obligation"] == v["obligation"]:
            return True
    return False


if __name__ == "__main__":
    sys.exit(main())
