#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUBSTR] [-v]"""
import argparse, importlib, json, os, sys, time, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def signature(prop, case, v):
    """Mechanism-level signature: property, workload function, what the monitor saw, and where it came from."""
    d = v["detail"]
    return "|".join([prop, case.fn, v["kind"], str(d.get("site", d.get("where", "")))])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--fail-fast", action="store_true", help="start no further case after the first unlisted violation (development)")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    core.load_library()
    mod = importlib.import_module("checks." + prop.lower())
    known = json.load(open(os.path.join(core.VERIF, "known_findings.json")))
    known = [k for k in known["findings"] if k["property"] == prop and k["status"] == "known"]

    if a.replay:
        r = json.load(open(a.replay))
        cases = [core.Case(r["fn"], **r["kw"])]
        a.seed, a.tier = r["seed"], r["tier"]
    else:
        rng = random.Random(core.stable_int(prop, a.seed, a.tier))
        cases = mod.cases(a.tier, rng)
        if a.only:
            cases = [c for c in cases if a.only in c.name]
    if hasattr(mod, "prewarm"):
        try:
            mod.prewarm(a.tier)
        except Exception as e:      # the cases meet the same failure and report it
            if a.v:
                print("prewarm:", repr(e))
    tpre = time.time() - t0
    soft = float(os.environ.get("VERIF_SOFT", 420 if a.tier == "quick" else 780)) - tpre

    seen_sigs = {}

    bad = []

    def log(c, r):
        bad.extend(v for v in r["violations"] if signature(prop, c, v) not in {k["signature"] for k in known})
        if not a.v:
            return
        for v in r["violations"]:
            sg = signature(prop, c, v)
            seen_sigs[sg] = seen_sigs.get(sg, 0) + 1
            if seen_sigs[sg] == 1:
                d = v["detail"]
                print("BAD", sg, "  ", c.name[:160])
                print("     ", {k: s for k, s in d.items() if k != "trace"})
                if "trace" in d and "exception" in v["kind"]:
                    print("      | " + "\n      | ".join(d["trace"].strip().split("\n")[-4:]))
        for s in r["inconclusive"][:1]:
            print("??", c.name[:100], s[-200:])

    res = core.run_cases(mod, cases, prop, a.seed, a.tier, soft, a.jobs, log, (lambda: bool(bad)) if a.fail_fast else None)
    kinds, maxerr, events, states, inconcl, skipped, viol, evals = {}, {}, {}, set(), [], 0, [], 0
    executed, nontrivial, slow = 0, set(), []
    found = {}
    for c, r in res:
        if r is None:
            skipped += 1
            continue
        executed += 1
        slow.append((round(r["wall"], 1), c.name[:120]))
        evals += r["evals"]
        for k, n in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
        for k, e in r["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0), e)
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        states.update(r["states"])
        if r["evals"]:
            nontrivial.add(c.name)
        inconcl += [f"{c.name[:200]}: {s}" for s in r["inconclusive"]]
        for v in r["violations"]:
            sig = signature(prop, c, v)
            k = next((k for k in known if k["signature"] == sig), None)
            if k:
                found[k["id"]] = k
            else:
                viol.append((c, v, sig))
    slow.sort(reverse=True)
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": executed, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": [c.name for c, r in res if r and r["evals"]][:12],
            "monitor_evaluations": evals, "monitor_evaluations_by_oracle": dict(sorted(kinds.items())),
            "observed_events": dict(sorted(events.items())), "distinct_observed_states": len(states),
            "observed_state_samples": sorted(states)[:40],
            "max_error_by_oracle": {k: float(f"{e:.3g}") for k, e in sorted(maxerr.items())},
            "cases_not_started_before_deadline": skipped, "inconclusive": inconcl[:50],
            "slowest_cases": slow[:5], "setup_s": round(tpre, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "known_findings_observed": sorted(found),
    }
    if not a.replay and not a.only:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in found.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if a.v:
        print("signatures:", {k: n for k, n in seen_sigs.items()}, "slow", slow[:6])
    if viol:
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        seen = {}
        for c, v, sig in viol:
            if sig in seen:
                continue
            seen[sig] = 1
            if len(seen) > 6:
                break
            p = os.path.join("replays", f"{prop}-{core.stable_int(sig, c.name) % 10**10:010d}.json")
            with open(os.path.join(core.VERIF, p), "w") as f:
                json.dump({"property": prop, "fn": c.fn, "kw": c.kw, "seed": a.seed, "tier": a.tier,
                           "signature": sig, "violation": v}, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={os.path.join(core.VERIF, p)}")
            if a.v:
                continue
            print("  " + sig + "  case " + c.name[:200])
            print("  " + json.dumps({k: x for k, x in v["detail"].items() if k != "trace"}, default=str)[:600])
        print(f"{prop}: {len(viol)} violations in {executed} cases")
        return 1
    if evals == 0:
        print(f"INCONCLUSIVE property={prop}: the deciding monitors were never reached")
        for s in inconcl[:5]:
            print("  ", s)
        return 2
    print(f"HELD property={prop}: {executed} cases, {evals} monitor evaluations, {len(states)} distinct observed states, "
          f"{len(inconcl)} inconclusive, {skipped} not started, {time.time()-t0:.0f}s")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
