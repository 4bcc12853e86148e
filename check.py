#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--replay FILE]

exit 0: held on everything observed; 1: VIOLATION line printed; 2: no verdict.
"""
import argparse, base64, json, os, pickle, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":          # same workload for the same seed
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

RULE = ("inputs drawn from VERIF_SEED by the generators in rpmon/ (continuous draws mixed with special, boundary, literal and "
        "near-literal values); a case is distinct and non-trivial when the digest of (function or relation, option, leading "
        "expected output rounded to 8 digits) was not seen before in this run")


def load_known():
    """key -> property of the recorded (not repaired) findings"""
    known = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            known[m.group(2)] = (m.group(1), m.group(3))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.property
    t0 = time.time()
    from rpmon import core
    evdir = os.environ.get("RPMON_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    if a.replay:
        d = json.load(open(a.replay))
        seed, tier, prop = d["seed"], d["tier"], d["property"]
        for v in d["violations"]:
            if v.get("pickled_call"):
                try:
                    from rpmon import props   # noqa: F401
                    c = pickle.loads(base64.b64decode(v["pickled_call"]))
                    print("replay:", core.brief(c))
                    print("   now returns", core.brief(core.fn(c[0])(*c[1], **(c[2] if len(c) > 2 else {}))))
                except Exception as ex:
                    print("   now raises %s: %s" % (type(ex).__name__, ex))
                print("   recorded:", v["what"])
    try:
        core.lib()
        imported = None
    except core.Inconclusive as ex:
        print("NO VERDICT:", ex)
        return 2
    except Exception:
        imported = traceback.format_exc()
    from rpmon import props
    if imported is None:
        os.environ["RPMON_TIER"] = tier
        tasks = [t for t in props.tasks(prop) if os.environ.get("RPMON_ONLY", "") in t[0]]       # to look at some of the workloads
        log = core.run_tasks(prop, tier, seed, tasks)
    else:
        log, tasks = core.Log(prop, tier, seed), []
        log.violate("import", "the library cannot be imported: " + imported[-1500:])
    errors = {k[6:]: v for k, v in log.extra.items() if k.startswith("error:")}
    inconcl = {k[13:]: v for k, v in log.extra.items() if k.startswith("inconclusive:")}
    known = load_known()
    for k, v in errors.items():
        if "MemoryError" in v or "OSError" in v or "rpmon.core.Inconclusive" in v:
            inconcl[k] = v
        else:
            log.violate("exception", "monitor %s: the workload ended with an exception: %s" % (k, v[-1500:]))
    for k, n in sorted(log.finds.items()):
        p, text = known.get(k, (None, None))
        if p is None:
            log.violate("finding", "deviation %s (%d events) is not listed in known_findings.txt" % (k, n))
        else:
            print("KNOWN-FINDING: property=%s %s [%s, %d matching events]" % (prop, text, k, n))
    times = sorted(((v, k[2:]) for k, v in log.extra.items() if k.startswith("t:")), reverse=True)
    groups = {}
    for k, v in log.counts.items():
        groups.setdefault(k.split(":")[0], {})[k.split(":", 1)[-1]] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": int(log.evals), "distinct_nontrivial": len(log.sigs), "rule": RULE,
                       "samples": log.samples[:60], "tasks": len(tasks), "library_calls": dict(sorted(log.calls.items())),
                       "library_calls_total": int(sum(log.calls.values())),
                       "events": {g: dict(sorted(d.items())) for g, d in sorted(groups.items())},
                       "known_finding_events": log.finds,
                       "slowest_tasks": ["%s %.1fs" % (n, t) for t, n in times[:5]],
                       "inconclusive_tasks": inconcl,
                       **{k: v for k, v in log.extra.items() if not k.startswith(("error:", "inconclusive:", "t:"))}},
          "assumptions": ["numpy, scipy, pandas and matplotlib of the sandbox behave as documented",
                          "the independent models and relations in /verif/rpmon state the intended formulas"],
          "violations": len(log.viol), "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if log.viol:
        rp = os.path.join(evdir, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": log.viol[:40]}, f, indent=1, default=str)
        for v in log.viol[:8]:
            print("  %s: %s" % (v["rule"], str(v["what"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s seed %d: %d calls of %d functions, %d oracle evaluations, %d distinct, %.1f s" % (
        prop, tier, seed, sum(log.calls.values()), len(log.calls), log.evals, len(log.sigs), time.time() - t0))
    if inconcl or log.evals == 0:
        print("NO VERDICT:", brief_inc(inconcl) or "nothing was observed")
        return 2
    return 0


def brief_inc(d):
    return "; ".join("%s: %s" % (k, str(v)[-300:]) for k, v in d.items())


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
