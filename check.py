#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property on /repo's current tree."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(20000)
T0 = time.time()
if os.environ.get("PYTHONHASHSEED") != "0":      # reproducible runs
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = subprocess.run(["bash", os.path.join(V, "tools", "dump.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print("the crate could not be compiled for analysis")
        emit(pid, tier, seed, [("crate", "-", "build", "the crate does not compile")], {"explanation": "the crate did not compile"})
    import props
    return emit(pid, tier, seed, *props.check(pid, tier, seed, os.path.join(os.environ.get("APINT_BUILD") or os.path.join(V, ".build"), "mir.json"), T0, set(known_for(pid))))


def known_for(pid):
    try:
        known = json.load(open(os.path.join(V, "known_findings.json")))["known"]
    except (OSError, KeyError, ValueError):
        known = []
    return {k["key"]: k for k in known if k["property"] == pid}


def emit(pid, tier, seed, viol, cov):
    kk = known_for(pid)
    new, seen = [], set()
    for v in viol:
        key = "%s | %s" % (v[0], v[2])
        if key in kk:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, kk[key]["what"]))
            seen.add(key)
        else:
            new.append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - T0, 1)}
    ev["violations"] = [{"function": v[0], "case": v[1], "rule": v[2], "detail": v[3]} for v in new]
    d = os.environ.get("APINT_EVID") or os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)
    print("%s: %s" % (pid, cov.get("explanation", "")))
    for k in ("obligations", "discharged", "undecided"):
        if k in cov:
            print("  %s: %s" % (k, cov[k] if not isinstance(cov[k], list) else len(cov[k])))
    if new:
        rp = os.path.join(d, pid + ".violations.json")
        json.dump(ev["violations"], open(rp, "w"), indent=1)
        for v in new[:20]:
            print("  %s [%s] %s: %s" % v)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
