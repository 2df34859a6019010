#!/usr/bin/env python3
"""plant.py ID: validate /verif/seeded/ID in a scratch copy (builds, stable tests pass, demo distinguishes).
plant.py --catch ID: run the property's check against the planted tree (scratch copy)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def copy(tag):
    d = "/tmp/plant/" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("git -C /repo worktree prune; mkdir -p %s; git -C /repo archive HEAD | tar -x -C %s; cp /repo/Cargo.lock %s/ 2>/dev/null" % (d, d, d))
    return d


def tests(d):
    r = sh("cd %s && . /opt/vp/env.sh && export CARGO_TARGET_DIR=/tmp/plant/target && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8" % d, timeout=900)
    import re
    ok = set(re.findall(r"^test (.*) \.\.\. ok", r.stdout, re.M))
    bad = set(re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M))
    return r.returncode, ok, bad, r.stdout


def validate(i):
    s = "%s/seeded/%s" % (V, i)
    d = copy(i)
    r0 = sh("bash %s/demo.sh" % s, cwd=d)
    a = sh("git apply --directory= %s/patch.diff" % s, cwd=d)
    if a.returncode:
        a = sh("patch -p1 < %s/patch.diff" % s, cwd=d)
    rc, ok, bad, out = tests(d)
    r1 = sh("bash %s/demo.sh" % s, cwd=d)
    good = r0.returncode == 0 and a.returncode == 0 and not bad and len(ok) > 100 and r1.returncode != 0
    print(i, "VALID" if good else "INVALID", "demo0", r0.returncode, "apply", a.returncode, "failed", sorted(bad)[:5], "passed", len(ok), "demo1", r1.returncode)
    if r0.returncode:
        print(r0.stdout[-1500:])
    if len(ok) < 100:
        print(out[-1500:])
    shutil.rmtree(d, ignore_errors=True)
    return good


def catch(i, prop=None):
    s = "%s/seeded/%s" % (V, i)
    prop = prop or json.load(open(s + "/meta.json"))["property"]
    d = "/tmp/plant/c_" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar -x -C %s; cp /repo/Cargo.lock %s/; cd %s && patch -p1 < %s/patch.diff" % (d, d, d, s))
    b = "/tmp/plant/b_" + i
    os.makedirs(b, exist_ok=True)
    sh("cp -a %s/.build/mirdump %s/.build/target %s/" % (V, V, b))
    env = dict(os.environ, REPO=d, APINT_BUILD=b, APINT_EVID=b)
    r = sh("timeout 900 python3 %s/check.py %s" % (V, prop), env=env)
    hit = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
    print(i, prop, "CAUGHT" if hit else "missed rc=%d" % r.returncode)
    lines = r.stdout.splitlines()
    print("    " + "\n    ".join(x[:240] for x in lines[-4:]))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(b, ignore_errors=True)
    return hit


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--catch":
        if a[1] == "all":
            ids = sorted(os.listdir(V + "/seeded"))
        else:
            ids = a[1:]
        for i in ids:
            i, _, pr = i.partition(":")
            catch(i, pr or None)
    else:
        for i in a:
            validate(i)
