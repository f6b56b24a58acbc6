#!/usr/bin/env python3
"""seed.py ID... [--props V01,V02]: confirm planted changes (demo clean/patched, build, stable tests) and report which checks catch them.
Works on /repo itself, undoing the patch straight afterwards; development aid, used by no check."""
import sys, os, json, subprocess, shutil, tempfile, time
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "") for a in sys.argv[1:] if a.startswith("--"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(i):
    t = tempfile.mkdtemp(prefix="demo_")
    d = t + "/x"
    shutil.copytree(S + "/" + i, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    finally:
        shutil.rmtree(t)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for i in args:
    m = json.load(open(S + "/" + i + "/meta.json"))
    out = [i, m["property"]]
    if "fast" not in opts:
        rc, o = demo(i)
        out.append("clean demo %d" % rc)
        if rc: print(o)
    r = sh("git -C /repo apply --check %s/%s/patch.diff && git -C /repo apply %s/%s/patch.diff" % (S, i, S, i))
    if r.returncode:
        print(i, "PATCH FAILS", r.stderr); continue
    try:
        if "fast" not in opts:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-800:])
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            res = json.load(open("/tmp/seed_t.json"))
            miss = stable - set(res["passed"])
            out.append("tests ok" if not miss else "TESTS FAIL %s" % sorted(miss)[:3])
            rc, o = demo(i)
            out.append("patched demo %d" % rc)
            if "v" in opts: print(o)
        for p in (opts["props"].split(",") if "props" in opts else [m["property"]]):
            r = sh("python3 /verif/run.py %s" % p)
            out.append("%s->%d" % (p, r.returncode))
            if "v" in opts or r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(map(str, out)), flush=True)
if "fast" not in opts:
    sh("bash /opt/vp/build.sh")
