#!/usr/bin/env python3
"""tools/seed.py ID... : try planted changes: seeded/ID/patch.diff is applied in
/repo, built, tested, demonstrated, checked, and undone again.
  -n  skip the stable tests     -c  check only (no demo, no tests)
  -k ID  run this check instead of the property's own"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def tests():
    run(["bash", "/opt/vp/test.sh", "/tmp/seed_t.json"], timeout=900)
    got = json.load(open("/tmp/seed_t.json"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - set(got["passed"]))
def build():
    return run(["bash", "/opt/vp/build.sh"]).returncode
def demo(i):
    return run(["bash", os.path.join(S, i, "demo.sh")], cwd="/repo", timeout=300)
def revert():
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
args = sys.argv[1:]
notests = "-n" in args
conly = "-c" in args
over = None
if "-k" in args:
    k = args.index("-k"); over = args[k+1]; del args[k:k+2]
ids = [a for a in args if not a.startswith("-")]
assert not run(["git", "-C", "/repo", "status", "--short"]).stdout.strip(), "/repo not clean"
for i in ids:
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    out = []
    try:
        if not conly:
            build()
            d = demo(i)
            out.append("demo-clean=%d" % d.returncode)
            if d.returncode: print(d.stdout[-1500:])
        r = run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        if not conly:
            b = run(["bash", "/opt/vp/build.sh"])
            if b.returncode: print(i, "BUILD FAILED", b.stdout[-1500:]); continue
            if not notests: out.append("tests-broken=%s" % tests())
            d = demo(i)
            out.append("demo-patched=%d" % d.returncode)
            if not d.returncode: print(d.stdout[-1500:])
        t = time.time()
        c = run([os.path.join(V, "bin/check"), over or meta["property"], "quick"])
        vl = [l for l in c.stdout.split("\n") if "VIOLATION" in l]
        out.append("check rc=%d %s (%.0fs)" % (c.returncode, vl[:1], time.time() - t))
        if c.returncode not in (0, 1): print(c.stdout[-1500:])
    finally:
        revert()
    print(i, meta["property"], "; ".join(out), flush=True)
if not conly: build()
