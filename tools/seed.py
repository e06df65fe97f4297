#!/usr/bin/env python3
"""tools/seed.py new ID PROP  < spec   (spec: python dict literal: file, old, new, needs, breaks, demo)
   tools/seed.py verify ID...   confirm in a scratch copy: applies, builds, stable tests pass, demo 0 / nonzero
   tools/seed.py check ID...    run the property's quick check against the patch in /repo (undone afterwards)"""
import sys, os, json, subprocess, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(sid, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        run("git -C /repo worktree prune; git clone -q --shared /repo %s/r" % t)
        for f, old, nw in edits:
            p = os.path.join(t, "r", f); s = open(p).read()
            if s.count(old) != 1: raise SystemExit("%s: %d matches in %s for %r" % (sid, s.count(old), f, old))
            open(p, "w").write(s.replace(old, nw))
        df = run("git -C %s/r diff" % t).stdout
        open(os.path.join(d, "patch.diff"), "w").write(df)
    finally: shutil.rmtree(t)
    shutil.copy(os.path.join(V, "tools", "demo.sh"), d); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(V, "tools", "vp_stubs.rs"), d)
    open(os.path.join(d, "vp_demo.rs"), "w").write("#![allow(unused_imports, dead_code, unused_mut)]\nuse crate::cache::*;\nuse crate::cxxbridge::ffi::*;\nuse crate::graph::*;\nuse crate::node::*;\nuse crate::stream::*;\nuse crate::pixelblock::pixelblock::PixelBlock;\nuse super::vp_stubs;\nuse std::rc::Rc;\n\n" + demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(ids):
    t = tempfile.mkdtemp(prefix="seedv")
    try:
        for sid in ids:
            d = os.path.join(V, "seeded", sid)
            s = os.path.join(t, "s"); shutil.rmtree(s, ignore_errors=True); shutil.copytree(d, s)
            for f in ("patch.diff", "meta.json"): os.unlink(os.path.join(s, f))
            r = os.path.join(t, "r"); shutil.rmtree(r, ignore_errors=True)
            run("git clone -q --shared /repo " + r)
            a = run("bash %s/demo.sh" % s, cwd=r)
            p = run("git -C %s apply %s/patch.diff" % (r, d))
            b = run("bash %s/demo.sh" % s, cwd=r)
            why = "" if "test result: FAILED" in b.stdout else " NOT A TEST FAILURE: " + b.stdout[-600:]
            # stable tests need /repo itself
            ap = run("git -C /repo apply %s/patch.diff" % d)
            try:
                bl = run("bash /opt/vp/build.sh"); o = os.path.join(t, "o.json"); run("bash /opt/vp/test.sh " + o)
                res = json.load(open(o)); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                js = json.dumps(res); passed = set(res.get("passed", []))
                miss = sorted(base - passed)
            finally: run("git -C /repo checkout -- .")
            ok = a.returncode == 0 and b.returncode != 0 and p.returncode == 0 and bl.returncode == 0 and not miss and not why
            print("%s %s: demo clean=%s patched=%s build=%s missing=%s%s" % ("OK  " if ok else "BAD ", sid, a.returncode, b.returncode, bl.returncode, miss, why), flush=True)
            if a.returncode: print(a.stdout[-900:])
    finally: shutil.rmtree(t, ignore_errors=True)
def check(ids, tier="quick"):
    """in a copy of /repo, so that several can run while /repo stays untouched"""
    t = tempfile.mkdtemp(prefix="seedc")
    try:
        for sid in ids:
            d = os.path.join(V, "seeded", sid); prop = json.load(open(d + "/meta.json"))["property"]
            r = os.path.join(t, "r"); shutil.rmtree(r, ignore_errors=True)
            run("git clone -q --shared /repo " + r); run("git -C %s apply %s/patch.diff" % (r, d))
            b = os.path.join(t, "b"); 
            if not os.path.exists(b): run("cp -a %s %s" % (os.path.join(V, ".build"), b))
            for pr in [prop] + EXTRA:
                x = run([os.path.join(V, "run.py"), pr, tier], env=dict(os.environ, VP_REPO=r, VP_BUILD=b, VP_OUT=os.path.join(t, "out")))
                vio = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION property=" + pr)]
                print("%s %s by %s exit=%s %s" % ("CAUGHT" if vio and x.returncode == 1 else "MISSED", sid, pr, x.returncode, x.stdout.strip().splitlines()[-1][-150:]), flush=True)
                if x.returncode not in (0, 1): print(x.stdout[-1500:])
    finally: shutil.rmtree(t, ignore_errors=True)
EXTRA = []
if __name__ == "__main__":
    if sys.argv[1] == "verify": verify(sys.argv[2:])
    if sys.argv[1] == "check": check(sys.argv[2:])
