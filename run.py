#!/usr/bin/env python3
"""Decide one property: run.py PROP [quick|thorough]

Mirrors /repo's working tree, compiles it together with the property's harness to LLVM IR, executes
the harness entries symbolically (engine/), replays counterexamples (and one witness per explored
power-of-two path) natively against the same compiled code, and writes evidence/PROP.json.
exit 0: held on everything explored; 1: VIOLATION line(s); 2: no answer."""
import sys, os, re, json, subprocess, shutil, time, fcntl, concurrent.futures as cf, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, ".build"))
OUT = os.environ.get("VP_OUT", V)  # evidence and replay files
TOOLCHAIN = "stable"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): ENV.pop(k, None)
T0 = time.time()


class NoAnswer(Exception): pass


def sh(cmd, timeout=600, cwd=None, env=None, ok=True):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env or ENV)
    out = r.stdout.decode(errors="replace")
    if ok and r.returncode != 0:
        raise NoAnswer("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:300], out[-6000:]))
    return r.returncode, out


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)


def engine():
    t = os.path.join(B, "engine")
    sh(["cargo", "build", "--release", "--offline", "--target-dir", t], cwd=os.path.join(V, "engine"))
    return os.path.join(t, "release", "ocgsym")


def parse_harness(prop):
    src = open(os.path.join(V, "harness", "vp", prop.lower() + ".rs")).read()
    entries, bounds, assumes = [], [], []
    for l in src.splitlines():
        m = re.match(r"\s*//@ (\w+) (.*)", l)
        if not m: continue
        k, rest = m.groups()
        if k == "entry":
            p = rest.split()
            e = dict(name=p[0], tier="quick", time="400", steps="20000000", covers="", solver_ms="120000")
            for kv in p[1:]:
                a, b = kv.split("=", 1); e[a] = b
            e["covers"] = [int(x) for x in e["covers"].split(",") if x]
            entries.append(e)
        elif k == "bound": bounds.append(rest)
        elif k == "assume": assumes.append(rest)
    return entries, bounds, assumes


def mirror(prop, entries):
    d = os.path.join(B, "mirror", prop)
    src = os.path.join(d, "src")
    if os.path.exists(src): shutil.rmtree(src)
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.cpp"))
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    toml = re.sub(r'(?m)^log\s*=\s*"([^"]*)"', r'log = {version="\1", features=["max_level_off"]}', toml)
    toml = re.sub(r'(?m)^crate_type\s*=.*', 'crate_type = ["rlib"]', toml)
    toml = re.sub(r'(?m)^crate-type\s*=.*', 'crate-type = ["rlib"]', toml)
    toml = re.sub(r'(?ms)^\[workspace\].*?(?=^\[|\Z)', '', toml)
    toml += '\n[workspace]\n[profile.sym]\ninherits="release"\nopt-level=1\nlto="fat"\ncodegen-units=1\noverflow-checks=true\ndebug-assertions=true\npanic="abort"\nincremental=false\n'
    put(os.path.join(d, "Cargo.toml"), toml)
    if os.path.exists(os.path.join(REPO, "Cargo.lock")): shutil.copy(os.path.join(REPO, "Cargo.lock"), d)
    lib = os.path.join(src, "lib.rs")
    with open(lib, "a") as f:
        f.write('\n#[path = "%s"]\npub mod vp;\n' % os.path.join(V, "harness", "vp", "mod.rs"))
    return d


def tool(name):
    global SYSROOT
    if not SYSROOT: SYSROOT = sh(["rustc", "--print", "sysroot"])[1].strip()
    return os.path.join(SYSROOT, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


SYSROOT = ""


def deps_bc(deps):
    """One bitcode module with the crate's dependencies and the standard library (built once per set of them)."""
    tool("opt")
    std = os.path.join(SYSROOT, "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    rl = [os.path.join(deps, f) for f in sorted(os.listdir(deps)) if f.endswith(".rlib") and "opencompgraph_rs" not in f]
    sl = [os.path.join(std, f) for f in sorted(os.listdir(std)) if f.endswith(".rlib") and not re.match(r"lib(panic_unwind|test|proc_macro|getopts|profiler_builtins|compiler_builtins|sysroot|rustc_std_workspace)", f)]
    key = hashlib.sha256("".join("%s %d\n" % (f, os.path.getsize(f)) for f in rl + sl).encode()).hexdigest()[:16]
    out = os.path.join(B, "deps-%s.bc" % key)
    if os.path.exists(out): return out
    for f in os.listdir(B):
        if f.startswith("deps-"): os.unlink(os.path.join(B, f))
    w = os.path.join(B, "unpack"); shutil.rmtree(w, ignore_errors=True)
    mods = []
    for f in rl + sl:
        d = os.path.join(w, os.path.basename(f)); os.makedirs(d)
        sh([tool("llvm-ar"), "x", f], cwd=d)
        for o in sorted(os.listdir(d)):
            q = os.path.join(d, o)
            if not o.endswith(".o"): continue
            if open(q, "rb").read(4) == b"\x7fELF":
                if subprocess.run([tool("llvm-objcopy"), "--dump-section=.llvmbc=" + q + ".bc", q, "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: continue
                q += ".bc"
            mods.append(q)
    sh([tool("llvm-link"), "-o", out + ".tmp"] + mods)
    shutil.rmtree(w); os.rename(out + ".tmp", out)
    return out


def shim(text, path):
    """The allocator functions rustc adds when it links a program."""
    f = {}
    for m in re.finditer(r'@("?)([\w$.]*7___rustc\d+(___(?:rust|rdl)_\w+))\1\(', text): f[m.group(3)] = m.group(2)
    def name(n): return f.get(n)
    o = ['target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"\ntarget triple = "x86_64-unknown-linux-gnu"\n']
    sig = dict(alloc=("ptr", ["i64", "i64"]), dealloc=("void", ["ptr", "i64", "i64"]), realloc=("ptr", ["ptr", "i64", "i64", "i64"]), alloc_zeroed=("ptr", ["i64", "i64"]), alloc_error_handler=("void", ["i64", "i64"]))
    for k, (r, a) in sig.items():
        g, d = name("___rust_" + k), name("___rdl_" + k)
        if not g: continue
        # the default functions carry the same crate disambiguator
        d = d or re.sub(r"\d+___rust_%s$" % k, "%d___rdl_%s" % (len("__rdl_" + k), k), g)
        ps = ", ".join("%s %%%d" % (t, i) for i, t in enumerate(a))
        o.append("declare %s @%s(%s)\ndefine %s @%s(%s) {\n  %scall %s @%s(%s)\n  %s\n}\n" % (r, d, ", ".join(a), r, g, ps, "" if r == "void" else "%r = ", r, d, ps, "ret void" if r == "void" else "ret ptr %r"))
    for m in set(re.findall(r'@([\w$.]*___rust_no_alloc_shim_is_unstable_v2)\(', text)): o.append("define void @%s() {\n  ret void\n}\n" % m)
    for m in set(re.findall(r'@([\w$.]*___rust_alloc_error_handler_should_panic_v2)\(', text)): o.append("define i8 @%s() {\n  ret i8 0\n}\n" % m)
    put(path, "".join(o))


def build_ir(prop, tier, entries):
    """-> (path of .ll, path of native replay binary, (repo functions in the module, inlined calls))"""
    out = os.path.join(B, "ir", prop)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(B, "target"), exist_ok=True)
    lock = open(os.path.join(B, "target", "vp.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    bc = os.path.join(out, "m.bc")
    try:
        d = mirror(prop, entries)
        t = os.path.join(B, "target")
        deps = os.path.join(t, "sym", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if "opencompgraph_rs" in f: os.unlink(os.path.join(deps, f))
        env = dict(ENV, RUSTC_BOOTSTRAP="1", RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Z inline-mir=no -Awarnings")
        cmd = ["cargo", "rustc", "--lib", "--offline", "--profile", "sym", "--target-dir", t, "--crate-type", "rlib", "--", "-C", "no-prepopulate-passes", "--cfg", "vp_" + prop.lower()]
        if tier == "thorough": cmd += ["--cfg", "vp_thorough"]
        sh(cmd, cwd=d, env=env, timeout=800)
        libs = [f for f in os.listdir(deps) if f.startswith("libopencompgraph_rs") and f.endswith(".rlib")]
        if len(libs) != 1: raise NoAnswer("unexpected build products %s" % libs)
        w = os.path.join(out, "crate"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        sh([tool("llvm-ar"), "x", os.path.join(deps, libs[0])], cwd=w)
        objs = [os.path.join(w, f) for f in sorted(os.listdir(w)) if f.endswith(".o")]
        dep = deps_bc(deps)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    a, b, c, d = (os.path.join(out, x) for x in ("a.ll", "b.ll", "c.ll", "shim.ll"))
    names = [e["name"] for e in entries]
    sh([tool("llvm-link"), "--suppress-warnings", "-o", bc] + objs + ["--only-needed", dep])
    sh([tool("opt"), "-S", "--strip-debug", "--passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(names), bc, "-o", a])
    text = open(a).read()
    shim(text, d)
    sh([tool("llvm-link"), "--suppress-warnings", "-o", bc, a, d, "--only-needed", dep])
    sh([tool("opt"), "-S", "--strip-debug", "--passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(names), bc, "-o", a])
    funcs, calls, cur = [], {}, None
    pat = re.compile(r"^define .*(4hash3sip.*Hasher(5write|6finish|9write_str)|9panicking)")
    with open(a) as f, open(b, "w") as g:
        for l in f:
            if l.startswith("define "):
                m = re.search(r'@"?([^"(]+)"?\(', l)
                cur = m and calls.setdefault(m.group(1), set())
                if m and "opencompgraph_rs" in m.group(1) and "2vp" not in m.group(1): funcs.append(m.group(1))
                if pat.match(l):  # interpreted by the engine: keep the calls and their signatures
                    l = re.sub(r" (#[0-9]+ )", r" noinline \1", l, count=1).replace("define internal ", "define ", 1)
            elif cur is not None: cur.update(re.findall(r'@"?([\w$.]+)', l))
            g.write(l)
    sh([tool("opt"), "-S", "--passes=default<O1>", b, "-o", c])
    kept = set(re.findall(r'(?m)^define .*?@"?([^"(]+)"?\(', open(c).read()))
    calls = {k: [x for x in v if x in calls and x not in kept] for k, v in calls.items()}  # what was inlined into what
    for f in (a, b, bc): os.unlink(f)
    shutil.rmtree(w)
    put(os.path.join(out, "entries.h"), "".join("E(%s)\n" % n for n in names))
    return c, os.path.join(out, "replay"), (sorted(set(funcs)), calls)


def build_replay(out):
    """The native program: the same module, compiled."""
    o = os.path.join(out, "native.o")
    sh([tool("llc"), "-O1", "-filetype=obj", "-relocation-model=pic", "-o", o, os.path.join(out, "c.ll")])
    sh(["gcc", "-O1", "-o", os.path.join(out, "replay"), "-I", out, os.path.join(V, "harness", "replay.c"), o,
        "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-lpthread", "-ldl", "-lm"])
    os.unlink(o)


def demangle(names):
    """The readable paths of those functions that the repository itself defines."""
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE).stdout.decode()
    return sorted(set(re.sub(r"\[[0-9a-f]{8,}\]", "", x).replace("opencompgraph_rs::", "") for x in r.splitlines() if re.match(r"<*opencompgraph_rs", x)))


def native(rep, entry, values, path, timeout=20):
    put(path, "".join("%d %d %s\n" % (t, w, v) for t, w, v, f in values))
    try:
        r = subprocess.run([rep, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def main():
    prop = sys.argv[1]
    if prop == "--warm":  # compile the engine and the crate's dependencies
        engine(); build_ir("C01", "quick", parse_harness("C01")[0])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    allent, bounds, assumes = parse_harness(prop)
    entries = [e for e in allent if (e["tier"] == "quick" or tier == "thorough") and e["tier"] != "off" and (not only or e["name"] in only)]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop and k["status"] == "known"] \
        if os.path.exists(os.path.join(V, "known_findings.json")) else []
    eng = engine()
    ll, rep, (funcs, inlined) = build_ir(prop, tier, entries)
    t_build = time.time() - T0
    out = os.path.join(B, "ir", prop)
    budget = (3000 if tier == "thorough" else 780) - t_build

    def run(e):
        o = os.path.join(out, e["name"] + ".json")
        if os.path.exists(o): os.unlink(o)
        tl = min(float(e["time"]) * (6 if tier == "thorough" else 1), budget - 40)
        r = subprocess.run(["timeout", str(int(tl + 60)), eng, "--ll", ll, "--entry", e["name"], "--out", o, "--time", str(tl), "--max-steps", e["steps"], "--solver-ms", e["solver_ms"], "--max-viol", "6"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not os.path.exists(o): return e, None, r.returncode, r.stderr.decode(errors="replace")[-800:]
        return e, json.load(open(o)), r.returncode, ""
    problems, viol, knownhits, res = [], [], [], []
    with cf.ThreadPoolExecutor(8) as ex:
        nat = ex.submit(build_replay, out)
        res = list(ex.map(run, entries))
        nat.result()
    rdir = os.path.join(OUT, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    cov = dict(paths=0, forks=0, steps=0, asserts=0, asserts_solver=0, branch_queries=0, concretised=0, queries=0, sat=0, unsat=0, unknown=0)
    solver_s = maxq = 0.0
    validated = mismatched = 0
    executed, samples, perentry, solver = set(e["name"] for e in entries), [], [], ""
    for e, j, rc, err in res:
        if j is None:
            problems.append("%s: engine ended with %s %s" % (e["name"], rc, err)); continue
        for k in cov: cov[k] += j[k]
        solver_s += j["solver_s"]; maxq = max(maxq, j["max_query_s"]); solver = j["solver"]
        executed |= set(j["executed"])
        missing = [c for c in e["covers"] if str(c) not in j["covers"]]
        for m in j["inconclusive"]: problems.append("%s: %s" % (e["name"], m))
        if missing and not j["violations"]: problems.append("%s: vacuous: cover points %s not reached" % (e["name"], missing))
        perentry.append(dict(entry=e["name"], paths=j["paths"], queries=j["queries"], solver_s=j["solver_s"], wall_s=j["wall"], assertions={k: dict(checked=v[0], by_solver=v[1]) for k, v in j["assert_ids"].items()}, covers=j["covers"]))
        for i, w in enumerate(j["witnesses"]):
            p = os.path.join(rdir, "%s.witness%d.txt" % (e["name"], i))
            code, so, se = native(rep, e["name"], w["values"], p)
            got = [int(x) for x in re.findall(r"VPCOVER (\d+)", so)]
            if code == 0 and got == w["covers"]: validated += 1
            else:
                mismatched += 1
                print("note: witness %s does not replay natively: exit %s %s" % (p, code, (so + se)[-200:].strip()))
            if i == 0: samples.append(dict(entry=e["name"], inputs=[[t, v] for t, wd, v, f in w["values"]][:60], covers=w["covers"]))
            if code == 0: os.unlink(p)
        for n, v in enumerate(j["violations"]):
            p = os.path.join(rdir, "%s.%d.txt" % (e["name"], n))
            code, so, se = native(rep, e["name"], v["values"], p)
            if v["kind"] == "assert": okrep = code == 1 and "VPFAIL" in so
            elif v["kind"] == "hang": okrep = code == "timeout"
            else: okrep = code not in (0, 77, 78, 79, "timeout")
            if not okrep and code not in (0, 77, 78, 79): okrep = True   # fails natively in another way
            with open(p, "a") as f:
                f.write("# %s %s in %s\n# native: exit %s\n# %s\n# trace: %s\n" % (v["kind"], v["key"], e["name"], code, (so + se)[-1500:].replace("\n", "\n# "), " < ".join(v["trace"])))
            if not okrep:
                problems.append("%s: counterexample %s %s does not reproduce natively (exit %s)" % (e["name"], v["kind"], v["key"], code)); continue
            hit = [k for k in known if k["entry"] == e["name"] and k["kind"] == v["kind"] and re.search(k["key"], v["key"])]
            if hit: knownhits.append((hit[0], p))
            else: viol.append((e["name"], v, p, (so + se).strip()[-300:]))
    todo = list(executed)  # and what the compiler inlined into the executed functions
    while todo:
        for f in inlined.get(todo.pop(), []):
            if f not in executed: executed.add(f); todo.append(f)
    ex = demangle([f for f in funcs if f in executed])
    wall = time.time() - T0
    for k in known:
        h = [x for x in knownhits if x[0] is k]
        if h: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for name, v, p, msg in viol:
        print("%s: %s %s\n  %s" % (name, v["kind"], v["key"], msg.replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for m in problems: print("inconclusive: " + m)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    allcov = dict(states=cov["paths"], transitions=cov["steps"], traces_validated_against_impl=validated, samples=samples[:8],
                  witnesses_not_replaying=mismatched, queries_discharged=cov["queries"], queries_unsat=cov["unsat"], queries_sat=cov["sat"], queries_unknown=cov["unknown"],
                  solver=solver, solver_s=round(solver_s, 3), longest_query_s=round(maxq, 3), forks=cov["forks"], assertions_checked=cov["asserts"], assertions_decided_by_solver=cov["asserts_solver"],
                  branch_queries=cov["branch_queries"], concretised_values=cov["concretised"], functions_encoded=ex, functions_encoded_count=len(ex), bounds=bounds, entries=perentry,
                  build_s=round(t_build, 1), inconclusive=problems, known_findings_seen=[k["what"] for k, _ in knownhits],
                  meaning="states: symbolic paths explored to their end; transitions: LLVM IR instructions executed symbolically; traces_validated_against_impl: solver models of explored paths replayed natively with identical cover points and all assertions holding")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=allcov, assumptions=assumes, wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d queries (%d unsat), solver %.1fs, %d repo functions encoded, %d witnesses replayed, build %.0fs, wall %.0fs" % (prop, tier, cov["paths"], cov["queries"], cov["unsat"], solver_s, len(ex), validated, t_build, wall))
    if viol: return 1
    return 2 if problems else 0


if __name__ == "__main__":
    try: sys.exit(main())
    except NoAnswer as e: print("inconclusive:", e); sys.exit(2)
    except subprocess.TimeoutExpired as e: print("inconclusive: timeout", e); sys.exit(2)
