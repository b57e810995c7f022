#!/usr/bin/env python3
"""Decide one property: compile /repo to bitcode, run the harness entries symbolically, replay what fails.

  check.py <property> [--tier quick|thorough] [--entry h_x] [--keep] [--verbose]
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
LL = "/usr/lib/llvm-18/bin/"
MODULES = ["path", "txtfile", "inifile", "gnuplot", "gedfile", "sndfile", "xmlfile", "graph", "curl"]
# What is there twice: the sources used with the maths library and those without
MKL, FALLBACK = {"dft-mkl", "transpose-mkl"}, {"dft-kiss", "transpose-adhoc"}
EXCLUDE = {"qwt", "throw"}
JOBS = os.cpu_count() or 4
DEFS = ["-DHAVE_MKL", "-DHAVE_BACKTRACE", "-DNDEBUG"]
SYM = (["-O1", "-fno-pie", "-fno-pic", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-threadsafe-statics",
        "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-std=gnu++17", "-w", "-isystem", "/usr/include/mkl"] + DEFS)
NAT = ["-O1", "-g", "-c", "-fsanitize=address", "-fno-omit-frame-pointer", "-std=gnu++17", "-w", "-fPIC", "-isystem", "/usr/include/mkl", "-DNATIVE"] + DEFS
WRAP = ["dlopen", "dlsym", "dlclose", "dlerror", "exit", "popen", "pclose", "backtrace", "backtrace_symbols", "sgeev_", "dgeev_", "sgees_"]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

class BuildError(Exception):
    pass

_hdr = {}
def headers(d, pat=("*.h", "*.hpp", "*.inc")):
    if d not in _hdr:
        fs = sorted(f for p in pat for f in glob.glob(os.path.join(d, "**", p), recursive=True))
        _hdr[d] = digest(*[x for f in fs for x in (os.path.relpath(f, d), rd(f))])
    return _hdr[d]

def compile_one(cxx, flags, src, key, ext):
    out = os.path.join(B, "obj", key + ext)
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh([cxx] + flags + [src, "-o", tmp])
    if r.returncode:
        raise BuildError("%s: %s" % (src, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out

def repo_sources(fallback):
    r = []
    for f in sorted(glob.glob(REPO + "/lube/*.cpp")):
        n = os.path.basename(f)[:-4]
        if n not in EXCLUDE and n not in (MKL if fallback else FALLBACK):
            r.append((n, f))
    return r

def build_engine():
    src = sorted(glob.glob(V + "/engine/*"))
    key = digest(*[rd(f) for f in src if os.path.isfile(f)])
    out = os.path.join(B, "engine-" + key)
    exe = os.path.join(out, "lsym")
    if not os.path.exists(exe):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["make", "-j4", "-C", V + "/engine", "OUT=" + tmp])
        if r.returncode:
            raise BuildError("engine: " + r.stdout[-3000:])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe

def plan(harness, native, defs):
    """(compiler, flags, source, key, ext) for everything that goes into one build."""
    hr = headers(REPO + "/lube")
    rt = headers(V + "/rt")
    jobs = []
    cxx = "/usr/bin/g++" if native else LL + "clang++"
    ext = ".o" if native else ".bc"
    base = NAT if native else SYM
    fallback = any("//! variant: fallback" in open(f).read() for f in harness)
    if fallback:
        base = [x for x in base if x != "-DHAVE_MKL"]
    for n, f in repo_sources(fallback):
        fl = base + ["-I" + REPO]
        if not native:
            fl = fl + ["-gline-tables-only", "-I" + V + "/rt/shim"]
        if n in MODULES:
            fl = fl + ["-Dfactory=factory_" + n]
        if n == "dft-kiss":
            fl = fl + ["-I" + V + "/rt/kiss"]
        jobs.append((cxx, fl, f, digest(cxx, fl, rd(f), hr, rt, f), ext))
    hd = headers(V + "/harness")
    for f in harness:
        fl = base + defs + ["-I" + REPO, "-I" + V + "/rt", "-I" + V + "/harness"]
        hx = LL + "clang++"  # the harness evaluates its inputs in the same order in both builds
        if not native:
            fl = fl + ["-gline-tables-only", "-I" + V + "/rt/shim", "-fno-builtin"]
        jobs.append((hx, fl, f, digest(hx, fl, rd(f), hr, rt, hd, f), ext))
    rts = ["native", "stub_ext"] if native else ["rt_c", "rt_more", "rt_exc", "rt_math", "rt_std", "stub_ext"]
    for n in rts:
        f = "%s/rt/%s.cpp" % (V, n)
        fl = list(base)
        if native:
            fl = [x for x in fl if x != "-fsanitize=address"] + (["-fsanitize=address"] if n == "stub_ext" else [])
        else:
            fl = fl + ["-g0", "-fno-builtin", "-fno-access-control"]
        jobs.append((cxx, fl, f, digest(cxx, fl, rd(f), rt, f), ext))
    return jobs

def build(harness, defs, native=False, engine=False):
    os.makedirs(B + "/obj", exist_ok=True)
    jobs = plan(harness, native, defs)
    # longest first
    slow = ("math", "var", "graph", "path", "string", "rt_std", "json")
    jobs.sort(key=lambda j: 0 if os.path.basename(j[2])[:-4] in slow else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        eng = ex.submit(build_engine) if engine else None
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
        exe = eng.result() if eng else None
    key = digest(*objs)
    if native:
        out = os.path.join(B, "replay-" + key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(["/usr/bin/g++", "-fsanitize=address", "-rdynamic", "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in WRAP] +
                   ["-Wl,--start-group", "-l:libmkl_intel_lp64.so", "-l:libmkl_sequential.so", "-l:libmkl_core.so", "-Wl,--end-group",
                    "-lboost_regex", "-ldl", "-lpthread", "-lm"])
            if r.returncode:
                raise BuildError("replay link: " + r.stdout[-3000:])
            os.rename(tmp, out)
    else:
        out = os.path.join(B, "all-" + key + ".bc")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh([LL + "llvm-link"] + objs + ["-o", tmp])
            if r.returncode:
                raise BuildError("llvm-link: " + r.stdout[-3000:])
            os.rename(tmp, out)
    return out, exe

def entries(files, tier):
    r = []
    for f in files:
        text = open(f).read()
        text += "".join(open(os.path.join(os.path.dirname(f), i)).read() for i in re.findall(r'^#include "(\w+\.inc)"', text, re.M))
        for m in re.finditer(r"^HARNESS(_T)?\((\w+)\)", text, re.M):
            if m.group(1) and tier != "thorough":
                continue
            r.append("h_" + m.group(2))
    return r

FILLS = [0xbe, 0x00, 0xff, 0x41]
def replay(exe, entry, inputs, work, fills=FILLS, timeout=20):
    """Run the native build on one recorded input; returns (verdict, text)."""
    f = tempfile.mktemp(prefix="in", dir=work)
    with open(f, "w") as o:
        for n, v in inputs:
            o.write("%s %d\n" % (n.replace(" ", "_"), v))
    last = ("ok", "")
    for b in fills:
        d = tempfile.mkdtemp(prefix="vfs", dir=work)
        env = dict(os.environ, VREPLAY_DIR=d, MKL_NUM_THREADS="1", MKL_CBWR="COMPATIBLE",
                   ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=65536:malloc_fill_byte=%d:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0" % b)
        try:
            r = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=d)
            out = r.stdout.decode("latin1")
            rc = r.returncode
        except subprocess.TimeoutExpired:
            return "fail", "hang: no result after %d s" % timeout
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc == 0:
            last = ("ok", "") if last[0] != "diverged" else last
        elif rc == 77:
            last = ("diverged", out[-300:])
        elif rc == 78:
            return "known", out[-300:]
        else:
            m = re.search(r"(REPLAY-FAIL.*)", out) or re.search(r"(ERROR: AddressSanitizer[^\n]*)", out) or re.search(r"(terminate called[^\n]*)", out)
            return "fail", "exit %d: %s" % (rc, (m.group(1) if m else out[-300:]).strip()[:600])
    return last

def load_known():
    p = V + "/known_findings.txt"
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the executor and the bitcode of the runtime models")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry", action="append")
    ap.add_argument("--time", type=float)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--samples", type=int, default=None)
    a = ap.parse_args()
    if a.setup:
        try:
            build([], [], engine=True)
        except BuildError as e:
            print(e); return 1
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    files = sorted(glob.glob("%s/harness/%s*.cpp" % (V, a.prop)))
    if not files:
        print("no harness for", a.prop); return 3
    defs = ["-DTHOROUGH=%d" % (tier == "thorough")]
    ents = a.entry or entries(files, tier)
    head = open(files[0]).read()
    meta = {k: v.strip() for k, v in re.findall(r"^//! (\w+): (.*)$", head, re.M)}
    assumptions = [x.strip() for f in files for x in re.findall(r"^//! assume: (.*)$", open(f).read(), re.M)]
    bounds = [x.strip() for f in files for x in re.findall(r"^//! bound: (.*)$", open(f).read(), re.M)]
    def compiles(e):
        # code that no longer compiles is not this check's business to judge
        print("BUILD-FAILED property=%s\n%s" % (a.prop, e))
        return 3
    try:
        bc, lsym = build(files, defs, engine=True)
    except BuildError as e:
        return compiles(e)
    t1 = time.time()
    work = tempfile.mkdtemp(prefix="run-%s-" % a.prop, dir=B)
    budget = a.time or float(meta.get("time_" + tier, "150" if tier == "quick" else "700"))
    nsamp = a.samples if a.samples is not None else (40 if tier == "thorough" else 5)
    outd = work + "/out"; os.makedirs(outd)
    cmd = [lsym, bc, "--out", outd, "--jobs", str(JOBS), "--time", str(budget), "--samples", str(nsamp),
           "--max-instr", meta.get("max_instr", "6000000")]
    for e in ents:
        cmd += ["--entry", e]
    # the native build for replays is made while the engine runs
    nat = {}
    def native():
        try:
            nat["exe"] = build(files, defs, native=True)[0]
        except BuildError as e:
            nat["err"] = e
    natt = None
    if nsamp and not a.no_replay:
        natt = threading.Thread(target=native); natt.start()
    try:
        r = sh(cmd, timeout=budget * 3 + 120)
        if r.stdout.strip() and a.verbose:
            print(r.stdout[-3000:])
        elog = r.stdout
    except subprocess.TimeoutExpired:
        elog = "engine exceeded its limit"
    if natt is not None:
        natt.join()
    t2 = time.time()
    tot = dict(paths=0, infeasible=0, incomplete=0, pending=0, forks=0, instrs=0, asserts=0, assert_queries=0, queries=0, model_hits=0, cache_hits=0, z3_calls=0, sat=0, unsat=0, unknown=0, bounds=0, rewritten=0, confirmed=0, contradicted=0)
    z3t = 0.0; why = {}; covers = {}; asserted = {}; symb = {}; funcs = set(); errs = []; samples = []; per = {}
    problems = []
    for e in ents:
        fs = sorted(glob.glob("%s/%s.*.json" % (outd, e)))
        if not fs:
            problems.append("%s produced no result" % e)
        pe = dict(paths=0, pending=0, incomplete=0, z3_time=0.0, asserts=0)
        for f in fs:
            d = json.load(open(f))
            if d["fatal"]:
                problems.append("%s: %s" % (e, d["fatal"]))
            for k in tot:
                tot[k] += d[k]
            for k in ("paths", "pending", "incomplete", "asserts"):
                pe[k] += d[k]
            pe["z3_time"] = round(pe["z3_time"] + d["z3_time"], 2)
            z3t += d["z3_time"]
            for src, dst in ((d["incomplete_why"], why), (d["covers"], covers), (d["asserted"], asserted)):
                for k, v in src.items():
                    kk = k if src is d["incomplete_why"] else e + ": " + k
                    dst[kk] = dst.get(kk, 0) + v
            for k, v in d["symbolic"].items():
                o = symb.get(k, v); symb[k] = [min(o[0], v[0]), max(o[1], v[1])]
            funcs.update(d["functions"])
            for x in d["errors"]:
                x["entry"] = e; errs.append(x)
            for x in d["samples"]:
                samples.append((e, x))
        per[e] = pe
        if not any(k.startswith(e + ": ") for k in covers) and not any(x["entry"] == e for x in errs):
            problems.append("%s: no path reached its end (vacuous)" % e)
    problems += re.findall(r"^(lsym: .*|engine exceeded its limit)$", elog, re.M)
    kept = {}
    for x in samples:
        kept.setdefault(x[0], []).append(x)
    samples = [x for g in kept.values() for x in g[::max(1, len(g) // nsamp)][:nsamp]] if nsamp else []
    known_ids = {}
    for p, i, t in load_known():
        if p == a.prop:
            known_ids[i] = t
    violations = []; unconfirmed = []; knownseen = set()
    replays = 0; agree = 0; disagree = []
    exe = None
    if (errs or samples) and not a.no_replay:
        if natt is None:
            native()
        else:
            natt.join()
        if "err" in nat and errs:
            return compiles(nat["err"])
        if "err" in nat:
            problems.append("no native build for the sampled paths"); samples = []
        exe = nat.get("exe")
        # distinct failures first, then further witnesses for the same failure
        groups = {}
        for x in errs:
            groups.setdefault((x["entry"], x["kind"], x["msg"], x["where"]), []).append(x)
        def tryone(g):
            last = None
            for x in groups[g][:6]:
                v, text = replay(exe, x["entry"], x["inputs"], work)
                last = (v, text, x)
                if v == "fail":
                    return last
            return last
        glist = sorted(groups)[:60]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for g, (v, text, x) in zip(glist, ex.map(tryone, glist)):
                replays += 1
                (violations if v == "fail" else unconfirmed).append((x, v, text))
        def trysample(s):
            return replay(exe, s[0], s[1], work, fills=[0xbe])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, (v, text) in zip(samples, ex.map(trysample, samples)):
                replays += 1
                if v in ("ok", "known"):
                    agree += 1
                else:
                    disagree.append((s, v, text))
    for e, kx in [(k.split(": known:")[0], k.split(": known:")[1]) for k in covers if ": known:" in k]:
        knownseen.add(kx)
    # ---- report
    complete = tot["pending"] == 0 and tot["incomplete"] == 0
    print("property %s tier %s: %d entries, %d paths, %d checks decided, %d queries and %d rewritten comparisons (%d to z3, %.1f s; %d of them confirmations), build %.1f s, explore %.1f s%s" % (
        a.prop, tier, len(ents), tot["paths"], tot["asserts"], tot["queries"], tot["rewritten"], tot["z3_calls"], z3t, tot["confirmed"], t1 - t0, t2 - t1, "" if complete else " [bounded exploration not exhausted: %d pending, %d cut %s]" % (tot["pending"], tot["incomplete"], why)))
    if tot["contradicted"]:
        problems.append("%d quick decisions contradicted by z3" % tot["contradicted"])
    for p in problems:
        print("note:", p)
    if a.verbose:
        for e in ents:
            print("  ", e, per[e])
        for k in sorted(covers):
            print("   cover", k, covers[k])
        if elog.strip():
            print(elog[-2000:])
    rc = 0
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(B + "/violations", exist_ok=True)
    for x, v, text in violations:
        rp = "%s/violations/%s-%s.json" % (B, a.prop, digest(x["entry"], x["msg"], x["where"])[:10])
        with open(rp, "w") as f:
            json.dump(dict(property=a.prop, entry=x["entry"], kind=x["kind"], message=x["msg"], where=x["where"], stack=x["stack"], inputs=x["inputs"], native=text,
                           replay_cmd="build/%s %s <inputs>" % (os.path.basename(exe), x["entry"])), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("  %s: %s: %s at %s\n  inputs %s\n  native: %s" % (x["entry"], x["kind"], x["msg"], x["where"], x["inputs"][:24], text))
        if a.verbose:
            print(x["stack"])
        rc = 1
    for x, v, text in unconfirmed[:10]:
        print("note: counterexample of %s (%s: %s at %s) not reproduced natively (%s %s); not reported" % (x["entry"], x["kind"], x["msg"], x["where"], v, text.strip()[:200]))
        if a.verbose:
            print(x["inputs"], "\n", x["stack"])
    for s, v, text in disagree[:5]:
        print("note: sampled path of %s differs natively: %s %s %s" % (s[0], v, text.strip()[:200], s[1][:40]))
        if a.verbose:
            print(s[1])
    for k in sorted(knownseen):
        if k in known_ids:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known_ids[k]))
        else:
            print("note: harness drops paths of unlisted finding", k)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["instrs"],
            "traces_validated_against_impl": agree,
            "samples": [{"entry": e, "inputs": s[:40]} for e, s in samples[:3]] + [{"entry": x["entry"], "inputs": x["inputs"][:40], "result": v} for x, v, _ in violations[:3]] + [{"check": k, "times": v} for k, v in sorted(asserted.items())[:12]],
            "explanation": "states: execution paths decided symbolically, each standing for every input value that follows it; transitions: LLVM instructions executed over symbolic values",
            "entries": per, "bounds": bounds, "symbolic_inputs": symb,
            "functions_encoded": sorted(funcs), "assertions_decided": tot["asserts"], "assertions": asserted,
            "queries": tot["queries"], "queries_to_z3": tot["z3_calls"], "answered_by_known_model": tot["model_hits"], "answered_by_cache": tot["cache_hits"],
            "decided_for_one_variable": tot["bounds"], "symbolic_comparisons_decided_by_rewriting": tot["rewritten"], "of_both_confirmed_by_z3": tot["confirmed"], "contradicted_by_z3": tot["contradicted"],
            "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "solver_time_s": round(z3t, 2),
            "infeasible_paths": tot["infeasible"], "paths_not_explored": tot["pending"], "paths_cut": tot["incomplete"], "cut_reasons": why,
            "exhaustive": complete, "reachability_witnesses": covers, "unconfirmed_counterexamples": len(unconfirmed), "native_replays": replays,
            "sample_disagreements": len(disagree), "problems": problems,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open("%s/evidence/%s.json" % (V, a.prop), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    return rc

if __name__ == "__main__":
    sys.exit(main())
