#!/usr/bin/env python3
"""Decide one property: compile /repo's current sources + the contracts, translate, prove with
cbmc, replay counterexamples natively.   usage: run.py <PROPERTY-ID> [--keep] [--only ENTRY]"""
import sys, os, re, json, time, subprocess, shutil, tempfile, resource, importlib.util, concurrent.futures as cf, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
NPROC = os.cpu_count() or 4
T0 = time.time()
BUDGET = float(os.environ.get("VF_BUDGET", "780" if TIER == "quick" else "3000"))
def left(): return BUDGET - (time.time() - T0)
INC = ["-I" + HERE, "-I" + HERE + "/rt", "-I" + VERIF + "/contracts", "-I" + REPO + "/src", "-I" + REPO + "/include"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-fno-discard-value-names", "-fignore-exceptions", "-fno-access-control",
           "-fno-threadsafe-statics", "-fno-builtin", "-fno-inline", "-fno-rtti", "-U_FORTIFY_SOURCE", "-Wno-everything", "-DNDEBUG"]
PASSES = "function(sroa,early-cse,simplifycfg,dce)"
CBMC = ["--no-standard-checks", "--pointer-check", "--bounds-check", "--div-by-zero-check", "--unwinding-assertions", "--no-malloc-may-fail", "--slice-formula", "--object-bits", "12"]
def limits(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
    return f
def sh(cmd, timeout=300, mem=None, cwd=None):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=limits(mem) if mem else os.setsid, text=True, errors="replace")
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
        return -9, "TIMEOUT"

class Break(Exception): pass

class Unit:
    def __init__(self, prop, u, wd):
        self.u = u; self.wd = wd; self.prop = prop
        self.key = re.sub(r"\W", "_", u["file"]) + "_" + hashlib.md5(json.dumps(u, sort_keys=True, default=str).encode()).hexdigest()[:6]
        self.dir = os.path.join(wd, self.key); os.makedirs(self.dir, exist_ok=True)
        self.native = None; self.native_err = None
        self.config = os.path.join(wd, "cfg")
    def flags(self, src, nat=False):
        f = INC + ["-I" + self.config] + ["-D" + d for d in self.u.get("defines", [])] + self.u.get("cflags", [])
        f = ["-I" + HERE + "/stl"] * bool(self.u.get("stl")) + f
        if self.u.get("subst") and not nat: f = ["-I" + os.path.join(self.dir, "subst", os.path.dirname(x)) for x in self.u["subst"]] + ["-DVF_SUBST"] + f
        return f
    def inc_src(self, s): return s if s.startswith("/") else (os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, "contracts", s[1:]))
    def cc(self, src): return (["clang", "-std=c11"] if src.endswith(".c") else ["clang++", "-std=c++17"])
    def build_ir(self):
        srcs = [os.path.join(VERIF, "contracts", self.u["file"])] + [self.inc_src(s) for s in self.u.get("sources", [])]
        # stated constant substitutions (e.g. a smaller table size), applied mechanically to the current text
        sub = {}
        for f, rules in self.u.get("subst", {}).items():
            t = open(os.path.join(REPO, f)).read()
            for a, b in rules:
                t, k = re.subn(a, b, t)
                if k != 1: raise Break("substitution %r matches %d times in %s" % (a, k, f))
            o = os.path.join(self.dir, "subst", f); os.makedirs(os.path.dirname(o), exist_ok=True); open(o, "w").write(t); sub[os.path.join(REPO, f)] = o
        srcs = [sub.get(s, s) for s in srcs]
        bcs = []; jobs = []
        san = self.u.get("ub", [])
        for s in srcs:
            o = os.path.join(self.dir, re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".bc"); bcs.append(o)
            fl = [x for x in IRFLAGS if not (s.endswith(".c") and x in ("-fno-rtti", "-fno-threadsafe-statics", "-fno-access-control"))]
            cmd = self.cc(s) + fl + self.flags(s) + ["-DVF_PROOF"] + (["-fsanitize=" + ",".join(san), "-fsanitize-trap=all"] if san else []) + ["-emit-llvm", "-c", s, "-o", o]
            jobs.append(cmd)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for cmd, (rc, out) in zip(jobs, ex.map(lambda c: sh(c, 200), jobs)):
                if rc: raise Break("compile failed: %s\n%s" % (cmd[-3], out[-3000:]))
        l = os.path.join(self.dir, "linked.bc"); self.bc = os.path.join(self.dir, "opt.bc")
        rc, out = sh(["llvm-link"] + bcs + ["-o", l])
        if rc: raise Break("llvm-link: " + out[-2000:])
        # trivial by-reference helpers are inlined so that locals stay in registers
        rc, nm = sh(["llvm-nm", "--defined-only", l])
        inl = [x.split()[-1] for x in nm.splitlines() if re.search(r" _ZSt(3min|3max|4move|7forward|4swap)I", x)]
        fa = [y for n in inl for y in ("-force-remove-attribute=%s:noinline" % n, "-force-attribute=%s:alwaysinline" % n)]
        rc, out = sh(["opt", "-passes=forceattrs,always-inline," + PASSES] + fa + [l, "-o", self.bc])
        if rc: raise Break("opt: " + out[-2000:])
    def build_native(self):
        if self.native or self.native_err: return
        srcs = [os.path.join(VERIF, "contracts", self.u["file"]), HERE + "/vf_native.cpp"] + [self.inc_src(s) for s in self.u.get("native_sources", self.u.get("sources", []))]
        san = "address,undefined"
        jobs = []; objs = []
        for s in srcs:
            o = os.path.join(self.dir, re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o"); objs.append(o)
            c = self.cc(s) + ["-O1", "-g0", "-fno-access-control" if not s.endswith(".c") else "-g0", "-Wno-everything", "-DVF_NATIVE", "-fPIC", "-fsanitize=" + san, "-fno-sanitize=vptr,alignment,signed-integer-overflow,float-cast-overflow,shift,enum,bool,function,null,nonnull-attribute", "-fno-sanitize-recover=all"]
            if self.u.get("ub"): c.append("-fsanitize=" + ",".join(self.u["ub"]))
            f = [x for x in self.flags(s, True) if not x.endswith("/stl")]
            jobs.append(c + f + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for cmd, (rc, out) in zip(jobs, ex.map(lambda c: sh(c, 300), jobs)):
                if rc: self.native_err = "native compile failed: %s\n%s" % (cmd[-3], out[-3000:]); return
        exe = os.path.join(self.dir, "native")
        rc, out = sh(["clang++", "-fsanitize=" + san, "-rdynamic"] + objs + ["-o", exe, "-ldl", "-lpthread"] + self.u.get("libs", []))
        if rc: self.native_err = "native link failed: " + out[-3000:]; return
        self.native = exe

RES = re.compile(r"^\[(?P<id>[^\]]+)\] (?:line (?P<line>\d+) )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$")
def parse_results(out):
    r = {}
    for l in out.splitlines():
        m = RES.match(l)
        if m: r[m.group("id")] = (m.group("desc"), m.group("st"))
    return r

def model_kind(desc):
    if desc.startswith("VF-REACH"): return "reach"
    if desc.startswith("VF-UNSUPPORTED"): return "unsupported"
    if "unwinding assertion" in desc or "recursion unwinding" in desc: return "unwind"
    return "ob"

def prove(unit, c, tag=""):
    """returns dict(status=ok|fail|limit, props, ...)"""
    if c.get("kind") == "native": return dict(status="native", why="random native executions only (labelled bounded, not proved)", props={}, secs=0, info={})
    e = c["entry"]; base = os.path.join(unit.dir, e + tag)
    opts = {"loopcuts": c.get("cuts", {}) if not tag else {}, "ufp": c.get("ufp", []), "memtypes": c.get("memtypes", unit.u.get("memtypes", [])), "memwords": c.get("memwords", unit.u.get("memwords", False))}
    json.dump(opts, open(base + ".opt.json", "w"))
    rc, out = sh([sys.executable, HERE + "/ir2c.py", unit.bc, base + ".c", "contract_" + e, base + ".opt.json"], 200)
    if rc: return dict(status="limit", why="translation: " + out[-800:], props={}, secs=0, info={})
    info = json.load(open(base + ".c.json"))
    if info["cut_errors"] : return dict(status="limit", why="loop contract does not map: " + "; ".join(info["cut_errors"]), props={}, secs=0, info=info)
    rc, out = sh(["goto-cc", "--function", "F_contract_" + e, base + ".c", "-o", base + ".gb"], 200)
    if rc: return dict(status="limit", why="goto-cc: " + out[-1500:], props={}, secs=0, info=info)
    uw = c.get("unwind", 8) if not tag else c.get("bmc_unwind", c.get("unwind", 8))
    t = time.time(); tries = c.get("escalate", 2); res = None
    for k in range(tries):
        cmd = ["cbmc", base + ".gb"] + ([x for x in CBMC if x not in ("--pointer-check", "--bounds-check")] if c.get("nomem") else CBMC) + ["--unwind", str(uw)] + c.get("cbmc", [])
        if c.get("unwindset"): cmd += ["--unwindset", ",".join(c["unwindset"])]
        to = min(c.get("timeout", 300) * (3 if TIER == "thorough" else 1), max(20, left() - 60))
        rc, out = sh(cmd, to, mem=c.get("mem", 8))
        open(base + ".out", "w").write(out)
        props = parse_results(out)
        r = dict(props=props, info=info, cmd=" ".join(["cbmc", "<goto>"] + cmd[2:]), unwind=uw, base=base, cmdv=cmd)
        if rc not in (0, 10) or not props:
            r.update(status="limit", why="timeout after %ds" % to if rc == -9 and out == "TIMEOUT" else "cbmc exit %s: %s" % (rc, out[-300:])); break
        kinds = {}
        for p, (d, s) in props.items():
            if s != "SUCCESS": kinds.setdefault(model_kind(d), []).append(p)
        r["failed"] = kinds
        nreach = [p for p, (d, s) in props.items() if model_kind(d) == "reach"]
        bad_reach = [p for p in nreach if props[p][1] == "SUCCESS"]
        if kinds.get("ob"): r.update(status="fail"); break
        if kinds.get("unsupported"):
            r.update(status="limit", why="; ".join(props[p][0] for p in kinds["unsupported"][:3])); break
        if kinds.get("unwind"):
            uw = uw * 2; r.update(status="limit", why="unwinding bound %d insufficient: %s" % (r["unwind"], ", ".join(kinds["unwind"][:3]))); continue
        if not nreach or bad_reach:
            r.update(status="limit", why="vacuous: " + (", ".join(props[p][0] for p in bad_reach) or "no reachability probe")); break
        r.update(status="ok"); break
    r["secs"] = time.time() - t
    return r

def trace_inputs(r, prop):
    cmd = r["cmdv"] + ["--trace", "--property", prop]
    rc, out = sh(cmd, max(30, min(300, left() - 30)), mem=10)
    vals = []
    for m in re.finditer(r"^\s+vf_nd_log=(\d+)", out, re.M): vals.append(int(m.group(1)))
    return vals, out

def native_run(unit, args, timeout):
    if not unit.native: return -1, unit.native_err or "no native build"
    env = dict(os.environ)
    p = None
    try:
        d = tempfile.mkdtemp(dir=unit.dir)
        p = subprocess.Popen([unit.native] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, text=True, errors="replace", preexec_fn=os.setsid)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return -9, "TIMEOUT"

FAILRC = (42, 43, 44, 45)
def load_prop(pid):
    spec = importlib.util.spec_from_file_location("p", os.path.join(VERIF, "props", pid + ".py")); m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, VERIF + "/props"); spec.loader.exec_module(m); return m.PROP
def make_config(wd):
    cfgd = os.path.join(wd, "cfg", "caliper"); os.makedirs(cfgd)
    # configuration header: from the build tree when present, else a copy of this sandbox's
    gen = os.path.join(REPO, "_build/include/caliper/caliper-config.h")
    shutil.copy(gen if os.path.exists(gen) else os.path.join(HERE, "caliper-config.fallback.h"), os.path.join(cfgd, "caliper-config.h"))
def main():
    pid = sys.argv[1]; keep = "--keep" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    prop = load_prop(pid)
    wd = os.path.join(VERIF, ".work", pid)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    repdir = os.path.join(VERIF, "replays"); os.makedirs(repdir, exist_ok=True)
    make_config(wd)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
    known = [k for k in known if k["property"] == pid]
    units = [Unit(pid, u, wd) for u in prop["units"]]
    tasks = []; errors = []; skipped = []
    with cf.ThreadPoolExecutor(4) as ex:
        futs = {ex.submit(u.build_ir): u for u in units}
        for f in cf.as_completed(futs):
            try: f.result()
            except Break as e:
                # a contract on an internal function that no longer exists under that name: its callers' contracts still decide
                if futs[f].u.get("optional"): futs[f].bc = None; skipped.append((futs[f].u["file"], str(e)[:600]))
                else: errors.append("%s: %s" % (futs[f].u["file"], e))
    if errors:
        for e in errors: print("ERROR extraction: " + e)
        # extraction is broken (the contract no longer compiles against the code): no answer possible
        sys.exit(2)
    units = [u for u in units if u.bc]
    for u in units:
        for c in u.u["contracts"]:
            if c.get("tier") == "thorough" and TIER != "thorough": continue
            if only and c["entry"] not in only: continue
            tasks.append((u, c))
    nat = cf.ThreadPoolExecutor(2); natf = [nat.submit(u.build_native) for u in units if u.u.get("native", True)]
    tasks.sort(key=lambda t: -t[1].get("cost", 1))
    with cf.ThreadPoolExecutor(max(2, NPROC - 1)) as ex:
        rs = list(ex.map(lambda t: prove(*t), tasks))
    for f in natf: f.result()
    violations = []; degraded = list(skipped); knownhit = []
    def record_violation(u, c, ob, vals, detail, confirmed):
        for k in known:
            if k["contract"] == c["entry"] and re.search(k["obligation"], ob):
                knownhit.append((k, c, ob)); return
        path = os.path.join(repdir, "%s_%s.json" % (pid, c["entry"]))
        rep = {"property": pid, "contract": c["entry"], "contract_file": "contracts/" + u.u["file"], "failed_obligation": ob, "inputs": vals, "replayed_on_real_code": confirmed,
               "functions_under_contract": c.get("functions", []), "how_to_replay": "python3 vf/replay.py %s" % path, "verifier_output": detail[-6000:]}
        json.dump(rep, open(path, "w"), indent=1)
        violations.append((path, confirmed, ob, c["entry"]))
    def confirm(u, c, r, secs):
        """failing obligations: replay cbmc's counterexample on the real code, else search for an input"""
        fails = r.get("failed", {}).get("ob", [])
        det = ""
        if r.get("cmdv"):
            # failing named obligations first
            fails = sorted(fails, key=lambda p: 0 if r["props"][p][0].startswith("VF: ") else 1)
            for p in fails[:4]:
                if left() < 40: break
                vals, out = trace_inputs(r, p); det = det or (r["props"][p][0] + "\n" + out[-5000:])
                if u.native:
                    inp = os.path.join(u.dir, c["entry"] + ".in"); open(inp, "w").write("\n".join(map(str, vals)) + "\n")
                    rc, o = native_run(u, [c["entry"], "replay", inp], 40)
                    if rc in FAILRC: return (r["props"][p][0], vals, o + "\n" + out[-4000:], True)
                    det += "\nnative replay of %s: rc=%d %s" % (p, rc, o[-500:])
        s = search(u, c, secs, os.path.join(u.dir, c["entry"] + ".in"))
        if s: return s
        return ((r["props"][fails[0]][0] if fails else r.get("why", "?")), [], det, False)
    def search(u, c, secs, seedf=None):
        if not u.native or c.get("native") is False: return None
        n = max(1, min(NPROC, 6))
        outs = [os.path.join(u.dir, "%s.found%d" % (c["entry"], k)) for k in range(n)]
        with cf.ThreadPoolExecutor(n) as ex:
            rr = list(ex.map(lambda k: native_run(u, [c["entry"], "search", str(SEED * 1000 + k), str(secs), outs[k]] + ([seedf] if seedf and os.path.exists(seedf) else []), secs + 60), range(n)))
        for k, (rc, o) in enumerate(rr):
            if rc in FAILRC:
                vals = [int(x) for x in open(outs[k]).read().split("\n") if x and not x.startswith("#")] if os.path.exists(outs[k]) else []
                mm = re.search(r"NATIVE-FAIL (.*)", o); sm = re.search(r"SUMMARY: (.*)|runtime error: (.*)", o)
                return (mm.group(1) if mm else (sm.group(0) if sm else "sanitizer report"), vals, o[-3000:], True)
        return None
    for (u, c), r in zip(tasks, rs):
        r["contract"] = c; r["unit"] = u
        if r["status"] == "fail" and c.get("ufp"):
            # double arithmetic was abstracted: a failure only counts if it survives exact IEEE semantics or an input is found
            ob, vals, det, ok = confirm(u, c, r, 8)
            if ok: record_violation(u, c, ob, vals, det, ok); continue
            r2 = prove(u, dict(c, ufp=[]), "_ieee")
            if r2["status"] == "fail": record_violation(u, c, *[x for x in confirm(u, c, r2, 8)])
            elif r2["status"] != "ok": degraded.append((c["entry"], "not proved with uninterpreted arithmetic, no answer with IEEE arithmetic")); r["status"] = "limit"
            continue
        if r["status"] == "fail":
            if os.environ.get("VF_SHOW"): print("FAILED", c["entry"], [r["props"][x][0] for x in r.get("failed", {}).get("ob", [])][:8])
            if c.get("cuts") and r.get("info", {}).get("cuts"):
                # the loop contract may only be too weak for changed code: look for a real counterexample by unrolling
                cb = dict(c, entry=c.get("bmc_entry", c["entry"]))
                rb = prove(u, cb, "_bmc") if c.get("bmc_unwind") else None
                if rb is not None and rb["status"] == "fail":
                    ob, vals, det, ok = confirm(u, cb, rb, 8)
                    record_violation(u, c, ob, vals, det, ok); continue
                if rb is not None and rb["status"] == "ok" and c.get("bmc_entry"):
                    # unrolled, every obligation holds: the stated loop contract does not fit the loop as now written
                    degraded.append((c["entry"], "loop contract does not hold for this loop, but every obligation holds with bounded unrolling")); r["status"] = "limit"; continue
            ob, vals, det, ok = confirm(u, c, r, 10)
            record_violation(u, c, ob, vals, det, ok)
        elif r["status"] == "limit":
            got = None
            if r.get("info", {}).get("cut_errors") and c.get("bmc_unwind"):
                cb = dict(c, entry=c.get("bmc_entry", c["entry"]))
                rb = prove(u, cb, "_bmc")
                if rb["status"] == "fail":
                    ob, vals, det, ok = confirm(u, c, rb, 8)
                    record_violation(u, c, ob, vals, det, ok); continue
            got = search(u, c, 12)
            if got: record_violation(u, c, got[0], got[1], got[2], True)
            else: degraded.append((c["entry"], r.get("why")))
    # cross-validation of the trusted models: the same contracts, executed on the real binary
    xval = {}
    if not any(v[1] for v in violations):   # a violation without an input: the other contracts may find one
        todo = [(u, c) for u, c in tasks if u.native and c.get("native") is not False]
        secs = prop.get("native_secs", 1.5) * (4 if TIER == "thorough" else 1)
        def xv(t):
            u, c = t; o = os.path.join(u.dir, c["entry"] + ".xv")
            return native_run(u, [c["entry"], "search", str(SEED + 7), str(c.get("native_secs", max(secs, 5) if c.get("kind") == "native" else secs)), o], secs + 90)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (u, c), (rc, o) in zip(todo, ex.map(xv, todo)):
                mm = re.search(r"runs=(\d+) rejected=(\d+)", o); xval[c["entry"]] = [int(mm.group(1)), int(mm.group(2))] if mm else o[-200:]
                if rc in FAILRC:
                    f = os.path.join(u.dir, c["entry"] + ".xv")
                    vals = [int(x) for x in open(f).read().split("\n") if x and not x.startswith("#")] if os.path.exists(f) else []
                    m2 = re.search(r"NATIVE-FAIL (.*)", o); sm = re.search(r"SUMMARY: (.*)", o)
                    record_violation(u, c, m2.group(1) if m2 else (sm.group(1) if sm else o[-200:]), vals, o, True)
    for u in units:
        if u.native_err: degraded.append((u.u["file"], u.native_err[-600:]))
    # ---- evidence
    nob = ndis = bob = bdis = 0; secs = 0.0; per = []; base = set(); funcs = set()
    for r in rs:
        c = r["contract"]; obs = [(d, s) for d, s in r["props"].values() if model_kind(d) in ("ob", "unwind")]
        d = sum(1 for x in obs if x[1] == "SUCCESS"); secs += r["secs"]
        unc = bool(r.get("failed", {}).get("unsupported"))
        if c.get("kind", "proof") == "proof" and r["status"] != "limit": nob += len(obs); ndis += d
        elif c.get("kind", "proof") == "proof": nob += max(1, len(obs)); ndis += 0
        else: bob += len(obs); bdis += d if r["status"] != "limit" else 0
        if c.get("kind", "proof") == "proof": funcs.update(c.get("functions", []))
        base.update("executable libc contract: " + x[5:] if x.startswith("libc:") else "trusted model of " + x for x in r.get("info", {}).get("models", []))
        per.append({"contract": c["entry"], "functions": c.get("functions", []), "kind": c.get("kind", "proof"), "bound": c.get("bound", "not a proof: executed on random inputs on the real code" if c.get("kind") == "native" else "none: all inputs, loops unrolled to completion (unwinding assertions discharged) or cut by an inductive invariant"),
                    "status": r["status"], "why": r.get("why", ""), "obligations": len(obs), "discharged": d, "solver_seconds": round(r["secs"], 2), "unwind": r.get("unwind"),
                    "translated_functions": len(r.get("info", {}).get("translated", [])), "loop_contracts": r.get("info", {}).get("cuts", [])})
    level = "proof" if any(c.get("kind", "proof") == "proof" for u in prop["units"] for c in u["contracts"]) else "other"
    tb = ["clang 18 front end (-O1 -disable-llvm-passes; then sroa,early-cse,simplifycfg)", "vf/ir2c.py IR-to-C translation", "cbmc 6.11 symbolic execution + SAT back end (MiniSat2)"] + sorted(base)
    checker = (rs[0].get("cmd") if rs else "") or "cbmc"
    cov = {"obligations": nob, "discharged": ndis, "checker_cmd": "vf/run.py %s -> per contract: %s" % (pid, checker), "trusted_base": tb,
           "bounded_obligations_not_counted_as_proved": bob, "bounded_obligations_passed": bdis, "functions_under_contract": sorted(funcs), "contracts": per,
           "backend": "cbmc 6.11 (SAT)", "solver_seconds": round(secs, 2), "degraded_this_run": [list(map(str, x)) for x in degraded],
           "native_crossvalidation_runs": xval,
           "explanation": prop.get("explanation", "contracts on the real functions; obligations of kind bounded are discharged by cbmc within the stated bound, contracts of kind native are executed on random inputs; only obligations of kind proof count as proved")}
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": prop.get("assumptions", []) , "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for r in rs:
        print("%-44s %-6s %-8s ob=%d ok=%d %.1fs %s" % (r["contract"]["entry"], r["status"], r["contract"].get("kind", "proof"), len(r["props"]), sum(1 for d, s in r["props"].values() if s == "SUCCESS"), r["secs"], (r.get("why") or "")[:300]))
    for d in degraded: print("DEGRADED (bounded native search only, not proved): %s: %s" % d)
    for k, c, ob in {(k["id"]): (k, c, ob) for k, c, ob in knownhit}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not keep: shutil.rmtree(wd, ignore_errors=True)
    if violations:
        for path, ok, ob, en in violations: print("violated obligation in %s: %s" % (en, ob))
        # an obligation with a replayed input outranks one without
        violations.sort(key=lambda v: not v[1])
        path, ok, ob, en = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, os.path.relpath(path, VERIF), "" if ok else " no-failing-input-found"))
        sys.exit(1)
    print("property %s: held; obligations %d/%d proved, %d/%d bounded, %.1fs wall" % (pid, ndis, nob, bdis, bob, time.time() - T0))
    sys.exit(0)
if __name__ == "__main__": main()
