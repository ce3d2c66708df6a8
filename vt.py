#!/usr/bin/env python3
"""Runner: builds /repo's working tree with instrumentation, runs monitored workloads, decides.

usage: vt.py check PROP [--tier quick|thorough] | vt.py setup | vt.py list | vt.py replay FILE
"""
import sys, os, json, hashlib, subprocess, glob, time, re, shutil, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = max(2, min(8, os.cpu_count() or 4))
sys.path.insert(0, VERIF)
from checks import CHECKS, BINS
from props import P

VARIANTS = {
    # -fno-sanitize=shift-base: left shift of a negative value is defined in C++20 and pervasive here.
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=shift-base,nonnull-attribute,vptr"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
    "vg": ["-O1"],      # run under valgrind memcheck, for values used uninitialised
}
BASE = ["-std=gnu++17", "-g", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-include", "unistd.h"]

class CheckError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def compile_obj(src, flags, hdrkey, log):
    key = sha(rd(src), src, " ".join(flags), hdrkey)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (src, r.stdout.decode(errors="replace")[:1500]))
        os.rename(tmp, obj)
    return obj

_hdr = None
def hdrkey():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + "/**/*.h", recursive=True)) + sorted(glob.glob(VERIF + "/rt/*.h")) \
            + sorted(glob.glob(VERIF + "/harness/*.h")) + sorted(glob.glob(VERIF + "/harness/stub/**/*.h", recursive=True))
        fs = [f for f in fs if "/_build/" not in f]
        _hdr = sha(*[x for f in fs for x in (f, rd(f))])
    return _hdr

SPECIAL = {"Sockets.cpp", "UnixSignal.cpp"}   # not part of the stock library build
def lib_sources(extra=()):
    return [f for f in sorted(glob.glob(REPO + "/*.cpp")) if not f.endswith("Test.cpp")
            and (os.path.basename(f) not in SPECIAL or os.path.basename(f) in extra)]

def build(jobs):
    """jobs: set of (bin, variant). Returns {(bin,variant): path}."""
    for d in ("obj", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    tasks = {}
    with ThreadPoolExecutor(NPROC) as ex:
        def sub(src, flags):
            k = (src, tuple(flags))
            if k not in tasks:
                tasks[k] = ex.submit(compile_obj, src, flags, hdrkey(), None)
            return tasks[k]
        plan = {}
        for (b, v) in sorted(jobs):
            spec = BINS[b]
            san = BASE + VARIANTS[v]
            nosan = BASE + ["-O1"]
            inc = ["-I" + VERIF + "/harness/stub", "-I" + REPO, "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"]
            # harness first: the slowest compile starts first
            own = [sub(os.path.join(VERIF, s), san + inc + spec.get("flags", [])) for s in spec["src"]]
            own.append(sub(VERIF + "/rt/rt.cpp", san + inc))
            own.append(sub(VERIF + "/rt/interpose.cpp", nosan + inc))
            lib = [sub(s, san + inc + spec.get("libflags", [])) for s in lib_sources(spec.get("extra_lib", []))]
            plan[(b, v)] = (own, lib, spec)
        out = {}
        def link(item):
            (b, v), (own, lib, spec) = item
            o = [t.result() for t in own]; l = [t.result() for t in lib]
            key = sha(*o, *l, v, *spec.get("link", []))
            path = os.path.join(BUILD, "bin", "%s-%s-%s" % (b, v, key))
            if not os.path.exists(path):
                tmp = path + ".%d.tmp" % os.getpid()
                ar = tmp + ".a"
                subprocess.run(["ar", "rcs", ar, *l], check=True)
                san = [f for f in VARIANTS[v] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
                r = subprocess.run(["g++", *san, "-o", tmp, *o, ar, *spec.get("link", []), "-lsqlite3", "-lpthread", "-ldl", "-rdynamic"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                os.unlink(ar)
                if r.returncode:
                    raise CheckError("link failed: %s\n%s" % (b, r.stdout.decode(errors="replace")[:1500]))
                os.rename(tmp, path)
            return (b, v), path
        for k, p in map(link, plan.items()):
            out[k] = p
    return out

# ------------------------------------------------------------------ crash classification
FRAME = re.compile(r"#\d+\s+(?:0x[0-9a-f]+\s+(?:in\s+)?)?(.+?)\s+(/[^\s:()]+):(\d+)")
def frames(text):
    return [(m.group(1), m.group(2), int(m.group(3))) for m in FRAME.finditer(text)]
def short(fn):
    fn = re.sub(r"\(.*", "", fn); fn = re.sub(r"<.*>", "<>", fn)
    return fn.strip()
def repo_frame(text):
    for fn, path, line in frames(text):
        if path.startswith(REPO + "/"):
            return "%s@%s" % (short(fn), os.path.basename(path))
    return None

def classify(stderr, rc):
    """-> (kind, where, excerpt) of an abnormal end."""
    t = stderr
    m = re.search(r"([^\s:]+):(\d+):\d+: runtime error: (.*)", t)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+(e[+-]?\d+)?)?", "N", m.group(3))[:80]
        w = repo_frame(t[m.start():]) or os.path.basename(m.group(1))
        return "ubsan:" + msg, w, t[m.start():m.start()+2500]
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", t)
    if m:
        return "asan:" + m.group(1), repo_frame(t[m.start():]) or "?", t[m.start():m.start()+3500]
    m = re.search(r"ERROR: LeakSanitizer", t)
    if m:
        return "leak", repo_frame(t[m.start():]) or "?", t[m.start():m.start()+2500]
    m = re.search(r"([\w./+-]+):(\d+): (.*): Assertion `(.*)' failed", t)
    if m:
        return "assert", os.path.basename(m.group(1)) + ":" + m.group(4)[:60], m.group(0)
    m = re.search(r"terminate called.*(\n.*what.*)?", t)
    if m:
        return "terminate", m.group(0).replace("\n", " ")[:100], m.group(0)
    return "died", "rc=%s" % rc, t[-1500:]

def split_tsan(text):
    out = []
    for blk in re.split(r"={18}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", blk)
        if not m: continue
        kind = m.group(1).strip()
        # one stack per paragraph
        stacks = [p for p in blk.split("\n\n")]
        tops = []
        for s in stacks:
            if re.search(r"(Write|Read|write|read|Atomic|Mutex|destroy).*\n", s) and "#0" in s and "created" not in s.split("\n")[0] and "allocated" not in s.split("\n")[0]:
                rf = repo_frame(s)
                tops.append(rf or "-")
        tops = tops[:2]
        out.append((kind, tops, blk[:3500]))
    return out

VG_KINDS = re.compile(r"Conditional jump|Use of uninitialised|Invalid (read|write|free)|Mismatched free|Source and destination overlap|Syscall param|Jump to the invalid")
def split_valgrind(text):
    """-> [(kind, repo frame, block)] for reports that involve the repository's code before any other library's caller."""
    out = []
    text = re.sub(r"(?m)^==\d+== ?", "", text)
    for blk in re.split(r"\n\s*\n", text):
        m = VG_KINDS.search(blk)
        if not m: continue
        head = blk[m.start():].split("\n")[0].strip()
        stack = blk[m.start():].split("Uninitialised value was created")[0].split(" Address 0x")[0]
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((?:in )?([^():]+)(?::(\d+))?\)\s*$", stack, re.M)
        if not any(p.startswith(REPO + "/") for _, p, _ in fr): continue
        fn, p = next((f, p) for f, p, _ in fr if p.startswith(REPO + "/"))
        if head.startswith("Syscall param") and any("sqlite" in p for _, p, _ in fr): continue
        out.append((re.sub(r"0x[0-9A-Fa-f]+|\d+", "N", head)[:60], "%s@%s" % (short(fn), os.path.basename(p)), blk[:3500]))
    return out

# ------------------------------------------------------------------ running
class Result:
    def __init__(self):
        self.viol = {}      # key -> dict
        self.cases = 0; self.cover = set(); self.counters = {}; self.samples = []; self.inconclusive = []
        self.lock = threading.Lock(); self.crashes = 0
        self.t0 = self.first_viol = None; self.limit = None; self.known = set(); self.cut = False

    # A check answers in time: it stops 2 minutes after the first violation, and at its limit of time (the workload is cut short, said in the evidence).
    def stop(self):
        now = time.monotonic()
        if self.first_viol and now - self.first_viol > 120: return True
        if self.limit and now > self.limit: self.cut = True; return True
        return False

    def add_viol(self, key, info):
        with self.lock:
            self.viol.setdefault(key, info)
            if key not in self.known and not self.first_viol: self.first_viol = time.monotonic()

def last_case(shm):
    try:
        d = rd(shm)
        n = int.from_bytes(d[0:8], "little"); note = d[80:80+1024].split(b"\0")[0].decode(errors="replace")
        return n, note
    except Exception:
        return None, ""

def run_proc(path, scen, seed, first, count, tier, variant, scratch, timeout, env_extra=None, stop=None):
    tag = "%s-%d-%d-%d" % (scen, first, os.getpid(), threading.get_ident())
    d = os.path.join(scratch, tag + "-%d" % time.monotonic_ns()); os.makedirs(d, exist_ok=True)
    out, shm, err = d + "/out.jsonl", d + "/shm", d + "/stderr"
    work = d + "/work"; os.makedirs(work)
    cmd = [path, "--scenario", scen, "--seed", str(seed), "--first", str(first), "--count", str(count), "--out", out, "--shm", shm, "--dir", work]
    if tier == "thorough": cmd.append("--thorough")
    env = dict(os.environ)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:malloc_context_size=12"
    env["TSAN_OPTIONS"] = "halt_on_error=0:report_signal_unsafe=0:history_size=4:exitcode=0:second_deadlock_stack=1:detect_deadlocks=0:suppressions=" + VERIF + "/rt/tsan.supp"
    env["TZ"] = "UTC"
    if env_extra: env.update(env_extra)
    if variant == "vg":
        env["VT_SLOW"] = "1"
        cmd = ["valgrind", "-q", "--error-limit=no", "--leak-check=no", "--fullpath-after=", "--num-callers=24", "--fair-sched=yes", "--read-var-info=no"] + cmd
    with open(err, "wb") as ef:
        for attempt in range(2):
            c = cmd if attempt == 0 else ["setarch", "-R"] + cmd
            p = subprocess.Popen(c, cwd=work, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True)
            rc = None; give_up = time.monotonic() + timeout
            while rc is None:
                try: rc = p.wait(0.5)
                except subprocess.TimeoutExpired:
                    if time.monotonic() > give_up: rc = "timeout"
                    elif stop and stop(): rc = "stopped"
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            if rc in ("timeout", "stopped"): p.wait()
            if not (rc not in (0, "timeout", "stopped") and b"unexpected memory mapping" in rd(err)): break
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try: recs.append(json.loads(line))
            except ValueError: pass
    stderr = rd(err)[-400000:].decode(errors="replace")
    case, note = last_case(shm)
    shutil.rmtree(d, ignore_errors=True)
    return rc, recs, stderr, case, note

def shard(res, run, path, seed, first, count, tier, scratch):
    scen, variant = run["scenario"], run.get("variant", "asan")
    end = first + count; k = first; crashes = 0
    timeout = run.get("timeout", 700)
    only_san = run.get("only_sanitizer", False)
    def take(recs):
        for r in recs:
            if r["t"] == "viol" and not only_san:
                res.add_viol(r["key"], dict(scenario=r["scenario"], case=r["case"], detail=r["detail"], bin=run["bin"], variant=variant, seed=seed, tier=tier))
            elif r["t"] == "done":
                with res.lock:
                    res.cases += r["cases"]; res.cover.update((scen + h) for h in r["cover"]) 
                    for n, v in r["counters"].items(): res.counters[n] = res.counters.get(n, 0) + v
                    if len(res.samples) < 12: res.samples += r["samples"][:2]
    while k < end and not res.stop():
        rc, recs, stderr, case, note = run_proc(path, scen, seed, k, end - k, tier, variant, scratch, timeout, run.get("env"), res.stop)
        take(recs)
        if variant == "tsan":
            for kind, tops, blk in split_tsan(stderr):
                if all(t == "-" for t in tops): continue
                res.add_viol("tsan:%s:%s" % (kind, "|".join(sorted(set(tops)))), dict(scenario=scen, case=case, detail=blk, bin=run["bin"], variant=variant, seed=seed, tier=tier))
        if variant == "vg":
            for kind, top, blk in split_valgrind(stderr):
                res.add_viol("memcheck:%s:%s" % (kind, top), dict(scenario=scen, case=case, detail=blk, bin=run["bin"], variant=variant, seed=seed, tier=tier))
        why = [r.get("why") for r in recs if r["t"] == "done"]
        if rc == 0 and "complete" in why:
            return
        if rc == "stopped":
            with res.lock:
                if not why: res.cases += max(0, (case or k) - k)
            return
        if rc == 95:
            raise CheckError("harness error in %s: %s" % (scen, stderr[-1500:]))
        if case is None: case = k
        if rc == 96 and "abandoned" in why:      # stuck threads, already reported by the scenario
            crashes += 1
        elif rc in (97, "timeout"):
            again = 0
            for _ in range(2):
                rc2, recs2, _, _, _ = run_proc(path, scen, seed, case, 1, tier, variant, scratch, timeout, run.get("env"), res.stop)
                take([r for r in recs2 if r["t"] == "viol"])
                if rc2 in (97, "timeout"): again += 1; break
            if again:
                if not only_san:
                    res.add_viol("hang:" + scen, dict(scenario=scen, case=case, detail="case does not finish (reproduced); note=" + note, bin=run["bin"], variant=variant, seed=seed, tier=tier))
            else:
                with res.lock: res.inconclusive.append("%s case %s did not finish once, not reproduced" % (scen, case))
            crashes += 1
        else:
            kind, where, ex = classify(stderr, rc)
            if only_san and kind.split(":")[0] not in ("asan", "ubsan", "leak"):
                pass
            else:
                res.add_viol("%s:%s:%s" % (kind, where, scen), dict(scenario=scen, case=case, detail="note=%s\n%s" % (note, ex), bin=run["bin"], variant=variant, seed=seed, tier=tier))
            crashes += 1
        with res.lock:
            res.crashes += 1
            if not why: res.cases += max(0, case - k) + 1
        k = case + 1
        if crashes >= 3: return

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def check(prop, tier, seed, verbose=False):
    t0 = time.time()
    spec = CHECKS[prop]
    runs = [dict(r) for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    for r in runs:
        r["n"] = r["quick"] if tier == "quick" else r.get("thorough", r["quick"] * 20)
    bins = build({(r["bin"], r.get("variant", "asan")) for r in runs})
    res = Result(); res.known = {f[0] for f in known_findings(prop)}
    if tier == "quick": res.limit = time.monotonic() + max(300, 800 - (time.time() - t0))
    scratch = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir="/tmp")
    os.chmod(scratch, 0o777)
    try:
        jobs = []
        for r in runs:
            sh = min(r.get("shards", NPROC), max(1, r["n"]))
            per = (r["n"] + sh - 1) // sh; first = 0
            while first < r["n"]:
                jobs.append((r, first, min(per, r["n"] - first), r.get("weight", 1))); first += per
        par = spec.get("parallel", NPROC)
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(shard, res, r, bins[(r["bin"], r.get("variant", "asan"))], seed, first, n, tier, scratch) for r, first, n, _ in jobs]
            for f in fs: f.result()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kf = known_findings(prop)
    viols = []; seen = set()
    for key, info in sorted(res.viol.items()):
        hit = [f for f in kf if f[0] == key]
        if hit:
            if key not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
            seen.add(key)
        else:
            viols.append((key, info))
    for need in spec.get("must_observe", []):
        if not res.counters.get(need) and not viols and not res.cut:
            raise CheckError("%s: nothing observed for counter %s: %s" % (prop, need, res.counters))
    if res.cases == 0 and not viols:
        raise CheckError("no case ran")
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=P[prop]["level"],
              coverage=dict(evaluations=res.cases, distinct_nontrivial=len(res.cover), rule=P[prop]["rule"], samples=res.samples[:8],
                            counters=res.counters, scenarios={"%s/%s" % (r["scenario"], r.get("variant", "asan")): r["n"] for r in runs},
                            inconclusive=res.inconclusive, cut_short=res.cut, known_findings_seen=sorted(seen)),
              assumptions=P[prop]["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, (key, info) in enumerate(viols):
            rp = VERIF + "/replays/%s-%d.json" % (prop, i)
            with open(rp, "w") as f: json.dump(dict(property=prop, key=key, **info), f, indent=1)
            if i < 8:
                print("  key=%s scenario=%s case=%s\n    %s" % (key, info["scenario"], info["case"], info["detail"][:1200 if verbose else 400].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, VERIF + "/replays/%s-0.json" % prop))
        return 1
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs %s" % (prop, tier, seed, res.cases, len(res.cover), time.time() - t0,
          ("inconclusive=%d" % len(res.inconclusive)) if res.inconclusive else ""))
    return 0

def replay(path):
    info = json.load(open(path))
    bins = build({(info["bin"], info["variant"])})
    scratch = tempfile.mkdtemp(prefix="vt-replay-")
    try:
        rc, recs, stderr, case, note = run_proc(bins[(info["bin"], info["variant"])], info["scenario"], info["seed"], info["case"], 1, info["tier"], info["variant"], scratch, 600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for r in recs:
        if r["t"] != "done": print(json.dumps(r, indent=1))
    print("rc=%s\n%s" % (rc, stderr[-6000:]))
    return 0 if rc == 0 and not any(r["t"] == "viol" for r in recs) else 1

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a: i = a.index("--tier"); tier = a[i+1]; del a[i:i+2]
    if "--seed" in a: i = a.index("--seed"); seed = int(a[i+1]); del a[i:i+2]
    verbose = "-v" in a
    if verbose: a.remove("-v")
    try:
        if a[0] == "check": sys.exit(check(a[1], tier, seed, verbose))
        if a[0] == "setup":
            build({(r["bin"], r.get("variant", "asan")) for c in CHECKS.values() for r in c["runs"]}); print("built"); sys.exit(0)
        if a[0] == "list": print("\n".join(sorted(CHECKS))); sys.exit(0)
        if a[0] == "replay": sys.exit(replay(a[1]))
    except CheckError as e:
        print("CHECK-ERROR: %s" % e); sys.exit(3)
    sys.exit(2)

if __name__ == "__main__":
    main()
