#!/usr/bin/env python3
"""Mutation survey (a development aid, not a check): applies small syntactic changes to copies of /repo's sources,
runs the checks mapped to the file, and lists the changes no check noticed.
usage: mutate.py OUT.jsonl WORKERS MAXPERFILE [file...]   (scratch copies under /tmp/vtmut.N)"""
import sys, os, re, json, random, subprocess, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "Interthread.h": ["C01","C03","C04","C07","C02"], "Threads.h": ["C05","C06","C07","C02"], "Threads.cpp": ["C05","C06","C07","C02"],
 "LinkedLists.h": ["C09","C08","C01"], "LinkedLists.cpp": ["C09"], "MemoryLeak.h": ["C08"], "Vector.h": ["C10","C11","C14"], "BitVector.h": ["C11","C12","C13","C14","C10"],
 "BitVector.cpp": ["C11","C12","C13","C14","C10"], "Timeval.h": ["C15","C02"], "Timeval.cpp": ["C15"], "F16.h": ["C16"], "Configuration.cpp": ["C17","C18","C19","C20","C33"],
 "Configuration.h": ["C17","C18","C19","C20","C33"], "sqlite3util.cpp": ["C21","C17","C24"], "sqlite3util.h": ["C21"], "Logger.cpp": ["C22","C23"], "Logger.h": ["C22","C23"],
 "Reporting.cpp": ["C24"], "Reporting.h": ["C24"], "Utils.cpp": ["C26","C25","C32","C34"], "Utils.h": ["C26","C34","C32"], "URLEncode.cpp": ["C25"], "Sockets.cpp": ["C27"], "Sockets.h": ["C27"],
 "UnixSignal.cpp": ["C28"], "UnixSignal.h": ["C28","C29"], "SelfDetect.cpp": ["C29"], "SelfDetect.h": ["C29"], "Exit.h": ["C29"], "Regexp.h": ["C26","C19"], "ScalarTypes.h": ["C34"], "Variables.cpp": ["C34"],
}
def mutants(fn, text, rng):
    out = []; lines = text.split("\n"); skip = 0; comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if skip:
            if re.match(r"#\s*if", s): skip += 1
            elif re.match(r"#\s*endif", s): skip -= 1
            elif re.match(r"#\s*else", s) and skip == 1: skip = 0
            continue
        if re.match(r"#\s*if 0", s): skip = 1; continue
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*") and "*/" not in s: comment = True; continue
        if not s or s.startswith(("//", "*", "#", "/*", "using", "typedef", "extern", "class", "struct", "template", "friend")): continue
        code = re.split(r"//", l)[0]
        def add(new, what):
            if new != code: out.append((i, l, new + l[len(code):], what))
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        def instr(p): return any(a <= p < b for a, b in strs)
        OPS = [(r"(?<![<>=!+\-&|])<=", ["<"]), (r"(?<![<>=!\-&|])>=", [">"]), (r"(?<![<>\-=])<(?![<=])(?=\s|\w)", ["<="]), (r"(?<![<>\-=])>(?![>=])(?=\s|\d)", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
               (r"\+\+", ["--"]), (r"--", ["++"]), (r"(?<=[\w\])])\s*\+\s*(?=[\w(])", ["-"]), (r"(?<=[\w\])])\s*-\s*(?=[\w(])", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]),
               (r"(?<=\W)&(?=\w)(?<!&&)(?=0x)", ["|"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", ["N+1"]), (r"!(?=[\w(])", [""]), (r"\bbreak\b", [""]), (r"\bcontinue\b", [""])]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if instr(m.start()): continue
                for rp in reps:
                    r2 = str(int(m.group(0)) + 1) if rp == "N+1" and m.group(0).isdigit() and not m.group(0).startswith("0") else (rp if rp != "N+1" else None)
                    if r2 is None: continue
                    add(code[:m.start()] + r2 + code[m.end():], "%s->%s" % (m.group(0).strip(), r2))
        if re.match(r"^\s*[\w:.\->\[\]()*&, ]+(\(.*\)|\+\+|--|[-+|&^]?=[^=].*);\s*$", code) and not re.match(r"^\s*(return|const|static|unsigned|int|char|bool|float|double|std|string|size_t|long|struct|T|virtual|Timeval|ScopedLock lock\b)\s", code): add(re.match(r"^\s*", code).group(0) + ";", "delete statement")
        if re.match(r"^\s*ScopedLock \w+\(.*\);", code): add(re.match(r"^\s*", code).group(0), "delete lock")
    rng.shuffle(out); return out
def main():
    outp, workers, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:] or list(MAP); rng = random.Random(int(os.environ.get("MUT_SEED", "1"))); jobs = []
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            try: d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
            except ValueError: pass
    for f in files:
        t = open("/repo/" + f, encoding="latin-1").read()
        for m in mutants(f, t, rng)[:per]: jobs.append((f, m))
    rng.shuffle(jobs); q = queue.Queue(); [q.put(j) for j in jobs if (j[0], j[1][0] + 1, j[1][2].strip()) not in done]; lk = threading.Lock(); print(q.qsize(), "mutants", flush=True)
    def work(n):
        d = "/tmp/vtmut.%d" % n; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/repo"); os.makedirs(d + "/verif")
        subprocess.run("cp -a /repo/*.cpp /repo/*.h %s/repo/; cp -a %s/*.py %s/rt %s/harness %s/known-findings.txt %s/verif/" % (d, V, V, V, V, d), shell=True, check=True)
        env = dict(os.environ, VT_REPO=d + "/repo"); cnt = 0
        while True:
            try: f, (ln, old, new, what) = q.get_nowait()
            except queue.Empty: break
            p = d + "/repo/" + f; t = open("/repo/" + f, encoding="latin-1").read(); L = t.split("\n")
            if L[ln] != old: continue
            L[ln] = new; open(p, "w", encoding="latin-1").write("\n".join(L)); res = "survived"; by = ""
            for c in MAP[f]:
                try: r = subprocess.run(["python3", d + "/verif/vt.py", "check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900); o = r.stdout.decode(errors="replace"); rc = r.returncode
                except subprocess.TimeoutExpired: rc, o = 1, "timeout"
                if rc == 1: res = "caught"; by = c + " " + (re.findall(r"key=(\S+)", o) or ["?"])[0]; break
                if rc == 3: res = "nocompile" if "compile failed" in o or "link failed" in o else "error"; by = o[:300]; break
            open(p, "w", encoding="latin-1").write(t)
            with lk: open(outp, "a").write(json.dumps(dict(file=f, line=ln + 1, what=what, old=old.strip(), new=new.strip(), res=res, by=by)) + "\n")
            cnt += 1
            subprocess.run("find %s/verif/build/bin -mmin +8 -delete; find %s/verif/build/obj -amin +40 -delete; rm -rf %s/verif/replays" % (d, d, d), shell=True, stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
