"""Development aid: mutates random lines of /repo's sources in scratch copies; for each mutant that builds and passes the
stable tests, runs the checks whose analysis includes the mutated function.  campaign.py OUT.jsonl MINUTES [SEED] [WORKERS] [path substring]"""
import glob, json, os, random, re, subprocess, sys, threading, time
sys.path.insert(0, "/verif/sa")
import facts

OUT, MINUTES = sys.argv[1], float(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
W = int(sys.argv[4]) if len(sys.argv) > 4 else 5
SUB = sys.argv[5] if len(sys.argv) > 5 else ""
F = facts.load()
owners = {}
for f in glob.glob("/verif/evidence/P*.json"):
    d = json.load(open(f))
    for q in d["coverage"]["function_names"]:
        owners.setdefault(q, set()).add(d["property"])
fn_at = {}
for q, l in F.by_q.items():
    for f in l:
        fn_at.setdefault(facts.rel(f["file"]), []).append((f["line"], q))
OPS = [(r"(?<![<\->=!])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![\->=<])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bfront\(\)", "back()"),
       (r"\bback\(\)", "front()"), (r"\bs0\(\)", "s1()"), (r"\bs1\(\)", "s0()"), (r"\bkStart\b", "kFinish"), (r"\bkFinish\b", "kStart"),
       (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".z()"), (r"\bto_left\(\)", "to_right()"), (r"\bto_right\(\)", "to_left()"), (r"\bif \(!", "if ("),
       (r"\bif \((?=[a-z])", "if (!"), (r"(?<=[ (\[])0(?=[;,)\] ])", "1"), (r"(?<=[ (\[])1(?=[;,)\] ])", "2"), (r"GetASide", "GetBSide"), (r"GetBSide", "GetASide"),
       (r"\bmin\(\)", "max()"), (r"\bmax\(\)", "min()"), (r"\+\+(?=\w)", "--"), (r"\bany_of\b", "all_of"), (r"\ball_of\b", "any_of"), (r"\.s\(\)", ".r()"), (r"\.r\(\)", ".h()"),
       (r"\bnext\b", "prev"), (r"return (?=[a-z])", "return !"), (r"\bstart\b", "end"), (r"\bend\b(?!\()", "start"), (r"\blower\w*\b", None)]


def mutants(rng):
    files = [p for p in glob.glob("/repo/src/maliput/**/*.cc", recursive=True)
             if SUB in p and not re.search(r"/drake/|test_utilities|/generate_|/mesh|fresnel|/profiler", p)]
    pool = []
    for p in files:
        r = facts.rel(p)
        starts = sorted(fn_at.get(r, []))
        for n, line in enumerate(open(p).read().split("\n"), 1):
            s = line.strip()
            if not s or s.startswith(("//", "#", "*", "/*", "namespace", "template", "using", "case", "}")) or "log()" in s or "MALIPUT_THROW_MESSAGE" in s or '"' in s and "THROW" not in s:
                continue
            q = [x for x in starts if x[0] <= n]
            if not q:
                continue
            for a, b in OPS:
                if b is not None:
                    for m in re.finditer(a, line):
                        pool.append((r, n, q[-1][1], line, line[:m.start()] + b + line[m.end():]))
            if s.endswith(";") and not re.match(r"(return|const|auto|std::|throw|break|continue|double|int|bool|using|typedef|virtual|explicit)\b", s) and line.startswith("  ") and s.count("(") == s.count(")"):
                pool.append((r, n, q[-1][1], line, line[:len(line) - len(s)] + ";"))
    rng.shuffle(pool)
    # spread over the files
    by = {}
    for m in pool:
        by.setdefault(m[0], []).append(m)
    while by:
        for k in sorted(by):
            yield by[k].pop()
        by = {k: v for k, v in by.items() if v}


lock = threading.Lock()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
stop = time.time() + MINUTES * 60
gen = mutants(random.Random(SEED))
count = {"built": 0, "survived": 0, "caught": 0, "hole": 0, "uncovered": 0}


def worker(i):
    d = "/tmp/mw%d" % i
    subprocess.run("rm -rf %s && cp -a /repo %s" % (d, d), shell=True, check=True)

    def sh(cmd, t=400):
        try:
            return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        except subprocess.TimeoutExpired:
            return None
    while time.time() < stop:
        with lock:
            m = next(gen, None)
        if m is None:
            return
        path, n, q, old, new = m
        p = os.path.join(d, path)
        src = open(p).read()
        lines = src.split("\n")
        assert lines[n - 1] == old
        lines[n - 1] = new
        open(p, "w").write("\n".join(lines))
        try:
            r = sh("bash /opt/vp/build.sh")
            if r is None or r.returncode:
                continue
            r = sh("rm -f /tmp/co%d.json; timeout 120 bash /opt/vp/test.sh /tmp/co%d.json" % (i, i))
            count["built"] += 1
            try:
                ok = r is not None and not stable - set(json.load(open("/tmp/co%d.json" % i))["passed"])
            except Exception:
                ok = False
            if not ok:
                continue
            count["survived"] += 1
            res = {}
            own = sorted(owners.get(q, ()))
            for pid in own:
                e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "_ev")
                k = subprocess.run(["python3", "/verif/sa/run.py", pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                res[pid] = k.returncode
                if k.returncode == 1:
                    break
            st = "uncovered" if not own else "caught" if 1 in res.values() else "hole"
            count[st] += 1
            with lock:
                open(OUT, "a").write(json.dumps({"st": st, "at": "%s:%d" % (path, n), "fn": q, "old": old.strip(), "new": new.strip(), "res": res}) + "\n")
                print(count, flush=True)
        finally:
            open(p, "w").write(src)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
subprocess.run("rm -rf " + " ".join("/tmp/mw%d /tmp/mw%d_ev" % (i, i) for i in range(W)), shell=True)
print("done", count)
