"""Development aid: applies one-line source mutations to scratch copies and reports which checks notice.
Usage: mut.py FILE [JOBS]   where FILE is a python file defining M = [(path, old, new, "P01 P02"), ...]; "-P01" expects quiet"""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue


def sync(w):
    os.makedirs(w, exist_ok=True)
    for d in ("include", "src"):
        subprocess.check_call("rm -rf %s/%s && cp -a /repo/%s %s/%s" % (w, d, d, w, d), shell=True)


def one(dirs, m):
    path, old, new, pids = m
    w = dirs.get()
    try:
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + "_evidence")
        p = os.path.join(w, path)
        s = open(p).read()
        if s.count(old) < 1:
            return "NOMATCH %s %s <<<" % (path, old[:60]), 1
        open(p, "w").write(s.replace(old, new, 1))
        res, miss = [], 0
        for pid in pids.split():
            quiet = pid.startswith("-")
            pid = pid.lstrip("-")
            r = subprocess.run(["python3", "/verif/sa/run.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = (r.returncode == 0) if quiet else (r.returncode == 1)
            miss += not ok
            first = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            res.append("%s:%s%s" % (pid, r.returncode, "" if ok else " <<<< " + r.stdout[-300:].replace("\n", " | ")))
            if first and ok:
                res.append(first[0].strip()[:80])
        open(p, "w").write(s)
        return "%s | %s -> %s | %s" % (path.rpartition("/")[2], old[:50].replace("\n", " "), new[:50].replace("\n", " "), "; ".join(res)), miss
    finally:
        dirs.put(w)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 5
    dirs = queue.Queue()
    for k in range(jobs):
        sync("/tmp/mut%d" % k)
        dirs.put("/tmp/mut%d" % k)
    total = 0
    with ThreadPoolExecutor(jobs) as ex:
        for line, miss in ex.map(lambda m: one(dirs, m), ns["M"]):
            print(line, flush=True)
            total += miss
    print("missed/false:", total)


main()
