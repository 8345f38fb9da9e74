"""Development aid: applies behaviour-preserving rewrites to a scratch copy, all at once, and reports every check that is not quiet.
Usage: refactor.py FILE [Pnn ...] [--build]   FILE defines R = [(path, old, new), ...]; --build also builds and tests the copy in /repo's place"""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
W = "/tmp/ref0"
os.makedirs(W, exist_ok=True)
for d in ("include", "src"):
    subprocess.check_call("rm -rf %s/%s && cp -a /repo/%s %s/%s" % (W, d, d, W, d), shell=True)
for k, (path, old, new) in enumerate(ns["R"]):
    p = os.path.join(W, path)
    s = open(p).read()
    # blank lines and comment lines between the given lines do not matter
    lines = [l for l in old.split("\n")]
    m = re.search(r"\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(l) for l in lines if l.strip()), s)
    if not m:
        print("NOMATCH", k, path, old[:60])
        continue
    lead, tail = old[:len(old) - len(old.lstrip("\n"))], old[len(old.rstrip("\n")):]
    open(p, "w").write(s[:m.start()] + new[len(lead) if new.startswith(lead) else 0:len(new) - len(tail) if tail and new.endswith(tail) else len(new)] + s[m.end():])
if "--build" in sys.argv:
    subprocess.call("cd /repo && git diff --quiet && for d in include src; do cp -a %s/$d /repo/; done; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || grep -m5 'error' /tmp/b.log; "
                    "bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log; git checkout -q -- ." % W, shell=True)
env = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W + "_evidence")
pids = [a for a in sys.argv[2:] if a[0] == "P"] or ["P%s" % f[1:3] for f in sorted(os.listdir("/verif/sa/rules")) if f[0] == "p" and f[1:3].isdigit()]
r = subprocess.run(["python3", "/verif/sa/facts.py"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print("FACTS FAILED", r.stdout[-1500:])
    sys.exit(1)


def one(pid):
    r = subprocess.run(["python3", "/verif/sa/run.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pid, r.returncode, [l for l in r.stdout.splitlines() if r.returncode or "undecided" in l.lower() or "UNDECIDED" in l]


with ThreadPoolExecutor(6) as ex:
    for pid, rc, ls in ex.map(one, pids):
        if rc or ls:
            print(pid, rc)
            for l in ls[:14]:
                print("   ", l[:330])
print("done", len(ns["R"]), "rewrites")
