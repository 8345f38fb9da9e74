"""Builds planted bugs: seed.py SPEC.py [ID...].  SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo,
needs, breaks)].  A bug is written to seeded/<id> only when, in a scratch copy, it builds, the stable tests pass, and the demo
passes without and fails with it.  Prints which of the given checks report it."""
import json, os, runpy, shutil, subprocess, sys, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/srepo"


def sh(cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (S, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    if not os.path.isdir(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"], check=True)
    reset()
    subprocess.run(["git", "-C", S, "checkout", "-q", head], check=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in bugs:
        if want and b["id"] not in want:
            continue
        reset()
        tmp = "/tmp/seed_" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.cc", "w").write(textwrap.dedent(b["demo"]).lstrip())
        shutil.copy(V + "/tools/demo.sh", tmp + "/demo.sh")
        files = ["demo.cc", "demo.sh"]
        if "roads.h" in b["demo"]:
            shutil.copy(V + "/tools/roads.h", tmp + "/roads.h")
            files.append("roads.h")
        r = sh("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % tmp)
        if r.returncode != 0:
            print("%-34s demo fails on the clean tree (%d)\n%s" % (b["id"], r.returncode, r.stdout[-1500:]))
            continue
        bad = False
        for f, old, new in b["edits"]:
            t = open(S + "/" + f).read()
            if t.count(old) != 1:
                print("%-34s %s: %d matches of %r" % (b["id"], f, t.count(old), old[:60]))
                bad = True
                break
            open(S + "/" + f, "w").write(t.replace(old, new))
        if bad:
            continue
        diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
        r = sh("bash /opt/vp/test.sh %s/out.json" % tmp)
        passed = set(json.load(open(tmp + "/out.json"))["passed"])
        if stable - passed:
            print("%-34s tests fail: %s" % (b["id"], sorted(stable - passed)[:3] or r.stdout[-600:]))
            if not passed:
                print(r.stdout[-1500:])
            continue
        r = sh("bash %s/demo.sh" % tmp)
        if r.returncode in (0, 2, 127):
            print("%-34s demo exits %d with the bug\n%s" % (b["id"], r.returncode, r.stdout[-800:]))
            continue
        d = "%s/seeded/%s" % (V, b["id"])
        os.makedirs(d, exist_ok=True)
        for n in files:
            shutil.copy(tmp + "/" + n, d + "/" + n)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        out = []
        for c in [b["property"]] + b.get("also", []):
            k = sh("VERIF_EVIDENCE=/tmp/sev python3 %s/sa/run.py %s" % (V, c))
            out.append("%s=%d %s" % (c, k.returncode, (k.stdout.splitlines() or [""])[0][:110]))
        print("%-34s ok, %s" % (b["id"], "; ".join(out)))
        shutil.rmtree(tmp)
    reset()


main()
