"""Fact base: runs the clang based extractor over /repo's current sources and merges the result.

Nothing of /repo is executed.  A per translation unit cache under /verif/build/facts is keyed by the content of every
source and header under /repo/src and /repo/include, of the synthetic unit, and of the extractor, so a stale entry cannot
be used for changed sources.
"""
import concurrent.futures
import glob
import hashlib
import os
import pickle
import subprocess
import sys

try:
    import orjson as _json
except ImportError:  # pragma: no cover
    import json as _json

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FLAGS = ["-std=c++17", "-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", "/usr/include/eigen3",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, unparsable source): exit 2, neither pass nor violation."""


def sources(drake=False):
    out = []
    for root, _, files in os.walk(REPO + "/src"):
        for f in files:
            if f.endswith(".cc"):
                p = os.path.join(root, f)
                if not drake and "/drake/" in p:
                    continue
                out.append(p)
    out.sort()
    return out


def synthetic():
    return sorted(glob.glob(VERIF + "/synth/*.cc"))


def _content_hash():
    h = hashlib.sha256()
    for base in (REPO + "/include", REPO + "/src", VERIF + "/synth"):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            if "/drake/" in root + "/" and base != REPO + "/src" and base != REPO + "/include":
                continue
            for f in sorted(files):
                if f.endswith((".h", ".cc")) and "/drake/" not in root + "/":
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    with open(VERIF + "/extractor/extract.cc", "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def _sha(path, memo):
    if path not in memo:
        try:
            with open(path, "rb") as fh:
                memo[path] = hashlib.sha256(fh.read()).hexdigest()
        except OSError:
            memo[path] = "missing"
    return memo[path]


def _extractor_hash():
    with open(VERIF + "/extractor/extract.cc", "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _reusable(base, memo):
    try:
        with open(base + ".deps") as fh:
            deps = [l.rstrip("\n").split(" ", 1) for l in fh]
    except OSError:
        return False
    return os.path.exists(base + ".json") and bool(deps) and all(_sha(p, memo) == h for h, p in deps)


def _extract(src, out):
    cmd = [BUILD + "/extract", out + ".tmp", REPO + "/include," + REPO + "/src," + VERIF + "/synth", src, "--"] + FLAGS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out + ".tmp"):
        return src, r.stdout[-4000:] or "extractor failed"
    os.replace(out + ".tmp", out)
    return src, None


class Facts:
    def __init__(self):
        self.fns = {}        # usr -> fn
        self.by_q = {}       # qualified name -> [fn]
        self.classes = {}    # qualified name -> class
        self.cls_usr = {}
        self.enums = {}      # qualified name -> enum
        self.vars = {}       # qualified name -> var
        self.units = []
        self.files = set()
        self.overriders = {}  # usr of base method -> [usr]
        self.decls = {}       # usr of method -> (class, method decl)
        self.derived = {}     # class q -> [class q]

    def fn(self, q, nparams=None, ptypes=None, allow_missing=False):
        """The unique defined function with qualified name q (optionally selected by parameter count / type texts)."""
        c = [f for f in self.by_q.get(q, []) if not f["dep"]]
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if ptypes is not None:
            c = [f for f in c if len(f["params"]) == len(ptypes) and
                 all(t in p["t"] for t, p in zip(ptypes, f["params"]))]
        if len(c) == 1:
            return c[0]
        if not c and allow_missing:
            return None
        raise AnalysisError("anchor %s (%s): %d definitions found" % (q, nparams if ptypes is None else ptypes, len(c)))

    def fns_of(self, q):
        return [f for f in self.by_q.get(q, []) if not f["dep"]]

    def cls(self, q):
        if q not in self.classes:
            raise AnalysisError("class %s not found" % q)
        return self.classes[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisError("enum %s not found" % q)
        return self.enums[q]

    def bases_of(self, q, acc=None):
        """All base class names of q, nearest first (q excluded)."""
        acc = [] if acc is None else acc
        c = self.classes.get(q)
        if c:
            for b in c["bases"]:
                bq = b.get("q")
                if bq and bq not in acc:
                    acc.append(bq)
                    self.bases_of(bq, acc)
        return acc

    def derived_of(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def override(self, cls_q, usr):
        """Final override, for an object of class cls_q, of the virtual method usr (or None when pure / not found)."""
        for k in [cls_q] + self.bases_of(cls_q):
            c = self.classes.get(k)
            if not c:
                continue
            for m in c["methods"]:
                if m["c"] == usr or self._overrides(m["c"], usr):
                    return m["c"]
        return None

    def _overrides(self, m, usr, depth=0):
        if depth > 8:
            return False
        for o in self.decls.get(m, (None, {"ov": []}))[1]["ov"]:
            if o == usr or self._overrides(o, usr, depth + 1):
                return True
        return False

    def method_decl(self, q):
        """Declared methods (USRs) named q."""
        cq, _, n = q.rpartition("::")
        c = self.classes.get(cq)
        return [m for m in c["methods"] if m["n"] == n] if c else []


def _merge(units):
    F = Facts()
    for src, u in units:
        F.units.append(src)
        F.files.update(u["files"])
        tu = len(F.units)
        for f in u["fns"]:
            f["tu"] = tu
            key = f["c"] + ("#d" if f["dep"] else "")
            if not f["lnk"]:
                key += "#" + src
            f["key"] = key
            if key in F.fns:
                continue
            F.fns[key] = f
            F.by_q.setdefault(f["q"], []).append(f)
        for c in u["classes"]:
            key = c["c"]
            if key in F.cls_usr:
                continue
            F.cls_usr[key] = c
            c["tu"] = tu
            old = F.classes.get(c["q"])
            if old is None or (old["dep"] and not c["dep"]):
                F.classes[c["q"]] = c
            for m in c["methods"]:
                F.decls.setdefault(m["c"], (c, m))
        for e in u["enums"]:
            F.enums.setdefault(e["q"], e)
        for v in u["vars"]:
            v["tu"] = tu
            F.vars.setdefault(v["q"], v)
    for c in F.cls_usr.values():
        for m in c["methods"]:
            for o in m["ov"]:
                F.overriders.setdefault(o, []).append(m["c"])
        for b in c["bases"]:
            if b.get("q"):
                l = F.derived.setdefault(b["q"], [])
                if c["q"] not in l:
                    l.append(c["q"])
    return F


def load(jobs=None):
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", VERIF + "/extractor/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor does not build:\n" + r.stdout[-3000:])
    key = _content_hash()
    d = os.path.join(BUILD, "facts", key)
    os.makedirs(d, exist_ok=True)
    pk = os.path.join(d, "merged.pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as fh:
                return pickle.load(fh)
        except Exception:
            pass
    srcs = sources() + synthetic()
    if len(srcs) < 60:
        raise AnalysisError("only %d translation units found under %s/src" % (len(srcs), REPO))
    todo = []
    outs = {}
    tud = os.path.join(BUILD, "facts", "tu")
    os.makedirs(tud, exist_ok=True)
    memo = {}
    for s in srcs:
        # A unit is reused only when the unit and every repository header it read are byte for byte the same.
        base = os.path.join(tud, hashlib.sha256((_extractor_hash() + REPO + "|" + s).encode()).hexdigest()[:20])
        outs[s] = base + ".json"
        if not _reusable(base, memo):
            todo.append(s)
    errs = []
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        for s, e in ex.map(lambda s: _extract(s, outs[s]), todo):
            if e:
                errs.append((s, e))
    if errs:
        raise AnalysisError("%d units do not parse, first: %s: %s" % (len(errs), errs[0][0], errs[0][1]))
    units = []
    for s in srcs:
        with open(outs[s], "rb") as fh:
            u = _json.loads(fh.read())
        if u["errors"]:
            os.remove(outs[s])
            raise AnalysisError("unit %s has parse errors" % s)
        units.append((s, u))
        if s in todo:
            with open(outs[s][:-5] + ".deps", "w") as fh:
                for f in sorted(set(u["files"]) | {s}):
                    fh.write("%s %s\n" % (_sha(f, memo), f))
    F = _merge(units)
    F.key = key
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as fh:
        pickle.dump(F, fh, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, pk)
    # Keep only the most recent fact bases (development convenience; a fresh copy has one).
    import time
    base = os.path.join(BUILD, "facts")
    try:
        ks = sorted((os.path.getmtime(os.path.join(base, k)), k) for k in os.listdir(base) if k != "tu")
        for when, k in ks[:-8]:
            if time.time() - when < 1800:
                continue  # possibly in use by another run
            for f in glob.glob(os.path.join(base, k, "*")):
                os.remove(f)
            os.rmdir(os.path.join(base, k))
    except OSError:
        pass  # another run cleans up at the same time
    return F


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path


if __name__ == "__main__":
    import time
    t = time.time()
    F = load()
    print(len(F.units), "units", len(F.fns), "fns", len(F.classes), "classes", "%.1fs" % (time.time() - t))
