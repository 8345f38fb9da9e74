"""P34: the public functions of an interface hand on to its virtual ones."""
import json
import re

from rules.common import *

FLOOR = 70
EXPLANATION = ("Every class with non-public virtual functions named do_X / DoX is found in the class table; every public non-virtual function of the same "
               "name X and parameter types is its entry. On each path of an entry that returns, the virtual function of that name must be "
               "called on the object itself exactly once, with the entry's own arguments in order, and its answer returned as it is.")
ASSUMPTIONS = ["an implementation keeps the contract of the virtual function it overrides (the other properties decide those of this repository)"]


def where_cls(c):
    return "%s:%d %s" % (rel(c["file"]), c["line"], c["q"] if "q" in c else "")


def bare_name(n):
    return re.sub(r"^(do_|Do)(Get(?=[A-Z]))?", "", n)


def norm(t):
    return t.replace("const ", "").replace("&", "").strip()


def run(ck):
    F = ck.F
    ck.rule("R1", "an entry calls the virtual function of its name once, with its own arguments in order, and returns the answer; it refuses nothing but a negative distance or tolerance")
    ck.rule("R2", "every virtual function named do_X / DoX of an interface has such an entry, or is called by another function")
    todo = []
    for q in sorted(F.classes):
        c = F.classes[q]
        if not q.startswith("maliput::") or "::test::" in q or c["dep"] or "/drake/" in c["file"] or "test_utilities" in c["file"]:
            continue
        virt = [m for m in c["methods"] if m["virt"] and m["acc"] != 0 and re.match(r"do_|Do[A-Z]", m["n"]) and not m["ov"]]
        if not virt:
            continue
        todo += [(q, c, m) for m in virt]
    # what an override or a default implementation does is not looked at here
    S = Spec(ck, opaque={q + "::" + m["n"] for q, c, m in todo})
    for q, c, m in todo:
        entry(ck, F, S, q, c, m)
    S.done()


def entry(ck, F, S, q, c, v):
    short = q.replace("maliput::", "")
    args = [norm(t) for t in v["params"]]
    name = "%s::%s(%s)" % (short, v["n"], ", ".join(a.rsplit("::", 1)[-1].rstrip(">") for a in args))
    public = [m for m in c["methods"] if not m["virt"] and m["acc"] == 0 and not m["static"]
              and bare_name(v["n"]).lower() in (m["n"].lower(), m["n"].lower().replace("get", "", 1) if m["n"].startswith("Get") else "")]
    own = [m for m in public if [norm(t) for t in m["params"]] == args]
    if not own:
        users = [f for l in F.by_q.values() for f in l if f["body"] and f["q"] != q + "::" + v["n"] and v["c"] in json.dumps(f["body"])]
        ck.ob(name + " has an entry", bool(users), where_cls(c), "no public function of its name, and nothing calls it")
        return
    fns = [f for m in own for f in F.fns_of(q + "::" + m["n"]) if not f["dep"] and [norm(p["t"]) for p in f["params"]] == args and f["cst"] == m["cst"]]
    for f in fns:
        det, line, n = [], None, 0
        nums = [P(f, k) for k, t in enumerate(args) if t == "double"]
        for p in S.E.paths(f):
            if p.sig != "ret":
                # a negative distance or tolerance may be refused
                if not any(t[0] == "lt" and t[1] in nums and t[2] == 0 and x is True for t, x in p.facts.items()):
                    det.append("refuses; path: %s" % show_facts(p.facts))
                    line = line or p.line
                continue
            n += 1
            calls = [e for e in p.trace if e.k == "call" and e.a[0] == q + "::" + v["n"] and e.a[1] == THIS]
            if len(calls) != 1:
                det.append("calls %s %d times; path: %s" % (v["n"], len(calls), show_facts(p.facts)))
            elif calls[0].a[3] != v["c"]:
                det.append("calls another overload of %s" % v["n"])
            elif tuple(calls[0].a[2]) != tuple(P(f, k) for k in range(len(args))):
                det.append("calls %s with (%s)" % (v["n"], ", ".join(show(x) for x in calls[0].a[2])))
            elif v["ret"] != "void" and p.val != calls[0].a[4] and not (
                    p.val in (TRUE, FALSE) and p.facts.get(("t", calls[0].a[4])) is (p.val == TRUE)):
                det.append("returns %s" % show(p.val))
            else:
                continue
            line = line or p.line
        if not n:
            det.append("never returns")
        ck.ob(name, not det, where(f, line), "; ".join(det[:2]))
