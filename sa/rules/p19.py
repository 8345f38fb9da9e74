"""P19: what the public interface answers is what the implementation answers."""
from rules.common import *

FLOOR = 70
EXPLANATION = ("The public non-virtual methods that have an implementation hook of the same name (X and DoX, x and do_x) are found in every "
               "class; every path of each is enumerated with the hook left opaque: it calls that hook exactly once on the same object with "
               "its own arguments in order, returns what the hook returns, and throws only for the documented preconditions.")
ASSUMPTIONS = ["the hooks follow the repository's naming convention (DoX / do_x)"]
A = "maliput::api::"


def hooks(F):
    virt = set()
    for c in F.classes.values():
        for m in c.get("methods", []):
            if m.get("virt"):
                virt.add(c["q"] + "::" + m["n"])
    out = []
    for f in F.fns.values():
        c, _, m = f["q"].rpartition("::")
        if f.get("acc") != "public" or f.get("virt") or not f.get("cls") or f.get("dep") or f.get("static"):
            continue
        for h in (c + "::do_" + m, c + "::Do" + m[:1].upper() + m[1:]):
            if h in virt:
                out.append((f, h))
    return sorted(out, key=lambda x: (x[0]["q"], len(x[0]["params"]), str([p["t"] for p in x[0]["params"]])))


# documented preconditions checked before the hook is asked
PRE = {
    A + "RoadGeometry::FindRoadPositions": lambda f: Lt(P(f, 1), num(0)),
    A + "rules::RoadRulebook::FindRules": lambda f: Lt(P(f, 1), num(0)),
}


def run(ck):
    F = ck.F
    ck.rule("R1", "a public method asks its hook once, with its own arguments, and returns its answer")
    ck.rule("R2", "only documented preconditions are checked, exactly")
    hs = hooks(F)
    S = Spec(ck, opaque=tuple(h for _, h in hs))
    E = S.E
    seen = {}
    for f, h in hs:
        name = f["q"].replace("maliput::", "")
        seen[name] = seen.get(name, 0) + 1
        if seen[name] > 1:
            name += " (%d)" % seen[name]
        args = tuple(P(f, i) for i in range(len(f["params"])))
        want = ("c", h, THIS) + args
        pre = PRE.get(f["q"])
        if pre:
            S.throws_iff("%s: documented precondition" % name, f, pre(f))
        ps = S.run(f, bool_result=False)
        if ps is None:
            continue
        det, line, n = [], None, 0
        for p in ps:
            if p.sig != "ret":
                if not pre:
                    det.append("throws without a documented reason; path: %s" % show_facts(p.facts))
                    line = line or p.line
                continue
            n += 1
            asked = [e for e in p.events("call", True) if e.a[0] == h]
            bad = None
            if len(asked) != 1:
                bad = "asks %s %d times" % (h.rpartition("::")[2], len(asked))
            elif asked[0].a[1] != THIS or asked[0].a[2] != args:
                bad = "asks %s with (%s)" % (h.rpartition("::")[2], ", ".join(show(x) for x in asked[0].a[2]))
            elif f["ret"] != "void" and not answer(p, want):
                bad = "returns %s" % show(p.val)
            elif muts(p):
                bad = "changes %s" % show(muts(p)[0][1])
            if bad:
                det.append("%s; path: %s" % (bad, show_facts(p.facts)))
                line = line or p.line
        if not n:
            det.append("never returns")
        ck.ob("%s: answers what its hook answers" % name, not det, where(f, line), "; ".join(det[:2]))
    S.done()


def answer(p, want):
    v = p.val
    if v == want or v in (("deref", want), ("addr", want), ("copyof", want)):
        return True
    if v and v[0] == "b":
        return decide(p.facts, ("t", want)) is v[1]
    return False
