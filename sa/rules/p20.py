"""P20: comparisons report exactly the differences."""
import copy

from rules.common import *
from terms import subst, atom_eq, atom_null, consistent
from logic import Ctx
from facts import AnalysisError

FLOOR = 215
EXPLANATION = ("Every overload of IsEqual and Is*Close (api and api::rules) is enumerated from the source; for each, every path is analysed with "
               "the nested comparisons left opaque. The required comparisons are the data members of the compared class (elements, for "
               "containers): a path that reports nothing must have compared them all. A path is never allowed to report a difference, to throw or "
               "to read an absent value when its two arguments are equal (checked by identifying them). ==, != and < of identifiers, bulb keys and rule "
               "states must be decided by all of their components, and the hash only by those. One step of CompareVectors / CompareMatrices is judged "
               "for every pair of classes {finite, +inf, -inf, NaN} and both sides of the tolerance; the loops must run over every component.")
ASSUMPTIONS = ["ids in the vectors and maps of rules are unique, as the rules' constructors require (P09)",
               "doubles are real numbers (NaN and infinities are only considered in CompareVectors / CompareMatrices, whose tolerance is finite and positive)"]
A = "maliput::api::"
R = A + "rules::"
EQS = (R + "IsEqual", A + "IsEqual")
CLOSE = tuple(A + n for n in ("IsInertialPositionClose", "IsLanePositionClose", "IsRotationClose", "IsRBoundsClose",
                              "IsHBoundsClose", "IsLanePositionResultClose", "IsRoadPositionResultClose"))
COLL = "maliput::common::ComparisonResultCollector"
STATE = R + "Rule::State::"
OPAQUE = EQS + (STATE + "operator==", STATE + "operator!=") + (COLL + "::AddResult", COLL + "::result", R + "TrafficLight::bulb_groups", R + "BulbGroup::bulbs")
# back-pointers to the owner are not part of the value
GETTERS = {R + "BulbGroup::bulbs_": R + "BulbGroup::bulbs", R + "TrafficLight::bulb_groups_": R + "TrafficLight::bulb_groups"}
SKIP = {R + "Bulb::bulb_group_", R + "BulbGroup::traffic_light_"}


def cls_of(t):
    t = t.replace("const ", "").rstrip("&* ").strip()
    return t


def members(F, q):
    """All data members of a class, bases first."""
    c = F.classes.get(q)
    if c is None:
        return []
    out = []
    for b in c.get("bases", []):
        out += [(None, b["q"])] if b["q"] + "::" == STATE else members(F, b["q"])
    return out + [(f["q"], f["t"]) for f in c.get("fields", []) if f["q"] not in SKIP]


class Unify:
    """The path with the second argument identified with the first: contradictory means it cannot happen for equal ones."""

    def __init__(self, fa, fb):
        self.m = {fb: fa}

    def t(self, t):
        t = subst(t, self.m)
        return self.norm(t)

    def norm(self, t):
        if not isinstance(t, tuple):
            return t
        t = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        if t and t[0] == "at" and len(t) == 3 and t[2][0] == "key" and t[2][1][0] == "el" and t[2][1][1] == t[1]:
            return ("val", t[2][1])
        if t and t[0] == "at" and len(t) == 3 and t[2][0] == "ix":
            return ("el", t[1], t[2][3])
        if t and t[0] in ("min", "max") and len(t) == 3 and t[1] == t[2]:
            return t[1]
        if t and t[0] == "lin":
            d = {}
            for v, k in t[1]:
                d[v] = d.get(v, 0) + k
            d = {v: k for v, k in d.items() if k}
            return ("lin", tuple(sorted(d.items(), key=lambda x: skey(x[0]))), t[2]) if d else num(t[2])
        return t

    def member(self, M, k):
        return k[0] in ("el", "key") and (k[1] == M or k[0] == "key" and k[1][0] == "el" and k[1][1] == M) or \
            k[0] == "at" and k[1] == M or k[0] == "el" and k[1] == M

    def feasible(self, facts):
        seen = {}
        for a, v in facts.items():
            if a[0] == "eq":
                x, y = self.t(a[1]), self.t(a[2])
                if x == y:
                    if not v:
                        return False
                    continue
                a2 = ("eq",) + tuple(sorted((x, y), key=skey))
            else:
                a2 = self.t(a)
                if a2[0] == "t" and a2[1][0] == "perm" and a2[1][1] == a2[1][2] and not v:
                    return False
                if a2[0] == "has" and self.member(a2[1], a2[2]) and not v:
                    return False
                if a2[0] in ("lt", "gt", "eqn") and a2[1] == ("abs", num(0)):
                    a2 = (a2[0], num(0), a2[2])
                if a2[0] in ("lt", "gt", "eqn") and a2[1][0] == "n":
                    x, k = a2[1][1], a2[2]
                    if {"lt": x < k, "gt": x > k, "eqn": x == k}[a2[0]] is not v:
                        return False
                    continue
            if a2[0] == "t" and a2[1][0] == "c" and len(a2[1]) == 4 and a2[1][2] == a2[1][3] and \
                    a2[1][1] in (STATE + "operator==", STATE + "operator!=") and v is not a2[1][1].endswith("=="):
                return False
            if seen.get(a2, v) is not v:
                return False
            seen[a2] = v
        return consistent(seen)


def adds(evs):
    return [e for e in evs if e.k == "call" and e.a[0] == COLL + "::AddResult"]


def pair_of(t):
    """The two things a nested comparison compares, None when it is not one."""
    if t[0] == "c" and t[1] in EQS:
        return t[-2], t[-1]
    return None


def differs(facts, x, y):
    """The facts say x and y differ."""
    if x[0] in ("b", "n", "s", "en") and y[0] in ("b", "n", "s", "en"):
        return x != y
    for mk in (Eq, EqN):
        try:
            if decided(Ctx(facts, []), mk(x, y)) is False:
                return True
        except Exception:
            pass
    return False


def outcome(t, facts):
    """('pair', x, y) | 'differs' | 'equal' for the result handed to the collector."""
    pr = pair_of(t)
    if pr:
        return ("pair",) + pr
    g = agg(t)
    if g is not None and "message" in g:
        return "equal" if g["message"] == NULL else "differs"
    return None


def reported(evs, facts):
    for e in adds(evs):
        o = outcome(e.a[2][-1], facts)
        if o == "differs" or o and o[0] == "pair" and differs(facts, o[1], o[2]):
            return True
    return False


def pairs(evs):
    out = set()
    for e in adds(evs):
        o = outcome(e.a[2][-1], {})
        if o and o[0] == "pair":
            out.add((o[1], o[2]))
            out.add((o[2], o[1]))
    return out


def known(facts, x, y):
    for mk in (Eq, EqN):
        try:
            if decided(Ctx(facts, []), mk(x, y)) is True:
                return True
        except Exception:
            pass
    return False


def null_of(facts, x):
    a = atom_null(x)
    if a[0] is None:
        return a[1]
    v = facts.get(a[0])
    return None if v is None else v is a[1]


def compared(evs, facts, x, y, inner=None):
    """Every difference between x and y is found by the path."""
    ps = pairs(evs)
    if (x, y) in ps or known(facts, x, y):
        return True
    if x[0] == "f" and x[2] in GETTERS:
        g = GETTERS[x[2]]
        if compared(evs, facts, ("c", g, x[1]), ("c", g, y[1])):
            return True
    nx, ny = null_of(facts, x), null_of(facts, y)
    if nx is True and ny is True:
        return True
    if inner is not None and nx is False and ny is False:
        return all(compared(evs, facts, a, b, i) for a, b, i in inner(x, y))
    size = (("size", x), ("size", y)) in ps or known(facts, ("size", x), ("size", y))
    for e in evs:
        if e.k != "loop" or not e.a[0].full or not e.a[0].complete:
            continue
        l = e.a[0]
        if l.over[0] == "range" and l.over[1] == num(0):
            n = l.over[2]
            ok = n in (("size", x), ("size", y)) or \
                n[0] == "min" and set(n[1:]) == {("size", x), ("size", y)} or \
                n[0] == "n"
            if not ok or not (size or n[0] == "n"):
                continue
            ex = [(("at", c, l.pos), ("at", d, l.pos)) for c, d in ((x, y),)]
            forms = ex
            if n[0] == "n":
                # a vector of that many components
                if n != num(3) or not in_iters(l, lambda u, v: u[0] == "c" and u[1].endswith("operator[]") and u[-2:] == (x, l.el)
                                               and swap(u, x, y) == v):
                    continue
                return True
        elif l.over in (x, y):
            if not size:
                continue
            o = y if l.over == x else x
            el = l.el if l.el[0] == "el" else ("el", l.over, l.el[3])
            forms = [(("at", o, ("key", el)), ("val", el)), (("at", o, l.pos), el)]
        else:
            continue
        good = True
        for it in l.iters:
            if it.sig == "throw":
                continue
            f2 = dict(facts)
            f2.update(it.facts)
            if reported(it.events, f2):
                continue
            if it.sig not in (None, "cont"):
                good = False
                break
            ps2 = pairs(it.events)
            if any(f in ps2 or known(f2, *f) for f in forms):
                continue
            # the elements themselves are looked for in the other container
            if any(a[0] == "has" and v and a[1] in (x, y) and elem_of(a[2], x if a[1] == y else y, l) for a, v in it.facts.items()):
                continue
            if any(compared(it.events, f2, *f) for f in forms):
                continue
            good = False
            break
        if good:
            return True
    return False


def elem_of(k, M, l):
    return k == ("at", M, l.pos) or k[0] == "el" and k[1] == M


def in_iters(l, pred):
    its = [i for i in l.iters if i.sig in (None, "cont")]
    return bool(its) and all(any(pred(u, v) for u, v in pairs(i.events)) for i in its)


def run(ck):
    F = ck.F
    ck.rule("R1", "a comparison that reports nothing compared every data member (and every element) of its arguments")
    ck.rule("R2", "equal arguments are never reported, never make it throw or read what is absent")
    ck.rule("R3", "the collector reports iff one of the results it got has a message")
    ck.rule("R5", "vectors and matrices: each pair of components is judged over {finite, +inf, -inf, NaN} and both sides of its tolerance")
    ck.rule("R4", "== and < are decided by all components; the hash only by what == compares")
    S = Spec(ck, opaque=OPAQUE, inline_eq=True)
    E = S.E
    compare_overloads(ck, F, S)
    close(ck, F, S)
    numeric(ck, F)
    indexing(ck, F, S)
    collector(ck, F, S)
    operators(ck, F, S)
    S.done()


def short(t):
    return (t.replace("maliput::api::rules::", "").replace("maliput::api::", "").replace("maliput::common::", "").replace("const ", "")
            .rstrip("&* "))


def label(f):
    import re
    t = short(f["params"][-1]["t"])
    t = re.sub(r",\s*std::(allocator|hash|equal_to)<.*", ">", t)
    return "%s(%s)" % (f["q"].replace("maliput::api::", ""), t[:90] if "TypeSpecificIdentifier" not in t or len(t) < 90 else t[:90])


def compare_overloads(ck, F, S):
    fns = [f for q in EQS for f in F.fns_of(q) if not f["dep"]] + F.fns_of(A + "IsLaneEndEqual")
    fns.sort(key=lambda f: (f["q"], label(f), f["line"]))
    seen = {}
    for f in fns:
        n = len(f["params"])
        pa, pb = P(f, n - 2), P(f, n - 1)
        name = label(f)
        seen[name] = seen.get(name, 0) + 1
        if seen[name] > 1:
            name += " #%d" % seen[name]
        overload(ck, F, S, name, f, pa, pb)


def opt_inner(F, t):
    """Members of the struct inside an optional, None for a scalar."""
    if not t.replace("const ", "").startswith("std::optional<"):
        return None
    q = t[t.index("<") + 1:t.rindex(">")].replace("const ", "").strip()
    base = q[:q.index("<")] + q[q.rindex(">") + 1:] if "<" in q else q
    ms = members(F, base)
    if not ms:
        return None
    return lambda x, y: [(("f", x, m), ("f", y, m), opt_inner(F, mt)) for m, mt in ms]


def overload(ck, F, S, name, f, pa, pb):
    t = f["params"][-1]["t"]
    q = cls_of(t)
    base = q[:q.index("<")] if "<" in q and not q.startswith("std::") else q
    ms = None
    if not q.startswith("std::") and not (t.rstrip().endswith("*") and q.split("::")[-1] in ("Lane", "Segment", "Junction", "BranchPoint")):
        ms = members(F, q) or members(F, base)
        if q.endswith("Bulb::BoundingBox") or not ms and False:
            pass
    try:
        ps = S.E.paths(f)
    except engine_budget() as b:
        ck.undecided(name, where(f), str(b))
        return
    scalar = not ms and not q.startswith("std::")
    if base.endswith("TypeSpecificIdentifier") or base.endswith("Rotation"):
        ms, scalar = None, True
    u = Unify(pa, pb)
    det, line, n = [], None, 0
    for p in ps:
        facts = p.facts
        if p.sig != "ret":
            if any(a[0] == "has" and not v and a[2] in (pa, pb) and root(a[1]) not in (pa, pb) for a, v in facts.items()):
                continue        # the name of an enumerator, for the message
            det.append("throws; path: %s" % show_facts(facts))
            line = line or p.line
            continue
        n += 1
        g = agg(p.val)
        msg = g.get("message") if g else None
        if msg is None:
            # a result passed on from another comparison
            msg = p.val
        bad = absent_read(p, facts)
        pr = pair_of(msg) or (msg[0] == "f" and pair_of(msg[1])) or None
        fake = None
        if msg == NULL:
            kind = "equal"
        elif msg[0] == "c" and msg[1] == COLL + "::result":
            kind = "collected"
        elif pr:
            kind = "passed"
        else:
            kind = "differs"
        need = []
        if scalar:
            need = [(pa, pb, None)]
        elif ms:
            need = [(("f", pa, m), ("f", pb, m), opt_inner(F, mt)) if m else (pa, pb, None) for m, mt in ms]
        else:
            need = [(pa, pb, opt_inner(F, q))]
        if kind == "equal":
            for a, b, inner in need:
                if not bad and not leaf_equal(p, facts, a, b, q == "double"):
                    bad = "reports nothing without comparing %s" % show(a)
        elif kind == "differs":
            if not bad and u.feasible(facts):
                bad = "reports a difference between equal arguments"
        elif kind == "passed":
            if not bad and (len(need) != 1 or set(pr) != {need[0][0], need[0][1]}):
                bad = "compares %s with %s only" % (show(pr[0]), show(pr[1]))
        else:
            evs = [e for e in p.trace]
            coll = msg[2]
            evs = [e for e in evs if not (e.k == "call" and e.a[0] == COLL + "::AddResult" and e.a[1] != coll)]
            if not reported(evs, facts):
                for a, b, inner in need:
                    if not bad and not compared(evs, facts, a, b, inner) and not row_static(evs, facts, a, b):
                        bad = "does not compare %s" % show(a)
            if not bad:
                bad = spurious(u, evs, facts)
        if bad:
            det.append("%s; path: %s" % (bad, show_facts(facts)))
            line = line or p.line
    if not n:
        det.append("never returns")
    ck.ob("%s: reports exactly the differences" % name, not det, where(f, line), "; ".join(det[:2]))


EPS = 2.0 ** -52


def within(facts, a, b, tol):
    """Whether the facts say that |a - b| <= tol."""
    d = sub(a, b)
    if d[0] == "n":
        return True
    for e in (d, sub(b, a)):
        h = decided(Ctx(facts, []), Le(("abs", e), tol))
        if h is not None:
            return h
    return decided(Ctx(facts, []), And(Le(d, tol), Le(sub(b, a), tol)))


def leaf_equal(p, facts, a, b, is_double=False):
    """The facts of the path say that a and b are equal (for doubles: within the documented epsilon)."""
    if known(facts, a, b):
        return True
    if facts.get(("t", a)) is not None and facts.get(("t", a)) is facts.get(("t", b)):
        return True
    if is_double and within(facts, a, b, num(EPS)) is True:
        return True
    for at, v in facts.items():
        # component-wise or matrix equality of the whole
        if at[0] == "eq" and v and at[1][0] == "c" and at[1][1].lower().endswith("matrix") and mentions(at[1], b) != mentions(at[1], a) and swap(at[1], a, b) == at[2]:
            return True
        if at[0] == "t" and v is True and at[1][0] == "c" and at[1][1].endswith("operator==") and swap(at[1][2], a, b) == at[1][-1]:
            return True
        if at[0] == "t" and v is False and at[1][0] == "c" and at[1][1].endswith("operator!=") and swap(at[1][2], a, b) == at[1][-1]:
            return True
    return False


def swap(t, a, b):
    mark = ("loc", "§swap", 0)
    return subst(subst(subst(t, {a: mark}), {b: a}), {mark: b})


def absent_read(p, facts):
    """Something inside an absent optional (or null pointer) is used."""
    nulls = [a[1] for a, v in facts.items() if a[0] == "null" and v]
    for e in adds(p.trace):
        for x in nulls:
            if find_terms(e.a[2][-1], lambda t: t[0] in ("f", "at", "val", "key") and t[1] == x):
                return "uses %s, which is absent" % show(x)
    for e in p.trace:
        if e.k == "loop" and e.a[0].over in nulls:
            return "visits %s, which is absent" % show(e.a[0].over)
    return None


def row_static(evs, facts, a, b):
    """Two static rules are compared by their only state, which carries the key."""
    ps = pairs(evs)
    one = known(facts, ("size", a), num(1)) and known(facts, ("size", b), num(1))
    return one and any(mentions(x, a) and mentions(y, b) and swap(x, a, b) == y and x[0] in ("snd", "val") for x, y in ps)


def spurious(u, evs, facts):
    """A difference reported although the arguments are equal."""
    if not u.feasible(facts):
        return None
    for e in evs:
        if e.k == "loop":
            for it in e.a[0].iters:
                if it.sig == "throw":
                    continue
                f2 = dict(facts)
                f2.update(it.facts)
                bad = spurious(u, it.events, f2)
                if bad:
                    return bad
    for e in adds(evs):
        o = outcome(e.a[2][-1], facts)
        if o is None:
            raise Unknown("result %s" % show(e.a[2][-1]))
        if o == "differs" or o != "equal" and u.t(o[1]) != u.t(o[2]):
            return "reports %s for equal arguments" % (show(e.a[2][-1]))
    return None


def engine_budget():
    import engine
    return engine.Budget


def close(ck, F, S):
    """|difference| within the tolerance, component by component."""
    E = S.E
    V = {"InertialPosition": ("x", "y", "z"), "LanePosition": ("s", "r", "h"), "Rotation": ("roll", "pitch", "yaw"),
         "RBounds": ("min", "max"), "HBounds": ("min", "max")}
    for c, comps in V.items():
        f = F.fn(A + "Is%sClose" % c, 3)
        ab = [(E.getter(A + c + "::" + m, P(f, 0)), E.getter(A + c + "::" + m, P(f, 1))) for m in comps]
        near(ck, S.E, "Is%sClose: every component within the tolerance" % c, f, ab)
    LPR, RPR, RP = A + "LanePositionResult::", A + "RoadPositionResult::", A + "RoadPosition::"
    LC, IC = A + "IsLanePositionClose", A + "IsInertialPositionClose"
    X = S.engine(opaque=OPAQUE + (LC, IC))
    f = F.fn(A + "IsLanePositionResultClose", 3)
    near(ck, X, "IsLanePositionResultClose: both positions and the distance", f,
         [(("f", P(f, 0), LPR + "distance"), ("f", P(f, 1), LPR + "distance"))],
         [(LC, ("f", P(f, 0), LPR + "lane_position"), ("f", P(f, 1), LPR + "lane_position")),
          (IC, ("f", P(f, 0), LPR + "nearest_position"), ("f", P(f, 1), LPR + "nearest_position"))])
    f = F.fn(A + "IsRoadPositionResultClose", 3)
    rp = [("f", P(f, i), RPR + "road_position") for i in (0, 1)]
    lane = [("f", x, RP + "lane") for x in rp]
    near(ck, X, "IsRoadPositionResultClose: same lane, both positions and the distance", f,
         [(("f", P(f, 0), RPR + "distance"), ("f", P(f, 1), RPR + "distance"))],
         [(LC, ("f", rp[0], RP + "pos"), ("f", rp[1], RP + "pos")),
          (IC, ("f", P(f, 0), RPR + "nearest_position"), ("f", P(f, 1), RPR + "nearest_position"))],
         And(NotNull(lane[0]), NotNull(lane[1]), Eq(lane[0], lane[1])))
    S.ck.absorb(X)
    T = "maliput::routing::"
    PPR, PC = T + "PhasePositionResult::", T + "IsPhasePositionResultClose"
    f = F.fn(PC, 3)
    a, b = P(f, 0), P(f, 1)
    X = S.engine(opaque=OPAQUE + (LC, IC))
    near(ck, X, "IsPhasePositionResultClose: same range, both positions and the distance", f,
         [(("f", a, PPR + "distance"), ("f", b, PPR + "distance"))],
         [(LC, ("f", a, PPR + "lane_position"), ("f", b, PPR + "lane_position")),
          (IC, ("f", a, PPR + "inertial_position"), ("f", b, PPR + "inertial_position"))],
         EqN(S_diff(("f", a, PPR + "lane_s_range_index"), ("f", b, PPR + "lane_s_range_index")), num(0)))
    S.ck.absorb(X)
    RTR = T + "RoutePositionResult::"
    f = F.fn(T + "IsRoutePositionResultClose", 3)
    a, b = P(f, 0), P(f, 1)
    X = S.engine(opaque=OPAQUE + (PC,))
    near(ck, X, "IsRoutePositionResultClose: same phase and position in it", f, [],
         [(PC, ("f", a, RTR + "phase_position_result"), ("f", b, RTR + "phase_position_result"))],
         EqN(S_diff(("f", a, RTR + "phase_index"), ("f", b, RTR + "phase_index")), num(0)))
    S.ck.absorb(X)


INF = float("inf")
VB, MX = "maliput::math::VectorBase::operator[]", "maliput::math::Matrix::operator[]"
KINDS = ("kAbsolute", "kRelative")


def numeric(ck, F):
    """CompareVectors / CompareMatrices: what one pair of components decides.

    Components range over {finite, +inf, -inf, NaN}; for two finite ones, over the two sides of the tolerance."""
    import re
    M = "maliput::math::"
    for fn, what in (("CompareVectors", "vectors"), ("CompareMatrices", "matrices")):
        fns = sorted((f for f in F.by_q[M + fn] if not f["dep"]), key=lambda f: f["params"][0]["t"])
        if not fns:
            raise AnalysisError("no instantiation of %s%s" % (M, fn))
        for f in fns:
            m = re.search(r"(?:VectorBase|Matrix)<(\d+)", f["params"][0]["t"])
            n = int(m.group(1)) if m else None
            name = "%s<%s>: a difference iff a component is neither alike infinite or NaN nor within the tolerance" % (fn, n)
            if n is None:
                ck.undecided(name, where(f), "cannot tell the size from %s" % f["params"][0]["t"])
                continue
            E = Engine(F, inline_eq=True)
            try:
                det, line = numeric_one(E, f, n, 1 if what == "vectors" else 2)
                ck.ob(name, not det, where(f, line), "; ".join(det[:2]))
            except Bad as e:
                ck.ob(name, False, where(f), str(e))
            except Unknown as e:
                ck.undecided(name, where(f), str(e))
            ck.absorb(E)


def indexing(ck, F, S):
    """CheckIdIndexing: every element is looked up by its id and compared with itself."""
    f = F.fn(A + "CheckIdIndexing", 1)
    rg = P(f, 0)
    RG = A + "RoadGeometry::"
    IX = RG + "IdIndex::DoGet"
    J = ("Junction", RG + "do_junction", RG + "do_num_junctions", None)
    kinds = {"Junction": J, "Segment": ("Segment", A + "Junction::do_segment", A + "Junction::do_num_segments", "Junction"),
             "Lane": ("Lane", A + "Segment::do_lane", A + "Segment::do_num_lanes", "Segment"),
             "BranchPoint": ("BranchPoint", RG + "do_branch_point", RG + "do_num_branch_points", None)}
    for p in S.E.paths(f):
        if p.sig != "ret":
            ck.ob("CheckIdIndexing: every element of the road geometry by its id", False, where(f, p.line), "throws; path: %s" % show_facts(p.facts))
            continue
        done = {}

        def walk(evs, around, skipped):
            for e in evs:
                if e.k == "loop":
                    l = e.a[0]
                    ok = l.full and l.complete and all(i.sig not in ("ret", "throw", "break") for i in l.iters)
                    for i in l.iters:
                        walk(i.events, around + [(l, ok, len(l.iters))], skipped)
                elif e.k == "call" and e.a[0] == COLL + "::AddResult":
                    pr = next((pair_of(x) for x in e.a[2] if isinstance(x, tuple) and pair_of(x)), None)
                    if pr is None:
                        continue
                    for k, (_, at, num_, parent) in kinds.items():
                        for g, x in (pr, pr[::-1]):
                            if g == ("c", IX + k, ("c", RG + "DoById", rg), ("c", A + k + "::do_id", x)) and x[0] == "c" and x[1] == at:
                                done.setdefault(k, []).append((x, list(around)))
        walk(p.trace, [], False)
        det = []
        for k, (_, at, num_, parent) in kinds.items():
            good = False
            why = "is not compared with what its id gives"
            for x, around in done.get(k, []):
                chain, y, kk = [], x, k
                while True:
                    ls = [(l, ok, n) for l, ok, n in around if l.over == ("range", num(0), ("c", kinds[kk][2], y[2])) and l.el == y[3]]
                    if y[1] != kinds[kk][1] or not ls:
                        why = "is not taken from every index"
                        break
                    if not ls[0][1]:
                        why = "is not looked up for every index"
                        break
                    chain.append(ls[0][0])
                    kk, y = kinds[kk][3], y[2]
                    if kk is None:
                        good = y == rg and len(chain) == len(around)
                        if y == rg and not good:
                            why = "is only looked up inside a loop over something else, which may be empty"
                        break
                # each loop's iterations must all hold the comparison
                if good and any(sum(1 for x2, a2 in done[k] if a2 and a2[d][0] is l) < n for d, (l, ok, n) in enumerate(around)):
                    good, why = False, "is left out of some iterations"
                if good:
                    break
            if not good:
                det.append("a %s %s" % (k, why))
        if p.val[0] != "c" or p.val[1] != COLL + "::result":
            det.append("answers %s instead of what was collected" % show(p.val))
        ck.ob("CheckIdIndexing: every element of the road geometry by its id", not det, where(f), "; ".join(det))


def numeric_one(E, f, n, depth):
    a0, b0, tol, kind = (P(f, i) for i in range(4))
    det, line = [], None
    for p in E.paths(f):
        if p.sig != "ret":
            return ["throws; path: %s" % show_facts(p.facts)], p.line
        g = agg(p.val)
        msg = g.get("message") if g else ("f", p.val, "")
        loops = [e.a[0] for e in p.trace if e.k == "loop"]
        if not loops:
            raise Unknown("no loop over the components on a path")
        nothing = msg == NULL or facts_null(p.facts, msg)
        early = not loops[0].complete
        if nothing == early:
            det.append("reports %s %s" % ("nothing" if nothing else "a difference", "before every component was seen" if early else "after every component was found alike"))
            line = line or p.line
    if det:
        return det, line
    # the innermost loops, all of whose indices run over 0..n-1
    inner = []

    def walk(evs, ixs, d):
        for e in evs:
            if e.k != "loop":
                continue
            l = e.a[0]
            if l.over[0] != "range" or l.over[1:3] != (("n", 0), ("n", n)):
                wrong = l.over[0] == "range" and all(x[0] in ("n", "ix") for x in l.over[1:3])
                raise (Bad if wrong else Unknown)("a loop does not run over 0..%d: %s" % (n - 1, show(l.over)))
            if d == depth:
                inner.append((l, ixs + (l.el,)))
            else:
                for i in l.iters:
                    walk(i.events, ixs + (l.el,), d + 1)
    for p in E.paths(f):
        walk(p.trace, (), 1)
    if not inner:
        raise Unknown("no loop over the components")
    for l, ixs in inner:
        def comp(x):
            for k, i in enumerate(ixs):
                x = ("c", VB if k == depth - 1 else MX, None, x, i)
            return x
        a, b = comp(a0), comp(b0)
        cls = ("fin", "+inf", "-inf", "nan")
        for ca in cls:
            for cb in cls:
                for k in KINDS:
                    for beyond in ((False, True) if ca == cb == "fin" else (None,)):
                        want = beyond if beyond is not None else ca != cb
                        case = Case(a, b, tol, kind, ca, cb, k, beyond)
                        got, open_ = set(), []
                        for i in l.iters:
                            vs = [(t, v, case.fact(t)) for t, v in i.facts.items()]
                            if any(x is not None and x is not v for t, v, x in vs):
                                continue
                            if beyond and {case.side(t) for t, v, x in vs if v is False} >= {1, -1}:
                                continue
                            reports = i.sig == "ret"
                            got.add(reports)
                            if reports is not want:
                                open_.append((i, [t for t, v, x in vs if x is None]))
                        if not open_:
                            continue
                        i, un = open_[0]
                        said = "%s against %s (%s%s)" % (ca, cb, k, "" if beyond is None else ", beyond the tolerance" if beyond else ", within the tolerance")
                        if un and ca == cb == "fin" and not any(case.foreign(t) for t in un):
                            raise Unknown("%s: cannot decide %s" % (said, show(un[0])))
                        if un and not (ca == cb == "fin"):
                            raise Unknown("%s: cannot decide %s" % (said, show(un[0])))
                        det.append("%s: %s" % (said, "nothing reported" if want else "a difference reported"))
    return sorted(set(det)), None


class Case:
    def __init__(self, a, b, tol, kind, ca, cb, k, beyond):
        self.a, self.b, self.tol, self.kind = a, b, tol, kind
        self.ca, self.cb, self.k, self.beyond = ca, cb, k, beyond

    def cls(self, t):
        """Class of a term's value: "fin", "+inf", "-inf", "nan", None when unknown."""
        if isinstance(t, (int, float)):
            return "nan" if t != t else "+inf" if t == INF else "-inf" if t == -INF else "fin"
        if t == self.a:
            return self.ca
        if t == self.b:
            return self.cb
        if t == self.tol:
            return "fin"
        h = t[0]
        if h == "n":
            return self.cls(t[1])
        if h == "abs":
            c = self.cls(t[1])
            return "+inf" if c == "-inf" else c
        if h == "lin":
            out = self.cls(t[2])
            for x, k in t[1]:
                c = self.cls(x)
                if c is None:
                    return None
                if k < 0:
                    c = {"+inf": "-inf", "-inf": "+inf"}.get(c, c)
                out = c if out == "fin" else out if c in ("fin", out) else "nan"
            return out
        if h in ("max", "min"):
            cs = [self.cls(x) for x in t[1:]]
            if None in cs:
                return None
            if "nan" in cs:
                return None
            top, bot = ("+inf", "-inf") if h == "max" else ("-inf", "+inf")
            return top if top in cs else bot if all(c == bot for c in cs) else "fin"
        if h == "mul":
            cs = [self.cls(x) for x in t[1:]]
            if None in cs or "nan" in cs:
                return "nan" if "nan" in cs else None
            if all(c == "fin" for c in cs):
                return "fin"
            # the tolerance is positive; everything else that multiplies an infinite value must be so too
            if all(x == self.tol or c == "+inf" for x, c in zip(t[1:], cs)):
                return "+inf"
            return None
        return None

    def delta(self, t):
        return t == ("abs", S_diff(self.a, self.b)) or t == ("abs", S_diff(self.b, self.a))

    def bound(self, t):
        """True when the value is delta minus the bound of this kind of comparison, False when it is the other kind's."""
        if t[0] != "lin" or t[2] != 0:
            return None
        d = dict(t[1])
        ds = [x for x, k in t[1] if k == 1 and self.delta(x)]
        if len(ds) != 1 or len(d) != 2:
            return None
        (o, k), = [(x, k) for x, k in t[1] if x != ds[0]]
        if k != -1:
            return None
        if o == self.tol:
            return self.k == "kAbsolute"
        if o[0] == "mul" and sorted(map(repr, o[1:])) == sorted(map(repr, (self.tol, self.scale(o)))):
            return self.k == "kRelative"
        return None

    def scale(self, o):
        want = {("n", 1), ("abs", self.a), ("abs", self.b)}

        def flat(t):
            return [y for x in t[1:] for y in flat(x)] if t[0] == "max" else [("n", 1) if t == ("n", 1.0) else t]
        for x in o[1:]:
            if set(flat(x)) == want:
                return x
        return None

    def fact(self, t):
        """Truth of an atom in this case, None when open."""
        h = t[0]
        if h == "eq" and self.kind in t[1:]:
            o = t[1] if t[2] == self.kind else t[2]
            return o[1].rsplit("::", 1)[-1] == self.k if o[0] == "enum" else None
        if h == "eqn":
            c, v = self.cls(t[1]), self.cls(t[2])
            return None if c is None else c == v if v in ("+inf", "-inf") else False if c != "fin" else None
        if h == "eq" and {t[1], t[2]} == {self.a, self.b}:
            return None if self.ca == self.cb == "fin" else self.ca == self.cb and self.ca != "nan"
        if h == "t" and t[1][0] == "c" and t[1][1] in ("std::isnan", "std::isinf", "std::isfinite"):
            x = t[1][-1]
            fn = t[1][1][5:]
            c = self.cls(x)
            if c is None and x[0] in ("max", "min") and fn == "isnan" and "nan" not in (self.ca, self.cb):
                return False
            return None if c is None else {"isnan": c == "nan", "isinf": "inf" in c, "isfinite": c == "fin"}[fn]
        if h in ("gt", "ge", "lt", "le"):
            c = self.cls(t[1])
            if c is None:
                return None
            if c == "fin":
                w = self.bound(t[1])
                if h == "gt" and self.side(t) and self.k == "kAbsolute":
                    return None if self.beyond else False
                return self.beyond if h == "gt" and w and self.beyond is not None else None
            return c == "+inf" if h in ("gt", "ge") else c == "-inf"
        return None

    def side(self, t):
        """1 / -1 for a - b > tolerance / b - a > tolerance, None for anything else."""
        if t[0] != "gt" or t[1][0] != "lin" or t[1][2] != 0 or len(t[1][1]) != 3:
            return None
        d = dict(t[1][1])
        k = d.get(self.a)
        return k if k in (1, -1) and d.get(self.b) == -k and d.get(self.tol) == -1 else None

    def foreign(self, t):
        """A comparison of the components and the tolerance, but not this kind's bound."""
        def plain(x):
            return isinstance(x, (int, float)) or x in (self.a, self.b, self.tol) or x[0] == "n" or (
                x[0] in ("abs", "max", "min", "mul") and all(plain(y) for y in x[1:])) or (
                x[0] == "lin" and all(plain(y) for y, k in x[1]))
        return t[0] in ("gt", "ge", "lt", "le") and plain(t[1])


def S_diff(a, b):
    from terms import sub
    return sub(a, b)


def near(ck, E, name, f, ab, nested=(), cond=None):
    tol = P(f, 2)
    det, line, n = [], None, {True: 0, False: 0}
    todo = list(E.paths(f))
    while todo:
        p = todo.pop(0)
        if p.sig != "ret":
            det.append("throws; path: %s" % show_facts(p.facts))
            continue
        g = agg(p.val)
        msg = g.get("message") if g else ("f", p.val, "")
        if msg[0] == "f" and msg[1][0] == "c" and any(msg[1] == ("c", q, None, a, b, tol) for q, a, b in nested) and decide(p.facts, ("null", msg)) is None:
            # the nested verdict is handed on: judge both outcomes
            for v in (True, False):
                p2 = copy.copy(p)
                p2.facts = {**p.facts, ("null", msg): v}
                todo.append(p2)
            continue
        says = [within(p.facts, a, b, tol) for a, b in ab]
        last = None
        for q, a, b in nested:
            v = None
            for t, val in p.facts.items():
                if t[0] == "null" and t[1][0] == "f" and t[1][1] == ("c", q, None, a, b, tol):
                    v = val
                    last = t[1]
            says.append(v)
        if cond is not None:
            says.append(decided(Ctx(p.facts, p.trace), cond))
        equal = msg == NULL or facts_null(p.facts, msg)
        n[equal] += 1
        if equal and not all(x is True for x in says):
            det.append("reports nothing although %s is left open; path: %s" % (
                [show(a[0]) for a, x in zip(list(ab) + [z[1:] for z in nested] + [("lanes",)], says) if x is not True and isinstance(a[0], tuple)],
                show_facts(p.facts)))
            line = line or p.line
        if not equal and not any(x is False for x in says):
            det.append("reports a difference although every component is within the tolerance; path: %s" % show_facts(p.facts))
            line = line or p.line
    if not n[True] or not n[False]:
        det.append("only ever reports %s" % ("nothing" if n[True] else "differences"))
    ck.ob(name, not det, where(f, line), "; ".join(det[:2]))


def facts_null(facts, t):
    return facts.get(("null", t)) is True


def collector(ck, F, S):
    X = S.engine(opaque=())
    failed, count = ("f", THIS, COLL + "::failed_"), ("f", THIS, COLL + "::count_")
    fn = F.fn(COLL + "::result", 0)
    failed = X.getter(COLL + "::failed", THIS)
    count = X.getter(COLL + "::count", THIS)
    det = []
    for p in X.paths(fn):
        none = p.sig == "ret" and p.val == NULL
        h = decided(Ctx(p.facts, []), Le(failed, num(0), ints=True))
        if p.sig != "ret" or h is not none:
            det.append("%s; path: %s" % (show(p.val), show_facts(p.facts)))
    ck.ob("ComparisonResultCollector.result: nothing iff no comparison failed", not det, where(fn), "; ".join(det[:2]))
    for i, fn in enumerate([f for f in F.fns_of(COLL + "::AddResult") if not f["dep"]]):
        det = []
        m = None
        for p in X.paths(fn):
            fs = [a for a in p.facts if a[0] == "null" and root(a[1]) == P(fn, 3)]
            v = [p.facts[a] for a in fs]
            nf, nc = final(p, failed), final(p, count)
            if p.sig != "ret" or len(v) != 1:
                det.append("does not depend on the message; path: %s" % show_facts(p.facts))
            elif (nf == add(failed, num(1))) is v[0] or v[0] and nf not in (None, failed):
                det.append("failures become %s; path: %s" % (show(nf) if nf else "unchanged", show_facts(p.facts)))
            elif nc != add(count, num(1)):
                det.append("the count becomes %s" % (show(nc) if nc else "unchanged"))
        ck.ob("ComparisonResultCollector.AddResult #%d: counts a failure iff there is a message" % (i + 1), not det, where(fn), "; ".join(det[:2]))
    S.ck.absorb(X)


def perm_known(facts, x, y):
    return any(v and a[0] == "t" and a[1][0] == "perm" and set(a[1][1:3]) == {x, y} for a, v in facts.items())


def eq_fn(ck, E, name, fn, a, b, ms, negate=False, base=()):
    """fn answers whether every component is equal."""
    u = Unify(a, b)
    det, line, n = [], None, {True: 0, False: 0}
    for p in E.paths(fn, bool_result=True):
        if p.sig != "ret" or p.val[0] != "b":
            det.append("%s; path: %s" % (show(p.val), show_facts(p.facts)))
            continue
        eq = p.val[1] is not negate
        n[eq] += 1
        if eq:
            open_ = [show(x) for x, y in ms if not compared(p.trace, p.facts, x, y) and not map_equal(p, x, y)]
            open_ += ["the rest of the state" for t in base if p.facts.get(t) is not True]
            if open_:
                det.append("answers equal without comparing %s; path: %s" % (", ".join(open_), show_facts(p.facts)))
                line = line or p.line
        elif u.feasible(p.facts):
            det.append("tells equal values apart; path: %s" % show_facts(p.facts))
            line = line or p.line
    if not n[True] or not n[False]:
        det.append("never answers %s" % ("equal" if not n[True] else "different"))
    ck.ob(name, not det, where(fn, line), "; ".join(det[:2]))


def map_equal(p, x, y):
    """Same size, and for every key of one the values under it in the other are a permutation of its own."""
    if not known(p.facts, ("size", x), ("size", y)):
        return False
    for l, el, its in loops_over(p.trace, x) + loops_over(p.trace, y):
        o = y if el[1] == x else x
        if all(perm_known(i.facts, ("at", o, ("key", el)), ("val", el)) or known(i.facts, ("at", o, ("key", el)), ("val", el)) for i in its):
            return True
    return False


def operators(ck, F, S):
    E = S.engine(opaque=tuple(x for x in OPAQUE if x not in (STATE + "operator==", STATE + "operator!=")))
    X = S.engine(opaque=OPAQUE)
    fn = F.fn(STATE + "operator==", 1)
    st = [("f", o, STATE + m) for m in ("severity", "related_rules", "related_unique_ids") for o in (THIS, P(fn, 0))]
    eq_fn(ck, E, "Rule.State ==: severity, related rules and related ids", fn, THIS, P(fn, 0), list(zip(st[::2], st[1::2])))
    fn = F.fn(STATE + "operator!=", 1)
    st = [("f", o, STATE + m) for m in ("severity", "related_rules", "related_unique_ids") for o in (THIS, P(fn, 0))]
    eq_fn(ck, E, "Rule.State !=: the opposite of ==", fn, THIS, P(fn, 0), list(zip(st[::2], st[1::2])), True)
    for q in (R + "DiscreteValueRule::DiscreteValue", R + "RangeValueRule::Range"):
        own = [f["q"] for f in F.classes[q]["fields"]]
        for op in ("==", "!="):
            fn = F.fn(q + "::operator" + op, 1)
            eq_fn(ck, X, "%s %s: own fields and the state" % (short(q), op), fn, THIS, P(fn, 0),
                  [(("f", THIS, m), ("f", P(fn, 0), m)) for m in own], op == "!=",
                  base=(("t", ("c", STATE + "operator==", THIS, P(fn, 0))),))
    I = S.engine(opaque=(), id_opaque=False)
    for q in (A + "UniqueId", R + "UniqueBulbId", R + "UniqueBulbGroupId"):
        own = [f["q"] for f in F.classes[q]["fields"]]
        for op in ("==", "!="):
            fn = F.fn(q + "::operator" + op, 1)
            eq_fn(ck, I if q.endswith("::UniqueId") else X, "%s %s: every component" % (short(q), op), fn, THIS, P(fn, 0),
                  [(("f", THIS, m), ("f", P(fn, 0), m)) for m in own], op == "!=")
    q = A + "TypeSpecificIdentifier"
    for op in ("==", "!="):
        for fn in [f for f in F.fns_of(q + "::operator" + op) if not f["dep"]][:3]:
            eq_fn(ck, I, "%s %s: same string" % (short(fn["params"][0]["t"]), op), fn, THIS, P(fn, 0),
                  [(("f", THIS, q + "::string_"), ("f", P(fn, 0), q + "::string_"))], op == "!=")
    M = "maliput::utility::mesh::"
    for q in ("DirectedEdgeIndex", "FaceEdgeIndex"):
        own = [f["q"] for f in F.classes[M + q]["fields"]]
        for op in ("==", "!="):
            for fn in F.fns_of(M + "operator" + op):
                if cls_of(fn["params"][0]["t"]) == M + q:
                    eq_fn(ck, X, "mesh %s %s: both indices" % (q, op), fn, P(fn, 0), P(fn, 1),
                          [(("f", P(fn, 0), m), ("f", P(fn, 1), m)) for m in own], op == "!=")
    # orders
    fn = F.fn(R + "RangeValueRule::Range::operator<", 1)
    C = [STATE + "severity"] + [R + "RangeValueRule::Range::" + m for m in ("description", "min", "max")]
    lex(ck, X, "Range <: severity, description, min and max in that order", fn,
        [(("f", THIS, m), ("f", P(fn, 0), m)) for m in C], False)
    for fn in [f for f in F.fns_of("std::less::operator()") if not f["dep"] and "maliput::api::" in f["params"][0]["t"]]:
        q = cls_of(fn["params"][0]["t"])
        if "TypeSpecificIdentifier" in q:
            ss = [(("c", A + "TypeSpecificIdentifier::string", P(fn, 0)), ("c", A + "TypeSpecificIdentifier::string", P(fn, 1)))]
        else:
            ms = [(f["q"], f["t"]) for f in F.classes[q]["fields"]]
            if q == A + "UniqueId":
                ms = []
                ss = [(("c", q + "::string", P(fn, 0)), ("c", q + "::string", P(fn, 1)))]
            ss = ss if not ms else [tuple(("c", A + "TypeSpecificIdentifier::string", ("f", P(fn, i), m)) if "TypeSpecific" in t else ("f", P(fn, i), m)
                        for i in (0, 1)) for m, t in ms]
        lex(ck, X, "std::less<%s>: a strict order over every component" % short(q), fn, ss, True)
    # identifiers are made of non-empty strings, and hand them out
    for q in (A + "TypeSpecificIdentifier", A + "UniqueId"):
        n, held = 0, [x["q"] for x in F.classes[q]["fields"]]
        if len(held) != 1:
            raise AnalysisError("%s is more than a string" % q)
        for f in F.by_q.get(q + "::" + q.rpartition("::")[2], []):
            if f["dep"] or len(f["params"]) != 1 or "string" not in f["params"][0]["t"]:
                continue
            n += 1
            tag = "%s%s" % (short(q), "" if n == 1 else " (%d)" % n)
            S.throws_iff("%s: never empty" % tag, f, Empty(P(f, 0)), E=I)
            S.each_path("%s: keeps the given string" % tag, f, lambda p, f=f, held=held: None if final(p, ("f", THIS, held[0])) in (P(f, 0), ("copyof", P(f, 0)))
                        else "keeps %s" % show(final(p, ("f", THIS, held[0])) or VOID), E=I)
            g_ = [m for m in F.by_q[q + "::string"] if not m["dep"]]
            if n == 1 and g_:
                S.each_path("%s.string: the kept string" % short(q), g_[0], lambda p, held=held: None if p.val in (("f", THIS, held[0]), ("copyof", ("f", THIS, held[0]))) else "answers %s" % show(p.val), E=I)
        if not n:
            raise AnalysisError("no constructor of %s" % q)
    # hashes
    for q, f in sorted(((q, f) for q in F.by_q if q.endswith("hash_append") and "maliput" in q for f in F.by_q[q]
                        if not f["dep"] and len(f["params"]) == 2), key=lambda z: (z[0], z[1]["params"][1]["t"])):
        c = cls_of(f["params"][1]["t"])
        b = c[:c.index("<")] if "<" in c else c
        if b not in (A + "UniqueId", R + "UniqueBulbId", R + "UniqueBulbGroupId", A + "TypeSpecificIdentifier", M + "DirectedEdgeIndex"):
            continue
        own = {x["q"] for x in F.classes[b]["fields"]}
        H = S.engine(opaque=tuple(n for n in F.by_q if n.endswith("hash_append")), id_opaque=False)
        det = []
        for p in H.paths(f):
            for e in p.events("call", True):
                if e.a[0].endswith("hash_append"):
                    x = e.a[2][-1]
                    if not (x[0] == "f" and x[1] == P(f, 1) and x[2] in own):
                        det.append("hashes %s" % show(x))
        ck.ob("hash of %s: only what == compares" % short(c), not det, where(f), "; ".join(det[:2]))
        S.ck.absorb(H)
    for e in (E, X, I):
        S.ck.absorb(e)


def lex_less(ctx, comps):
    """a < b lexicographically, as far as the path tells the relation of each component."""
    out = set()
    for a, b, i in comps:
        rel = {"<", "=", ">"}
        for r, c in (("<", Lt(a, b, ints=i)), (">", Lt(b, a, ints=i)), ("=", EqN(a, b)), ("=", Eq(a, b))):
            h = holds(ctx, c)
            rel = rel & {r} if h is True else rel - {r} if h is False else rel
        out |= {r == "<" for r in rel - {"="}}
        if "=" not in rel:
            break
    else:
        out.add(False)
    return out.pop() if len(out) == 1 else None


def lex(ck, E, name, fn, comps, any_order):
    from itertools import permutations
    ps = E.paths(fn, bool_result=True)
    best = None
    for order in (permutations(comps) if any_order else [comps]):
        det, line = [], None
        cond = None
        for a, b in reversed(list(order)):
            i = a[0] == "f" and a[2] == STATE + "severity"
            lt, gt = Lt(a, b, ints=i), Lt(b, a, ints=i)
            cond = lt if cond is None else Or(lt, And(Not(gt), cond))
        for p in ps:
            less = lex_less(Ctx(p.facts, []), [(a, b, a[0] == "f" and a[2] == STATE + "severity") for a, b in order])
            h = less if less is not None else decided(Ctx(p.facts, []), cond) if p.sig == "ret" and p.val[0] == "b" else None
            if h is None or h is not p.val[1]:
                det.append("answers %s but the components say %s; path: %s" % (show(p.val), h, show_facts(p.facts)))
                line = line or p.line
        if best is None or len(det) < len(best[0]):
            best = (det, line)
        if not det:
            break
    ck.ob(name, not best[0], where(fn, best[1]), "; ".join(best[0][:2]))
