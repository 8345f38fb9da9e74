"""P03: lookups return the registered entry, and nothing else; enumerations return every entry."""
from rules.common import *

FLOOR = 35
EXPLANATION = ("Each public lookup of the index, registries, books and providers is enumerated path by path: a path that found the id "
               "must return the entry stored under that id, a path that did not must end in the documented outcome (null/empty "
               "optional or out_of_range). Enumerations must add every element of the backing container on every iteration of "
               "a loop that runs to completion.")
ASSUMPTIONS = ["std container lookup models"]


def run(ck):
    F = ck.F
    ck.rule("R1", "present id -> stored entry, absent id -> documented outcome, on every path")
    ck.rule("R2", "enumerations cover the whole backing container")
    ck.rule("R3", "NVI wrappers forward their arguments unchanged to the virtual lookup and return its result")
    S = Spec(ck)
    A, R = "maliput::api::", "maliput::api::rules::"

    def one(fn):
        ms = S.registry_of(fn)
        S.ck.ob("%s reads one container" % fn["q"], len(ms) == 1, where(fn), str([show(m) for m in ms]))
        return ms[0] if len(ms) == 1 else None

    for what in ("Lane", "Segment", "Junction", "BranchPoint"):
        fn = F.fn(A + "BasicIdIndex::DoGet" + what, 1)
        m = one(fn)
        if m:
            lookup(S, "BasicIdIndex.Get%s" % what, fn, m, "null")
            if what == "Lane":
                all_ = F.fn(A + "BasicIdIndex::DoGetLanes", 0)
                S.each_path("BasicIdIndex.GetLanes exposes the lane registry", all_,
                            lambda p: None if p.val == m else "returns %s" % show(p.val))
    T = "maliput::"
    for cls, get in (("TrafficLightBook", "DoGetTrafficLight"), ("IntersectionBook", "DoGetIntersection"),
                     ("ManualPhaseRingBook", "DoGetPhaseRing"), ("ManualPhaseProvider", "DoGetPhase")):
        fn = F.fn(T + cls + "::" + get, 1)
        m = one(fn)
        if m:
            lookup(S, "%s.%s" % (cls, get[2:]), fn, m, "null")
    # rule -> ring lookups
    ringm = S.registry_of(F.fn(T + "ManualPhaseRingBook::DoGetPhaseRing", 1))[0]
    for k in ("RightOfWayRule", "Rule"):
        fn = F.fn(T + "ManualPhaseRingBook::DoFindPhaseRing", ptypes=["<maliput::api::rules::%s>" % k])
        ms = [t[1] for p in (S.run(fn) or []) if p.sig == "ret" and p.val
              for t in find_terms(p.val, lambda x: x[0] == "at" and x[2] == P(fn, 0))]
        ok = len(set(ms)) == 1
        ck.ob("ManualPhaseRingBook.FindPhaseRing(%s) reads one link container" % k, ok, where(fn), str(set(ms)))
        if ok:
            link = ms[0]
            lookup(S, "ManualPhaseRingBook.FindPhaseRing(%s)" % k, fn, link, "null",
                   value=lambda p, w: p.val == ("at", ringm, w),
                   ignore=lambda p: p.facts.get(("has", ringm, ("at", link, P(fn, 0)))) is False)
    # state providers
    for k in ("RightOfWay", "DiscreteValue", "RangeValue"):
        fn = F.fn(T + "Manual%sRuleStateProvider::DoGetState" % k, nparams=1)
        m = one(fn)
        if m:
            def val(p, w):
                if p.val == w:
                    return True
                # a result built around the stored state, with nothing scheduled next
                return p.val[0] == "agg" and dict(p.val[2]).get(p.val[1] + "::state", dict(
                    (f.rpartition("::")[2], x) for f, x in p.val[2]).get("state")) == w
            lookup(S, "Manual%sRuleStateProvider.GetState" % k, fn, m, "null", value=val)
    # rulebook
    for k in ("RightOfWayRule", "SpeedLimitRule", "DirectionUsageRule"):
        fn = F.fn(T + "ManualRulebook::DoGetRule", ptypes=["rules::%s>" % k])
        m = one(fn)
        if m:
            lookup(S, "ManualRulebook.GetRule(%s)" % k, fn, m, "std::out_of_range")
    for k in ("DiscreteValueRule", "RangeValueRule"):
        fn = F.fn(T + "ManualRulebook::DoGet" + k, 1)
        m = one(fn)
        if m:
            lookup(S, "ManualRulebook.Get%s" % k, fn, m, "std::out_of_range")
    # rings
    fn = F.fn(R + "PhaseRing::GetPhase", 1)
    m = S.E.getter(R + "PhaseRing::phases", THIS)
    lookup(S, "PhaseRing.GetPhase", fn, m, "null")
    fn = F.fn(R + "PhaseRing::GetNextPhases", 1)
    m = S.E.getter(R + "PhaseRing::next_phases", THIS)
    lookup(S, "PhaseRing.GetNextPhases", fn, m, "std::out_of_range")
    # registry of rule types: a type of either kind is found with its own kind's states
    fn = F.fn(R + "RuleRegistry::GetPossibleStatesOfRuleType", 1)
    maps = [S.E.getter(R + "RuleRegistry::" + n, THIS) for n in ("RangeValueRuleTypes", "DiscreteValueRuleTypes")]
    key = P(fn, 0)

    def reg(p):
        hs = [holds(S.ctx(p), Has(m, key)) for m in maps]
        if True in hs:
            m = maps[hs.index(True)]
            f = dict((n.rpartition("::")[2], x) for n, x in p.val[2]) if p.val[0] == "agg" else {}
            vs = list(f.values())
            if p.sig != "ret" or key not in vs or ("at", m, key) not in vs:
                return "returns %s for a type registered in %s" % (show(p.val), show(m))
        elif hs == [False, False]:
            if p.sig != "ret" or p.val != NULL:
                return "returns %s for an unknown type" % show(p.val)
        else:
            return "outcome %s does not depend on both registries" % show(p.val)
    S.each_path("RuleRegistry.GetPossibleStatesOfRuleType", fn, reg, sigs=("ret", "throw", "abort"), need=3)
    # linear searches
    for cls, get, items, idg in ((R + "TrafficLight", "GetBulbGroup", "bulb_groups", R + "BulbGroup::id"),
                                 (R + "BulbGroup", "GetBulb", "bulbs", R + "Bulb::id")):
        fn = F.fn(cls + "::" + get, 1)
        det = []
        for p in S.run(fn) or []:
            C = [l.over for l in S.ctx(p).loops()] + [t[1] for t in find_terms(p.val, lambda x: x[0] == "el")]
            if p.sig != "ret" or not C:
                det.append("no search on path %s" % show_facts(p.facts))
                continue
            cond = Ex(C[0], lambda el: Eq(S.E.getter(idg, el), P(fn, 0)))
            h = holds(S.ctx(p), cond)
            if p.val == NULL and h is not False:
                det.append("returns null although a match is not excluded: %s" % show_facts(p.facts))
            if p.val != NULL and not (p.val[0] == "el" and holds(S.ctx(p), Eq(S.E.getter(idg, p.val), P(fn, 0)))):
                det.append("returns %s on path %s" % (show(p.val), show_facts(p.facts)))
        ck.ob("%s.%s finds exactly the element with that id" % (cls.split("::")[-1], get), not det, where(fn), "; ".join(det))
    # enumerations
    val = lambda el: ("val", el)
    key_ = lambda el: ("key", el)
    same = lambda el: el
    for q, getq, elem in ((T + "TrafficLightBook::DoTrafficLights", T + "TrafficLightBook::DoGetTrafficLight", val),
                          (T + "IntersectionBook::DoGetIntersections", T + "IntersectionBook::DoGetIntersection", val),
                          (T + "ManualPhaseRingBook::DoGetPhaseRings", T + "ManualPhaseRingBook::DoGetPhaseRing", key_)):
        m = S.registry_of(F.fn(getq, 1))[0]
        fn = F.fn(q, 0)
        S.each_path("%s lists every entry" % q.replace(T, ""), fn,
                    lambda p: None if collects(p, p.val, m, elem) else "does not collect every entry of %s" % show(m))
    for q in (R + "TrafficLight::bulb_groups", R + "BulbGroup::bulbs"):
        fn = F.fn(q, 0)
        getfn = F.fn(q.replace("bulb_groups", "GetBulbGroup").replace("bulbs", "GetBulb"), 1)
        cs = {t[1] for p in (S.run(getfn) or []) if p.sig == "ret" and p.val for t in find_terms(p.val, lambda x: x[0] == "el")}
        ck.ob("%s searches one container" % getfn["q"], len(cs) == 1, where(getfn))
        if len(cs) == 1:
            C = next(iter(cs))
            S.each_path("%s lists every entry" % q.replace(R, ""), fn,
                        lambda p: None if collects(p, p.val, C, same) else "does not collect every element of %s" % show(C))
    # NVI forwarding
    for q, n, do in ((A + "RoadGeometry::IdIndex::GetLane", 1, "DoGetLane"), (A + "RoadGeometry::IdIndex::GetLanes", 0, "DoGetLanes"),
                     (A + "RoadGeometry::IdIndex::GetSegment", 1, "DoGetSegment"),
                     (A + "RoadGeometry::IdIndex::GetJunction", 1, "DoGetJunction"),
                     (A + "RoadGeometry::IdIndex::GetBranchPoint", 1, "DoGetBranchPoint"),
                     (R + "TrafficLightBook::GetTrafficLight", 1, "DoGetTrafficLight"),
                     (R + "TrafficLightBook::TrafficLights", 0, "DoTrafficLights"),
                     (A + "IntersectionBook::GetIntersections", 0, "DoGetIntersections"),
                     (A + "IntersectionBook::GetIntersection", 1, "DoGetIntersection"),
                     (R + "PhaseRingBook::GetPhaseRings", 0, "DoGetPhaseRings"),
                     (R + "PhaseRingBook::GetPhaseRing", 1, "DoGetPhaseRing"),
                     (R + "PhaseRingBook::FindPhaseRing", 1, "DoFindPhaseRing"),
                     (R + "PhaseProvider::GetPhase", 1, "DoGetPhase"),
                     (R + "RightOfWayRuleStateProvider::GetState", 1, "DoGetState"),
                     (R + "DiscreteValueRuleStateProvider::GetState", None, "DoGetState"),
                     (R + "RangeValueRuleStateProvider::GetState", None, "DoGetState"),
                     (R + "RoadRulebook::GetRule", 1, "DoGetRule"), (R + "RoadRulebook::Rules", 0, "DoRules"),
                     (R + "RoadRulebook::GetDiscreteValueRule", 1, "DoGetDiscreteValueRule"),
                     (R + "RoadRulebook::GetRangeValueRule", 1, "DoGetRangeValueRule")):
        fns = [f for f in F.fns_of(q) if n is None or len(f["params"]) == n]
        if not fns:
            raise AnalysisError("anchor %s vanished" % q)
        for fn in fns:
            args = tuple(P(fn, i) for i in range(len(fn["params"])))

            def fwd(p):
                v = p.val
                if v and v[0] == "c" and v[1].endswith("::" + do) and v[2] == THIS and v[3:] == args:
                    return None
                return "returns %s" % show(v)
            S.each_path("%s(%s) forwards" % (q.replace(A, ""), ",".join(x["t"].split("::")[-1] for x in fn["params"])), fn, fwd)
    S.done()
