"""P21: intersections and rule tools answer from their own region, ring and current phase."""
from rules.common import *

FLOOR = 29
EXPLANATION = ("Every path of the intersection, intersection book and rule tool functions is enumerated with the provider and the geometric "
               "predicates opaque; what they return is compared with the entry of the phase the provider reports now, membership with the "
               "keys of that entry, and the book's searches with the predicate applied to every intersection it holds.")
ASSUMPTIONS = ["the phase the provider reports is one of the ring's (PhaseRing::phases().at throws otherwise)"]
A, R, B = "maliput::api::", "maliput::api::rules::", "maliput::"
I, BK = A + "Intersection::", "maliput::IntersectionBook::"


def run(ck):
    F = ck.F
    ck.rule("R1", "state queries answer from the phase the provider reports now")
    ck.rule("R2", "membership is decided by the identifiers of that phase, or by the region")
    ck.rule("R3", "searches consider every intersection of the book")
    ck.rule("R4", "rule tools answer from the current state's related entries")
    S = Spec(ck, opaque=(I + "Phase", A + "IsIncluded"))
    intersection(S)
    book(S)
    tools(S)
    S.done()


def intersection(S):
    F, g = S.F, S.E.getter
    ctor = F.fn(I + "Intersection", 3)
    stores(S, "Intersection: id() is the given one", ctor, I + "id", 0)
    stores(S, "Intersection: region() is the given one", ctor, I + "region", 1)
    ring = ring_field(S, ctor)
    S.ck.ob("Intersection: ring_id() is the id of the given ring", g(I + "ring_id", THIS) == g(R + "PhaseRing::id", ring), where(F.fn(I + "ring_id", 0)))
    ph = ("c", I + "Phase", THIS)
    phases = g(R + "PhaseRing::phases", ring)
    st = ("f", ph, R + "StateProviderResult::state")
    cur = ("at", phases, st)
    known = Or(Null(ph), Has(phases, st))
    attrs = {}
    for m, at in (("bulb_states", "bulb_states"), ("DiscreteValueRuleStates", "discrete_value_rule_states"), ("RuleStates", "rule_states")):
        fn = F.fn(I + m, 0)
        field = g(R + "Phase::" + at, cur)
        attrs[m] = field
        name = "Intersection.%s: the entry of the current phase, none without a phase" % m

        def want(p, field=field):
            c = S.ctx(p)
            h = decided(c, Null(ph))
            if p.sig != "ret":
                return None if decided(c, Has(phases, st)) is False else "throws although the phase is known"
            if h is True:
                return None if p.val == NULL else "returns %s without a phase" % show(p.val)
            if h is None:
                return "returns %s whether or not there is a phase" % show(p.val)
            if p.val == NULL:
                return None if decided(c, Null(field)) is True else "returns nothing although there is a phase"
            return None if bare(p.val) == field else "returns %s" % show(p.val)
        S.each_path(name, fn, want, sigs=("ret", "throw"), need=2)
    # Includes
    tl = pick(F, I + "Includes", "::TrafficLight>")
    bs = attrs["bulb_states"]
    S.bool_iff("Intersection.Includes(traffic light): a bulb of the current phase belongs to it", tl,
               And(NotNull(ph), NotNull(bs), Ex(bs, lambda el: Eq(g(A + "rules::UniqueBulbId::traffic_light_id", ("key", el)), P(tl, 0)))),
               pre_cond=known)
    for what, t, m in (("discrete value rule", "::Rule>", "DiscreteValueRuleStates"), ("right-of-way rule", "::RightOfWayRule>", "RuleStates")):
        fn = pick(F, I + "Includes", t)
        S.bool_iff("Intersection.Includes(%s): a state of the current phase" % what, fn,
                   And(NotNull(ph), NotNull(attrs[m]), Has(attrs[m], P(fn, 0))), pre_cond=known)
    fn = [f for f in F.fns_of(I + "Includes") if len(f["params"]) == 2][0]
    region = g(I + "region", THIS)
    call = ("c", A + "IsIncluded", None, P(fn, 0), region, P(fn, 1))
    S.throws_iff("Intersection.Includes(position): rejects exactly a null road geometry", fn, Null(P(fn, 1)))
    S.bool_iff("Intersection.Includes(position): its own region includes the position", fn, Is(call), pre_cond=NotNull(P(fn, 1)))
    # base
    ctor = F.fn(B + "Intersection::Intersection", 4)
    S.throws_iff("base Intersection: rejects exactly a null provider", ctor, Null(P(ctor, 3)))
    gp, sp = B + "ManualPhaseProvider::DoGetPhase", B + "ManualPhaseProvider::SetPhase"
    E = S.engine(opaque=(R + "PhaseProvider::GetPhase", gp, sp))
    prov = provider(S, ctor)
    rid = g(I + "ring_id", THIS)
    fn = F.fn(B + "Intersection::Phase", 0)
    wants = [("c", q, prov, rid) for q in (R + "PhaseProvider::GetPhase", gp)]
    S.each_path("base Intersection.Phase: the provider's phase of its own ring", fn,
                lambda p: None if p.val in wants or p.val == NULL and any(decide(p.facts, ("null", w)) is True for w in wants)
                else "returns %s" % show(p.val), E=E)
    fn = F.fn(B + "Intersection::SetPhase", 3)

    def sets(p):
        cs = [e for e in p.events("call", True) if e.a[0] == sp]
        if len(cs) != 1 or cs[0].a[1] != prov or cs[0].a[2] != (rid, P(fn, 0), P(fn, 1), P(fn, 2)):
            return "asks the provider for %s" % [(show(e.a[1]), tuple(map(show, e.a[2]))) for e in cs]
        return None
    S.each_path("base Intersection.SetPhase: sets the provider's phase of its own ring", fn, sets, E=E)


def bare(v):
    while v and v[0] in ("addr", "copyof", "deref"):
        v = v[1]
    return v


def pick(F, q, sub, n=1):
    for f in F.fns_of(q):
        if len(f["params"]) == n and sub in f["params"][0]["t"]:
            return f
    raise AnalysisError("anchor %s(%s) vanished" % (q, sub))


def ring_field(S, ctor):
    for p in S.E.paths(ctor):
        for e in p.trace:
            if e.k == "write" and e.a[2] in (P(ctor, 2), ("copyof", P(ctor, 2))):
                return ("f", e.a[0], e.a[1])
    raise AnalysisError("Intersection does not keep its ring")


def provider(S, ctor):
    for p in S.E.paths(ctor):
        for e in p.trace:
            if e.k == "write" and e.a[2] == P(ctor, 3):
                return ("f", e.a[0], e.a[1])
    raise AnalysisError("Intersection does not keep its provider")


def book(S):
    F, g = S.F, S.E.getter
    for c in F.fns_of(BK + "IntersectionBook"):
        if len(c["params"]) == 1 and c["params"][0]["t"].endswith("RoadGeometry *"):
            S.throws_iff("IntersectionBook: needs a road geometry", c, Null(P(c, 0)), E=S.engine(inline=[BK + "Impl"]))
    all_, inc = A + "IntersectionBook::GetIntersections", I + "Includes"
    hooks = (A + "IntersectionBook::DoGetIntersections", BK + "DoGetIntersections", BK + "Impl::DoGetIntersections")
    E = S.engine(opaque=(all_, inc, A + "LaneSRange::Intersects") + hooks)

    def is_all(t):
        return t[0] == "c" and t[1] in hooks + (all_,)
    for f in sorted(F.fns_of(BK + "DoGetFindIntersection"), key=lambda f: repr(f["params"])):
        what = f["params"][0]["t"].rpartition("::")[2].split("<")[0].strip(" &>") or f["params"][0]["t"]
        pos = "InertialPosition" in f["params"][0]["t"]
        found, missing = 0, 0
        ps = S.run(f, E)
        if ps is None:
            continue
        det, line = [], None
        rg = road_geometry(S)

        def asked(el):
            return ("c", inc, el, P(f, 0)) + ((rg,) if pos else ())
        for p in ps:
            bad = None
            if p.sig != "ret":
                bad = "throws"
            elif p.val == NULL:
                missing += 1
                ok = any(is_all(l.over) and l.full and l.complete and l.iters
                         and all(decide(i.facts, ("t", asked(elem(l)))) is False for i in l.iters if i.sig in (None, "cont"))
                         for l in (e.a[0] for e in p.events("loop", True)))
                empty = any(k[0] == "empty" and is_all(k[1]) and v for k, v in p.facts.items())
                bad = None if ok or empty else "finds nothing without asking every intersection"
            elif p.val[0] == "el" and is_all(p.val[1]):
                found += 1
                bad = None if decide(p.facts, ("t", asked(p.val))) is True else "returns one that does not include the given item"
            else:
                bad = "returns %s" % show(p.val)
            if bad:
                det.append("%s; path: %s" % (bad, show_facts(p.facts)))
                line = line or p.line
        if not det and not (found and missing):
            det.append("never finds anything" if not found else "never finds nothing")
        S.ck.ob("FindIntersection(%s): one that includes it, null only when none does" % what, not det, where(f, line), "; ".join(det[:2]))
    fn = F.fn(BK + "FindIntersections", 2)

    def meets(x):
        return Ex(g(I + "region", x), lambda a: Ex(P(fn, 0), lambda b: Is(("c", A + "LaneSRange::Intersects", a, b, P(fn, 1)))))

    def found(p):
        ret = p.val
        ls = [e.a[0] for e in p.trace if e.k == "loop" and any(insertions(i.events, ret) for i in e.a[0].iters)]
        if len(ls) != 1:
            return "fills its answer in %d loops" % len(ls)
        l = ls[0]
        if not (l.full and l.complete and is_all(bare(l.over))):
            return "does not look at every intersection"
        el = elem(l)
        for i in l.iters:
            if i.sig == "throw":
                continue
            n = top_insertions(i.events, ret)
            h = holds(Ctx(i.facts, i.events, S.enums if hasattr(S, "enums") else None), meets(el))
            if any(v != (el,) for v in n):
                return "adds %s" % show(n[0][-1])
            if len(n) > 1:
                return "adds an intersection more than once"
            if n and h is not True:
                return "adds an intersection that is not known to meet the region; path: %s" % show_facts(i.facts)
            if not n and h is not False:
                return "leaves out an intersection that may meet the region; path: %s" % show_facts(i.facts)
        return None
    S.each_path("FindIntersections: exactly those with a range meeting a given range, each once", fn, found, E=E)


def elem(l):
    return l.el if l.el[0] == "el" else ("el", l.over, l.el[3])


def top_insertions(evs, C):
    """Growths of C in one iteration, wherever they are nested."""
    out = []
    for e in evs:
        if e.k == "mut" and e.a[0] == C and e.a[1] in GROWS:
            out.append(e.a[2])
        elif e.k == "loop":
            # the iteration that leaves a loop is repeated behind it
            for i in e.a[0].iters:
                if i.sig in (None, "cont"):
                    out += top_insertions(i.events, C) * 2
    return out


def road_geometry(S):
    ctor = S.F.fn(BK + "Impl::Impl", 1)
    for p in S.E.paths(ctor):
        for e in p.trace:
            if e.k == "write" and e.a[2] == P(ctor, 0):
                fld = e.a[1]
    return ("f", ("f", THIS, BK + "impl_"), fld)


def tools(S):
    F, g = S.F, S.E.getter
    gs = (R + "DiscreteValueRuleStateProvider::GetState", B + "RightOfWayRuleTypeId")
    E = S.engine(opaque=gs)
    for n, field, text in (("YieldGroup", "related_rules", "Yield Group"), ("BulbGroup", "related_unique_ids", "Bulb Group")):
        fn = F.fn(B + "Get" + n, 1)
        key = key_of(E, fn, text)
        rel = lambda v, field=field: ("f", v, field_name(F, field))
        m = rel(P(fn, 0))
        S.throws_iff("Get%s: rejects exactly values without that group" % n, fn, Not(Has(m, key)), E=E, exc="assertion_error")
        S.returns("Get%s: the group's entry of the value" % n, fn, [(Has(m, key), lambda v, c, m=m, key=key: bare(v) == ("at", m, key))], E=E, throws=None)
        fn = F.fn(B + "GetCurrent" + n, 2)
        rule, prov = P(fn, 0), P(fn, 1)
        res = ("c", gs[0], prov, g(R + "Rule::id", rule))
        val = state_value(F, res)
        m = rel(val)
        right = ("c", gs[1], None)
        ty = g(R + "Rule::type_id", rule)
        bad = Or(Null(prov), Not(Eq(right, ty)), Null(res), Not(Has(m, key)))
        S.throws_iff("GetCurrent%s: rejects exactly null providers, other rule types, unknown rules and states without that group" % n, fn, bad, E=E, exc="assertion_error")
        S.returns("GetCurrent%s: the group's entry of the rule's current state" % n, fn,
                  [(Not(bad), lambda v, c, m=m, key=key: bare(v) == ("at", m, key))], E=E, throws=None)
    # filters
    q = B + "RuleTypeFilter::operator()"
    for f in F.fns_of(q):
        rule = P(f, 0)
        ty = g(R + "Rule::type_id", rule)
        mine = ("f", THIS, B + "RuleTypeFilter::rule_type")
        S.bool_iff("RuleTypeFilter: exactly the rules of its type", f, Eq(ty, mine))
    fs = [f for f in F.fns_of(B + "RuleTypeFilter::RuleTypeFilter") if len(f["params"]) == 1]
    for f in fs:
        if "RuleTypeFilter" not in f["params"][0]["t"]:
            stores(S, "RuleTypeFilter: keeps the given type", f, ("f", THIS, B + "RuleTypeFilter::rule_type"), 0)


def key_of(E, fn, text):
    for p in E.paths(fn):
        for k in p.facts:
            if k[0] == "has" and text in repr(k[2]):
                return k[2]
    raise AnalysisError("%s does not look up \"%s\"" % (fn["q"], text))


def field_name(F, n):
    for q in (R + "Rule::State", R + "DiscreteValueRule::DiscreteValue"):
        for f in F.classes[q]["fields"]:
            if f["n"] == n:
                return f["q"]
    raise AnalysisError("anchor %s vanished" % n)


def state_value(F, res):
    for q, c in F.classes.items():
        if q.startswith(R) and "StateResult" in q or q == R + "StateProviderResult":
            for f in c["fields"]:
                if f["n"] == "state":
                    return ("f", res, f["q"])
    raise AnalysisError("anchor StateResult::state vanished")
