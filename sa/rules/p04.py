"""P04: the rulebook's id containers and its lane/range index stay paired; queries reach all five kinds of rule."""
from rules.common import *

FLOOR = 35
EXPLANATION = ("For the manual rulebook every abstract path of AddRule, RemoveRule, RemoveAll, Rules and FindRules is checked: adding "
               "indexes every range of the rule's zone under its lane with the rule id, removing erases the id from the index for "
               "every lane of the zone and from its container, clearing empties all containers, and queries copy each kind from its "
               "own container, filtered only by the range intersection test with the caller's tolerance.")
ASSUMPTIONS = ["SRange::Intersects decides overlap (its own contract is P19)"]

KINDS = ("RightOfWayRule", "SpeedLimitRule", "DirectionUsageRule", "DiscreteValueRule", "RangeValueRule")
FIELD = {"RightOfWayRule": "right_of_way", "SpeedLimitRule": "speed_limit", "DirectionUsageRule": "direction_usage",
         "DiscreteValueRule": "discrete_value_rules", "RangeValueRule": "range_value_rules"}


def run(ck):
    F = ck.F
    ck.rule("R1", "AddRule: each range of the zone indexed under (lane, id) with its s-range")
    ck.rule("R2", "RemoveRule: id erased from its container and from the index of each lane of the zone")
    ck.rule("R3", "RemoveAll clears every container written by AddRule")
    ck.rule("R4", "Rules/FindRules copy each kind from its own container")
    q, R, A = "maliput::ManualRulebook::", "maliput::api::rules::", "maliput::api::"
    inter = A + "SRange::Intersects"
    S = Spec(ck, opaque=(inter,))
    G = S.E.getter
    cont = {}
    for k in KINDS:
        fn = F.fn(q + "DoGetRule", ptypes=["rules::%s>" % k]) if k in KINDS[:3] else F.fn(q + "DoGet" + k, 1)
        ms = S.registry_of(fn)
        ck.ob("ManualRulebook keeps %s in one container" % k, len(ms) == 1, where(fn))
        if len(ms) == 1:
            cont[k] = ms[0]
    if len(cont) < 5:
        return S.done()

    def zone_ranges(k, rule):
        """('one', lane range) or ('many', container of lane ranges)"""
        if k in ("SpeedLimitRule", "DirectionUsageRule"):
            return "one", G(R + k + "::zone", rule)
        zone = G(R + ("Rule" if k in KINDS[3:] else k) + "::zone", rule)
        return "many", G(A + "LaneSRoute::ranges", zone)

    def rid(k, rule):
        return G(R + ("Rule" if k in KINDS[3:] else k) + "::id", rule)
    index = set()

    def index_targets(evs):
        out = []
        for e in evs:
            if e.k == "mut":
                out.append((e.a[0], e.a[1], e.a[2], e))
        return out

    def per_range(p, mode, z, pred):
        """pred(events, lane range) holds for every range of the zone on path p."""
        if mode == "one":
            return pred(p.trace, z, p)
        if decide(p.facts, ("empty", z)) is True:
            return True
        for e in p.events("loop"):
            l = e.a[0]
            if l.over == z and l.full and l.complete:
                its = [i for i in l.iters if i.sig in (None, "cont")]
                if its and all(pred(i.events, l.el, i) for i in its):
                    return True
        return False
    for k in KINDS:
        fn = F.fn(q + "AddRule", ptypes=["::" + k])
        rule = P(fn, 0)
        mode, z = zone_ranges(k, rule)

        def indexed(evs, rng, _):
            lane, srange = G(A + "LaneSRange::lane_id", rng), G(A + "LaneSRange::s_range", rng)
            for t, op, a, e in index_targets(evs):
                if op == "insert" and t[0] == "at" and t[2] == lane and a[0] == rid(k, rule) and a[1:] == (srange,):
                    index.add(t[1])
                    return True
            # a multimap insertion modelled as already present is still an insertion
            for e in evs:
                if e.k == "insert_noop" and e.a[0][0] == "at" and e.a[0][2] == lane and e.a[1] == rid(k, rule) and e.a[2] == srange:
                    return True
            return False
        S.each_path("AddRule(%s) indexes every range of its zone" % k, fn,
                    lambda p: None if per_range(p, mode, z, indexed) else "a range of the zone is not indexed")
    ck.ob("the range index is one container", len(index) == 1, where(fn), str(len(index)))
    ix = next(iter(index)) if index else None
    if ix is None:
        return S.done()
    for k in KINDS:
        fn = F.fn(q + "RemoveRule", ptypes=["rules::%s>" % ("Rule" if k in KINDS[3:] else k)])
        key = P(fn, 0)
        rule = ("at", cont[k], key)
        mode, z = zone_ranges(k, rule)

        def unindexed(evs, rng, holder):
            lane = G(A + "LaneSRange::lane_id", rng)
            facts = getattr(holder, "all_facts", None) or holder.facts
            for t, op, a, e in index_targets(evs):
                if op == "erase" and t == ("at", ix, lane) and a[0] in (rid(k, rule), key):
                    return True
            # nothing was indexed there (any more)
            for f, v in facts.items():
                if f == ("has", ix, lane) and v is False or f[0] == "has" and f[1] == ("at", ix, lane) and v is False and \
                        f[2] in (rid(k, rule), key):
                    return True
            return False

        def removed(p):
            pre = Ctx(pre_facts(p), [], F.enums)
            if holds(pre, Has(cont[k], key)) is not True:
                return None
            if not per_range(p, mode, z, unindexed):
                return "the index keeps the removed rule"
            if not any(t == cont[k] and op == "erase" and a[0] == key for t, op, a, e in index_targets(p.trace)):
                return "the rule stays in its container"
            other = [show(t) for e, t, op, a in muts(p) if t in cont.values() and t != cont[k] or op == "clear"]
            return "also changes %s" % other if other else None
        S.each_path("RemoveRule(%s) removes the rule and its index entries" % k, fn, removed)
        # the order of evaluation: the removed rule must be read before it is erased
        def order(p):
            gone = False
            for e in p.trace:
                if e.k == "mut" and e.a[0] == cont[k] and e.a[1] == "erase":
                    gone = True
                elif gone and e.k in ("mut", "loop"):
                    t = e.a[0].over if e.k == "loop" else (e.a[0],) + tuple(e.a[2])
                    if find_terms(t, lambda x: x == rule):
                        return "reads the rule after erasing it"
            return None
        S.each_path("RemoveRule(%s) does not use the rule once erased" % k, fn, order)
        # unknown ids are rejected
        bad = Not(Has(cont[k], key)) if k in KINDS[:3] else And(Not(Has(cont[KINDS[3]], key)), Not(Has(cont[KINDS[4]], key)))
        if k != KINDS[4]:
            S.throws_iff("RemoveRule(%s) rejects exactly unknown ids" % k, fn, bad)
    fn = F.fn(q + "RemoveAll", 0)
    for t in list(cont.values()) + [ix]:
        def cleared(p):
            if decide(p.facts, ("empty", t)) is True:
                return None
            return "%s is not emptied" % show(t)
        S.each_path("RemoveAll empties %s" % show(t).rpartition(".")[2], fn, cleared)
    fn = F.fn(q + "DoRules", 0)
    qr = R + "RoadRulebook::QueryResults"
    for k in KINDS:
        def copied(p):
            R_ = ("f", p.val, qr + "::" + FIELD[k])
            if collects(p, R_, cont[k], lambda el: ("val", el)):
                return None
            w = [e.a for e in p.events("write") if e.a[0] == p.val and e.a[1] == qr + "::" + FIELD[k]]
            if w and w[-1][2] == cont[k]:
                return None
            if p.val[0] == "agg" and dict(p.val[2]).get(qr + "::" + FIELD[k], dict(p.val[2]).get(FIELD[k])) == cont[k]:
                return None
            return "%s is not filled from %s" % (FIELD[k], show(cont[k]))
        S.each_path("Rules() returns every %s" % k, fn, copied)
    find_rules(S, F.fn(q + "DoFindRules", 2), cont, ix, inter, qr)
    nvi = F.fn(R + "RoadRulebook::FindRules", 2)
    S.throws_iff("FindRules rejects exactly negative tolerances", nvi, Lt(P(nvi, 1), num(0)))

    def fwd(p):
        v = p.val
        return None if v[0] == "c" and v[1].endswith("::DoFindRules") and v[3:] == (P(nvi, 0), P(nvi, 1)) else "returns %s" % show(v)
    S.each_path("FindRules forwards ranges and tolerance", nvi, fwd)
    S.done()


def find_rules(S, fn, cont, ix, inter, qr):
    ck = S.ck
    ranges, tol = P(fn, 0), P(fn, 1)
    ps = S.run(fn)
    if ps is None:
        return
    A = "maliput::api::"
    G = S.E.getter
    kinds_added, bad_ins, bad_call, bad_filter, ncalls = set(), [], [], [], 0
    seen = set()

    def walk(evs, loops):
        nonlocal ncalls
        for e in evs:
            if e.k == "call" and e.a[0] == inter:
                ncalls += 1
                recv, args = e.a[1], e.a[2]
                els = [x for x in loops if x[0] == "el" and x[1] == ranges]
                ok = False
                for x in els:
                    lane, sr = G(A + "LaneSRange::lane_id", x), G(A + "LaneSRange::s_range", x)
                    ok |= recv[0] == "val" and recv[1][0] == "el" and recv[1][1] == ("at", ix, lane) and args == (sr, tol)
                if not ok:
                    bad_call.append("%s.Intersects(%s) at line %s" % (show(recv), ", ".join(show(a) for a in args), e.line))
            if e.k in ("mut", "insert_noop"):
                t = e.a[0]
                if t[0] == "f" and t[2].startswith(qr + "::"):
                    k = [x for x, f in FIELD.items() if f == t[2].rpartition("::")[2]]
                    a = e.a[2] if e.k == "mut" else (e.a[1], e.a[2])
                    if not k or len(a) < 2 or a[1] != ("at", cont[k[0]], a[0]):
                        bad_ins.append("%s gets %s at line %s" % (show(t), ", ".join(show(x) for x in a), e.line))
                    else:
                        kinds_added.add(k[0])
            if e.k == "loop":
                l = e.a[0]
                if id(l) in seen:
                    continue
                seen.add(id(l))
                for it in l.iters:
                    calls = [x for x in it.events if x.k == "call" and x.a[0] == inter]
                    for c in calls:
                        h = decide(it.all_facts, ("t", c.a[4]))
                        adds = [x for x in it.events if x.k in ("mut", "insert_noop") and not persistent(x.a[0]) or
                                x.k == "mut" and x.a[0][0] == "f" and x.a[0][2].startswith(qr)]
                        if it.sig in (None, "cont") and (h is True) != bool(adds):
                            bad_filter.append("%s when Intersects is %s (line %s)" % ("keeps" if adds else "drops", h, c.line))
                        if it.sig in ("break", "ret"):
                            bad_filter.append("stops searching early (line %s)" % c.line)
                    walk(it.events, loops + [l.el])
    for p in ps:
        walk(p.trace, [])
    ck.ob("FindRules tests every indexed range of the lane with the caller's range and tolerance", ncalls and not bad_call, where(fn),
          "; ".join(bad_call[:2]) or "no intersection test found")
    ck.ob("FindRules keeps exactly the intersecting rules", not bad_filter and ncalls, where(fn), "; ".join(bad_filter[:3]))
    ck.ob("FindRules takes each rule from its own container", not bad_ins, where(fn), "; ".join(bad_ins[:3]))
    for k in KINDS:
        ck.ob("FindRules can return a %s" % k, k in kinds_added, where(fn), "no insertion into %s" % FIELD[k])
    rets = [p for p in ps if p.sig == "ret"]
    full = all(any(l.over == ranges and l.full and l.complete for l in S.ctx(p).loops()) or
               decide(p.facts, ("empty", ranges)) for p in rets)
    ck.ob("FindRules examines every given range", bool(rets) and full, where(fn), "a returning path stops before the last range")
