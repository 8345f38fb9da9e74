"""P09: rules, phases and traffic lights keep what they were built from and reject inconsistent construction."""
from rules.common import *

FLOOR = 95
EXPLANATION = ("Every path of the constructors of rules, rule states, phases, phase rings, bulbs, bulb groups, traffic lights and "
               "their ids is enumerated: it throws exactly for the documented inconsistencies and otherwise stores every argument "
               "where the accessor of that attribute reads it; look-ups inside these objects read those records.")
ASSUMPTIONS = ["std containers and algorithms behave as specified"]
A = "maliput::api::"
R = A + "rules::"


def run(ck):
    F = ck.F
    ck.rule("R1", "construction throws exactly for the documented inconsistencies")
    ck.rule("R2", "every accessor yields the constructor argument of that name")
    ck.rule("R3", "look-ups by id inside the object yield the member with that id")
    S = Spec(ck)
    g = S.E.getter

    def keeps(ctor, cls, names, first=0):
        for i, n in enumerate(names):
            if n:
                stores(S, "%s.%s is the constructor argument" % (cls.replace(A, "").replace("rules::", ""), n), ctor,
                       cls + "::" + n, first + i)

    for q, what in ((R + "Bulb::SetBulbGroup", "group"), (R + "BulbGroup::SetTrafficLight", "traffic light")):
        fn = F.fn(q, 2)
        S.throws_iff("%s: needs a %s" % (q.replace(R, ""), what), fn, Null(P(fn, 1)))

    # rules
    st = lambda e, n: ("f", e, R + "Rule::State::" + n)
    ctor = F.fn(R + "Rule::Rule", 3)
    keeps(ctor, R + "Rule", ["id", "type_id", "zone"])
    bad_state = lambda e: Or(Lt(st(e, "severity"), num(0), True),
                             *[Ex(st(e, n), lambda m: Or(Empty(("key", m)), Repeats(("val", m))))
                               for n in ("related_rules", "related_unique_ids")])
    for cls, what, more in (("DiscreteValueRule", "values", lambda e: Or()),
                            ("RangeValueRule", "ranges", lambda e: Lt(("f", e, R + "RangeValueRule::Range::max"),
                                                                      ("f", e, R + "RangeValueRule::Range::min")))):
        ctor = F.fn(R + cls + "::" + cls, 4)
        v = P(ctor, 3)
        S.throws_iff("%s: rejects no, repeated or ill-formed states" % cls, ctor,
                     Or(Empty(v), Repeats(v), Ex(v, lambda e, more=more: Or(bad_state(e), more(e)))))
        stores(S, "%s.states are the constructor argument" % cls, ctor, R + cls + "::states", 3)
        base = [g(R + "Rule::" + n, THIS) for n in ("id", "type_id", "zone")]
        S.each_path("%s: identity and zone reach the base rule" % cls, ctor, lambda p, base=base, ctor=ctor: None if [
            final(p, b) for b in base] == [P(ctor, i) for i in range(3)] else "does not pass them on")
    for cls, flds in (("Rule::State", ["severity", "related_rules", "related_unique_ids"]),
                      ("DiscreteValueRule::DiscreteValue", ["value"]), ("RangeValueRule::Range", ["description", "min", "max"])):
        fl = [x["q"] for x in F.cls(R + cls)["fields"]]
        ck.ob("%s has exactly its documented attributes" % cls, sorted(x.rpartition("::")[2] for x in fl) == sorted(flds), "", str(fl))
    for cls, n in (("Rule::State", 3), ("DiscreteValueRule::DiscreteValue", 4), ("RangeValueRule::Range", 6)):
        ctor = F.fn(R + cls + "::" + cls.rpartition("::")[2], n)
        order = [R + "Rule::State::" + x for x in ("severity", "related_rules", "related_unique_ids")] + \
            [R + cls + "::" + x for x in ({4: ["value"], 6: ["description", "min", "max"]}.get(n, []))]
        for i, f in enumerate(order):
            stores(S, "%s(%s) is the constructor argument" % (cls, f.rpartition("::")[2]), ctor, ("f", THIS, f), i)

    # right of way, speed limit and direction usage
    q = R + "RightOfWayRule"
    ctor = F.fn(q + "::RightOfWayRule", 5)
    states, bulbs = P(ctor, 3), P(ctor, 4)
    rec = g(q + "::states", THIS)
    sid = lambda e: g(q + "::State::id", e)
    S.throws_iff("RightOfWayRule: rejects no or repeated states and repeated bulb groups", ctor,
                 Or(Empty(states), Repeats(states, sid), Ex(bulbs, lambda m: Repeats(("val", m)))))
    keeps(ctor, q, ["id", "zone", "zone_type", None, "related_bulb_groups"])
    S.each_path("RightOfWayRule.states are the given ones by id", ctor,
                lambda p: None if by_id(p, rec, states, sid) else "not registered by id")
    keeps(F.fn(q + "::State::State", 3), q + "::State", ["id", "type", "yield_to"])
    q = R + "DirectionUsageRule"
    ctor = F.fn(q + "::DirectionUsageRule", 3)
    sid2, rec2, states2 = (lambda e: g(R + "DirectionUsageRule::State::id", e)), g(q + "::states", THIS), P(ctor, 2)
    S.throws_iff("DirectionUsageRule: rejects no or repeated states", ctor, Or(Empty(states2), Repeats(states2, sid2)))
    keeps(ctor, q, ["id", "zone"])
    S.each_path("DirectionUsageRule.states are the given ones by id", ctor,
                lambda p: None if by_id(p, rec2, states2, sid2) else "not registered by id")
    keeps(F.fn(q + "::State::State", 3), q + "::State", ["id", "type", "severity"])
    for cls, r in (("RightOfWayRule", rec), ("DirectionUsageRule", rec2)):
        fn = F.fn(R + cls + "::is_static", 0)
        S.bool_iff("%s.is_static: exactly one state" % cls, fn, EqN(("size", r), num(1)))
        fn = F.fn(R + cls + "::static_state", 0)
        S.throws_iff("%s.static_state: only for static rules" % cls, fn, Not(EqN(("size", r), num(1))))
        S.each_path("%s.static_state: yields the only state" % cls, fn, lambda p, r=r: None if is_first(
            strip_addr(p.val), r) else "returns %s" % show(p.val))
    q = R + "SpeedLimitRule"
    ctor = F.fn(q + "::SpeedLimitRule", 5)
    mn, mx = P(ctor, 3), P(ctor, 4)
    S.throws_iff("SpeedLimitRule: rejects negative limits and min above max", ctor,
                 Or(Lt(mn, num(0)), Lt(mx, num(0)), Lt(mx, mn)))
    keeps(ctor, q, ["id", "zone", "severity", "min", "max"])

    # phases
    ctor = F.fn(R + "Phase::Phase", 4)
    keeps(ctor, R + "Phase", ["id", "rule_states", "discrete_value_rule_states", "bulb_states"])
    q = R + "PhaseRing"
    ctor = F.fn(q + "::PhaseRing", 3)
    phases, nxt = P(ctor, 1), P(ctor, 2)
    pid = lambda e: g(R + "Phase::id", e)
    reg, regn = g(q + "::phases", THIS), g(q + "::next_phases", THIS)
    att = lambda e, n: g(R + "Phase::" + n, e)
    ref = ("at", phases, num(0))
    diff = lambda a, b: Or(Not(EqN(("size", a), ("size", b))), Ex(b, lambda x: Not(Has(a, ("key", x)))))

    def uneven(e):
        br, be = att(ref, "bulb_states"), att(e, "bulb_states")
        return Or(*[diff(att(ref, n), att(e, n)) for n in ("rule_states", "discrete_value_rule_states")],
                  And(Null(br), NotNull(be)), And(NotNull(br), Null(be)), And(NotNull(br), NotNull(be), diff(br, be)))
    stray = lambda m: Ex(("val", m), lambda x: First(*[Not(Has(c, ("f", x, q + "::NextPhase::id"))) for c in (nxt, reg, regn)]))
    S.throws_iff("PhaseRing: rejects empty, repeated, unevenly covering phases and next phases off the ring", ctor,
                 Or(Empty(phases), Repeats(phases, pid), Ex(phases, uneven),
                    And(NotNull(nxt), Or(Not(EqN(("size", phases), ("size", nxt))),
                                         Ex(phases, lambda e: First(*[Not(Has(c, pid(e))) for c in (nxt, regn)])),
                                         First(*[Ex(c, stray) for c in (nxt, regn)])))))
    stores(S, "PhaseRing.id is the constructor argument", ctor, q + "::id", 0)
    S.each_path("PhaseRing.phases are the given ones by id", ctor, lambda p: None if by_id(p, reg, phases, pid) else "not registered by id")

    def nexts(p):
        if holds(S.ctx(p), NotNull(nxt)) is True:
            return None if final(p, regn) in (nxt, ("deref", nxt)) else "next phases become %s" % show(final(p, regn) or VOID)
        ok = for_all(p, phases, lambda el, evs: any(
            x.k == "mut" and x.a[0] == regn and x.a[1] in ("insert", "set") and x.a[2] == (pid(el), ("list",)) or
            x.k == "insert_noop" and x.a[:2] == (regn, pid(el)) for x in evs))
        return None if ok else "phases without next phases are not listed"
    S.each_path("PhaseRing.next_phases are the given ones, or none for every phase", ctor, nexts)
    fn = F.fn(q + "::GetPhase", 1)
    lookup(S, "PhaseRing.GetPhase: the phase with that id", fn, reg, "null")
    fn = F.fn(q + "::GetNextPhases", 1)
    lookup(S, "PhaseRing.GetNextPhases: the next phases of that id", fn, regn, "std::out_of_range")

    # traffic lights
    q = R + "Bulb"
    ctor = F.fn(q + "::Bulb", 8)
    arrow, ty, sts = P(ctor, 5), P(ctor, 4), P(ctor, 6)
    isarrow = Eq(ty, ("enum", R + "BulbType::kArrow"))
    S.throws_iff("Bulb: exactly arrows have an arrow orientation", ctor,
                 Or(And(isarrow, Null(arrow)), And(Not(isarrow), NotNull(arrow))))
    keeps(ctor, q, ["id", "position_bulb_group", "orientation_bulb_group", "color", "type", "arrow_orientation_rad", None, "bounding_box"])
    fld = g(q + "::states", THIS)
    dflt = ("list", ("enum", R + "BulbState::kOff"), ("enum", R + "BulbState::kOn"))

    def bstates(p):
        c = S.ctx(p)
        none = holds(c, Or(Null(sts), Empty(sts)))
        v = final(p, fld)
        return None if (none is True and v == dflt) or (none is False and v in (sts, ("deref", sts))) else \
            "states become %s" % (show(v) if v else "nothing")
    S.each_path("Bulb.states: the given ones, off and on when none is given", ctor, bstates, need=2)
    fn = F.fn(q + "::IsValidState", 1)
    S.bool_iff("Bulb.IsValidState: one of its states", fn, In(fld, P(fn, 0)))
    order = [("enum", R + "BulbState::" + x) for x in ("kOff", "kBlinking", "kOn")]

    def dstate(p):
        c = S.ctx(p)
        if p.val not in order:
            return "returns %s" % show(p.val)
        k = order.index(p.val)
        ok = holds(c, In(fld, p.val)) is True and all(holds(c, In(fld, x)) is False for x in order[:k])
        return None if ok else "returns %s without it being the first valid one" % show(p.val)
    S.each_path("Bulb.GetDefaultState: the first valid of off, blinking and on", F.fn(q + "::GetDefaultState", 0), dstate, need=3)
    for cls, mem, att2, fields, n in (
            ("BulbGroup", "Bulb", "bulb_group", ["id", "position_traffic_light", "orientation_traffic_light"], 4),
            ("TrafficLight", "BulbGroup", "traffic_light", ["id", "position_road_network", "orientation_road_network"], 4)):
        q = R + cls
        ctor = F.fn(q + "::" + cls, n)
        ms = P(ctor, 3)
        mid = lambda e, mem=mem: g(R + mem + "::id", e)
        S.throws_iff("%s: rejects null and repeated %ss%s" % (cls, mem, " and none at all" if cls == "BulbGroup" else ""), ctor,
                     Or(Ex(ms, Null), Repeats(ms, mid), *([Empty(ms)] if cls == "BulbGroup" else [])))
        keeps(ctor, q, fields)
        own = lambda el, mem=mem, att2=att2: g(R + mem + "::" + att2, el)
        S.each_path("%s: every %s learns its owner" % (cls, mem), ctor, lambda p, own=own, ms=ms: None if for_all(
            p, ms, lambda el, evs: any(x.k == "write" and ("f", x.a[0], x.a[1]) == own(el) and x.a[2] == THIS for x in evs)) or
            holds(S.ctx(p), Empty(ms)) is True else "not set")
        lst = None
        fn = F.fn(q + "::Get" + mem, 1)
        cont = [e.a[0].over for p in S.run(fn) for e in p.events("loop")] or [None]
        ck.ob("%s.Get%s searches one record" % (cls, mem), len(set(cont)) == 1 and cont[0] is not None, where(fn))
        if cont[0] is None:
            continue
        cont = cont[0]
        stores(S, "%s: its %ss are the given ones" % (cls, mem), ctor, cont, 3)
        found = Ex(cont, lambda e: Eq(mid(e), P(fn, 0)))

        def get(p, found=found, cont=cont, mid=mid, fn=fn):
            h = holds(S.ctx(p), found)
            if h is False:
                return None if p.val == NULL else "returns %s for an unknown id" % show(p.val)
            if h is True:
                v = strip_addr(p.val)
                return None if v[0] == "el" and v[1] == cont and holds(S.ctx(p), Eq(mid(v), P(fn, 0))) is True else \
                    "returns %s" % show(p.val)
            return "returns %s regardless of the id" % show(p.val)
        S.each_path("%s.Get%s: the member with that id, or null" % (cls, mem), fn, get, need=2)
        fn = F.fn(q + "::" + {"Bulb": "bulbs", "BulbGroup": "bulb_groups"}[mem], 0)
        S.each_path("%s lists every %s once" % (cls, mem), fn, lambda p, cont=cont: None if lists(p, cont) else "not all listed")
        fn = F.fn(R + mem + "::unique_id", 0)
    # ids of bulbs and bulb groups
    fn = F.fn(R + "Bulb::unique_id", 0)
    bg = g(R + "Bulb::bulb_group", THIS)
    tl = g(R + "BulbGroup::traffic_light", bg)
    S.throws_iff("Bulb.unique_id: needs an owning group and traffic light", fn, Or(Null(bg), Null(tl)))
    S.each_path("Bulb.unique_id: made of the ids of traffic light, group and bulb", fn, lambda p: None if is_k(
        p.val, R + "UniqueBulbId", (g(R + "TrafficLight::id", tl), g(R + "BulbGroup::id", bg), g(R + "Bulb::id", THIS)))
        else "returns %s" % show(p.val))
    fn = F.fn(R + "BulbGroup::unique_id", 0)
    tl = g(R + "BulbGroup::traffic_light", THIS)
    S.throws_iff("BulbGroup.unique_id: needs an owning traffic light", fn, Null(tl))
    S.each_path("BulbGroup.unique_id: made of the ids of traffic light and group", fn, lambda p: None if is_k(
        p.val, R + "UniqueBulbGroupId", (g(R + "TrafficLight::id", tl), g(R + "BulbGroup::id", THIS))) else "returns %s" % show(p.val))
    keeps(F.fn(R + "UniqueBulbId::UniqueBulbId", 3), R + "UniqueBulbId", ["traffic_light_id", "bulb_group_id", "bulb_id"])
    keeps(F.fn(R + "UniqueBulbGroupId::UniqueBulbGroupId", 2), R + "UniqueBulbGroupId", ["traffic_light_id", "bulb_group_id"])
    S.done()


def strip_addr(t):
    while t and t[0] == "addr":
        t = t[1]
    return t


def is_first(t, c):
    return t[0] in ("snd", "val") and t[1] in (("at", c, num(0)), ("front", c), ("it", c, "b"))


def is_k(t, q, args):
    return t[0] == "k" and t[1] == q and t[3:] == args


def by_id(p, rec, src, key):
    """rec receives every element of src under its key, and nothing else."""
    for e in p.trace:
        if e.k == "loop" and e.a[0].over == src and e.a[0].full and e.a[0].complete:
            l = e.a[0]
            el = l.el if l.el[0] == "el" else ("el", src, l.el[3])
            its = [i for i in l.iters if i.sig in (None, "cont")]
            if its and all([(x.a[1], x.a[2]) for x in i.events if x.k == "mut" and x.a[0] == rec] in (
                    [("insert", (key(el), el))], [("set", (key(el), el))]) for i in its):
                return True
    return False


def lists(p, cont):
    """The returned container holds exactly the elements of cont."""
    R = p.val
    if strip_addr(R) == cont:
        return True
    return collects(p, R, cont, lambda e: e) or (R[0] == "cat" and False)
