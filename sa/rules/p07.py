"""P07: validation of a road network rejects exactly the documented inconsistencies."""
from rules.common import *

FLOOR = 39
EXPLANATION = ("ValidateRoadNetwork is enumerated with each option alone, with every pair of options and with none: every path that "
               "throws establishes one documented inconsistency of an enabled check, and every path that returns refutes all of "
               "them for every junction, segment, lane, branch point, rule, phase and bulb (loops are proved to visit all elements). "
               "RoadGeometry::CheckInvariants reports exactly broken ownership, wrong lane indices, empty branch points and lane "
               "ends that are further apart than the tolerances.")
ASSUMPTIONS = ["the containers the road network hands out are what it stores (P01-P05)",
               "IsContiguous decides contiguity (P19)", "user implementations of the abstract API answer consistently within one call"]
A = "maliput::api::"
R = A + "rules::"
START, FINISH = ("enum", A + "LaneEnd::Which::kStart"), ("enum", A + "LaneEnd::Which::kFinish")


def run(ck):
    F = ck.F
    ck.rule("R1", "a check runs exactly when its option is set, whatever the other options")
    ck.rule("R2", "an enabled check throws exactly when its documented inconsistency exists")
    ck.rule("R3", "RoadGeometry::CheckInvariants reports exactly the violated invariants")
    opq = (A + "IsContiguous", A + "RoadGeometry::CheckInvariants", R + "TrafficLight::GetBulbGroup", R + "BulbGroup::GetBulb")
    S = Spec(ck, opaque=opq, mute_text=True)
    g = S.E.getter
    fn = F.fn(A + "ValidateRoadNetwork", 2)
    rn, opts = P(fn, 0), P(fn, 1)
    rg, rb = g(A + "RoadNetwork::road_geometry", rn), g(A + "RoadNetwork::rulebook", rn)
    prb, tlb = g(A + "RoadNetwork::phase_ring_book", rn), g(A + "RoadNetwork::traffic_light_book", rn)
    idx = g(A + "RoadGeometry::ById", rg)
    if idx[0] == "addr":
        idx = idx[1]

    def call(q, this, *args):
        return ("c", q, this) + args
    rules = g(R + "RoadRulebook::Rules", rb)

    def of(what):
        return ("f", rules, R + "RoadRulebook::QueryResults::" + what)

    def val(e):
        return ("val", e)

    def key(e):
        return ("key", e)
    # 1. direction usage
    lanes = g(A + "RoadGeometry::IdIndex::GetLanes", idx)
    if lanes[0] == "addr":
        lanes = lanes[1]

    def uncovered(el):
        """The rules found over the whole lane contain no direction usage rule."""
        length = g(A + "Lane::length", val(el))

        def f(c):
            for a in c.facts:
                for t in find_terms(a, lambda x: x[0] == "c" and x[1].endswith("FindRules") and x[2] == rb):
                    rs = t[3]
                    if rs[0] == "list" and len(rs) == 2 and lane_range(rs[1]) == (key(el), num(0), length) and t[4] == num(0):
                        return holds(c, Empty(("f", t, R + "RoadRulebook::QueryResults::direction_usage")))
            return None
        return Fn(f, "no direction usage rule over lane %s" % show(el))
    lane_ctor = {"LaneSRange": A + "LaneSRange", "SRange": A + "SRange"}

    def lane_range(t):
        if t[0] == "k" and t[1] == lane_ctor["LaneSRange"] and len(t) == 5 and t[4][0] == "k" and len(t[4]) == 5:
            return t[3], t[4][3], t[4][4]
        return None
    # 3. hierarchy

    def geo(name, this, *args):
        v = g(A + name, this, *args)
        return v

    def n(name, this):
        return geo(name, this)

    def bad_lane(lane, seg):
        return Or(Null(lane), Not(Eq(geo("Lane::segment", lane), seg)),
                  Not(Eq(geo("RoadGeometry::IdIndex::GetLane", idx, geo("Lane::id", lane)), lane)),
                  Null(geo("Lane::GetBranchPoint", lane, START)), Null(geo("Lane::GetBranchPoint", lane, FINISH)))

    def bad_segment(seg, jn):
        return Or(Null(seg), Not(Eq(geo("Segment::junction", seg), jn)),
                  Not(Eq(geo("RoadGeometry::IdIndex::GetSegment", idx, geo("Segment::id", seg)), seg)),
                  Le(n("Segment::num_lanes", seg), num(0), True),
                  counted(n("Segment::num_lanes", seg), lambda i: bad_lane(geo("Segment::lane", seg, i), seg)))

    def bad_junction(jn):
        return Or(Null(jn), Not(Eq(geo("Junction::road_geometry", jn), rg)),
                  Not(Eq(geo("RoadGeometry::IdIndex::GetJunction", idx, geo("Junction::id", jn)), jn)),
                  Le(n("Junction::num_segments", jn), num(0), True),
                  counted(n("Junction::num_segments", jn), lambda i: bad_segment(geo("Junction::segment", jn, i), jn)))

    def bad_bp(bp):
        a, b = geo("BranchPoint::GetASide", bp), geo("BranchPoint::GetBSide", bp)
        return Or(Null(bp), Not(Eq(geo("BranchPoint::road_geometry", bp), rg)),
                  Not(Eq(geo("RoadGeometry::IdIndex::GetBranchPoint", idx, geo("BranchPoint::id", bp)), bp)),
                  Null(a), Null(b),
                  And(*[EqN(geo("LaneEndSet::size", x), num(0)) for x in (a, b)]))
    nj, nbp = n("RoadGeometry::num_junctions", rg), n("RoadGeometry::num_branch_points", rg)
    hierarchy = Or(Le(nj, num(0), True), counted(nj, lambda i: bad_junction(geo("RoadGeometry::junction", rg, i))),
                   Lt(nbp, num(2), True), counted(nbp, lambda i: bad_bp(geo("RoadGeometry::branch_point", rg, i))))
    # 4. related bulb groups

    def tl_missing(tid, bgid=None, bid=None):
        tl = geo("rules::TrafficLightBook::GetTrafficLight", tlb, tid)
        bg = call(R + "TrafficLight::GetBulbGroup", tl, bgid)
        return tl, bg

    def bad_group(tid, bgid):
        tl, bg = tl_missing(tid, bgid)
        return Or(Null(tl), Null(bg))
    rel = lambda rule: geo("rules::RightOfWayRule::related_bulb_groups", rule)
    groups = Ex(of("right_of_way"), lambda r: Ex(rel(val(r)), lambda lb: Ex(val(lb), lambda b: bad_group(key(lb), b))))
    # 5. contiguity

    def gap(rule):
        z = geo("LaneSRoute::ranges", geo("rules::Rule::zone", rule))
        if z[0] == "addr":
            z = z[1]
        at = lambda i: ("at", z, i)
        notc = lambda x, y: Not(Is(("c", A + "IsContiguous", None, x, y, rg)))
        return Either(Ex(("range", num(0), add(("size", z), num(1), -1)), lambda i: notc(at(i), at(add(i, num(1), 1)))),
                      Ex(("range", num(1), ("size", z)), lambda i: notc(at(add(i, num(1), -1)), at(i))))
    contiguity = Or(Ex(of("discrete_value_rules"), lambda r: gap(val(r))), Ex(of("range_value_rules"), lambda r: gap(val(r))))
    # 6, 7. phases

    def phases(f):
        ids = geo("rules::PhaseRingBook::GetPhaseRings", prb)

        def ring(pid):
            r = geo("rules::PhaseRingBook::GetPhaseRing", prb, pid)
            ph = geo("rules::PhaseRing::phases", r)
            return Or(Null(r), Ex(ph[1] if ph[0] == "addr" else ph, lambda p: f(val(p))))
        return Or(Null(prb), Ex(ids, ring))

    def sub(t):
        return t[1] if t[0] == "addr" else t

    def not_in(c, v):
        return Not(In(c, v))

    def bad_states(ph):
        st = sub(geo("rules::Phase::discrete_value_rule_states", ph))
        return Ex(st, lambda e: not_in(sub(geo("rules::DiscreteValueRule::states",
                                               geo("rules::RoadRulebook::GetDiscreteValueRule", rb, key(e)))), val(e)))

    def bad_bulbs(ph):
        bs = sub(geo("rules::Phase::bulb_states", ph))

        def one(e):
            u = lambda x: geo("rules::UniqueBulbId::" + x, key(e))
            tl = geo("rules::TrafficLightBook::GetTrafficLight", tlb, u("traffic_light_id"))
            bg = call(R + "TrafficLight::GetBulbGroup", tl, u("bulb_group_id"))
            b = call(R + "BulbGroup::GetBulb", bg, u("bulb_id"))
            return Or(Null(tl), Null(bg), Null(b), not_in(sub(geo("rules::Bulb::states", b)), val(e)))
        return And(NotNull(bs), Ex(bs, one))
    # 8. related rules

    def bad_related(rule_el, kind):
        states = sub(geo("rules::%s::states" % kind, val(rule_el)))
        relf = R + "Rule::State::related_rules"
        missing = lambda rid: And(Not(Has(of("discrete_value_rules"), rid)), Not(Has(of("range_value_rules"), rid)))
        return Ex(states, lambda s: Ex(("f", s, relf), lambda gr: Ex(val(gr), missing)))
    related = Or(Ex(of("discrete_value_rules"), lambda r: bad_related(r, "DiscreteValueRule")),
                 Ex(of("range_value_rules"), lambda r: bad_related(r, "RangeValueRule")))
    inv = call(A + "RoadGeometry::CheckInvariants", rg)
    O = A + "RoadNetworkValidatorOptions::"
    checks = {
        O + "check_direction_usage_rule_coverage": Ex(lanes, uncovered),
        O + "check_road_geometry_invariants": Not(Empty(inv)),
        O + "check_road_geometry_hierarchy": Or(Null(rg), hierarchy),
        O + "check_related_bulb_groups": groups,
        O + "check_contiguity_rule_zones": contiguity,
        O + "check_phase_discrete_value_rule_states": phases(bad_states),
        O + "check_phase_bulb_states": phases(bad_bulbs),
        O + "check_related_rules": related,
    }
    fields = [f["q"] for f in F.cls(A + "RoadNetworkValidatorOptions")["fields"]]
    ck.ob("every validator option is specified", set(fields) == set(checks), "", "options: %s" % sorted(set(fields) ^ set(checks)))

    def on(*flags):
        return {("t", ("f", opts, f)): f in flags for f in fields}
    ps = S.run(fn, facts=on())
    if ps is not None:
        ck.ob("no option set: nothing is checked", [p.sig for p in ps] == ["ret"] and not [
            e for p in ps for e in p.events(None, True) if e.k in ("throw", "mut", "write")], where(fn))
    short = lambda f: f.rpartition("::")[2]
    for f in fields:
        if f in checks:
            S.throws_iff("ValidateRoadNetwork: %s alone" % short(f), fn, checks[f], facts=on(f))
    for i, f in enumerate(fields):
        for h in fields[i + 1:]:
            if f in checks and h in checks:
                S.throws_iff("ValidateRoadNetwork: %s with %s" % (short(f), short(h)), fn, Or(checks[f], checks[h]), facts=on(f, h))
    invariants(ck, S)
    S.done()


def invariants(ck, S):
    F = ck.F
    E = S.engine(opaque=(A + "InertialPosition::Distance", A + "Rotation::Distance", A + "Rotation::Reverse"))
    g = E.getter
    geo = lambda name, this, *a: g(A + name, this, *a)
    fn = F.fn(A + "RoadGeometry::CheckInvariants", 0)
    lin, ang = geo("RoadGeometry::linear_tolerance", THIS), geo("RoadGeometry::angular_tolerance", THIS)
    nbp, nj = geo("RoadGeometry::num_branch_points", THIS), geo("RoadGeometry::num_junctions", THIS)

    def lane_bad(lane, seg, i):
        return Or(Not(Eq(geo("Lane::segment", lane), seg)), Not(EqN(geo("Lane::index", lane), i)))

    def seg_bad(seg, jn):
        return Or(Not(Eq(geo("Segment::junction", seg), jn)),
                  counted(geo("Segment::num_lanes", seg), lambda i: lane_bad(geo("Segment::lane", seg, i), seg, i)))

    def jn_bad(jn):
        return Or(Not(Eq(geo("Junction::road_geometry", jn), THIS)),
                  counted(geo("Junction::num_segments", jn), lambda i: seg_bad(geo("Junction::segment", jn, i), jn)))

    def s_at(le, w):
        lane = ("f", le, A + "LaneEnd::lane")
        return lane, num(0) if w == START else geo("Lane::length", lane)

    def lane_pos(t):
        """s coordinate of a LanePosition(s, 0, 0) term."""
        if t[0] == "k" and t[1] == A + "LanePosition" and len(t) == 6 and t[4] == num(0) and t[5] == num(0):
            return t[3]
        return None

    def what(c, end):
        for e in (START, FINISH):
            if holds(c, Eq(("f", end, A + "LaneEnd::end"), e)) is True:
                return e
        return None

    def parse(t):
        """(kind, lane, s, reversed) of a position or orientation term."""
        rev = 0
        while t[0] == "c" and t[1] == A + "Rotation::Reverse":
            rev ^= 1
            t = t[2]
        if t[0] == "c" and t[1] in (A + "Lane::DoToInertialPosition", A + "Lane::DoGetOrientation") and len(t) == 4:
            return t[1].rpartition("::")[2], t[2], lane_pos(t[3]), rev
        return None

    def far(kind, tol, ref, le, flip):
        def f(c):
            a, b = what(c, ref), what(c, le)
            if a is None or b is None:
                return None
            want = [s_at(ref, a), s_at(le, b)]
            par = 0 if kind == "DoToInertialPosition" else ((a == START) ^ (b == START) ^ flip)
            for at in c.facts:
                for t in find_terms(at, lambda x: x[0] == "c" and x[1].endswith("::Distance") and len(x) == 4):
                    x, y = parse(t[2]), parse(t[3])
                    if x and y and x[0] == y[0] == kind and (x[3] ^ y[3]) == par and \
                            ([x[1:3], y[1:3]] in (want, want[::-1])):
                        return holds(c, Gt(t, tol))
            return None
        return Fn(f, "%s of %s is further than the tolerance from %s" % (kind, show(le), show(ref)))

    def bp_bad(bp):
        a, b = geo("BranchPoint::GetASide", bp), geo("BranchPoint::GetBSide", bp)
        na, nb = geo("LaneEndSet::size", a), geo("LaneEndSet::size", b)
        get = lambda s, i: geo("LaneEndSet::get", s, i)
        both = And(EqN(na, num(0)), EqN(nb, num(0)))

        def any_end(which):
            def f(c):
                k = holds(c, Gt(na, num(0), True))
                if k is None:  # a size is never negative
                    k = not3(holds(c, EqN(na, num(0))))
                if k is None:
                    return None
                vs = []
                for side, size in ((a, na), (b, nb)):
                    if side == a and k is False:
                        continue
                    ref = get(a, num(0)) if k else get(b, num(0))
                    flip = int((side == b) == bool(k))
                    q = (lambda le: far("DoToInertialPosition", lin, ref, le, 0)) if which == 0 else \
                        (lambda le: far("DoGetOrientation", ang, ref, le, flip))
                    vs.append(holds(c, counted(size, lambda i, q=q, side=side: q(get(side, i)))))
                return not3(and3([not3(v) for v in vs]))
            return Fn(f, ("position", "orientation")[which] + " of some lane end is off")
        return Or(Not(Eq(geo("BranchPoint::road_geometry", bp), THIS)), both, And(Not(both), any_end(0)), And(Not(both), any_end(1)))
    bad = Or(counted(nj, lambda i: jn_bad(geo("RoadGeometry::junction", THIS, i))),
             counted(nbp, lambda i: bp_bad(geo("RoadGeometry::branch_point", THIS, i))))
    reports_iff(S, "RoadGeometry.CheckInvariants: reports exactly the violated invariants", fn, bad, E=E)
