"""P08: the road network aggregates its components and decides membership."""
from rules.common import *

FLOOR = 25
EXPLANATION = ("Every path of the RoadNetwork constructors, its accessors, RoadNetwork::Contains and Lane::Contains is enumerated; "
               "the constructors fail exactly for a missing component and otherwise store each argument where the accessor of that "
               "component reads it; the membership tests are compared, comparison by comparison in exact linear arithmetic, with "
               "the documented bounds.")
ASSUMPTIONS = ["real arithmetic; no coordinate is NaN", "a queried RoadPosition carries a lane"]
A = "maliput::api::"
ORDER = ["road_geometry", "rulebook", "traffic_light_book", "intersection_book", "phase_ring_book",
         "right_of_way_rule_state_provider", "phase_provider", "rule_registry", "discrete_value_rule_state_provider",
         "range_value_rule_state_provider"]


def in_lane(S, lane, pos):
    """pos lies in lane's volume, each coordinate up to the linear tolerance of its road geometry."""
    g = S.E.getter
    s, r, h = (g(A + "LanePosition::" + n, pos) for n in "srh")
    tol = g(A + "RoadGeometry::linear_tolerance", g(A + "Junction::road_geometry", g(A + "Segment::junction", g(A + "Lane::segment", lane))))
    rb, hb = g(A + "Lane::segment_bounds", lane, s), g(A + "Lane::elevation_bounds", lane, s, r)
    lim = [(s, num(0), g(A + "Lane::length", lane)),
           (r, g(A + "RBounds::min", rb), g(A + "RBounds::max", rb)),
           (h, g(A + "HBounds::min", hb), g(A + "HBounds::max", hb))]
    return And(*[c for x, lo, hi in lim for c in (Le(sub(lo, tol), x), Le(x, add(hi, tol)))])


def run(ck):
    F = ck.F
    ck.rule("R1", "construction fails exactly when a component is missing")
    ck.rule("R2", "every accessor returns the component given for it")
    ck.rule("R3", "membership is exactly the documented bounds test")
    S = Spec(ck)
    q = A + "RoadNetwork::"
    for n in (10, 9):
        ctor = F.fn(q + "RoadNetwork", n)
        names = [x for x in ORDER if n == 10 or x != "right_of_way_rule_state_provider"]
        S.throws_iff("RoadNetwork(%d components): rejects exactly missing components" % n, ctor,
                     Or(*[Null(P(ctor, i)) for i in range(n)]))
        for i, x in enumerate(names):
            stores(S, "RoadNetwork(%d components): %s() is the one given" % (n, x), ctor, q + x, i)
    flds = [S.E.getter(q + x, THIS) for x in ORDER]
    ck.ob("every accessor reads its own component", len(set(flds)) == len(ORDER), where(F.fn(q + "rulebook", 0)))

    fn = F.fn(q + "Contains", 1, ptypes=["TypeSpecificIdentifier"])
    byid = S.E.getter(A + "RoadGeometry::ById", S.E.getter(q + "road_geometry", THIS))
    if byid[0] == "addr":
        byid = byid[1]
    S.bool_iff("RoadNetwork.Contains(LaneId): the id index of the road geometry knows the lane", fn,
               NotNull(S.E.getter(A + "RoadGeometry::IdIndex::GetLane", byid, P(fn, 0))))
    fn = F.fn(q + "Contains", 1, ptypes=["api::RoadPosition "])
    lane, pos = ("f", P(fn, 0), A + "RoadPosition::lane"), ("f", P(fn, 0), A + "RoadPosition::pos")
    S.bool_iff("RoadNetwork.Contains(RoadPosition): the lane of the position contains it", fn, in_lane(S, lane, pos),
               pre_cond=NotNull(lane))
    fn = F.fn(A + "Lane::Contains", 1)
    S.bool_iff("Lane.Contains: s, r and h within lane length, segment and elevation bounds up to linear tolerance", fn,
               in_lane(S, THIS, P(fn, 0)))
    S.done()
