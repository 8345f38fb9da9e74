"""P22: phases and routes locate positions and relate lane ranges."""
from rules.common import *
from terms import subst, add

FLOOR = 27
EXPLANATION = ("Every path of the phase and route queries is enumerated with road geometry queries opaque.  Constructor preconditions are "
               "decided for all inputs; a located position must come from a complete running comparison of one candidate per range (phase), and the "
               "relation table is decided for every combination of phase and range order, with the geometric case reduced to the sign of "
               "a triple product compared as a polynomial.")
ASSUMPTIONS = ["doubles are real numbers", "lane range and phase indices do not overflow"]
A, B, G = "maliput::api::", "maliput::routing::", "maliput::geometry_base::"
VALID, CLOSER = B + "ValidatePositionIsInLaneSRanges", G + "IsNewRoadPositionResultCloser"
TOI, TOL = A + "Lane::ToInertialPosition", A + "Lane::ToLanePosition"
BYID, RG, CONT, DIST = A + "RoadGeometry::ById", A + "RoadNetwork::road_geometry", A + "SRange::Contains", A + "InertialPosition::Distance"
BASE = (BYID, TOL, TOI, RG, CONT, DIST)
FPP, FRP, FLI = B + "Phase::FindPhasePosition", B + "Route::FindRoutePosition", B + "Route::FindLaneSRangeIndex"
REL = B + "LaneSRangeRelation::"


def run(ck):
    ck.rule("R1", "constructors reject exactly the documented invalid input")
    ck.rule("R2", "positions are located in the best of all candidates")
    ck.rule("R3", "lane range relations follow phase and range order, and the side when phases differ")
    ck.rule("R4", "connectivity problems are all reported")
    S = Spec(ck, opaque=BASE)
    validation(S)
    phase(S)
    phase_position(S)
    route(S)
    relation(S)
    connectivity(S)
    lane_s_route(S)
    S.done()


def fld(F, q, n):
    for f in F.classes[q]["fields"]:
        if f["n"] == n:
            return f["q"]
    raise AnalysisError("anchor %s::%s vanished" % (q, n))


def overload(F, q, sub):
    for f in F.fns_of(q):
        if any(sub in p["t"] for p in f["params"]):
            return f
    raise AnalysisError("anchor %s(%s) vanished" % (q, sub))


def ranged(pos, ranges, tol, S):
    """position lies in one of the ranges (spelled out)"""
    g, F = S.E.getter, S.F
    lane, s = ("f", pos, A + "RoadPosition::lane"), g(A + "LanePosition::s", ("f", pos, A + "RoadPosition::pos"))
    lid = g(A + "Lane::id", lane)

    def one(el):
        def inside(ctx):
            vs = []
            for k in ctx.facts:
                if k[0] == "t" and k[1][0] == "c" and k[1][1] == CONT and k[1][2] == g(A + "LaneSRange::s_range", el) and k[1][4] == tol:
                    pt = k[1][3]
                    if pt[0] == "k" and pt[1] == A + "SRange" and pt[3:] == (s, s):
                        vs.append(ctx.facts[k])
            return vs[0] if vs else None
        return And(Eq(g(A + "LaneSRange::lane_id", el), lid), Fn(inside, "the range contains s within tolerance"))
    return Ex(ranges, one)


def validation(S):
    F = S.F
    fn = F.fn(VALID, 3)
    pos, ranges, tol = P(fn, 0), P(fn, 1), P(fn, 2)
    bad = Or(Null(("f", pos, A + "RoadPosition::lane")), Empty(ranges), Lt(tol, num(0)))
    S.throws_iff("ValidatePositionIsInLaneSRanges: rejects exactly a null lane, no ranges or a negative tolerance", fn, bad)
    S.bool_iff("ValidatePositionIsInLaneSRanges: some range of the same lane contains s", fn, ranged(pos, ranges, tol, S), pre_cond=Not(bad))
    fn = F.fn(B + "ValidateRoutingConstraints", 1)
    c = P(fn, 0)
    ph, ro = (("f", c, fld(F, B + "RoutingConstraints", n)) for n in ("max_phase_cost", "max_route_cost"))

    def neg(o):
        return And(NotNull(o), Lt(o, num(0)))
    S.throws_iff("ValidateRoutingConstraints: rejects exactly negative costs and a route cost below the phase cost", fn,
                 Or(neg(ph), neg(ro), And(NotNull(ph), NotNull(ro), Lt(ro, ph))))


def phase(S):
    F, g = S.F, S.E.getter
    ctor = F.fn(B + "Phase::Phase", 6)
    for i, n in ((0, "index"), (1, "lane_s_range_tolerance"), (2, "start_positions"), (3, "end_positions"), (4, "lane_s_ranges")):
        stores(S, "Phase: %s() is the given one" % n, ctor, B + "Phase::" + n, i, E=S.engine(opaque=BASE + (VALID,)))
    idx, tol, st, en, rs, rn = (P(ctor, i) for i in range(6))
    rg = ("c", RG, rn)
    lane = lambda el: lane_of(S, rg, g(A + "LaneSRange::lane_id", el))
    L = "maliput::api::Lane::"

    def nulls(ps):
        return Ex(ps, lambda el: Null(("f", el, A + "RoadPosition::lane")))

    def outside(ps):
        return Ex(ps, lambda el: Not(Is(("c", VALID, None, el, rs, tol))))

    def foreign(el):
        def inside(ctx):
            for k in ctx.facts:
                if k[0] == "t" and k[1][0] == "c" and k[1][1] == CONT and k[1][3] == g(A + "LaneSRange::s_range", el) and k[1][4] == tol:
                    whole = k[1][2]
                    if whole[0] == "k" and whole[1] == A + "SRange" and whole[3:] == (num(0), g(L + "length", lane(el))):
                        return ctx.facts[k]
            return None
        return Or(Null(lane(el)), Not(Fn(inside, "inside its lane")))

    def apart(i):
        a, b = lane(("at", rs, i)), lane(("at", rs, add(i, num(1))))
        left, right = (lambda x: g(L + "to_left", x)), (lambda x: g(L + "to_right", x))
        return Not(Or(And(Eq(left(a), b), Eq(right(b), a)), And(Eq(left(b), a), Eq(right(a), b))))
    n1 = add(("size", rs), num(-1))
    bad = Or(Lt(idx, num(0)), Lt(tol, num(0)), Empty(st), nulls(st), Empty(en), nulls(en), Empty(rs), Null(rn), Ex(rs, foreign), outside(st), outside(en),
             Ex(("range", num(0), n1), apart))
    S.throws_iff("Phase: rejects exactly the documented invalid input", ctor, bad, E=S.engine(opaque=BASE + (VALID,)))


def lane_of(S, rg, lid):
    return S.E.getter(A + "RoadGeometry::IdIndex::GetLane", ("c", BYID, rg), lid)


# ---------------------------------------------------------------------------------------------- locating positions
def best_of(p, M, sizes, better=CLOSER):
    """("first" | "best", index) of the entry of vector M the path settles on: the first one when no later entry was better,
    the running best otherwise.  A complaint when the comparison does not reach every entry."""
    def cmp(facts):
        out = []
        for k, v in facts.items():
            if k[0] == "t" and k[1][0] == "c" and k[1][1] == better and all(x[0] == "at" and x[1] == M for x in k[1][3:5]):
                out.append((k[1][3][2], k[1][4][2], v))
        return out
    hits = []
    for l in (e.a[0] for e in p.events("loop", True)):
        if l.over[0] == "range" and any(cmp(i.facts) for i in l.iters):
            hits.append(l)
    if len(hits) != 1:
        raise Unknown("%d loops compare the candidates" % len(hits))
    l = hits[0]
    if not (l.full and l.complete and l.over[1] in (num(0), num(1)) and l.over[2] in sizes):
        return "compares candidates %s only" % show(l.over)
    for i in l.iters:
        if i.sig not in (None, "cont"):
            raise Unknown("the comparing loop is left early")
        cs = [c for c in cmp(i.facts) if l.el in c[:2]]
        if not cs:
            raise Unknown("an iteration does not compare")
        a, b, v = cs[0]
        if a != l.el:
            return "asks whether the current best is closer than the new candidate"
        if b[0] != "hv":
            raise Unknown("the new candidate is compared with %s" % show(b))
        moved = any(x == l.pos for x in (i.changed or {}).values())
        if moved is not v:
            return "keeps the %s candidate although the new one is%s closer" % (("new" if moved else "old"), "" if v else " not")
    return l


def settled(p, l, i):
    """i is the index the comparing loop l leaves behind."""
    return i == l.pos or i == num(0)


def built(p, R, M):
    """[iterations] of the complete loop that appends one entry to R per element of M; complaint as string."""
    ls = [e.a[0] for e in p.events("loop", True) if any(insertions(i.events, R) for i in e.a[0].iters)]
    if len(ls) != 1:
        raise Unknown("%s is filled by %d loops" % (show(R), len(ls)))
    l = ls[0]
    if not (l.full and l.complete):
        return "does not build a candidate for every entry of %s" % show(M)
    if l.over == M:
        el = l.el if l.el[0] == "el" else ("el", M, l.el[3])
    elif l.over == ("range", num(0), ("size", M)):
        el = ("at", M, l.pos)
    else:
        return "builds candidates from %s" % show(l.over)
    out = []
    for i in l.iters:
        n = insertions(i.events, R)
        if i.sig == "throw":
            continue
        if len(n) != 1:
            return "builds %d candidates for an entry of %s" % (len(n), show(M))
        out.append((i, el, n[0], l.pos))
    return out


def is_k(t, cls, *args):
    return t[0] == "k" and t[1] == cls and (not args or t[3:] == args)


def phase_position(S):
    F, g = S.F, S.E.getter
    E = S.engine(opaque=BASE + (VALID, CLOSER))
    fn = overload(F, FPP, "InertialPosition")
    ranges, tol = g(B + "Phase::lane_s_ranges", THIS), g(B + "Phase::lane_s_range_tolerance", THIS)
    rn = the_network(S, B + "Phase::Phase", 5)
    RP, PP = A + "RoadPosition", A + "LanePosition"
    cons = {}

    def candidate(i, el, v):
        lane = lane_of(S, ("c", RG, rn), g(A + "LaneSRange::lane_id", el))
        res = ("c", TOL, lane, P(fn, 0))
        lp = ("f", res, A + "LanePositionResult::lane_position")
        r = agg(v)
        if set(r) < {"road_position", "nearest_position", "distance"}:
            raise Unknown("candidate %s" % show(v))
        inr = None
        for k, val in i.facts.items():
            if k[0] == "t" and k[1][0] == "c" and k[1][1] == VALID and is_k(k[1][3], RP, lane, lp) and k[1][4] == ("list", el) and k[1][5] == tol:
                inr = val
            elif k[0] == "t" and k[1][0] == "c" and k[1][1] == VALID:
                return "asks whether %s lies in %s with tolerance %s" % tuple(show(x)[:150] for x in k[1][3:6])
        pos = r["road_position"]
        if not is_k(pos, RP) or pos[3] != lane:
            return "the candidate of a range is on %s" % show(pos)
        if inr is None:
            raise Unknown("whether the lane's own answer lies in the range is not visible")
        if inr:
            ok = pos[4] == lp and r["nearest_position"] == ("f", res, A + "LanePositionResult::nearest_position") and \
                r["distance"] == ("f", res, A + "LanePositionResult::distance")
            return None if ok else "a lane position in the range is not taken as it is: %s" % show(v)[:200]
        if not is_k(pos[4], PP):
            return "outside the range the candidate is at %s" % show(pos[4])
        sr = g(A + "LaneSRange::s_range", el)
        s0, s1, s = g(A + "SRange::s0", sr), g(A + "SRange::s1", sr), g(A + "LanePosition::s", lp)
        d0, d1 = (("abs", add(s, x, -1)) for x in (s0, s1))
        x = pos[4][3]
        if x not in (s0, s1):
            if x == s:
                return "outside the range the candidate is not moved into it"
            raise Unknown("clamped s is %s" % show(x))
        near = decided(Ctx(i.facts, i.events, F.enums), Le(d0, d1) if x == s0 else Ge(d0, d1))
        if near is not True:
            return "the end of the range that is not known to be nearer is taken"
        if pos[4][4:] != (num(0), num(0)):
            return "the clamped position is not on the centerline"
        ip = ("c", TOI, lane, pos[4])
        if r["nearest_position"] != ip:
            return "the nearest position is %s" % show(r["nearest_position"])[:200]
        if r["distance"] not in (("c", DIST, ip, P(fn, 0)), ("c", DIST, P(fn, 0), ip)):
            return "the distance is %s" % show(r["distance"])[:200]
        return None

    def want(p):
        r = agg(p.val)
        if "lane_s_range_index" not in r:
            raise Unknown("returns %s" % show(p.val))
        vecs = {t[1] for t in find_terms(p.val, lambda t: t[0] == "at" and t[1][0] == "loc")}
        if len(vecs) != 1:
            raise Unknown("the result is not an entry of one vector of candidates")
        M = vecs.pop()
        c = built(p, M, ranges)
        if isinstance(c, str):
            return c
        for i, el, ins, _ in c:
            w = candidate(i, el, ins[-1])
            if w:
                return w
        l = best_of(p, M, (("size", M), ("size", ranges)))
        if isinstance(l, str):
            return l
        ix = r["lane_s_range_index"]
        e = ("at", M, ix)
        if not settled(p, l, ix):
            return "reports index %s" % show(ix)
        RR = A + "RoadPositionResult::"
        wants = {"lane_position": ("f", ("f", e, RR + "road_position"), RP + "::pos"), "inertial_position": ("f", e, RR + "nearest_position"),
                 "distance": ("f", e, RR + "distance")}
        for k, w in wants.items():
            if r.get(k) != w:
                return "%s is %s" % (k, show(r.get(k)))
        return None
    S.each_path("Phase.FindPhasePosition(inertial): the closest of every range's nearest position", fn, want, E=E, need=1)
    fn2 = overload(F, FPP, "RoadPosition")
    E = S.engine(opaque=BASE + (VALID, CLOSER, FPP))
    pos = P(fn2, 0)
    lane, lp = ("f", pos, RP + "::lane"), ("f", pos, RP + "::pos")
    inr = Is(("c", VALID, None, pos, ranges, tol))
    S.throws_iff("Phase.FindPhasePosition(road position): rejects exactly a null lane", fn2, Null(lane), E=E)

    def own(v, ctx):
        r = agg(v)
        if "lane_s_range_index" not in r:
            return False
        el = indexed(r["lane_s_range_index"], ranges)
        if el is None:
            return r["lane_s_range_index"] == ("size", ranges) and \
                holds(ctx, Ex(ranges, lambda el: Eq(g(A + "LaneSRange::lane_id", el), g(A + "Lane::id", lane)))) is False
        if decided(ctx, Eq(g(A + "LaneSRange::lane_id", el), g(A + "Lane::id", lane))) is not True:
            return False
        ips = find_terms(v, lambda t: t[0] == "c" and t[1] == TOI)
        if len(set(ips)) != 1:
            return False
        ip = ips[0]
        res = ("c", TOL, lane, ip)
        LR = A + "LanePositionResult::"
        return ip[2] == lane and is_k(ip[3], PP, g(PP + "::s", lp), num(0), num(0)) and r["lane_position"] == ("f", res, LR + "lane_position") and \
            r["inertial_position"] == ("f", res, LR + "nearest_position") and r["distance"] == ("f", res, LR + "distance")
    S.returns("Phase.FindPhasePosition(road position): its own range when it is in the phase, by inertial position otherwise", fn2,
              [(Not(inr), ("c", FPP, THIS, ("c", TOI, lane, lp))), (inr, own)], E=E, throws=None)


def indexed(t, M):
    """The element of M whose index the term is."""
    if t[0] == "c" and t[1] == "std::distance" and t[3][:2] == ("it", M) and t[4][0] in ("itw", "it") and t[4][1] == M and t[4][2][0] == "el":
        return t[4][2]
    if t[0] == "ix" and t[1] == num(0) and t[2] == ("size", M):
        return ("el", M, t[3])
    if t[0] == "lin":
        return None
    return None


def the_network(S, ctor, i):
    fn = S.F.fn(ctor, 6 if ctor.endswith("Phase") else 2)
    for p in S.engine(opaque=BASE + (VALID,)).paths(fn):
        for e in p.trace:
            if e.k == "write" and e.a[2] == P(fn, i):
                return ("f", e.a[0], e.a[1])
    raise AnalysisError("%s does not keep its road network" % ctor)


def field_given(S, ctor, i):
    for p in S.E.paths(ctor):
        for e in p.trace:
            if e.k == "write" and e.a[2] == P(ctor, i):
                return ("f", e.a[0], e.a[1])
    raise AnalysisError("%s does not keep its argument %d" % (ctor["q"], i))


def route(S):
    F, g = S.F, S.E.getter
    ctor = F.fn(B + "Route::Route", 2)
    phases, rn = field_given(S, ctor, 0), field_given(S, ctor, 1)
    S.throws_iff("Route: rejects exactly no phases or a null road network", ctor, Or(Empty(P(ctor, 0)), Null(P(ctor, 1))))
    fn = F.fn(FLI, 1)
    idx = index_map(S, fn)
    LI = B + "Route::LaneSRangeIndex::"

    def indexes(p):
        outer = [e.a[0] for e in p.events("loop", True) if any(x.k == "loop" for i in e.a[0].iters for x in i.events)]
        if len(outer) != 1:
            raise Unknown("the index is not built by one pair of loops")
        o = outer[0]
        if not (o.full and o.complete and o.over in (P(ctor, 0), phases, ("range", num(0), ("size", P(ctor, 0))), ("range", num(0), ("size", phases)))):
            return "does not index every phase"
        for i in o.iters:
            if i.sig == "throw":
                continue
            inner = [x.a[0] for x in i.events if x.k == "loop"]
            if len(inner) != 1:
                raise Unknown("ranges of a phase are visited by %d loops" % len(inner))
            l = inner[0]
            M = l.over[2][1] if l.over[0] == "range" and l.over[1] == num(0) and l.over[2][0] == "size" else l.over
            if not (l.full and l.complete and find_terms(M, lambda t: t == o.el or t[0] == "el" and t[1] in (phases, P(ctor, 0)))):
                return "does not index every lane range of a phase"
            for j in l.iters:
                if j.sig == "throw":
                    continue
                ms = [e for e in j.events if e.k == "mut" and e.a[1] == "push_back" and e.a[0][0] == "at" and e.a[0][1] == idx]
                if len(ms) != 1:
                    return "a lane range is indexed %d times" % len(ms)
                tgt, a = ms[0].a[0], agg(ms[0].a[2][0])
                el = ("at", M, l.pos) if l.pos[0] == "ix" else l.el
                if tgt[2] not in (g(A + "LaneSRange::lane_id", el), g(A + "LaneSRange::lane_id", ("el", M, l.el[-1]))):
                    return "indexes a range under %s" % show(tgt[2])
                at = lambda t, l: t == l.pos or t is not None and t[0] == "ix" and t[1] == num(0) and t[3] == l.id
                if not at(a.get("phase"), o) or not at(a.get("lane_s_range"), l):
                    return "indexes a range as %s" % show(ms[0].a[2][0])
        return None
    S.each_path("Route: every lane range is indexed by its lane, phase and position", ctor, indexes)
    # lookup of the index
    LC = A + "LaneSRange::Contains"
    E = S.engine(opaque=BASE + (LC,))
    r = P(fn, 0)
    lid = g(A + "LaneSRange::lane_id", r)
    at = ("at", idx, lid)
    tol = g(A + "RoadGeometry::linear_tolerance", ("c", RG, rn))

    def rng(x):
        return ("at", g(B + "Phase::lane_s_ranges", ("at", phases, ("f", x, LI + "phase"))), ("f", x, LI + "lane_s_range"))

    def found(el):
        return Is(("c", LC, rng(el), r, tol))
    some = And(Has(idx, lid), Ex(at, found))
    S.returns("Route: a lane range is found exactly in a range of its lane that contains it within linear tolerance", fn,
              [(some, lambda v, c: v[0] == "el" and v[1] == at and holds(c, found(v)) is True), (Not(some), NULL)], E=E, throws=None)
    # positions
    E = S.engine(opaque=BASE + (VALID, CLOSER, FPP, FRP))
    fi, fr = overload(F, FRP, "InertialPosition"), overload(F, FRP, "RoadPosition")
    RR = B + "RoutePositionResult::"

    def candidates(p):
        vecs = {t[1] for t in find_terms(p.val, lambda t: t[0] == "at" and t[1][0] == "loc")}
        if len(vecs) != 1:
            raise Unknown("the result is not an entry of one vector")
        M = vecs.pop()
        if p.val[0] != "at" or p.val[1] != M:
            raise Unknown("returns %s" % show(p.val))
        c = built(p, M, phases)
        if isinstance(c, str):
            return c
        for i, el, ins, ix in c:
            a = agg(ins[-1])
            if len(ins) == 2 and ins[0] != ix:
                return "stores a candidate at %s" % show(ins[0])
            if a.get("phase_index") != ix:
                return "phase_index is %s" % show(a.get("phase_index"))
            if a.get("phase_position_result") not in (("c", FPP, el, P(fi, 0)), ("c", FPP, ("at", phases, ix), P(fi, 0)), ("c", FPP, ("el", phases, ix[-1]), P(fi, 0))):
                return "the candidate of a phase is %s" % show(a.get("phase_position_result"))
        # the same, as road positions
        vs = {k[1][3][1] for e in p.events("loop", True) for i in e.a[0].iters for k in i.facts
              if k[0] == "t" and k[1][0] == "c" and k[1][1] == CLOSER and k[1][3][0] == "at"}
        if len(vs) != 1:
            raise Unknown("%d vectors are compared" % len(vs))
        N = vs.pop()
        c = built(p, N, M)
        if isinstance(c, str):
            return c
        PR = B + "PhasePositionResult::"
        for i, el, ins, ix in c:
            a = agg(ins[-1])
            pr = ("f", el, RR + "phase_position_result")
            ranges = g(B + "Phase::lane_s_ranges", ("at", phases, ("f", el, RR + "phase_index")))
            lane = lane_of(S, ("c", RG, rn), g(A + "LaneSRange::lane_id", ("at", ranges, ("f", pr, PR + "lane_s_range_index"))))
            pos = a.get("road_position")
            if pos is None:
                raise Unknown("compares %s" % show(ins[-1]))
            if not is_k(pos, A + "RoadPosition", lane, ("f", pr, PR + "lane_position")):
                return "a candidate is compared as position %s" % show(pos)
            for k, w in (("nearest_position", "inertial_position"), ("distance", "distance")):
                if a.get(k) != ("f", pr, PR + w):
                    return "a candidate is compared with %s %s" % (k, show(a.get(k)))
        l = best_of(p, N, tuple(("size", x) for x in (M, N, phases)))
        if isinstance(l, str):
            return l
        return None if settled(p, l, p.val[2]) else "returns candidate %s" % show(p.val[2])
    S.each_path("Route.FindRoutePosition(inertial): the closest of every phase's result", fi, candidates, E=E)
    pos = P(fr, 0)
    lane = ("f", pos, A + "RoadPosition::lane")
    S.throws_iff("Route.FindRoutePosition(road position): rejects exactly a null lane", fr, Null(lane), E=E)

    def inside(ph):
        return Is(("c", VALID, None, pos, g(B + "Phase::lane_s_ranges", ph), g(B + "Phase::lane_s_range_tolerance", ph)))
    some = Ex(phases, inside)

    def phase_of(v, c):
        a = agg(v)
        el = indexed(a.get("phase_index", NULL), phases)
        return el is not None and holds(c, inside(el)) is True and a.get("phase_position_result") == ("c", FPP, el, pos)
    S.returns("Route.FindRoutePosition(road position): a phase that contains it, by inertial position when none does", fr,
              [(some, phase_of), (Not(some), ("c", FRP, THIS, ("c", TOI, lane, ("f", pos, A + "RoadPosition::pos"))))], E=E, throws=None)


def index_map(S, fn):
    for p in S.engine(opaque=BASE + (A + "LaneSRange::Contains",)).paths(fn):
        for k in p.facts:
            if k[0] == "has":
                return k[1]
    raise AnalysisError("Route does not index its ranges")


# ---------------------------------------------------------------------------------------------- relations
MB, M3 = "maliput::math::VectorBase::", "maliput::math::Vector3"


class Other(Exception):
    """A vector that is not one of the two ends' positions or axes."""


class Geo:
    """Polynomials over named 3-vectors; positive factors of vectors are dropped."""

    def __init__(self, names):
        self.names = names

    def vec(self, t):
        if t in self.names:
            return tuple({((self.names[t], i),): 1} for i in "xyz")
        if t[0] == "c" and t[1].startswith("maliput::math::"):
            op = t[1].rpartition("::")[2]
            a = [x for x in t[2:] if x is not None]
            if op == "normalized":
                return self.vec(a[0])
            if op == "cross":
                u, v = self.vec(a[0]), self.vec(a[1])
                return tuple(self.sub(self.mul(u[i], v[j]), self.mul(u[j], v[i])) for i, j in ((1, 2), (2, 0), (0, 1)))
            if op == "operator-" and len(a) == 2:
                return tuple(self.sub(x, y) for x, y in zip(self.vec(a[0]), self.vec(a[1])))
            if op == "operator-" and len(a) == 1:
                return tuple({m: -c for m, c in x.items()} for x in self.vec(a[0]))
        if t[0] == "k" and t[1] == M3 and all(x[0] == "n" for x in t[3:]):
            return tuple({(): x[1]} if x[1] else {} for x in t[3:])
        if t[0] == "f" and t[1][0] == "c" and t[1][1] == TOI or t[0] == "c" and t[1].endswith("Quaternion::operator*"):
            raise Other("uses %s" % show(t)[:200])
        raise Unknown("vector %s" % show(t)[:120])

    def scalar(self, t):
        if t[0] == "c" and t[1].startswith("maliput::math::") and t[1].endswith("::dot"):
            a = [x for x in t[2:] if x is not None]
            u, v = self.vec(a[0]), self.vec(a[1])
            out = {}
            for x, y in zip(u, v):
                out = self.sub(out, {m: -c for m, c in self.mul(x, y).items()})
            return out
        if t[0] == "lin" and t[2] == 0:
            out = {}
            for x, k in t[1]:
                out = self.sub(out, {m: -c * k for m, c in self.scalar(x).items()})
            return out
        raise Unknown("scalar %s" % show(t)[:120])

    @staticmethod
    def mul(a, b):
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                out[k] = out.get(k, 0) + c * d
        return {k: v for k, v in out.items() if v}

    @staticmethod
    def sub(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) - v
        return {k: v for k, v in out.items() if v}


def relation(S):
    F, g = S.F, S.E.getter
    GO = A + "Lane::GetOrientation"
    E = S.engine(opaque=BASE + (FLI, GO))
    fn = F.fn(B + "Route::ComputeLaneSRangeRelation", 2)
    ctor = F.fn(B + "Route::Route", 2)
    phases, rn = field_given(S, ctor, 0), field_given(S, ctor, 1)
    rg = ("c", RG, rn)
    ia, ib = (("c", FLI, THIS, P(fn, i)) for i in (0, 1))
    LI = B + "Route::LaneSRangeIndex::"
    pa, pb = (("f", x, LI + "phase") for x in (ia, ib))
    la, lb = (("f", x, LI + "lane_s_range") for x in (ia, ib))

    def rng(i):
        return ("at", g(B + "Phase::lane_s_ranges", ("at", phases, ("f", i, LI + "phase"))), ("f", i, LI + "lane_s_range"))
    known = And(NotNull(ia), NotNull(ib))
    dp = add(pa, pb, -1)
    dl = add(la, lb, -1)
    en = lambda n: ("enum", REL + n)

    def value(v, ctx):
        if v[0] == "at" and v[1][0] == "list" and v[2][0] == "enum":
            return v[1][1:][order_of(F, v[2][1])]
        return v
    def plain(cond, rel):
        return (cond, lambda v, c: value(v, c) == en(rel))
    same_phase = And(known, EqN(dp, num(0)))
    cases = [plain(Not(known), "kUnknown"),
             plain(Or(Gt(dp, num(1), ints=True), Lt(dp, num(-1), ints=True)), "kUnrelated"),
             plain(And(same_phase, EqN(dl, num(0))), "kCoincident"),
             plain(And(same_phase, EqN(dl, num(1))), "kAdjacentRight"),
             plain(And(same_phase, Gt(dl, num(1), ints=True)), "kRight"),
             plain(And(same_phase, EqN(dl, num(-1))), "kAdjacentLeft"),
             plain(same_phase, "kLeft")]

    def side(ahead):
        """b succeeds (ahead) or precedes a: the side is that of b's near end seen from a's near end."""
        def end(i, start):
            r = rng(i)
            lane = lane_of(S, rg, g(A + "LaneSRange::lane_id", r))
            return lane, g(A + "SRange::" + ("s0" if start else "s1"), g(A + "LaneSRange::s_range", r))
        (lana, sa), (lanb, sb) = end(ia, not ahead), end(ib, ahead)
        tol = g(A + "RoadGeometry::linear_tolerance", rg)

        def check(v, ctx):
            try:
                return check_(v, ctx)
            except Other:
                return False

        def check_(v, ctx):
            got = value(v, ctx)
            word = "Succeeding" if ahead else "Preceding"
            if got not in [en("k" + word + x) for x in ("Left", "Straight", "Right")]:
                return False
            # name the vectors
            names, q = {}, {}
            for k in ctx.facts:
                for t in find_terms(k, lambda t: t[0] == "c" and t[1] in (TOI, GO)):
                    if t[2] == lana and is_k(t[3], A + "LanePosition", sa, num(0), num(0)):
                        q[t] = "a"
                    elif t[2] == lanb and is_k(t[3], A + "LanePosition", sb, num(0), num(0)):
                        q[t] = "b"
            for k in ctx.facts:
                for t in find_terms(k, lambda t: t[0] == "f" and t[1] in q and t[1][1] == TOI):
                    names[t] = "P" + q[t[1]]
                for t in find_terms(k, lambda t: t[0] == "c" and t[1].endswith("Quaternion::operator*")):
                    if t[3][0] == "f" and t[3][1] in q and t[3][1][1] == GO and q[t[3][1]] == "a" and t[4][0] == "k" and t[4][1] == M3:
                        for ax, u in (("S", (1, 0, 0)), ("T", (0, 1, 0)), ("H", (0, 0, 1))):
                            if t[4][3:] == tuple(num(x) for x in u):
                                names[t] = ax
            geo = Geo(names)
            d = [{(("Pb", i),): 1, (("Pa", i),): -1} for i in "xyz"]
            # distance against the tolerance
            within = left = None
            for k, val in ctx.facts.items():
                if k[0] not in ("lt", "gt"):
                    continue
                norms = find_terms(k[1], lambda t: t[0] == "c" and t[1] == MB + "norm")
                if norms:
                    vec = geo.vec(norms[0][2])
                    if list(vec) not in (d, [{m: -c for m, c in x.items()} for x in d]):
                        return False
                    h = decided(ctx, Le(norms[0], tol))
                    within = h if h is not None else within
                    continue
                if k[2] != 0 and k[2] != num(0):
                    continue
                if not find_terms(k[1], lambda t: t[0] == "c" and t[1].endswith("::dot")):
                    continue
                pol = geo.scalar(k[1])
                ref = {}
                sx = [{(("S", i),): 1} for i in "xyz"]
                hx = [{(("H", i),): 1} for i in "xyz"]
                for i in range(3):
                    j, m = (i + 1) % 3, (i + 2) % 3
                    cr = geo.sub(geo.mul(sx[j], d[m]), geo.mul(sx[m], d[j]))
                    ref = geo.sub(ref, {a: -b for a, b in geo.mul(cr, hx[i]).items()})
                lt = {}
                for i in range(3):
                    lt = geo.sub(lt, {a: -b for a, b in geo.mul({(("T", "xyz"[i]),): 1}, d[i]).items()})
                sign = 1 if pol in (ref, lt) else -1 if {a: -b for a, b in pol.items()} in (ref, lt) else 0
                if not sign:
                    return False
                # on the line itself (0) either side will do
                left = val if (k[0] == "gt") == (sign == 1) else not val
            what = got[1].rpartition("k" + word)[2]
            if within is True:
                return what == "Straight"
            if within is None:
                return False
            return left is not None and what == ("Left" if left else "Right")
        return check
    cases.append((And(known, EqN(dp, num(-1))), side(True)))
    cases.append((known, side(False)))
    S.returns("Route.ComputeLaneSRangeRelation: the documented relation for every order of phases and ranges", fn, cases, E=E)


def order_of(F, q):
    e = F.enums.get(q.rpartition("::")[0])
    if e is None or q not in e["consts"]:
        raise AnalysisError("anchor %s vanished" % q)
    return e["vals"][e["consts"].index(q)]


# ---------------------------------------------------------------------------------------------- connectivity
class Shim:
    def __init__(self, evs):
        self.evs = evs

    def events(self, kind=None, deep_=False):
        return [e for e in (deep(self.evs) if deep_ else self.evs) if kind is None or e.k == kind]


def connectivity(S):
    F, g = S.F, S.E.getter
    GOB, CLOSE = A + "Lane::GetOngoingBranches", A + "IsInertialPositionClose"
    E = S.engine(opaque=BASE + (GOB, CLOSE))
    fn = F.fn(B + "Route::ValidateEndToEndConnectivity", 0)
    ctor = F.fn(B + "Route::Route", 2)
    phases, rn = field_given(S, ctor, 0), field_given(S, ctor, 1)
    tol = g(A + "RoadGeometry::linear_tolerance", ("c", RG, rn))
    starts, ends = (lambda ph: g(B + "Phase::start_positions", ph)), (lambda ph: g(B + "Phase::end_positions", ph))
    lane = lambda p: ("f", p, A + "RoadPosition::lane")
    inertial = lambda p: ("c", TOI, lane(p), ("f", p, A + "RoadPosition::pos"))

    def appends(evs, R):
        return [e for e in evs if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]

    def close(facts, e):
        """{position: bool} of the positions compared with e"""
        out = {}
        for k, v in facts.items():
            if k[0] == "null" and k[1][0] == "f" and k[1][1][0] == "c" and k[1][1][1] == CLOSE:
                c = k[1][1]
                ab = [x for x in c[3:5]]
                if c[5] == tol and inertial(e) in ab:
                    o = ab[1] if ab[0] == inertial(e) else ab[0]
                    if o[0] == "c" and o[1] == TOI and o[2][0] == "f" and o == inertial(o[2][1]):
                        out[o[2][1]] = v
        return out

    def one(i, e, nxt, R):
        """complaint about the iteration of end position e against the next phase's start positions"""
        n = len(appends(i.events, R))
        c = Ctx(i.facts, i.events, F.enums)
        same_lane = holds(c, Ex(nxt, lambda b: Eq(lane(e), lane(b))))
        cl = close(i.facts, e)
        if same_lane is None:
            raise Unknown("whether a start position shares the lane is not visible")
        if same_lane:
            vs = [v for b, v in cl.items() if (b[0] == "el" and b[1] == nxt or b[0] == "at" and b[1] == nxt) and decided(c, Eq(lane(e), lane(b))) is True]
            if not vs:
                return "a start position on the same lane is not compared with the end position"
            if n != (0 if vs[0] else 1):
                return "reports %d problems for a %s position on the same lane" % (n, "coincident" if vs[0] else "distant")
            return None
        # another lane: it must be among the ongoing branches of the nearer end
        gobs = {t for e2 in [i.facts] for k in e2 for t in find_terms(k, lambda t: t[0] == "c" and t[1] == GOB)}
        for x in deep(i.events):
            if x.k == "loop":
                gobs |= set(find_terms(x.a[0].over, lambda t: t[0] == "c" and t[1] == GOB))
        if not gobs:
            return "does not consult the ongoing branches"
        for t in gobs:
            if t[2] != lane(e):
                return "consults the branches of %s" % show(t[2])
            s, ln = g(A + "LanePosition::s", ("f", e, A + "RoadPosition::pos")), g(A + "Lane::length", lane(e))
            d = add(add(ln, s, -1), s, -1)
            st = t[3] == ("enum", A + "LaneEnd::Which::kStart")
            if decided(c, Ge(d, num(0)) if st else Le(d, num(0))) is not True:
                return "consults the branches of the %s without being nearer to it" % ("start" if st else "finish")
        gob = gobs.pop()
        size, get = (lambda: g(A + "LaneEndSet::size", gob)), (lambda k: g(A + "LaneEndSet::get", gob, k))
        ongoing = lambda b: Ex(("range", num(0), size()), lambda k: Eq(("f", get(k), A + "LaneEnd::lane"), lane(b)))
        srcs = {x.a[0].over for x in deep(i.events) if x.k == "loop" and x.a[0].over[0] == "loc"} | {b[1] for b in cl if b[0] == "el" and b[1][0] == "loc"}
        if len(srcs) != 1:
            raise Unknown("%d sets of matching positions" % len(srcs))
        C = srcs.pop()
        bad = filtered(Shim(i.events), C, nxt, [ongoing], F.enums, arg=lambda el: el)
        if bad:
            return "matching positions: " + bad
        some = holds(c, Ex(C, lambda b: Null(("f", ("c", CLOSE, None, inertial(e), inertial(b), tol), message))))
        if some is None:
            raise Unknown("whether a matching position is close is not visible")
        if n != (0 if some else 1):
            return "reports %d problems although a matching position is %s" % (n, "close" if some else "missing")
        return None
    message = None
    for f in F.classes.get("maliput::common::ComparisonResult", {}).get("fields", []):
        if f["n"] == "message":
            message = f["q"]

    def want(p):
        R = p.val
        if R[0] != "loc":
            raise Unknown("returns %s" % show(R))
        c = S.ctx(p)
        n = 0
        for cond in (EqN(("size", starts(front(S))), num(1)), EqN(("size", ends(back(S))), num(1))):
            h = decided(Ctx(p.facts, p.trace, F.enums), cond)
            if h is None:
                return "does not check %s" % cond
            n += not h
        if len(appends(p.trace, R)) != n:
            return "reports %d of %d wrong counts at the ends" % (len(appends(p.trace, R)), n)
        outer = [e.a[0] for e in p.events("loop", True) if any(appends(x.a[0].iters and [y for j in x.a[0].iters for y in j.events], R)
                                                               for i in e.a[0].iters for x in i.events if x.k == "loop")]
        outer = [l for l in outer if l.over[0] == "range"] or outer
        if len(outer) != 1:
            raise Unknown("%d loops visit the phases" % len(outer))
        o = outer[0]
        if not (o.full and o.complete and o.over == ("range", num(0), add(("size", phases), num(-1)))):
            if o.over[0] != "range":
                raise Unknown("the phases are visited by %s" % show(o.over))
            return "checks phases %s only" % show(o.over)
        a, b = ("at", phases, o.el), ("at", phases, add(o.el, num(1)))
        for i in o.iters:
            if i.sig not in (None, "cont"):
                if i.sig == "throw":
                    continue
                return "stops checking at a phase"
            h = decided(Ctx(i.facts, i.events, F.enums), EqN(("size", ends(a)), ("size", starts(b))))
            m = len(appends(i.events, R))
            if h is None or m != (0 if h else 1):
                return "reports %d problems for %s counts of positions" % (m, {True: "equal", False: "different", None: "any"}[h])
            inner = [x.a[0] for x in i.events if x.k == "loop"]
            inner = [l for l in inner if l.over == ends(a)]
            if len(inner) != 1 or not (inner[0].full and inner[0].complete):
                return "does not check every end position"
            l = inner[0]
            el = l.el if l.el[0] == "el" else ("el", l.over, l.el[3])
            for j in l.iters:
                if j.sig == "throw":
                    continue
                if j.sig not in (None, "cont"):
                    return "stops checking at an end position"
                w = one(j, el, starts(b), R)
                if w:
                    return w + "; path: " + show_facts(j.facts)[:600]
        return None

    def front(S):
        return g(B + "Route::start_route_position", THIS)[1][1]

    def back(S):
        return g(B + "Route::end_route_position", THIS)[1][1]
    S.each_path("Route.ValidateEndToEndConnectivity: exactly the positions without a coincident, connected counterpart are reported", fn, want, E=E)


def lane_s_route(S):
    F, g = S.F, S.E.getter
    R = B + "Route::"
    LI = R + "LaneSRangeIndex"
    ctor = F.fn(R + "Route", 2)
    phases = field_given(S, ctor, 0)
    fsp, crel, fdir = R + "FindStraightPredecessor", R + "ComputeLaneSRangeRelation", R + "FindDirectionTowardsLaneSRangeWithStraightPredecessor"
    fn = F.fn(fsp, 1)
    ix = P(fn, 0)
    ph, ln = ("f", ix, LI + "::phase"), ("f", ix, LI + "::lane_s_range")
    ranges = lambda p: g(B + "Phase::lane_s_ranges", ("at", phases, p))
    before = ranges(add(ph, num(-1)))
    mine = ("at", ranges(ph), ln)
    prec = lambda el: Eq(("c", crel, THIS, mine, el), ("enum", REL + "kPrecedingStraight"))
    some = Ex(before, prec)

    def pred(v, c):
        a = agg(v)
        el = indexed(a.get("lane_s_range", NULL), before)
        return el is not None and a.get("phase") == add(ph, num(-1)) and holds(c, prec(el)) is True
    S.returns("Route: the straight predecessor is a range of the preceding phase related straight behind", fn, [(some, pred), (Not(some), NULL)],
              E=S.engine(opaque=BASE + (crel,)), throws=None)
    S.each_path("Route: the first phase has no predecessors to ask for", fn, lambda p: None if decided(S.ctx(p), Ge(ph, num(1), ints=False)) is True
                else "answers for the first phase", E=S.engine(opaque=BASE + (crel,)))
    fn = F.fn(fdir, 1)
    ix = P(fn, 0)
    ph, ln = ("f", ix, LI + "::phase"), ("f", ix, LI + "::lane_s_range")
    N = ("size", ranges(ph))

    def towards(p):
        c = S.ctx(p)
        if decided(c, Lt(ln, num(1))) is True and decided(c, EqN(ln, num(0))) is False:
            return None
        last = add(N, num(-1))
        at0, atn = decided(c, EqN(ln, num(0))), decided(c, EqN(ln, last))
        if p.val not in (num(1), num(-1)):
            return "returns %s" % show(p.val)
        if at0 is None and atn is None:
            raise Unknown("whether the range is the first or last one is not visible")
        if at0 or atn:
            return None if p.val == num(1 if at0 else -1) else "leads out of the phase"

        def has(side):
            for l in c.loops():
                for i in l.iters:
                    for k in i.facts:
                        for t in find_terms(k, lambda t: t[0] == "c" and t[1] == fsp):
                            a = agg(t[3])
                            if a.get("phase") == ph and a.get("lane_s_range") == l.pos:
                                left = l.over == ("range", add(ln, num(1)), N)
                                right = l.over[0] == "range" and l.over[1] == num(0) and l.over[2] == ln
                                if side == "left" and left or side == "right" and right:
                                    if not l.complete:
                                        return True
                                    if l.full and all(decide(j.facts, ("null", t)) is True for j in l.iters if j.sig in (None, "cont")):
                                        return False
            return None
        lf, rt = has("left"), has("right")
        if lf is None and rt is None:
            raise Unknown("how the sides are searched is not visible")
        if p.val == num(1):
            return None if lf is True or rt is False else "leads left although nothing is found there"
        return None if rt is True or lf is False else "leads right although nothing is found there"
    S.each_path("Route: the way to a range with a straight predecessor stays in the phase", fn, towards, E=S.engine(opaque=BASE + (fsp,)))
    fn = F.fn(R + "ComputeLaneSRoute", 1)
    E = S.engine(opaque=BASE + (fsp, fdir, crel, FLI, R + "GetLaneSRange"))
    pos, end = P(fn, 0), g(R + "end_route_position", THIS)

    def point(k, x):
        lane, s = ("f", x, A + "RoadPosition::lane"), g(A + "LanePosition::s", ("f", x, A + "RoadPosition::pos"))
        return is_k(k, A + "LaneSRange", g(A + "Lane::id", lane)) or (k[0] == "k" and k[1] == A + "LaneSRange" and k[3] == g(A + "Lane::id", lane)
                                                                        and is_k(k[4], A + "SRange", s, s))

    def route_ok(p):
        if decide(p.facts, ("null", ("f", pos, A + "RoadPosition::lane"))) is not False:
            return "routes from a position without a lane"
        for x, n in ((pos, "start"), (end, "end")):
            if not any(k[0] == "null" and v is False and k[1][0] == "c" and k[1][1] == FLI and point(k[1][3], x) for k, v in p.facts.items()):
                return "routes although the %s position may not be in the route" % n
        if p.val[0] != "k" or p.val[1] != A + "LaneSRoute":
            raise Unknown("returns %s" % show(p.val))
        return None
    S.each_path("Route.ComputeLaneSRoute: only between positions of the route", fn, route_ok, E=E)
    for n in ("Get", "GetLaneSRange"):
        f = F.fn(R + n, 1 if n == "Get" else 2)
        want = ("at", phases, P(f, 0))
        if n != "Get":
            want = ("at", g(B + "Phase::lane_s_ranges", want), P(f, 1))
        S.each_path("Route.%s: the element at the given index" % n, f, lambda p, want=want: None if bare(p.val) == want else "returns %s" % show(p.val))
    S.ck.ob("Route.start_route_position: the first start position of the first phase",
            g(R + "start_route_position", THIS) == ("at", g(B + "Phase::start_positions", ("at", phases, num(0))), num(0)), where(F.fn(R + "start_route_position", 0)))
    S.ck.ob("Route.end_route_position: the first end position of the last phase",
            end == ("at", g(B + "Phase::end_positions", ("back", phases)), num(0)), where(F.fn(R + "end_route_position", 0)))
    for n in ("Phase", "Route"):
        f = [f for f in F.fns_of(B + "Is%sPositionResultClose" % n)][0]
        close(S, f, n)


def bare(v):
    while v and v[0] in ("addr", "copyof", "deref"):
        v = v[1]
    return v


def close(S, f, n):
    from rules.p20 import near
    a, b, tol = (P(f, i) for i in range(3))
    cls = B + n + "PositionResult::"
    nested = {"Phase": [("lane_position", A + "IsLanePositionClose"), ("inertial_position", A + "IsInertialPositionClose")],
              "Route": [("phase_position_result", B + "IsPhasePositionResultClose")]}[n]
    idx = "lane_s_range_index" if n == "Phase" else "phase_index"
    ab = [(("f", a, cls + "distance"), ("f", b, cls + "distance"))] if n == "Phase" else []
    E = S.engine(opaque=tuple(q for _, q in nested))
    near(S.ck, E, "Is%sPositionResultClose: exactly when index, positions and distance are" % n, f, ab,
         nested=[(q, ("f", a, cls + m), ("f", b, cls + m)) for m, q in nested], cond=EqN(("f", a, cls + idx), ("f", b, cls + idx)))
