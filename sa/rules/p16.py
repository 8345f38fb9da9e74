"""P16: positional queries on a road network consider every lane and report the closest ones."""
from rules.common import *

FLOOR = 16
EXPLANATION = ("Every path of the two search strategies, of the free search function, of the result filter and of the forwarding "
               "functions is enumerated: the exhaustive search visits every lane of every segment of every junction and keeps exactly "
               "those within the radius; the closest result is the one the documented ordering prefers over every other candidate; a "
               "hint restricts the query to its lane; the kd-tree search queries a box that reaches the radius and reports each lane of "
               "the sampled points once.")
ASSUMPTIONS = ["Lane::ToLanePosition reports the distance it documents (backend specific)",
               "std::remove_if, std::not_fn and std::function behave as specified"]
A, B = "maliput::api::", "maliput::geometry_base::"
INF = num(float("inf"))
RG, LN = A + "RoadGeometry::", A + "Lane::"


def fd(e, cls, n):
    return ("f", e, A + cls + "::" + n)


def close_to(lane, pos):
    """The RoadPositionResult of projecting pos on a lane."""
    t = ("c", LN + "DoToLanePosition", lane, pos)

    def ok(v):
        d = agg(v)
        rp = d.get("road_position")
        good = rp and (rp[0] == "k" and rp[3:] == (lane, fd(t, "LanePositionResult", "lane_position")) or
                       agg(rp) == {"lane": lane, "pos": fd(t, "LanePositionResult", "lane_position")})
        return good and d.get("nearest_position") == fd(t, "LanePositionResult", "nearest_position") and \
            d.get("distance") == fd(t, "LanePositionResult", "distance")
    return t, ok


def every_lane(evs, rg):
    """(lane, iterations) when the events hold complete nested loops over all junctions, segments and lanes of rg."""
    out = []

    def over(evs, owner, size, item):
        for e in evs:
            if e.k != "loop" or not (e.a[0].full and e.a[0].complete):
                continue
            l = e.a[0]
            if l.over == ("range", num(0), ("c", size, owner)):
                for i in l.iters:
                    if i.sig in (None, "cont"):
                        yield ("c", item, owner, l.el), i
            elif l.over[0] == "range" and l.over[2] == ("c", size, owner):
                yield "starts at %s" % show(l.over[1]), None
    for j, i in over(evs, rg, RG + "do_num_junctions", RG + "do_junction"):
        if i is None:
            return j
        for s, i2 in over(i.events, j, A + "Junction::do_num_segments", A + "Junction::do_segment"):
            if i2 is None:
                return s
            for n, i3 in over(i2.events, s, A + "Segment::do_num_lanes", A + "Segment::do_lane"):
                if i3 is None:
                    return n
                out.append((n, i3))
    # through the index by id
    for e in evs:
        if e.k == "loop" and e.a[0].full and e.a[0].complete and "GetLanes" in repr(e.a[0].over):
            for i in e.a[0].iters:
                if i.sig in (None, "cont"):
                    el = e.a[0].el if e.a[0].el[0] == "el" else ("el", e.a[0].over, e.a[0].el[3])
                    out.append((("val", el), i))
    return out


def run(ck):
    F = ck.F
    ck.rule("R1", "the ordering of results: closer first; on ties positions within lane bounds, then the smaller lateral offset")
    ck.rule("R2", "the exhaustive search keeps exactly the lanes of the network within the radius")
    ck.rule("R3", "the position reported is the best candidate; a hint decides the lane")
    ck.rule("R4", "the kd-tree search covers the radius, reports each found lane once and keeps those within the radius")
    ck.rule("R5", "the road geometry forwards to its strategy and rejects queries without one and negative radii")
    S = Spec(ck)
    fn = F.fn("maliput::geometry_base::StrategyBase::StrategyBase", 1)
    S.throws_iff("StrategyBase: needs a road geometry", fn, Null(P(fn, 0)))
    NEARER = B + "IsNewRoadPositionResultCloser"
    closer = lambda a, b: Is(("c", NEARER, None, a, b))

    # R1
    fn = F.fn(NEARER, 2)
    new, old = P(fn, 0), P(fn, 1)
    srh = lambda e: S.E.getter(A + "LanePosition::s", fd(fd(e, "RoadPositionResult", "road_position"), "RoadPosition", "pos"))
    rof = lambda e: S.E.getter(A + "LanePosition::r", fd(fd(e, "RoadPositionResult", "road_position"), "RoadPosition", "pos"))
    bnd = lambda e: ("c", LN + "do_lane_bounds", fd(fd(e, "RoadPositionResult", "road_position"), "RoadPosition", "lane"), srh(e))
    inside = lambda e: And(Le(S.E.getter(A + "RBounds::min", bnd(e)), rof(e)), Lt(rof(e), S.E.getter(A + "RBounds::max", bnd(e))))
    dist = lambda e: fd(e, "RoadPositionResult", "distance")
    delta = sub(dist(new), dist(old))
    ab = lambda t: ("abs", t)
    tie = And(Not(Lt(delta, num(-1e-12))), Lt(delta, num(1e-12)))
    S.bool_iff("IsNewRoadPositionResultCloser: by distance, then lane bounds, then lateral offset", fn,
               Or(Lt(delta, num(-1e-12)),
                  And(tie, inside(new), Not(inside(old))),
                  And(tie, Or(And(inside(new), inside(old)), And(Not(inside(new)), Not(inside(old)))), Lt(ab(rof(new)), ab(rof(old))))))

    # R2
    fn = F.fn(B + "FilterRoadPositionResults", 2)
    res, flt = P(fn, 0), P(fn, 1)

    def filt(p):
        v = p.val
        ok = Is(("ic", flt, ("any",)))
        for e in p.trace:
            if e.k == "algo" and e.a[0] in ("copy_if", "remove_copy_if", "partition", "stable_partition"):
                raise Unknown("filters with %s" % e.a[0])
        er = [e for e in p.trace if e.k == "mut" and e.a[0] == v and e.a[1] == "erase"]
        if er:
            a = er[-1].a[2]
            if len(er) != 1 or len(a) != 2 or a[0][:2] != ("algo", "remove_if") or a[1] != ("end", v) or a[0][3] != ("end", v):
                return "erases %s" % show(a[0])
            b, f = a[0][2], a[0][4]
            if b[0] != "it" or b[1] != v or b[2] != "b":
                return "filters from %s" % show(b)
            x = ("some",)
            for facts, tr in S.E.predicate(fn, f, x):
                if decide(facts, ("t", ("ic", flt, x))) is not (None if tr is None else not tr):
                    return "removes what the filter accepts" if tr else "keeps what the filter rejects"
            src = [e.a[2] for e in p.trace if e.k == "mut" and e.a[0] == v and e.a[1] in ("assign", "insert_all")]
            return None
        return filtered(p, v, res, [lambda e: Is(("ic", flt, e))], F.enums, lambda el: (el,), lambda el: el)
    S.each_path("FilterRoadPositionResults: exactly the accepted results", fn, filt)

    def search(name, fn, rg, pos, radius, extra=None):
        near = lambda d: Or(EqN(radius, INF), Le(d, radius))
        S.throws_iff("%s: rejects negative radii" % name, fn, Or(*(([Null(rg)] if extra else []) + [Lt(radius, num(0))])),
                     may=Or(Null(rg), Fn(lambda c: True if list(c.loops()) else None, "a null lane, segment or junction")))

        def one(p):
            C = p.val
            ls = every_lane(p.trace, rg)
            if isinstance(ls, str):
                return ls
            if not ls:
                return "does not visit every lane"
            for lane, i in ls:
                t, ok = close_to(lane, pos)
                ins = insertions(i.events, C)
                h = holds(Ctx(i.facts, i.events, F.enums), near(fd(t, "LanePositionResult", "distance")))
                if h is None:
                    return "whether the lane is within the radius is not decided: %s" % show_facts(i.facts)[-200:]
                if len(ins) != (1 if h else 0):
                    return "%s a lane %s" % ("drops" if h else "reports", "within the radius" if h else "beyond the radius")
                if h and not ok(ins[0][-1]):
                    return "reports %s" % show(ins[0][-1])[:300]
            other = [x for e in p.trace if e.k != "loop" for x in insertions([e], C)]
            return "reports %s besides" % show(other[0][-1]) if other else None
        S.each_path("%s: exactly the lanes within the radius" % name, fn, one)

    fn = F.fn(B + "BruteForceStrategy::DoFindRoadPositions", 2)
    rgf = S.E.getter(B + "StrategyBase::get_road_geometry", THIS)
    search("BruteForceStrategy.FindRoadPositions", fn, rgf, P(fn, 0), P(fn, 1))
    fn = F.fn(B + "BruteForceFindRoadPositionsStrategy", 3)
    search("BruteForceFindRoadPositionsStrategy", fn, P(fn, 0), P(fn, 1), P(fn, 2), True)

    # R3
    OP = (NEARER, B + "BruteForceStrategy::DoFindRoadPositions", B + "FilterRoadPositionResults", B + "KDTreeStrategy::ClosestLanes")
    E2 = lambda: S.engine(opaque=OP)

    def hinted(p, pos, hint):
        lane = fd(hint, "RoadPosition", "lane")
        t, ok = close_to(lane, pos)
        return None if ok(p.val) else "answers %s for a hinted lane" % show(p.val)[:300]

    fn = F.fn(B + "BruteForceStrategy::DoToRoadPosition", 2)
    pos, hint = P(fn, 0), P(fn, 1)
    ALL = ("c", B + "BruteForceStrategy::DoFindRoadPositions", THIS, pos, INF)
    no = lambda p: holds(S.ctx(p), Null(hint))
    tol = ("c", RG + "do_linear_tolerance", rgf)
    E = E2()

    def best(p):
        h = no(p)
        if h is None:
            return "ignores the hint"
        if h is False:
            return hinted(p, pos, hint)
        cands = {l.over for l in (e.a[0] for e in p.events("loop", True))} | \
                {l.over[2][1] for l in (e.a[0] for e in p.events("loop", True)) if l.over[0] == "range" and l.over[2][0] == "size"}
        near = [c for c in cands if c[0] == "c" and c[1] == B + "FilterRoadPositionResults" and c[2] == ALL or
                c == ALL or c[0] == "c" and c[1] == B + "FilterRoadPositionResults" and ALL in c]
        if len(near) != 1:
            raise Unknown("the candidates are not visible")
        M = near[0]
        filters = find_terms(("x",) + tuple(a for a in list(p.facts) + [M]), lambda x: x[0] == "c" and x[1] == B + "FilterRoadPositionResults")
        if not filters:
            return "prefers no candidates within the linear tolerance"
        for f in filters:
            args = [a for a in f[2:] if a is not None]
            if args[0] != ALL:
                return "filters %s" % show(args[0])
            for facts, tr in E.predicate(fn, args[1], ("some",)):
                if tr is None or decided(Ctx(facts, [], F.enums), Le(dist(("some",)), tol)) is not tr:
                    return "%s candidates although distance <= linear tolerance is %s" % ("keeps" if tr else "drops", show_facts(facts))
            e = holds(S.ctx(p), Empty(f))
            if e is None:
                return "uses the candidates within the tolerance without knowing whether there are any"
            if M != (ALL if e else f):
                return "compares %s although %s within the tolerance" % (show(M), "none is" if e else "some are")
        bad, l, el = running_best(p, M, lambda el: el, closer)
        if bad:
            return bad
        if p.val in (("at", M, num(0)), ("front", M), el, ("el", M, l.id)):
            return None
        return "answers %s" % show(p.val)[:300]
    S.each_path("BruteForceStrategy.ToRoadPosition: hinted lane, or the best of the nearest", fn, best, E)
    S.throws_iff("BruteForceStrategy.ToRoadPosition: rejects null hinted lanes and empty networks", fn,
                 Or(And(NotNull(hint), Null(fd(hint, "RoadPosition", "lane"))), And(Null(hint), Empty(ALL))), E2())

    # R4
    fn = F.fn(B + "KDTreeStrategy::ClosestLanes", 2)
    pos, half = P(fn, 0), P(fn, 1)
    V = lambda t, c: S.E.getter(A + "InertialPosition::" + c, t)
    box = {}
    at_pos = {x: S.E.getter(A + "InertialPosition::xyz", pos) for x in "xyz"}

    def corner(c):
        """The three coordinates of a vector term."""
        cs = c[3:] if c[0] == "k" else c[1:] if c[0] == "list" else ()
        if len(cs) == 1 and cs[0][0] == "list":
            cs = cs[0][1:]
        if len(cs) == 3:
            return list(cs)
        if c[0] == "c" and c[1].endswith(("operator-", "operator+")) and len(c) >= 4:
            a, b = corner(c[-2]), corner(c[-1])
            return a and b and [(sub if c[1].endswith("-") else add)(x, y) for x, y in zip(a, b)]
        if c == at_pos["x"]:
            return [V(pos, x) for x in "xyz"]
        return None

    def lanes(p):
        C = p.val
        calls = [e for e in p.events("call") if "RangeSearch" in e.a[0]]
        srch = [c for c in find_terms(("x",) + tuple(e.a[0].over for e in p.events("loop")), lambda x: x[0] == "c" and "RangeSearch" in x[1])]
        if not srch:
            return "does not search the kd-tree"
        s = srch[0]
        b = s[3]
        if b[0] != "k" or len(b) < 5:
            raise Unknown("searches %s" % show(b))
        for k, sign in ((3, -1), (4, 1)):
            c = b[k]
            want = [add(V(pos, x), mul(num(sign), half)) for x in "xyz"]
            cs = corner(c)
            if cs is None:
                raise Unknown("searches the corner %s" % show(c))
            for x, w in zip(cs, want):
                if not (same(x, w, S.ctx(p)) or decided(S.ctx(p), Le(x, w) if sign < 0 else Le(w, x)) is True):
                    return "the searched box has corner %s" % show(c)
        ls = loops_over(p.trace, s)
        if not ls:
            return "does not report every point found"
        l, el, its = ls[0]
        for i in its:
            ins = insertions(i.events, C)
            lane = [x[-1] for x in ins]
            noop = [e for e in i.events if e.k == "insert_noop"]
            if len(ins) > 1:
                return "reports a lane twice"
            if not ins and not noop and not any(v is True and a[0] == "has" for a, v in i.facts.items()):
                return "drops a lane; path: %s" % show_facts(i.facts)
            if ins and not (find_terms(lane[0], lambda x: x == el)):
                return "reports %s" % show(lane[0])
            fresh = [e for e in i.events if e.k == "mut" and e.a[1] in ("insert", "set") and e.a[2][0] == lane[0]] if ins else []
            if ins and not fresh and not any(v is False and a[0] == "has" and a[2] == lane[0] for a, v in i.facts.items()) and \
               C[0] == "loc" and not any(e.k == "mut" and e.a[0] == C and e.a[1] in ("insert", "set") for e in i.events):
                return "reports a lane once per sampled point"
        return None
    S.each_path("KDTreeStrategy: every lane of the box once", fn, lanes)

    fn = F.fn(B + "KDTreeStrategy::DoFindRoadPositions", 2)
    pos, radius = P(fn, 0), P(fn, 1)
    step = [t for t in find_terms(("x",) + tuple(e.a[0].over for p in (S.run(fn, E2()) or []) for e in p.events("loop")),
                                  lambda x: x[0] == "f" and x[1] == THIS)]

    def within(p):
        C = p.val
        ls = [(e.a[0]) for e in p.events("loop") if e.a[0].over[:2] == ("c", B + "KDTreeStrategy::ClosestLanes") and e.a[0].full and e.a[0].complete]
        if len(ls) != 1:
            return "does not report the lanes found in the kd-tree"
        l = ls[0]
        _, _, this, at, half = l.over
        if at != pos:
            return "searches around %s" % show(at)
        st = [x for x in find_terms(half, lambda x: x[0] == "f" and x[1] == THIS)]
        if not any(decided(Ctx(dict(positive(st)), [], F.enums), Le(add(radius, mul(num(1), s)), half)) is True for s in st):
            return "searches a box of half edge %s, lanes sampled just beyond the radius are missed" % show(half)
        el = l.el if l.el[0] == "el" else ("el", l.over, l.el[3])
        t, ok = close_to(el, pos)
        for i in l.iters:
            if i.sig not in (None, "cont"):
                continue
            ins = insertions(i.events, C)
            h = holds(Ctx(i.facts, i.events, F.enums), Le(fd(t, "LanePositionResult", "distance"), radius))
            if h is None:
                return "whether the lane is within the radius is not decided"
            if len(ins) != (1 if h else 0):
                return "%s a lane %s" % ("drops" if h else "reports", "within the radius" if h else "beyond the radius")
            if h and not ok(ins[0][-1]):
                return "reports %s" % show(ins[0][-1])[:300]
        return None

    def positive(ts):
        return {a: v for t in ts for a, v in [atom_lt(num(0), t)]}
    S.each_path("KDTreeStrategy.FindRoadPositions: exactly the found lanes within the radius", fn, within, E2())

    fn = F.fn(B + "KDTreeStrategy::DoToRoadPosition", 2)
    pos, hint = P(fn, 0), P(fn, 1)

    def kdbest(p):
        h = holds(S.ctx(p), Null(hint))
        if h is None:
            return "ignores the hint"
        if h is False:
            return hinted(p, pos, hint)
        ov = {e.a[0].over for e in p.events("loop", True) if e.a[0].over[:2] == ("c", B + "KDTreeStrategy::ClosestLanes")}
        if len(ov) != 1:
            return "does not compare the lanes found in the kd-tree"
        M = ov.pop()
        near = find_terms(M[4], lambda x: x[0] == "c" and "nearest_point" in x[1])
        st = find_terms(M[4], lambda x: x[0] == "f" and x[1] == THIS and x not in near and not find_terms(x, lambda y: "kd_tree" in repr(y)))
        nrm = find_terms(M[4], lambda x: x[0] == "c" and x[1].endswith("::norm"))
        if M[3] != pos or not near or not nrm:
            return "searches around %s with half edge %s" % (show(M[3]), show(M[4]))
        if not any(decided(Ctx(dict(positive(st)), [], F.enums), Le(add(nrm[0], mul(num(1), s)), M[4])) is True for s in st):
            return "searches a box of half edge %s, lanes sampled just beyond the nearest point are missed" % show(M[4])

        def cand(el):
            t, ok = close_to(el, pos)
            for e in p.events("loop", True):
                for i in e.a[0].iters:
                    for v in (i.changed or {}).values():
                        if isinstance(v, tuple) and ok(v):
                            return v
            return ("none",)
        bad, l, el = running_best(p, M, cand, closer)
        if bad:
            return bad
        if p.val == cand(el):
            return None
        lanes0 = find_terms(p.val, lambda x: x[0] == "f" and find_terms(x, lambda y: y == near[0]) and "lane" in x[2])
        if any(close_to(x, pos)[1](p.val) for x in lanes0 + [("get", x) for x in lanes0] + [("deref", x) for x in lanes0]):
            return None
        return "answers %s" % show(p.val)[:300]
    S.each_path("KDTreeStrategy.ToRoadPosition: hinted lane, or the best of the nearest", fn, kdbest, E2())

    # the tree samples every lane from end to end
    # R5
    for cls, meth, n in (("RoadGeometry", "DoToRoadPosition", 2), ("RoadGeometry", "DoFindRoadPositions", 2)):
        fn = F.fn(B + cls + "::" + meth, n)
        strat = S.E.getter(B + "RoadGeometry::strategy_", THIS) if False else None
        ps = S.run(fn) or []
        vals = {p.val for p in ps if p.sig == "ret"}
        want = "Strategy"
        def fwd(p, fn=fn, meth=meth):
            v = p.val
            if v[0] != "c" or not v[1].endswith("::" + meth) or v[3:] != (P(fn, 0), P(fn, 1)):
                return "answers %s" % show(v)
            return None if holds(S.ctx(p), NotNull(v[2])) is True else "queries a strategy that may be missing"
        S.each_path("RoadGeometry.%s: forwards to the strategy" % meth, fn, fwd)
        st = [v[2] for v in vals if v[0] == "c"]
        if st:
            S.throws_iff("RoadGeometry.%s: rejects queries without a strategy" % meth, fn, Null(st[0]),
                         may=Lt(P(fn, 1), num(0)) if "Find" in meth else None)
    fn = F.fn(A + "RoadGeometry::FindRoadPositions", 2)
    S.throws_iff("api RoadGeometry.FindRoadPositions: rejects negative radii", fn, Lt(P(fn, 1), num(0)))
    S.each_path("api RoadGeometry.FindRoadPositions: forwards", fn, lambda p: None if p.val == (
        "c", RG + "DoFindRoadPositions", THIS, P(fn, 0), P(fn, 1)) else "answers %s" % show(p.val))
    S.done()
