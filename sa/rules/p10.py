"""P10: ranges, bounds and validators behave like the intervals they describe."""
from rules.common import *

FLOOR = 48
EXPLANATION = ("Every path of the range, bound and validator classes is enumerated with min/max/abs resolved into their cases; "
               "what each path returns or rejects is compared with the documented interval relation by exact linear arithmetic, "
               "and the lane-level operations are checked to apply them to ranges of the same lane only, over every pair of ranges.")
ASSUMPTIONS = ["real arithmetic; no value is NaN", "stored s values are non-negative, as the constructors and setters enforce"]
A = "maliput::api::"


def run(ck):
    F = ck.F
    ck.rule("R1", "values violating the invariant are rejected, others stored")
    ck.rule("R2", "a relation holds exactly when the widened intervals are so related")
    ck.rule("R3", "lane-level relations look at every pair of ranges on the same lane")
    S = Spec(ck, fork_minmax=True)
    g = S.E.getter
    q = A + "SRange::"
    s0, s1 = g(q + "s0", THIS), g(q + "s1", THIS)
    ck.ob("SRange has two distinct ends", s0 != s1, where(F.fn(q + "s0", 0)))

    def inv(*objs):
        return given(*[Ge(g(q + n, o), num(0)) for o in objs for n in ("s0", "s1")])
    ctor = F.fn(q + "SRange", 2)
    S.throws_iff("SRange(s0, s1): rejects exactly negative ends", ctor, Or(Lt(P(ctor, 0), num(0)), Lt(P(ctor, 1), num(0))))
    stores(S, "SRange: s0() is the first argument", ctor, q + "s0", 0)
    stores(S, "SRange: s1() is the second argument", ctor, q + "s1", 1)
    for n, loc in (("s0", s0), ("s1", s1)):
        fn = F.fn(q + "set_" + n, 1)
        S.throws_iff("SRange.set_%s: rejects exactly negative values" % n, fn, Lt(P(fn, 0), num(0)))
        other = s1 if n == "s0" else s0
        S.each_path("SRange.set_%s: sets %s() and nothing else" % (n, n), fn,
                    lambda p: None if final(p, loc) == P(fn, 0) and final(p, other) is None else "sets something else")
    fn = F.fn(q + "size", 0)
    S.returns("SRange.size: |s1 - s0|", fn, [(Lt(s1, s0), sub(s0, s1)), (Ge(s1, s0), sub(s1, s0))], facts=inv(THIS))
    fn = F.fn(q + "WithS", 0)
    S.bool_iff("SRange.WithS: s1 > s0", fn, Gt(s1, s0))

    fn = F.fn(q + "Intersects", 2)
    o, tol = P(fn, 0), P(fn, 1)
    o0, o1 = g(q + "s0", o), g(q + "s1", o)

    def too_small(a, b):
        """A negative tolerance exceeds half the size of range (a, b)."""
        t2 = mul(num(-2), tol)
        return And(Lt(sub(a, b), t2), Lt(sub(b, a), t2))
    reject = And(Lt(tol, num(0)), Or(too_small(s0, s1), too_small(o0, o1)))
    meets = And(Or(*[Le(a, add(b, tol)) for a in (o0, o1) for b in (s0, s1)]),
                Or(*[Le(a, add(b, tol)) for a in (s0, s1) for b in (o0, o1)]))
    within = And(*[And(Or(Le(sub(s0, tol), x), Le(sub(s1, tol), x)), Or(Le(x, add(s0, tol)), Le(x, add(s1, tol)))) for x in (o0, o1)])
    pre = inv(THIS, o)
    for n, rel_ in (("Intersects", meets), ("Contains", within)):
        fn = F.fn(q + n, 2)
        S.throws_iff("SRange.%s: rejects exactly negative tolerances larger than half of the smaller range" % n, fn, reject, facts=pre)
        S.bool_iff("SRange.%s: exactly when the interval widened by the tolerance %s the other" % (n, n.lower()), fn,
                   rel_, pre_cond=Not(reject), facts=pre)
    fn = F.fn(q + "GetIntersection", 2)
    S.throws_iff("SRange.GetIntersection: rejects exactly negative tolerances larger than half of the smaller range", fn, reject, facts=pre)

    def overlap(v, c):
        """An SRange from the larger start to the smaller end, each an end of one of the two ranges, up to the tolerance."""
        if v[0] != "k" or v[1] != A + "SRange" or len(v) != 5:
            return False
        m, M = v[3], v[4]

        def near(x, ends, hi):
            if not any(same(x, e, c) for e in ends):
                return False
            y = (lambda a: Le(a, x)) if hi else (lambda a: Ge(a, x))
            # not beyond the other bound by more than the tolerance
            for pair in ((s0, s1), (o0, o1)):
                cs = [Le(x, add(e, pos)) if hi else Ge(x, sub(e, pos)) for e in pair for pos in (tol,)]
                if decided(c, Or(*cs, *[Le(x, e) if hi else Ge(x, e) for e in pair])) is not True and \
                        decided(c, Lt(tol, num(0))) is not True:
                    return False
            # and not short of the exact overlap by more than the tolerance
            short = Or(*[And(*[Ge(add(x, t), e) if hi else Le(sub(x, t), e) for e in pair]) for pair in ((s0, s1), (o0, o1))
                         for t in (tol, mul(num(-1), tol))])
            return decided(c, short) is True
        return near(M, (s0, s1, o0, o1), True) and near(m, (s0, s1, o0, o1), False)
    S.returns("SRange.GetIntersection: nothing when disjoint, otherwise the overlap up to the tolerance", fn,
              [(Not(meets), NULL), (meets, overlap)], throws=None, facts=pre)
    # without tolerance: the exact overlap
    z = dict(pre)
    fn = F.fn(q + "GetIntersection", 2)

    def exact(v, c):
        if v[0] != "k" or v[1] != A + "SRange" or len(v) != 5:
            return False
        m, M = v[3], v[4]
        top = And(*[Or(*[Le(M, e) for e in pr]) for pr in ((s0, s1), (o0, o1))],
                  Or(*[And(*[Ge(M, e) for e in pr]) for pr in ((s0, s1), (o0, o1))]))
        bot = And(*[Or(*[Ge(m, e) for e in pr]) for pr in ((s0, s1), (o0, o1))],
                  Or(*[And(*[Le(m, e) for e in pr]) for pr in ((s0, s1), (o0, o1))]))
        return decided(c, And(top, bot)) is True
    z.update(given(EqN(tol, num(0))))
    S.returns("SRange.GetIntersection: exact overlap without tolerance", fn, [(Not(meets), NULL), (meets, exact)], facts=z)

    # -- ranges of a lane
    q = A + "LaneSRange::"
    L = Spec(ck, opaque=[A + "SRange::Intersects", A + "SRange::Contains", A + "SRange::GetIntersection", A + "SRange::size"])
    g = L.E.getter
    ctor = F.fn(q + "LaneSRange", 2)
    stores(L, "LaneSRange: lane_id() is the first argument", ctor, q + "lane_id", 0)
    stores(L, "LaneSRange: s_range() is the second argument", ctor, q + "s_range", 1)
    sr = g(q + "s_range", THIS)
    fn = F.fn(q + "length", 0)
    L.returns("LaneSRange.length: the size of its range", fn, [(TRUE_C, ("c", A + "SRange::size", sr))])
    for n in ("Intersects", "Contains"):
        fn = F.fn(q + n, 2)
        o, tol = P(fn, 0), P(fn, 1)
        L.bool_iff("LaneSRange.%s: same lane and the ranges do" % n, fn,
                   And(Eq(g(q + "lane_id", THIS), g(q + "lane_id", o)),
                       Is(("c", A + "SRange::" + n, sr, g(q + "s_range", o), tol))))
    fn = F.fn(q + "GetIntersection", 2)
    o, tol = P(fn, 0), P(fn, 1)
    hit = And(Eq(g(q + "lane_id", THIS), g(q + "lane_id", o)), Is(("c", A + "SRange::Intersects", sr, g(q + "s_range", o), tol)))
    gi = ("c", A + "SRange::GetIntersection", sr, g(q + "s_range", o), tol)

    def on_lane(v, c):
        return v[0] == "k" and v[1] == A + "LaneSRange" and v[3] == g(q + "lane_id", THIS) and \
            v[4] in (gi, ("deref", gi), ("val", gi), ("opt", gi))
    hit = Either(hit, And(Eq(g(q + "lane_id", THIS), g(q + "lane_id", o)), NotNull(gi)))  # the ranges' answer is not empty exactly when they meet
    L.returns("LaneSRange.GetIntersection: nothing when disjoint, otherwise the range intersection on this lane", fn,
              [(Not(hit), NULL), (hit, on_lane)], throws=None)

    # -- routes
    q2 = A + "LaneSRoute::"
    R = Spec(ck, opaque=[A + "LaneSRange::Intersects", A + "LaneSRange::length"])
    ctor = F.fn(q2 + "LaneSRoute", 1, ptypes=["vector"])
    stores(R, "LaneSRoute: ranges() is what it was given", ctor, q2 + "ranges", 0)
    mine = R.E.getter(q2 + "ranges", THIS)
    mine = mine[1] if mine[0] == "addr" else mine
    fn = F.fn(q2 + "Intersects", 2)
    theirs = R.E.getter(q2 + "ranges", P(fn, 0))
    theirs = theirs[1] if theirs[0] == "addr" else theirs
    tol = P(fn, 1)
    i_ = A + "LaneSRange::Intersects"
    lid = A + "LaneSRange::lane_id"

    def meet(x, y):
        """x intersects y; ranges on different lanes never do."""
        either = Either(Is(("c", i_, x, y, tol)), Is(("c", i_, y, x, tol)))
        return First(either, And(Eq(R.E.getter(lid, x), R.E.getter(lid, y)), either))
    R.bool_iff("LaneSRoute.Intersects: some range of one intersects some range of the other", fn,
               First(Ex(mine, lambda x: Ex(theirs, lambda y: meet(x, y))), Ex(theirs, lambda y: Ex(mine, lambda x: meet(x, y)))))

    # -- contiguity and inclusion
    G = Spec(ck, opaque=[A + "SRange::Intersects", A + "InertialPosition::Distance", A + "Rotation::Distance"])
    g = G.E.getter
    fn = F.fn(A + "IsContiguous", 3)
    a, b, rg = (P(fn, i) for i in range(3))
    byid = g(A + "RoadGeometry::ById", rg)
    byid = byid[1] if byid[0] == "addr" else byid

    def lane(x):
        return g(A + "RoadGeometry::IdIndex::GetLane", byid, g(A + "LaneSRange::lane_id", x))
    la, lb = lane(a), lane(b)
    pre = And(NotNull(rg), NotNull(la), NotNull(lb))
    G.throws_iff("IsContiguous: rejects exactly a null road geometry or unknown lanes", fn, Not(pre))
    ends = [sr_end(g, a, "s1"), sr_end(g, b, "s0")]

    pos_a, pos_b = [pose(F, g, "ToInertialPosition", l, e) for l, e in zip((la, lb), ends)]
    rot_a, rot_b = [pose(F, g, "GetOrientation", l, e) for l, e in zip((la, lb), ends)]

    def close(meth, x, y, tol):
        return Either(Lt(("c", A + meth, x, y), tol), Lt(("c", A + meth, y, x), tol))
    G.bool_iff("IsContiguous: end and start poses are within linear and angular tolerance", fn,
               And(close("InertialPosition::Distance", pos_a, pos_b, g(A + "RoadGeometry::linear_tolerance", rg)),
                   close("Rotation::Distance", rot_a, rot_b, g(A + "RoadGeometry::angular_tolerance", rg))), pre_cond=pre)

    fn = F.fn(A + "IsIncluded", 3)
    ip, rs, rg = (P(fn, i) for i in range(3))
    byid = g(A + "RoadGeometry::ById", rg)
    byid = byid[1] if byid[0] == "addr" else byid
    lt = g(A + "RoadGeometry::linear_tolerance", rg)
    unknown = Or(Null(rg), Empty(rs), Ex(rs, lambda x: Null(lane(x))))
    G.throws_iff("IsIncluded: rejects exactly a null road geometry, no ranges, or unknown lanes", fn, unknown)

    def includes(x):
        r = g(A + "Lane::ToLanePosition", lane(x), ip)
        s = g(A + "LanePosition::s", ("f", r, A + "LanePositionResult::lane_position"))
        sr = g(A + "LaneSRange::s_range", x)
        here = srange(F, s, s)
        return And(Le(("f", r, A + "LanePositionResult::distance"), lt), Is(("c", A + "SRange::Intersects", sr, here, lt)))
    G.bool_iff("IsIncluded: the closest position on the lane of some range is near and within that range", fn, Ex(rs, includes),
               pre_cond=Not(unknown))

    # -- lateral and elevation bounds
    B = Spec(ck)
    for c in ("RBounds", "HBounds"):
        q = A + c + "::"
        ctor = F.fn(q + c, 2)
        B.throws_iff("%s(min, max): rejects exactly min > 0 or max < 0" % c, ctor, Or(Gt(P(ctor, 0), num(0)), Lt(P(ctor, 1), num(0))))
        for i, n in enumerate(("min", "max")):
            stores(B, "%s: %s() is its argument" % (c, n), ctor, q + n, i)
            fn = F.fn(q + "set_" + n, 1)
            B.throws_iff("%s.set_%s: rejects exactly the wrong sign" % (c, n), fn,
                         Gt(P(fn, 0), num(0)) if n == "min" else Lt(P(fn, 0), num(0)))
            loc, oth = B.E.getter(q + n, THIS), B.E.getter(q + ("max" if n == "min" else "min"), THIS)
            B.each_path("%s.set_%s: sets %s() and nothing else" % (c, n, n), fn, lambda p: None if final(p, loc) == P(fn, 0) and
                        final(p, oth) is None else "sets something else")
    # -- range validator
    V = Spec(ck, fork_minmax=True, inline=["maliput::common::RangeValidator"])
    q = "maliput::common::RangeValidator::"
    FLD = {n: ("f", THIS, q + n + "_") for n in ("min", "max", "tolerance", "epsilon")}
    for n in ("Relative", "Absolute"):
        fn = F.fn(q + "Get%sEpsilonValidator" % n, 4)
        mn, mx, tol, eps = (P(fn, i) for i in range(4))
        e = mul(sub(mx, mn), eps) if n == "Relative" else eps
        V.throws_iff("RangeValidator (%s): rejects exactly a non-positive tolerance, epsilon outside [0, tolerance], or too short a range" %
                     n.lower(), fn, Or(Le(tol, num(0)), Lt(e, num(0)), Gt(e, tol), Gt(add(mn, e), mx)))
    calls = F.fn(q + "operator()", 1)
    ps = V.run(calls) or []
    s = P(calls, 0)
    # the state of a validator built by each factory, seen through operator()
    for n in ("Relative", "Absolute"):
        fn = F.fn(q + "Get%sEpsilonValidator" % n, 4)
        mn, mx, tol, eps = (P(fn, i) for i in range(4))
        e = mul(sub(mx, mn), eps) if n == "Relative" else eps
        want = {"min": mn, "max": mx, "tolerance": tol, "epsilon": e}

        def built(p):
            v = p.val
            for k, f in FLD.items():
                got = V.E.read_field(p.st, v, f[2])
                if got != want[k]:
                    return "%s_ is %s" % (k, show(got))
            return None
        V.each_path("RangeValidator (%s): keeps range, tolerance and its epsilon" % n.lower(), fn, built)
    mn, mx, tol, e = (FLD[k] for k in ("min", "max", "tolerance", "epsilon"))
    valid = given(Gt(tol, num(0)), Ge(e, num(0)), Le(e, tol), Le(add(mn, e), mx))
    out = Or(Lt(s, sub(mn, tol)), Gt(s, add(mx, tol)))
    V.throws_iff("RangeValidator(): rejects exactly values further outside than the tolerance", calls, out, facts=valid)
    lo, hi = add(mn, e), sub(mx, e)
    V.returns("RangeValidator(): clamps into the range shrunk by epsilon", calls,
              [(Lt(s, lo), lo), (Gt(s, hi), hi), (And(Ge(s, lo), Le(s, hi)), s)], throws=None,
              facts=dict(list(valid.items()) + list(given(Le(lo, hi)).items())))
    sat = F.fn("maliput::math::saturate", 3)
    x, lo, hi = (P(sat, i) for i in range(3))
    V.throws_iff("saturate: rejects exactly min > max", sat, Gt(lo, hi))
    V.returns("saturate: the nearest value in [min, max]", sat,
              [(Lt(x, lo), lo), (Gt(x, hi), hi), (And(Ge(x, lo), Le(x, hi)), x)], throws=None)
    for x in (S, L, R, G, B, V):
        x.done()


def sr_end(g, x, n):
    return g(A + "SRange::" + n, g(A + "LaneSRange::s_range", x))


def ctor_usr(F, q, n):
    return F.fn(q + "::" + q.rpartition("::")[2], n)["key"]


def pose(F, g, meth, lane, s):
    pos = ("k", A + "LanePosition", kusr(F, A + "LanePosition", 3), s, num(0), num(0))
    return g(A + "Lane::" + meth, lane, pos)


def kusr(F, q, n):
    fn = F.fn(q + "::" + q.rpartition("::")[2], n)
    return fn.get("usr") or fn["key"]


def srange(F, a, b):
    return ("k", A + "SRange", kusr(F, A + "SRange", 2), a, b)
