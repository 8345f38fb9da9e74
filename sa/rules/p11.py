"""P11: bounding regions are the sets of points they describe."""
from rules.alg import *

FLOOR = 24
EXPLANATION = ("The box classes are evaluated on symbolic corners, sizes, positions, tolerances and orientation matrices. Every path's "
               "comparisons are linear over the monomials of those inputs; what the path returns is compared with the set relation it "
               "stands for, and computed corners, centres and vertices with their definition, as exact identities.")
ASSUMPTIONS = ["real arithmetic; no value is NaN", "the orientation matrix is an arbitrary matrix with its inverse (C++ rotation formulas: P12)",
               "oriented boxes: the comparison margin of the separating-axis test (1e-6) is disregarded"]
AAB, BB, OT = M + "AxisAlignedBox", M + "BoundingBox", M + "OverlappingType::"
BR = M + "BoundingRegion::"


def run(ck):
    F = ck.F
    ck.rule("R1", "constructors accept exactly the documented boxes and keep them")
    ck.rule("R2", "containment, overlap and intersection are the set relations")
    aligned(ck)
    oriented(ck)
    types(ck)


def site(F, q, n=None):
    fs = [f for f in F.fns_of(q) if not f.get("dep") and (n is None or len(f["params"]) == n)]
    if not fs:
        raise AnalysisError("anchor %s vanished" % q)
    return where(fs[0])


def three(f, op=And):
    return op(*[f(i) for i in range(3)])


def aligned(ck):
    F = ck.F
    S = Alg(ck)
    lo, hi, tol = S.syms("lo", 3), S.syms("hi", 3), R.sym("tol")
    olo, ohi, otol = S.syms("olo", 3), S.syms("ohi", 3), R.sym("otol")
    p = S.syms("p", 3)

    def box(a):
        return a.new(AAB, S.vec("lo"), S.vec("hi"), tol)

    def other(a):
        return a.new(AAB, S.vec("olo"), S.vec("ohi"), otol)
    at = site(F, AAB + "::AxisAlignedBox", 3)
    S.throws_iff("AxisAlignedBox: rejects exactly negative tolerances and unordered corners",
                 lambda a: (attempt(lambda: a.new(AAB, S.vec("lo"), S.vec("hi"), tol, valid=False)),
                            Or(less(tol, 0), three(lambda i: less(hi[i], lo[i]), Or))), at)
    S.same("AxisAlignedBox: the corners are what was given", lambda a: (lambda b: ([a.call(AAB + "::min_corner", b), a.call(AAB + "::max_corner", b)],
                                                                             [lo, hi]))(box(a)), at)
    S.same("AxisAlignedBox: its position is the centre", lambda a: (a.call(BR + "position", box(a)), [(x + y) / 2 for x, y in zip(lo, hi)]),
           site(F, AAB + "::do_position"))

    def default_tol(a):
        b = a.new(AAB, S.vec("lo"), S.vec("hi"))
        c = flat(a.call(AAB + "::min_corner", b)) + flat(a.call(AAB + "::max_corner", b))
        return c, lo + hi
    S.same("AxisAlignedBox without tolerance: keeps the corners", default_tol, site(F, AAB + "::AxisAlignedBox", 2))

    def verts(a):
        v = a.call(AAB + "::get_vertices", box(a))
        got = [tuple(flat(x)) for x in v.vals()]
        want = [(x, y, z) for x in (lo[0], hi[0]) for y in (lo[1], hi[1]) for z in (lo[2], hi[2])]
        if len(got) != 8 or set(got) != set(want):
            return "vertices %s" % (got,)
    S.holds("AxisAlignedBox.get_vertices: the eight corners", verts, site(F, AAB + "::get_vertices"))

    def within(x, margin):
        return three(lambda i: And(at_most(lo[i] - margin, x[i]), at_most(x[i], hi[i] + margin)))
    S.iff("AxisAlignedBox.Contains: within the corners widened by the tolerance",
          lambda a: (a.call(BR + "Contains", box(a), S.vec("p")), within(p, tol)), site(F, AAB + "::DoContains"))
    meet = three(lambda i: And(at_most(lo[i], ohi[i]), at_most(olo[i], hi[i])))
    S.iff("AxisAlignedBox.IsBoxIntersected: the boxes share a point", lambda a: (a.call(AAB + "::IsBoxIntersected", box(a), other(a)), meet),
          site(F, AAB + "::IsBoxIntersected"))
    inside = And(within(olo, tol), within(ohi, tol))
    S.iff("AxisAlignedBox.IsBoxContained: every point of the other is contained",
          lambda a: (a.call(AAB + "::IsBoxContained", box(a), other(a)), inside), site(F, AAB + "::IsBoxContained"))
    for t, c in (("kDisjointed", Not(meet)), ("kContained", And(meet, inside)), ("kIntersected", And(meet, Not(inside)))):
        S.iff("AxisAlignedBox.Overlaps: %s" % t, lambda a, t=t, c=c: (a.call(BR + "Overlaps", box(a), other(a)) == OT + t, c),
              site(F, AAB + "::DoOverlaps"))
    S.holds("AxisAlignedBox.Overlaps: rejects other kinds of regions",
            lambda a: None if isinstance(attempt(lambda: a.call(BR + "Overlaps", box(a), obox(S, a, "o"))), Thrown) else "returns",
            site(F, AAB + "::DoOverlaps"))

    def inter(a, part):
        b, o = box(a), other(a)
        if part == "tol":
            # the tolerance does not depend on which corners are taken: look at one nesting only
            a.assume(*[less(x, y) for x, y in zip(lo + ohi, olo + hi)])
        r = a.call(AAB + "::GetIntersection", b, o)
        if part == "some":
            return r is not None, meet
        if r is None:
            raise Skip()
        c = flat(a.call(AAB + "::min_corner", r)) + flat(a.call(AAB + "::max_corner", r))
        want = [y if a.less(x, y) else x for x, y in zip(lo, olo)] + [x if a.less(x, y) else y for x, y in zip(hi, ohi)]
        if part == "box":
            return c, want
        # the tolerance shows in what the result contains
        return a.call(BR + "Contains", r, S.vec("p")), three(lambda i: And(at_most(want[i] - tol, p[i]), at_most(p[i], want[3 + i] + tol)))
    at = site(F, AAB + "::GetIntersection")
    S.iff("AxisAlignedBox.GetIntersection: there is one exactly when the boxes share a point", lambda a: inter(a, "some"), at)
    S.same("AxisAlignedBox.GetIntersection: exactly the common points", lambda a: inter(a, "box"), at, need=1)
    S.iff("AxisAlignedBox.GetIntersection: keeps this box's tolerance", lambda a: inter(a, "tol"), at)
    S.done()


def obox(S, a, n):
    rpy = a.new(M + "RollPitchYaw", *S.syms(n + "rpy", 3), ptypes=["double"] * 3)
    return a.new(BB, S.vec(n + "p"), S.vec(n + "size"), rpy, R.sym(n + "tol"))


def oriented(ck):
    F = ck.F
    # orientation matrices: the one of the box with roll 'trpy0' is T, of the other O; inverse and transpose are opaque
    mats = {}

    def to_matrix(a, this, args):
        n = flat(this)[0]
        for k, m in mats.items():
            if n == R.sym(k + "rpy0") and flat(this)[1:] == [R.sym(k + "rpy1"), R.sym(k + "rpy2")]:
                return copyv(m)
        raise Unsupported("orientation %s" % show(this))

    def invert(a, this, args):
        for k, m in mats.items():
            if flat(this) == flat(m):
                return copyv(invs[k])
            if flat(this) == flat(invs[k]):
                return copyv(m)
        raise Unsupported("inverse of %s" % show(this))
    S = Alg(ck, {M + "RollPitchYaw::ToMatrix": to_matrix, M + "Matrix::inverse": invert, M + "Matrix::transpose": invert})
    S.A.explore(lambda a: mats.update({k: S.mat(k, 3) for k in ("t", "o")}))
    invs = {}
    S.A.explore(lambda a: invs.update({k: S.mat(k + "i", 3) for k in ("t", "o")}))
    rows = lambda m: [flat(m)[3 * i:3 * i + 3] for i in range(3)]
    Rt, Ro, It_ = rows(mats["t"]), rows(mats["o"]), rows(invs["t"])
    pos, size, tol = S.syms("tp", 3), S.syms("tsize", 3), R.sym("ttol")
    opos, osize = S.syms("op", 3), S.syms("osize", 3)
    half = [x / 2 for x in size]
    ohalf = [x / 2 for x in osize]
    p = S.syms("p", 3)
    mv = lambda m, v: [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]

    def box(a):
        return obox(S, a, "t")

    def rpy(a):
        return a.new(M + "RollPitchYaw", *S.syms("trpy", 3), ptypes=["double"] * 3)
    at = site(F, BB + "::BoundingBox", 4)
    S.throws_iff("BoundingBox: rejects exactly negative tolerances and sizes",
                 lambda a: (attempt(lambda: a.new(BB, S.vec("tp"), S.vec("tsize"), rpy(a), tol, valid=False)),
                            Or(less(tol, 0), three(lambda i: less(size[i], 0), Or))), at)
    S.same("BoundingBox: position, size and orientation are what was given",
           lambda a: (lambda b: ([a.call(BR + "position", b), a.call(BB + "::box_size", b), a.call(BB + "::get_orientation", b)],
                                 [pos, size, S.syms("trpy", 3)]))(box(a)), at)

    def corners(P, Rm, h):
        out = set()
        for sx in (1, -1):
            for sy in (1, -1):
                for sz in (1, -1):
                    out.add(tuple(x + y for x, y in zip(P, mv(Rm, [h[0] * sx, h[1] * sy, h[2] * sz]))))
        return out

    def verts(a):
        v = a.call(BB + "::get_vertices", box(a))
        got = [tuple(flat(x)) for x in v.vals()]
        if len(got) != 8 or set(got) != corners(pos, Rt, half):
            return "vertices %s" % (got[:2],)
    S.holds("BoundingBox.get_vertices: position + R * (+-size / 2), each sign once", verts, site(F, BB + "::get_vertices"))

    def contains(x):
        local = mv(It_, [u - v for u, v in zip(x, pos)])
        return three(lambda i: And(at_most(-half[i] - tol, local[i]), at_most(local[i], half[i] + tol)))
    S.iff("BoundingBox.Contains: in the box's frame within half its size widened by the tolerance",
          lambda a: (a.call(BR + "Contains", box(a), S.vec("p")), contains(p)), site(F, BB + "::DoContains"))

    # containment of a box and the overlap type, in terms of what Contains and the separating axis test say
    asked = []

    def has(a, this, args):
        v = tuple(flat(args[0]))
        return a.choose(("is", ("in", v)))
    S2 = Alg(ck, {M + "RollPitchYaw::ToMatrix": to_matrix, M + "Matrix::inverse": invert, M + "Matrix::transpose": invert,
                  BB + "::DoContains": has, BR + "Contains": has})

    def contained(a):
        r = a.call(BB + "::IsBoxContained", box(a), obox(S2, a, "o"))
        r = r.v if isinstance(r, Cell) else r
        known = {k[1][1]: v for k, v in a.known.items() if k[0] == "is"}
        want = corners(opos, Ro, ohalf)
        if not set(known) <= want:
            return "asks for points that are not corners of the other box"
        if r is True and not (set(known) == want and all(known.values())):
            return "true without all corners contained"
        if r is False and False not in known.values():
            return "false although no corner is known to be outside"
        if r not in (True, False):
            return "returns %s" % show(r)
    S2.holds("BoundingBox.IsBoxContained: all corners of the other box are contained", contained, site(F, BB + "::IsBoxContained"), need=2)
    said = lambda n: (lambda a, this, args: a.choose(("is", n)))
    S3 = Alg(ck, {BB + "::IsBoxContained": said("contained"), BB + "::IsBoxIntersected": said("meet"), M + "RollPitchYaw::ToMatrix": to_matrix})

    def overlap(a):
        r = a.call(BR + "Overlaps", box(a), obox(S3, a, "o"))
        c, m = a.known.get(("is", "contained")), a.known.get(("is", "meet"))
        want = {"kContained": c is True, "kIntersected": m is True and c is False, "kDisjointed": m is False and c is not True}
        if not isinstance(r, str) or not want.get(r.rpartition("::")[2]):
            return "returns %s when contained is %s and intersected is %s" % (r, c, m)
    S3.holds("BoundingBox.Overlaps: contained, intersected or disjointed as the two tests say", overlap, site(F, BB + "::DoOverlaps"), need=3)
    S3.holds("BoundingBox.Overlaps: rejects other kinds of regions",
             lambda a: None if isinstance(attempt(lambda: a.call(BR + "Overlaps", box(a), a.new(
                 AAB, S3.vec("lo"), S3.vec("hi"), tol))), Thrown) else "returns", site(F, BB + "::DoOverlaps"))

    # separating axes: the relative translation t and rotation r in this box's frame
    t = mv(It_, [x - y for x, y in zip(opos, pos)])
    rr = [[sum((It_[i][k] * Ro[k][j] for k in range(3)), R.c(0)) for j in range(3)] for i in range(3)]
    ab = lambda x: S.A.std_free("abs", [x], {})
    ar = [[ab(rr[i][j]) for j in range(3)] for i in range(3)]
    axes = []
    for i in range(3):
        axes.append((("face", i), ab(t[i]) - half[i] - sum((ohalf[j] * ar[i][j] for j in range(3)), R.c(0))))
        axes.append((("other face", i), ab(sum((t[k] * rr[k][i] for k in range(3)), R.c(0))) - ohalf[i] - sum((half[k] * ar[k][i] for k in range(3)), R.c(0))))
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            axes.append((("edges", i, j), ab(t[i2] * rr[i1][j] - t[i1] * rr[i2][j]) - half[i1] * ar[i2][j] - half[i2] * ar[i1][j]
                         - ohalf[j1] * ar[i][j2] - ohalf[j2] * ar[i][j1]))

    def no_eps(r):
        top = max(abs(Fraction(c)) for c in r.num.values())
        return R({m: Fraction(c) / top for m, c in r.num.items() if abs(c) > top / 1000}, r.den)
    axes[:] = [(n, no_eps(x)) for n, x in axes]

    def axis_of(atom):
        r = no_eps(atom[1])
        for n, x in axes:
            if r == x:
                return n, 1
            if r == -x:
                return n, -1
        return None, 0

    def separated(a):
        r = a.call(BB + "::IsBoxIntersected", box(a), obox(S, a, "o"))
        r = r.v if isinstance(r, Cell) else r
        sep = {}
        for k, v in a.known.items():
            if k[0] not in ("<0", ">0") or len(k[1].num) < 3:
                continue
            n, s = axis_of(k)
            if n is None:
                return "compares %s, which is no separating axis" % show(k[1])
            above = (k[0] == ">0") == (s == 1)
            # x > 0: separated; x < 0: not separated
            sep[n] = v if above else not v
        if r is True and (len(sep) != len(axes) or any(sep.values())):
            return "true with axes %s unchecked" % sorted(str(n) for n, _ in axes if sep.get(n) is not False)
        if r is False and not any(sep.values()):
            return "false although no axis separates"
        if r not in (True, False):
            return "returns %s" % show(r)
    S.holds("BoundingBox.IsBoxIntersected: false exactly when one of the fifteen axes separates the boxes", separated,
            site(F, BB + "::IsBoxIntersected"), need=16)
    for s in (S, S2, S3):
        s.done()


def types(ck):
    F = ck.F
    en = F.enum(M + "OverlappingType")
    v = {c.rpartition("::")[2]: x for c, x in zip(en["consts"], en["vals"])}
    S = Alg(ck)
    ck.ob("OverlappingType: contained includes intersected, disjointed is nothing",
          v["kDisjointed"] == 0 and v["kContained"] & v["kIntersected"] == v["kIntersected"] != 0 and len(set(v.values())) == 3,
          site(F, M + "operator|"), str(v))
    back = {x: c for c, x in zip(en["consts"], en["vals"])}
    for op, f in (("|", lambda x, y: x | y), ("&", lambda x, y: x & y)):
        def bits(a, op=op, f=f):
            for c1, x in zip(en["consts"], en["vals"]):
                for c2, y in zip(en["consts"], en["vals"]):
                    r = a.call(M + "operator" + op, None, c1, c2, ptypes=["OverlappingType"] * 2)
                    if r != back.get(f(x, y)):
                        return "%s %s %s is %s" % (c1, op, c2, r)
        S.holds("OverlappingType: %s combines the flags" % op, bits, site(F, M + "operator" + op))
    S.done()
