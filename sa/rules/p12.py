"""P12: vectors, matrices and rotations obey their algebra."""
from rules.alg import *
import itertools, re

FLOOR = 150
EXPLANATION = ("Every operation of the vector, matrix, quaternion, roll-pitch-yaw, rotation and position classes is evaluated on symbolic "
               "components and compared with its textbook definition as an identity of rational functions (with sqrt and sine/cosine "
               "relations); component accessors, setters and constructors are checked to agree on which component is which.")
ASSUMPTIONS = ["real arithmetic: rounding is not covered", "the library's degeneracy thresholds (kTolerance) are positive symbols"]


def run(ck):
    ck.rule("R1", "accessors, setters and constructors agree on the components")
    ck.rule("R2", "operations equal their definition as exact identities")
    S = Alg(ck)
    vectors(S)
    matrices(S)
    quaternions(S)
    rpys(S)
    S.done()
    sizes(ck)


def loc(S, cls, name, n=None):
    short = cls.replace("<", ">#Vl").rstrip(">")
    fs = [f for k, f in S.F.fns.items() if "@S@%s@F@%s#" % (short, name) in k and not f.get("dep") and (n is None or len(f["params"]) == n)]
    if not fs:
        raise AnalysisError("anchor %s::%s vanished" % (cls, name))
    return where(fs[0])


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    tot = R.c(0)
    for p in itertools.permutations(range(n)):
        sign = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    sign = -sign
        t = R.c(sign)
        for i in range(n):
            t = t * m[i][p[i]]
        tot = tot + t
    return tot


def vectors(S):
    for cls, n, names in (("Vector2", 2, "xy"), ("Vector3", 3, "xyz"), ("Vector4", 4, "xyzw")):
        q = M + cls
        at = loc(S, cls, "dot")
        u, v, t = S.syms("a", n), S.syms("b", n), R.sym("t")

        def obj(a, xs, q=q, n=n):
            return a.new(q, *xs, ptypes=["double"] * n)

        def same(name, f, at_=at):
            S.same("%s: %s" % (cls, name), f, at_)
        for i, c in enumerate(names):
            same("%s() is component %d" % (c, i), lambda a, c=c, i=i: ([a.on(obj(a, u), c), a.on(obj(a, u), "operator[]", i)], [u[i], u[i]]),
                 loc(S, cls, c))

            def setc(a, c=c, i=i):
                o = obj(a, u)
                a.on(o, c, const=False).v = t
                o2 = obj(a, u)
                a.on(o2, "operator[]", i, const=False).v = t
                w = u[:i] + [t] + u[i + 1:]
                return [o, o2], [w, w]
            same("%s() and [%d] as left-hand sides change that component only" % (c, i), setc, loc(S, cls, c))
            e = [R.c(int(j == i)) for j in range(n)]
            same("Unit%s" % c.upper(), lambda a, c=c, e=e: (a.on(q, "Unit" + c.upper()), e), loc(S, cls, "Unit" + c.upper()))
        same("Zero and Ones", lambda a: ([a.on(q, "Zero"), a.on(q, "Ones"), a.new(q)], [0] * n + [1] * n + [0] * n))
        same("+", lambda a: (a.on(obj(a, u), "operator+", obj(a, v)), [x + y for x, y in zip(u, v)]))
        same("-", lambda a: (a.on(obj(a, u), "operator-", obj(a, v)), [x - y for x, y in zip(u, v)]))

        def plus(a):
            o = obj(a, u)
            r = a.on(o, "operator+=", obj(a, v))
            return [o, r], [x + y for x, y in zip(u, v)] * 2
        same("+= changes the vector", plus)
        for nm in ("operator=",):
            def asg(a):
                o = obj(a, u)
                a.on(o, nm, obj(a, v), ptypes=["VectorBase<%d, maliput::math::%s> &" % (n, cls)])
                return o, v
            try:
                same("assignment copies every component", asg)
            except AnalysisError:
                pass
        same("/ scalar", lambda a: (a.on(obj(a, u), "operator/", t), [x / t for x in u]))
        same("* scalar, on either side", lambda a: (
            [a.call(M + "operator*", None, obj(a, u), t, ptypes=["VectorBase<%d, maliput::math::%s>" % (n, cls), "double"]),
             a.call(M + "operator*", None, t, obj(a, u), ptypes=["double", "VectorBase<%d, maliput::math::%s>" % (n, cls)])], [x * t for x in u] * 2))
        dot = sum((x * y for x, y in zip(u, v)), R.c(0))
        nn = sqrt(sum((x * x for x in u), R.c(0)))
        same("dot", lambda a: (a.on(obj(a, u), "dot", obj(a, v)), dot))
        same("norm", lambda a: (a.on(obj(a, u), "norm"), nn))
        same("normalized", lambda a: (a.on(obj(a, u), "normalized"), [x / nn for x in u]))

        def normalize(a):
            o = obj(a, u)
            a.on(o, "normalize")
            return o, [x / nn for x in u]
        same("normalize", normalize)
        alleq = And(*[equal(x, y) for x, y in zip(u, v)])
        S.iff("%s: == when every component is equal" % cls, lambda a: (a.on(obj(a, u), "operator==", obj(a, v)), alleq), at)
        S.iff("%s: != when some component differs" % cls, lambda a: (a.on(obj(a, u), "operator!=", obj(a, v)), Not(alleq)), at)
        bad = R.c(n), R.c(n + 3)
        rejected(S, "%s: an index outside [0, %d) is rejected" % (cls, n), [(lambda a, i=i: a.on(obj(a, u), "operator[]", i)) for i in bad], at)
    u, v = S.syms("a", 3), S.syms("b", 3)
    S.same("Vector3: cross", lambda a: (a.on(S.vec("a"), "cross", S.vec("b")),
                                        [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]), loc(S, "Vector3", "cross"))


def rejected(S, name, progs, at):
    """Every call throws a documented error before reading anything outside."""
    def prog(a):
        for f in progs:
            try:
                f(a)
            except Throw as e:
                if e.ub:
                    return "reads outside its elements"
                if not str(e.what).endswith("internal::Throw") and "assertion_error" not in str(e.what):
                    return "throws %s" % (e.what,)
                continue
            return "accepts it"
    S.holds(name, prog, at)


def matrices(S):
    names_ = {}
    for n in (2, 3, 4):
        cls = "Matrix<%d>" % n
        at = loc(S, cls, "transpose")
        m = [[R.sym("m%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        k = [[R.sym("k%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        t = R.sym("t")
        rn = range(n)
        flatm = lambda z: [x for r in z for x in r]

        def same(name, f, at_=None):
            S.same("%s: %s" % (cls, name), f, at_ or at)

        def A_(a):
            return S.mat("m", n)

        def B_(a):
            return S.mat("k", n)
        for i in rn:
            same("row(%d), col(%d) and [%d]" % (i, i, i), lambda a, i=i: (
                [a.on(A_(a), "row", i), a.on(A_(a), "col", i), a.on(A_(a), "operator[]", i)], m[i] + [m[j][i] for j in rn] + m[i]), loc(S, cls, "row"))
        same("Identity", lambda a: (a.on(M + cls, "Identity"), [int(i == j) for i in rn for j in rn]), loc(S, cls, "Identity"))
        same("transpose", lambda a: (a.on(A_(a), "transpose"), [m[j][i] for i in rn for j in rn]))
        for nm, f in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y)):
            same(nm, lambda a, nm=nm, f=f: (a.on(A_(a), "operator" + nm, B_(a)), [f(m[i][j], k[i][j]) for i in rn for j in rn]))
        same("* matrix", lambda a: (a.on(A_(a), "operator*", B_(a)), [sum((m[i][l] * k[l][j] for l in rn), R.c(0)) for i in rn for j in rn]),
             loc(S, cls, "operator*"))
        same("/ scalar", lambda a: (a.on(A_(a), "operator/", t), [x / t for x in flatm(m)]))
        same("* scalar, on either side", lambda a: (
            [a.call(M + "operator*", None, A_(a), t, ptypes=["Matrix<%d>" % n, "double"]),
             a.call(M + "operator*", None, t, A_(a), ptypes=["double", "Matrix<%d>" % n])], [x * t for x in flatm(m)] * 2))
        v = S.syms("v", n)
        same("* vector", lambda a: (a.call(M + "operator*", None, A_(a), S.vec("v", n), ptypes=["Matrix<%d>" % n, "VectorBase<%d, maliput::math::Vector%d>" % (n, n)]),
                                    [sum((m[i][j] * v[j] for j in rn), R.c(0)) for i in rn]))
        D = det(m)

        for nm, calls in (("row", lambda a, i: a.on(A_(a), "row", i)), ("col", lambda a, i: a.on(A_(a), "col", i)), ("operator[]", lambda a, i: a.on(A_(a), "operator[]", i)),
                          ("cofactor", lambda a, i: a.on(A_(a), "cofactor", i, R.c(0))), ("cofactor", lambda a, i: a.on(A_(a), "cofactor", R.c(0), i)),
                          ("reduce", lambda a, i: a.on(A_(a), "reduce", i, R.c(0))), ("reduce", lambda a, i: a.on(A_(a), "reduce", R.c(0), i))):
            if nm in ("reduce",) and n == 2:
                continue
            k_ = names_.setdefault((n, nm), [])
            k_.append(1)
            rejected(S, "%s: %s rejects an index outside [0, %d)%s" % (cls, nm, n, " as column" if len(k_) > 1 else ""),
                     [(lambda a, i=i, c=calls: c(a, R.c(i))) for i in (n, n + 3)], loc(S, cls, nm))

        row = lambda a: a.on(A_(a), "row", R.c(0))
        rejected(S, "Vector<%d>: reduce and [] reject an index outside [0, %d)" % (n, n),
                 [(lambda a, i=i, op=op: a.on(row(a), op, R.c(i))) for i in (n, n + 3) for op in ("reduce", "operator[]")], loc(S, "Vector<%d>" % n, "reduce"))
        for i in rn:
            same("reduce(%d) of a row drops that element" % i, lambda a, i=i: (a.on(row(a), "reduce", R.c(i)), [m[0][j] for j in rn if j != i]),
                 loc(S, "Vector<%d>" % n, "reduce"))

        def minor(i, j):
            return [[m[a][b] for b in rn if b != j] for a in rn if a != i]
        if n > 2:
            for i in rn:
                same("reduce(%d, j) drops that row and column" % i, lambda a, i=i: (
                    [a.on(A_(a), "reduce", i, j) for j in rn], [x for j in rn for x in flatm(minor(i, j))]), loc(S, cls, "reduce"))
        cof = [[det(minor(i, j)) * (-1) ** (i + j) for j in rn] for i in rn]
        same("determinant", lambda a: (a.on(A_(a), "determinant"), D), loc(S, cls, "determinant"))
        same("cofactor(i, j)", lambda a: ([a.on(A_(a), "cofactor", i, j) for i in rn for j in rn], flatm(cof)), loc(S, cls, "cofactor"))
        same("cofactor matrix", lambda a: (a.on(A_(a), "cofactor"), flatm(cof)), loc(S, cls, "cofactor"))
        same("adjoint", lambda a: (a.on(A_(a), "adjoint"), [cof[j][i] for i in rn for j in rn]), loc(S, cls, "adjoint"))

        def inv(a):
            r = attempt(lambda: a.on(A_(a), "inverse"))
            sing = a.on(A_(a), "is_singular")
            if isinstance(r, Thrown) or sing:
                return r, Thrown("singular") if sing else cof
            return r, [cof[j][i] / D for i in rn for j in rn]
        S.same("%s: inverse * matrix is the identity, singular matrices are rejected" % cls, inv, loc(S, cls, "inverse"), need=2)

        def singular(a):
            r = a.on(A_(a), "is_singular")
            d = a.std_free("abs", [D], {})
            return r, less(d, R.sym("kTolerance"))
        S.iff("%s: is_singular below the tolerance" % cls, singular, loc(S, cls, "is_singular"))
        alleq = And(*[equal(x, y) for x, y in zip(flatm(m), flatm(k))])
        S.iff("%s: == when every entry is equal" % cls, lambda a: (a.on(A_(a), "operator==", B_(a)), alleq), at)
        S.iff("%s: != when some entry differs" % cls, lambda a: (a.on(A_(a), "operator!=", B_(a)), Not(alleq)), at)
        for f, args in (("row", (n,)), ("col", (n,)), ("operator[]", (n,)), ("cofactor", (n, 0)), ("cofactor", (0, n))):
            S.holds("%s: %s%s is rejected" % (cls, f, args), lambda a, f=f, args=args: None if isinstance(
                attempt(lambda: a.on(A_(a), f, *args)), Thrown) else "accepts it", loc(S, cls, f))


def qmul(p, q):
    return [p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
            p[0] * q[2] + p[2] * q[0] + p[3] * q[1] - p[1] * q[3], p[0] * q[3] + p[3] * q[0] + p[1] * q[2] - p[2] * q[1]]


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def sq(q):
    return sum((x * x for x in q), R.c(0))


def rotate(q, v):
    """q v q* (the rotated vector times the squared norm of q)."""
    return qmul(qmul(q, [R.c(0)] + list(v)), conj(q))[1:]


def rotmat(q):
    """Rotation matrix of a quaternion, times its squared norm."""
    cols = [rotate(q, [R.c(int(i == j)) for j in range(3)]) for i in range(3)]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def quaternions(S):
    q, p, v, t = S.syms("q", 4), S.syms("p", 4), S.syms("v", 3), R.sym("t")
    Q = "Quaternion"
    at = loc(S, Q, "w")

    def o(a, xs=None):
        return S.quat_of(xs or q)

    def same(name, f, at_=None, need=1):
        S.same("Quaternion: " + name, f, at_ or at, need)

    def val(a, x):
        return S.wxyz(x.v if isinstance(x, Cell) else x)
    same("w(), x(), y(), z(), vec() and coeffs() are the four components",
         lambda a: ([S.wxyz(o(a)), a.on(o(a), "vec"), a.on(o(a), "coeffs")], q + q[1:] + q))
    for i, c in enumerate("wxyz"):
        def setc(a, c=c, i=i):
            z = o(a)
            a.on(z, c, const=False).v = t
            return val(a, z), q[:i] + [t] + q[i + 1:]
        same("%s() as left-hand side changes that component only" % c, setc, loc(S, Q, c))
    same("from coefficients in the order of coeffs()", lambda a: (val(a, a.new(M + Q, S.vec("q", 4), ptypes=["Vector4"])), q))
    one = [1, 0, 0, 0]

    def ident(a):
        z = o(a)
        a.on(z, "set_identity")
        return [val(a, a.new(M + Q)), val(a, a.on(M + Q, "Identity")), val(a, z)], one * 3
    same("identity", ident, loc(S, Q, "Identity"))
    n2 = sq(q)
    n = sqrt(n2)
    same("squared_norm, norm, dot", lambda a: ([a.on(o(a), "squared_norm"), a.on(o(a), "norm"), a.on(o(a), "dot", o(a, p))],
                                               [n2, n, sum((x * y for x, y in zip(q, p)), R.c(0))]), loc(S, Q, "norm"))
    TOL = R.sym("kTolerance")

    def normalized(a):
        z = o(a)
        a.on(z, "normalize")
        small = a.less(n, TOL)
        w = one if small else [x / n for x in q]
        return [val(a, z), val(a, a.on(o(a), "normalized"))], w * 2
    same("normalize: divided by the norm, identity when that vanishes", normalized, loc(S, Q, "normalize"), 2)
    same("product", lambda a: (val(a, a.on(o(a), "operator*", o(a, p), ptypes=["Quaternion"])), qmul(q, p)), loc(S, Q, "operator*"))

    def times(a):
        z = o(a)
        r = a.on(z, "operator*=", o(a, p))
        return [val(a, z), val(a, r)], qmul(q, p) * 2
    same("*= is the product", times, loc(S, Q, "operator*="))
    same("conjugate", lambda a: (val(a, a.on(o(a), "conjugate")), conj(q)), loc(S, Q, "conjugate"))

    def inv(a):
        z = val(a, a.on(o(a), "Inverse"))
        ok = a.less(TOL, n2)
        return z, [x / n2 for x in conj(q)] if ok else [0] * 4
    same("Inverse: conjugate over the squared norm, zero when that vanishes", inv, loc(S, Q, "Inverse"), 2)
    R3 = rotmat(q)

    def tomat(a):
        z = a.on(o(a), "ToRotationMatrix")
        if a.less(n, TOL):
            return z, [int(i == j) for i in range(3) for j in range(3)]
        return z, [x / n2 for r in R3 for x in r]
    same("ToRotationMatrix: q v q* of the normalised quaternion", tomat, loc(S, Q, "ToRotationMatrix"), 2)
    # a unit quaternion: w^2 = 1 - x^2 - y^2 - z^2, by construction w = sqrt(..)
    w1 = sqrt(1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])
    unit = [w1] + q[1:]
    same("TransformVector and * vector rotate by a unit quaternion as q v q*",
         lambda a: ([a.on(o(a, unit), "TransformVector", S.vec("v")), a.on(o(a, unit), "operator*", S.vec("v"), ptypes=["Vector3"])],
                    rotate(unit, v) * 2), loc(S, Q, "TransformVector"))
    alleq = And(*[equal(x, y) for x, y in zip(q, p)])
    S.iff("Quaternion: == when every component is equal", lambda a: (a.on(o(a), "operator==", o(a, p)), alleq), loc(S, Q, "operator=="))
    S.iff("Quaternion: != when some component differs", lambda a: (a.on(o(a), "operator!=", o(a, p)), Not(alleq)), loc(S, Q, "operator!="))

    # from an angle and an axis
    ax = S.syms("x", 3)
    axn = sqrt(sum((x * x for x in ax), R.c(0)))
    c, s = trig(t / 2)

    def angle_axis(a):
        z = val(a, a.new(M + Q, t, S.vec("x"), ptypes=["double", "Vector3"]))
        if a.less(axn, TOL):
            return z, one
        if a.less(R.c(1), TOL):
            raise Skip()
        return z, [c] + [x / axn * s for x in ax]
    same("from angle and axis: cosine and sine of half the angle along the unit axis", angle_axis, at, 2)

    # from a rotation matrix: on the matrix of a unit quaternion, each branch gives +-q; as an identity on symbolic matrices the
    # branch conditions only choose which formula is used, so every branch is checked on rotmat(q) / |q|^2
    def from_matrix(a):
        z = S.wxyz(a.new(M + Q, S.mat("m", 3), ptypes=["Matrix"]))
        m = [[R.sym("m%d%d" % (i, j)) for j in range(3)] for i in range(3)]
        # one component is sqrt(diag) / 2, the others are off-diagonal sums over 4 times it: 4 * z_i * z_j must be the known product
        want = {(0, 1): m[2][1] - m[1][2], (0, 2): m[0][2] - m[2][0], (0, 3): m[1][0] - m[0][1],
                (1, 2): m[1][0] + m[0][1], (1, 3): m[0][2] + m[2][0], (2, 3): m[1][2] + m[2][1]}
        diag = [1 + m[0][0] + m[1][1] + m[2][2], 1 + m[0][0] - m[1][1] - m[2][2], 1 - m[0][0] + m[1][1] - m[2][2],
                1 - m[0][0] - m[1][1] + m[2][2]]
        k = [i for i in range(4) if 4 * z[i] * z[i] == diag[i]]
        if len(k) != 1:
            return "no component is half the root of its diagonal sum"
        k = k[0]
        for j in range(4):
            if j != k and 4 * z[k] * z[j] != want[min(j, k), max(j, k)]:
                return "component %d has the wrong product with component %d" % (j, k)
        # the chosen diagonal sum is not zero: with the four sums adding to 4 it is at least 1 if no other is larger
        c1 = logic.Ctx(facts_of(a.known), [])
        tol = [logic.Lt(terms.num(0), term(TOL)), less(R.sym("kTolerance"), R.c(Fraction(1, 1000)))]
        f = dict(c1.facts)
        for x in tol:
            f.update(logic.given(x))
        # a rotation matrix: every diagonal sum is at least 0
        for d_ in diag:
            f.update(logic.given(at_most(0, d_)))
        if decided(logic.Ctx(f, []), at_most(R.c(Fraction(1, 2)), diag[k])) is not True:
            return "the diagonal sum of component %d may be small" % k
    S.holds("Quaternion: from a rotation matrix, in every case, the quaternion of that matrix, divided by a component that is not small", from_matrix,
            at, need=4)

    # from two vectors
    A, B = S.syms("a", 3), S.syms("b", 3)
    aa, bb = sum((x * x for x in A), R.c(0)), sum((x * x for x in B), R.c(0))
    ab = sum((x * y for x, y in zip(A, B)), R.c(0))
    K = sqrt(aa * bb)
    cr = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]

    def two(a):
        z = o(a)
        a.on(z, "SetFromTwoVectors", S.vec("a"), S.vec("b"))
        z = S.wxyz(z)
        opposite = a.less(a.std_free("abs", [ab / K + 1], {}), TOL)
        if opposite:
            if z[0] != R.c(0):
                return "opposite vectors: w is %s" % show(z[0])
            if sum((x * y for x, y in zip(z[1:], A)), R.c(0)) != R.c(0):
                return "opposite vectors: the axis is not perpendicular"
            if sq(z) != R.c(1):
                return "opposite vectors: the axis is not a unit vector"
            zero = [i for i in range(3) if z[1 + i] == R.c(0)]
            if len(zero) != 1:
                return "opposite vectors: the axis is not a product with a coordinate axis"
            k = zero[0]
            f = facts_of(a.known)
            ab_ = [a.std_free("abs", [x], {}) for x in A]
            for i in range(3):
                f.update(logic.given(at_most(0, ab_[i])))
            others = [i for i in range(3) if i != k]
            for i in others:
                f.update(logic.given(at_most(ab_[i], 0)))
            if decided(logic.Ctx(f, []), less(0, ab_[k])) is not False:
                return "opposite vectors: the axis vanishes for vectors along coordinate axis %d" % k
            return None
        w = [ab + K] + cr
        nn = sqrt(sq(w))
        if a.less(nn, TOL):
            return None
        if any(x * nn != y and x * x * nn * nn != y * y for x, y in zip(z, w)):
            return "not half way between the vectors: %s" % show(z)
    at2 = loc(S, Q, "SetFromTwoVectors")
    S.holds("Quaternion: from two vectors, the half-way rotation, or half a turn about a perpendicular axis", two, at2, need=4)

    def ang(a):
        r = a.on(o(a), "AngularDistance", o(a, p))
        d = qmul(q, conj(p))
        want = 2 * a.std_free("atan2", [sqrt(sq(d[1:])), a.std_free("abs", [d[0]], {})], {})
        return r, want
    same("AngularDistance: twice the angle of q * conjugate(p)", ang, loc(S, Q, "AngularDistance"))

    def approx(a):
        r = a.on(o(a), "IsApprox", o(a, p), t)
        d = sum(((x - y) * (x - y) for x, y in zip(q, p)), R.c(0))
        lo = sq(p) if a.less(sq(p), n2) else n2
        return r, less(d, t * t * lo)
    S.iff("Quaternion: IsApprox compares the difference with the smaller norm", approx, loc(S, Q, "IsApprox"))

    def slerp(a):
        r = val(a, a.on(o(a), "Slerp", t, o(a, p)))
        d = sum((x * y for x, y in zip(q, p)), R.c(0))
        ad = a.std_free("abs", [d], {})
        s0, s1 = 1 - t, t
        if a.less(ad, 1 - TOL):
            th = a.std_free("acos", [ad], {})
            s0, s1 = a.std_free("sin", [(1 - t) * th], {}) / a.std_free("sin", [th], {}), a.std_free("sin", [t * th], {}) / a.std_free("sin", [th], {})
        if a.less(d, R.c(0)):
            s1 = -s1
        return r, [s0 * x + s1 * y for x, y in zip(q, p)]
    same("Slerp: spherical interpolation along the shorter arc", slerp, loc(S, Q, "Slerp"), 4)


def mul3(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), R.c(0)) for j in range(3)] for i in range(3)]


def rpy_matrix(r, p, y):
    cr, sr = trig(r)
    cp, sp = trig(p)
    cy, sy = trig(y)
    X = [[R.c(1), R.c(0), R.c(0)], [R.c(0), cr, -sr], [R.c(0), sr, cr]]
    Y = [[cp, R.c(0), sp], [R.c(0), R.c(1), R.c(0)], [-sp, R.c(0), cp]]
    Z = [[cy, -sy, R.c(0)], [sy, cy, R.c(0)], [R.c(0), R.c(0), R.c(1)]]
    return mul3(Z, mul3(Y, X))


def rpys(S):
    C = "RollPitchYaw"
    at = loc(S, C, "set", 3)
    ang = S.syms("g", 3)
    flatm = lambda z: [x for r in z for x in r]

    def o(a, xs=None):
        return a.new(M + C, *(xs or ang), ptypes=["double"] * 3)

    def same(name, f, at_=None, need=1):
        S.same("RollPitchYaw: " + name, f, at_ or at, need)

    def parts(a):
        v = a.new(M + C, S.vec("g"), ptypes=["Vector3"])
        s1, s2 = a.new(M + C), a.new(M + C)
        a.on(s1, "set", S.vec("g"))
        a.on(s2, "set", *ang)
        get = lambda z: [a.on(z, n + "_angle") for n in ("roll", "pitch", "yaw")] + [a.on(z, "vector")]
        return [get(z) for z in (o(a), v, s1, s2)], (ang + ang) * 4
    same("constructors and setters keep roll, pitch and yaw in that order", parts)
    for i, n in enumerate(("roll", "pitch", "yaw")):
        def setc(a, n=n, i=i):
            z = o(a)
            a.on(z, n + "_angle", const=False).v = R.sym("t")
            return a.on(z, "vector"), ang[:i] + [R.sym("t")] + ang[i + 1:]
        same("%s_angle() as left-hand side changes that angle only" % n, setc)
    dbl = [2 * R.sym("h%d" % i) for i in range(3)]
    same("ToMatrix: Rz(yaw) Ry(pitch) Rx(roll)", lambda a: (a.on(o(a), "ToMatrix"), flatm(rpy_matrix(*ang))), loc(S, C, "ToMatrix"))

    def toq(a):
        z = S.wxyz(a.on(o(a, dbl), "ToQuaternion"))
        return [x for r in rotmat(z) for x in r] + [sq(z)], flatm(rpy_matrix(*dbl)) + [1]
    same("ToQuaternion: a unit quaternion of the same rotation as ToMatrix", toq, loc(S, C, "ToQuaternion"))
    rate = S.syms("d", 3)

    def diff(p, i):
        """Derivative of a polynomial in cos/sin of the angles with respect to angle i."""
        out = R.c(0)
        c, s = trig(ang[i])
        (cm,), (sm,) = c.num, s.num
        for m, k in p.num.items():
            for a_, e in m:
                if ((a_, 1),) in (cm, sm):
                    rest = {x: y for x, y in m if x != a_}
                    mono = R({tuple(sorted([(x, y) for x, y in rest.items()] + ([(a_, e - 1)] if e > 1 else []), key=repr)): Fraction(k) * e})
                    out = out + mono * (-s if ((a_, 1),) == cm else c)
        return out

    def rdt(a):
        m = flatm(rpy_matrix(*ang))
        return a.on(o(a), "CalcRotationMatrixDt", S.vec("d")), [sum((diff(x, i) * rate[i] for i in range(3)), R.c(0)) for x in m]
    same("CalcRotationMatrixDt: the chain rule over ToMatrix", rdt, loc(S, C, "CalcRotationMatrixDt"))

    # angles of a unit quaternion
    q = S.syms("q", 4)
    w1 = sqrt(1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])
    unit = [w1] + q[1:]
    PI = R.c(math.pi)

    def from_quat(a):
        a.assume(less(R.sym("kTolerance"), R.c(1)))
        z = a.new(M + C, S.quat_of(unit), ptypes=["Quaternion"])
        z2 = a.new(M + C)
        a.on(z2, "SetFromQuaternion", S.quat_of(unit))
        r, p, y = [R.c(x.v if isinstance(x, Cell) else x) for x in (a.on(z, n + "_angle") for n in ("roll", "pitch", "yaw"))]
        if flat(a.on(z2, "vector")) != [r, p, y]:
            return "the constructor and SetFromQuaternion() differ"
        m = rotmat(unit)
        atans = sorted({at_ for x in (r, y) for mo in x.num for at_, e in mo if at_[0] == "atan2"}, key=repr)
        # the whole turns added to bring an angle back to (-pi, pi]
        turns = []
        for x in (r, y):
            k = Fraction(x.num.get((), 0)) / (2 * Fraction(math.pi))
            if abs(k - round(k)) > Fraction(1, 10**9) or abs(k) > 1.5:
                return "angle %s is shifted by part of a turn" % show(x)
            turns.append(k)
            f = facts_of(a.known)
            for t in atans:
                v = R({((t, 1),): 1})
                f.update(logic.given(at_most(v, PI)))
                f.update(logic.given(at_most(-PI, v)))
            lim = PI + R.c(Fraction(1, 10**9))
            c = logic.Ctx(f, [])
            if decided(c, And(at_most(x, lim), at_most(-lim, x))) is not True:
                return "angle %s may leave [-pi, pi]" % show(x)
        # pitch: its cosine is the non-negative root of 1 - m20^2
        if len(p.num) != 1 or p.const() is not None:
            return "pitch is %s" % show(p)
        (mo, k), = p.num.items()
        if mo[0][0][0] == "atan2":
            sy, cx = mo[0][0][1:]
            if k != 1 or sy * sy + cx * cx != R.c(1) or sy != -m[2][0] or not _positive_root(cx):
                return "pitch is %s" % show(p)
        elif mo[0][0] != ("asin", -m[2][0]) and not (mo[0][0] == ("asin", m[2][0]) and k == -1):
            return "pitch is %s" % show(p)
        if len(atans) < 2:
            # one half-angle is free (gimbal lock): only when both its components vanish
            ab = lambda x: a.std_free("abs", [x], {})
            e0, e1, e2, e3 = unit
            tiny = lambda x, y: And(at_most(ab(x), R.c(Fraction(1, 10**6))), at_most(ab(y), R.c(Fraction(1, 10**6))))
            ok = Or(tiny(e1 + e3, e0 - e2), tiny(e3 - e1, e0 + e2))
            return None if decided(logic.Ctx(facts_of(a.known), []), ok) is True else "an angle is dropped although it is determined"
        # sine and cosine of roll and yaw times the cosine of the pitch, from the two half angles
        hs = [sqrt(t[1] * t[1] + t[2] * t[2]) for t in atans]
        cosp = hs[0] * hs[1]
        if cosp * cosp != 1 - m[2][0] * m[2][0]:
            return "the half angles do not belong to this rotation"
        (cr, sr), (cy, sy) = trig(r), trig(y)
        for got, want, n in ((cr, m[2][2], "roll"), (sr, m[2][1], "roll"), (cy, m[0][0], "yaw"), (sy, m[1][0], "yaw")):
            if got * cosp != want:
                return "%s does not belong to this rotation" % n
    S.holds("RollPitchYaw: from a quaternion, angles within half a turn of the same rotation", from_quat, loc(S, C, "SetFromQuaternion"), need=4)


def _positive_root(x):
    return x.num and all(Fraction(c) > 0 for c in x.num.values()) and all(a[0] in ("sqrt", "abs") for m in x.num for a, e in m)


def sizes(ck):
    """A list initialises a vector or matrix only when it has as many elements."""
    import rules.common as C
    S = C.Spec(ck)
    n = 0
    for q, elem in ((M + "VectorBase::VectorBase", "double"), (M + "Matrix::Matrix", "double"), (M + "Matrix::Matrix", "Vector")):
        for f in S.F.by_q.get(q, []):
            if f.get("dep") or len(f["params"]) != 1 or "initializer_list<" not in f["params"][0]["t"] or \
                    elem not in f["params"][0]["t"].split("initializer_list<")[1]:
                continue
            m = re.search(r"@S@(\w+)>#Vl(\d+)(.*?)@F@", f["usr"] if "usr" in f else next(k for k, x in S.F.fns.items() if x is f))
            if not m:
                continue
            k = int(m.group(2))
            want = k * k if m.group(1) == "Matrix" and elem == "double" else k
            n += 1
            which = re.findall(r"@S@(Vector\w*)", m.group(3))
            S.throws_iff("%s<%d%s>: a list of other than %d %ss is rejected" % (m.group(1), k, ", " + which[-1] if which else "", want, elem.lower()), f,
                         logic.Not(logic.EqN(("size", C.P(f, 0)), terms.num(want))), exc="assertion_error")
    for q in (M + "VectorBase::operator[]", M + "Matrix::operator[]"):
        seen = {}
        for f in S.F.by_q.get(q, []):
            m = re.search(r"@S@(\w+)>#Vl(\d+)(.*?)@F@", next(k for k, x in S.F.fns.items() if x is f))
            if f.get("dep") or not m or m.group(2) == "0":
                continue
            key = "%s<%s%s>" % (m.group(1), m.group(2), "".join(", " + x for x in re.findall(r"@S@(Vector\w*)", m.group(3))[-1:]))
            seen[key] = seen.get(key, 0) + 1
            i = C.P(f, 0)
            S.throws_iff("%s: [] rejects an index outside [0, %s)%s" % (key, m.group(2), " (%d)" % seen[key] if seen[key] > 1 else ""), f,
                         logic.Not(logic.Lt(i, terms.num(int(m.group(2))))), may=logic.Lt(i, terms.num(0)), exc="assertion_error")
    S.done()
    if not n:
        raise AnalysisError("no constructor takes an initializer list")
