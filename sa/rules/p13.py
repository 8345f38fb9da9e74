"""P13: positions and rotations of the API keep their components and follow the geometry."""
from rules.alg import *
from rules import common
from rules.p12 import loc, qmul, rotate, rotmat, rpy_matrix, sq

FLOOR = 26
A = "maliput::api::"
EXPLANATION = ("InertialPosition, LanePosition, Rotation, RoadPosition and the result structs are evaluated on symbolic components; each "
               "accessor, setter, conversion and operation is compared with its definition as an exact identity.")
ASSUMPTIONS = ["real arithmetic: rounding is not covered", "rotations are built from unit quaternions (R1 shows they are kept normalised)"]


def run(ck):
    ck.rule("R1", "components are kept and handed out under their own name")
    ck.rule("R2", "operations equal their definition as exact identities")
    S = Alg(ck)
    positions(S)
    rotations(S)
    S.done()
    C = common
    K = C.Spec(ck, opaque=(A + "Lane::ToInertialPosition", A + "Lane::DoToInertialPosition"))
    fn = K.F.fn(A + "RoadPosition::ToInertialPosition", 0)
    lane = ("f", C.THIS, A + "RoadPosition::lane")
    K.throws_iff("RoadPosition.ToInertialPosition: needs a lane", fn, logic.Null(lane), exc="assertion_error")
    want = tuple(("c", A + "Lane::" + n, lane, ("f", C.THIS, A + "RoadPosition::pos")) for n in ("ToInertialPosition", "DoToInertialPosition"))
    K.each_path("RoadPosition.ToInertialPosition: where the lane places its position", fn, lambda p: None if p.val in want else "answers %s" % C.show(p.val))
    K.done()


def positions(S):
    x, y, t = S.syms("a", 3), S.syms("b", 3), R.sym("t")
    for cls, names, whole in (("InertialPosition", "xyz", "xyz"), ("LanePosition", "srh", "srh")):
        q = A + cls
        at = loc(S, cls, whole)

        def obj(a, xs=None, q=q):
            return a.new(q, *(xs or x), ptypes=["double"] * 3)

        def comps(a, o, names=names, whole=whole):
            return [a.on(o, n) for n in names] + [a.on(o, whole)]
        def same(name, f, cls=cls, at=at):
            S.same("%s: %s" % (cls, name), f, at)
        same("%s and %s() are the components" % ("(), ".join(names) + "()", whole), lambda a: (comps(a, obj(a)), x + x))
        same("default is the origin", lambda a: (comps(a, a.new(q)), [0] * 6))
        frm = "From" + whole.capitalize()
        same("%s and set_%s take the vector over" % (frm, whole), lambda a: (
            [comps(a, a.on(q, frm, S.vec("b"))), comps(a, setter(a, obj(a), "set_" + whole, S.vec("b")))], (y + y) * 2))
        for i, n in enumerate(names):
            same("set_%s changes %s only" % (n, n), lambda a, n=n, i=i: (comps(a, setter(a, obj(a), "set_" + n, t)), (x[:i] + [t] + x[i + 1:]) * 2))
    q = A + "InertialPosition"
    at = loc(S, "InertialPosition", "Distance")

    def ip(a, xs):
        return a.new(q, *xs, ptypes=["double"] * 3)
    S.same("InertialPosition: length", lambda a: (a.on(ip(a, x), "length"), sqrt(sq(x))), at)
    S.same("InertialPosition: Distance", lambda a: (a.on(ip(a, x), "Distance", ip(a, y)), sqrt(sq([u - v for u, v in zip(y, x)]))), at)
    S.same("InertialPosition: +, - and * scalar on either side", lambda a: (
        [a.on(ip(a, x), "operator+", ip(a, y)), a.on(ip(a, x), "operator-", ip(a, y)), a.on(ip(a, x), "operator*", t),
         a.call(A + "operator*", None, t, ip(a, x), ptypes=["double", "InertialPosition"])],
        [u + v for u, v in zip(x, y)] + [u - v for u, v in zip(x, y)] + [u * t for u in x] * 2), at)
    eq = And(*[equal(u, v) for u, v in zip(x, y)])
    S.iff("InertialPosition: == when every component is equal", lambda a: (a.on(ip(a, x), "operator==", ip(a, y)), eq), at)
    S.iff("InertialPosition: != when some component differs", lambda a: (a.on(ip(a, x), "operator!=", ip(a, y)), Not(eq)), at)
    # structs
    S.same("LaneEnd, RoadPosition and IsoLaneVelocity keep their members in the order of the constructor", structs(S), loc(S, "RoadPosition", "ToInertialPosition"))


def setter(a, o, name, v):
    a.on(o, name, v)
    return o


def structs(S):
    def f(a):
        v = S.syms("a", 3)
        z = a.new(A + "IsoLaneVelocity", *v)
        got = [a.field(z, A + "IsoLaneVelocity::" + n).v for n in ("sigma_v", "rho_v", "eta_v")]
        lane = Opaque("lane")
        le = a.new(A + "LaneEnd", lane, A + "LaneEnd::kFinish")
        got += [a.field(le, A + "LaneEnd::" + n).v for n in ("lane", "end")]
        rp = a.new(A + "RoadPosition", lane, a.new(A + "LanePosition", *v, ptypes=["double"] * 3))
        got += [a.field(rp, A + "RoadPosition::lane").v, a.on(a.field(rp, A + "RoadPosition::pos").v, "srh")]
        return got, v + [lane, A + "LaneEnd::kFinish", lane] + v
    return f


def unit_quat(S, n):
    q = S.syms(n, 4)
    return [sqrt(1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])] + q[1:]


def rotations(S):
    C = "Rotation"
    q = A + C
    at = loc(S, C, "quat")
    u, w = unit_quat(S, "q"), unit_quat(S, "p")
    flatm = lambda z: [x for r in z for x in r]
    one = [1, 0, 0, 0]

    def rot(a, xs):
        a.assume(less(R.sym("kTolerance"), R.c(1)))
        return a.on(q, "FromQuat", S.quat_of(xs))

    def quat(a, r):
        x = a.on(r, "quat")
        return S.wxyz(x.v if isinstance(x, Cell) else x)
    raw = S.syms("q", 4)
    n = sqrt(sq(raw))

    def normal(a):
        r1 = a.on(q, "FromQuat", S.quat_of(raw))
        r2 = setter(a, a.new(q), "set_quat", S.quat_of(raw))
        want = one if a.less(n, R.sym("kTolerance")) else [x / n for x in raw]
        return [quat(a, r1), quat(a, r2)], want * 2
    S.same("Rotation: FromQuat and set_quat keep the normalised quaternion", normal, loc(S, C, "FromQuat"), need=2)
    S.same("Rotation: default is the identity", lambda a: (quat(a, a.new(q)), one), at)
    ang = [2 * R.sym("h%d" % i) for i in range(3)]

    def from_rpy(a):
        a.assume(less(R.sym("kTolerance"), R.c(1)))
        r1 = a.on(q, "FromRpy", *ang)
        r2 = a.on(q, "FromRpy", S.vec_of(ang))
        m = flatm(rpy_matrix(*ang))
        return [a.on(r1, "matrix"), a.on(r2, "matrix")], m * 2
    # a quaternion of unit norm by construction: the norm is shown to be one before it is divided by
    S.same("Rotation: FromRpy is Rz(yaw) Ry(pitch) Rx(roll)", from_rpy, loc(S, C, "FromRpy", 3))
    S.same("Rotation: matrix() is that of the quaternion", lambda a: (a.on(rot(a, u), "matrix"), flatm(rotmat(u))), loc(S, C, "matrix"))
    v = S.syms("v", 3)

    def ip(a, xs):
        return a.new(A + "InertialPosition", *xs, ptypes=["double"] * 3)
    S.same("Rotation: Apply rotates by the quaternion", lambda a: (a.on(rot(a, u), "Apply", ip(a, v)), rotate(u, v)), loc(S, C, "Apply"))

    def reverse(a):
        r = a.on(rot(a, u), "Reverse")
        m = rotmat(u)
        return a.on(r, "matrix"), [m[i][j] * (-1, -1, 1)[j] for i in range(3) for j in range(3)]
    S.same("Rotation: Reverse is half a turn about the own h axis", reverse, loc(S, C, "Reverse"))

    def dist(a):
        r = a.on(rot(a, u), "Distance", rot(a, w))
        m, k = rotmat(u), rotmat(w)
        tot = R.c(0)
        for j in range(3):
            d = sum((m[i][j] * k[i][j] for i in range(3)), R.c(0))
            d = a.std_free("clamp", [d, R.c(-1), R.c(1)], {})
            t = a.std_free("acos", [d], {})
            tot = tot + t * t
        return r, sqrt(tot)
    S.same("Rotation: Distance is the root sum square of the angles between the axes, with cosines kept in [-1, 1]", dist, loc(S, C, "Distance"), need=3)
    # roll, pitch, yaw: the conversion itself is P12's

    def rpy(a):
        a.assume(less(R.sym("kTolerance"), R.c(1)))
        r = rot(a, u)
        e = a.new(M + "RollPitchYaw", S.quat_of(u), ptypes=["Quaternion"])
        want = [a.on(e, n + "_angle") for n in ("roll", "pitch", "yaw")]
        return [a.on(a.on(r, "rpy"), "vector")] + [a.on(r, n) for n in ("roll", "pitch", "yaw")], want * 2
    S.same("Rotation: rpy(), roll(), pitch() and yaw() are the quaternion's angles", rpy, loc(S, C, "rpy"))
