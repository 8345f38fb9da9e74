"""P18: one rigid translation relates the inertial frame and the backend frame, everywhere."""
from rules.common import *

FLOOR = 10
EXPLANATION = ("Every path of geometry_base::Lane's position queries is enumerated with the backend callbacks left opaque; positions are "
               "normalised to linear combinations of vectors: what is sent to the backend is the inertial position minus the road "
               "geometry's translation, what comes back is the backend position plus that same translation, and the backend's other "
               "answers are passed on untouched. The road geometry reports the translation, tolerances and scale it was built with.")
ASSUMPTIONS = ["VectorBase's operators are what P12 decides", "the backend callbacks (DoToBackendPosition...) are supplied by backends"]
A, B = "maliput::api::", "maliput::geometry_base::"
L = B + "Lane::"
V = "maliput::math::VectorBase::"


def lin(t, k=1, out=None):
    """A vector term as {vector: coefficient}."""
    out = {} if out is None else out
    if t[0] == "c" and t[1] in (V + "operator+", V + "operator-"):
        a = [x for x in t[2:] if x is not None]
        s = -1 if t[1].endswith("-") else 1
        if len(a) == 2:
            lin(a[0], k, out)
            lin(a[1], k * s, out)
            return out
        if len(a) == 1:
            return lin(a[0], k * s, out)
    if t[0] == "c" and t[1].startswith("maliput::math::") and t[1].endswith("::operator*"):
        a = [x for x in t[2:] if x is not None]
        for i in (0, 1):
            if len(a) == 2 and a[i][0] == "n":
                return lin(a[1 - i], k * a[i][1], out)
    if t[0] == "k" and t[1] == "maliput::math::Vector3" and len(t) == 4 and t[3][0] != "list":
        return lin(t[3], k, out)
    out[t] = out.get(t, 0) + k
    if out[t] == 0:
        del out[t]
    return out


def run(ck):
    F = ck.F
    ck.rule("R1", "backend = inertial - translation, in both directions")
    ck.rule("R2", "the backend's lane position and distance are passed on untouched")
    ck.rule("R3", "the road geometry reports the frame, tolerances and scale it was built with")
    back = {"DoToLanePosition": L + "DoToLanePositionBackend", "DoToSegmentPosition": L + "DoToSegmentPositionBackend"}
    S = Spec(ck, opaque=(L + "DoToBackendPosition",) + tuple(back.values()))
    seg = S.E.getter(L + "do_segment", THIS)
    tr = ("c", A + "RoadGeometry::do_inertial_to_backend_frame_translation",
          ("c", A + "Junction::do_road_geometry", ("c", A + "Segment::do_junction", seg)))

    def is_tr(t):
        return t == tr

    def position(t):
        """The vector an InertialPosition was made of."""
        if t[0] == "k" and t[1] == A + "InertialPosition" and len(t) == 4:
            return lin(t[3])
        return None
    fn = F.fn(L + "DoToInertialPosition", 1)
    own = ("c", L + "DoToBackendPosition", THIS, P(fn, 0))

    def to_inertial(p):
        v = position(p.val)
        if v is None:
            raise Unknown("answers %s" % show(p.val))
        return None if v == {own: 1, tr: 1} else "answers %s" % " + ".join("%s*%s" % (k, show(x)) for x, k in v.items())
    S.each_path("Lane.ToInertialPosition: the backend position plus the translation", fn, to_inertial)
    for q, cb in back.items():
        fn = F.fn(L + q, 1)
        xyz = S.E.getter(A + "InertialPosition::xyz", P(fn, 0))

        def there(p, cb=cb, fn=fn, xyz=xyz):
            cs = [e for e in p.events("call") if e.a[0] == cb]
            if len(cs) != 1:
                other = [e.a[0] for e in p.events("call") if e.a[0] in back.values()]
                return "asks the backend %d times%s" % (len(cs), " (asks %s)" % other[0] if other else "")
            args = cs[0].a[2]
            if cs[0].a[1] != THIS:
                return "asks another lane"
            if lin(args[0]) != {xyz: 1, tr: -1}:
                return "sends %s to the backend" % " + ".join("%s*%s" % (k, show(x)) for x, k in lin(args[0]).items())
            d = agg(p.val)
            if not d:
                raise Unknown("answers %s" % show(p.val))
            near = d.get("nearest_position", ("none",))
            near = {xyz: 1} if near == P(fn, 0) else position(near)
            strip = lambda t: t[1] if t[0] in ("addr", "&") else t
            outs = [strip(a) for a in args[1:]]
            if d.get("lane_position") not in (outs[0], args[1], ("out", cb, outs[0][1:] if outs[0][0] == "var" else None)) and \
               strip(d.get("lane_position")) != outs[0]:
                return "reports the lane position %s" % show(d.get("lane_position"))
            if near is None:
                raise Unknown("reports the nearest position %s" % show(d.get("nearest_position")))
            want = [x for x in near if x != tr]
            if near.get(tr) != 1 or len(want) != 1 or near[want[0]] != 1 or \
               want[0] not in (outs[1], ("out", cb, outs[1][1] if len(outs[1]) > 1 else None)):
                return "reports the nearest position %s" % " + ".join("%s*%s" % (k, show(x)) for x, k in near.items())
            if d.get("distance") != ("out", cb, outs[2][1] if len(outs[2]) > 1 else None) and d.get("distance") != outs[2]:
                return "reports the distance %s" % show(d.get("distance"))
            return None
        S.each_path("Lane.%s: the backend is asked for the translated position, its answer translated back" % q[2:], fn, there)
    # defaults reject
    for q in ("DoToBackendPosition", "DoToLanePositionBackend", "DoToSegmentPositionBackend"):
        fn = F.fn(L + q)
        E = Engine(F)
        ps = [p for p in S.run(fn, E) or []]
        ck.ob("Lane.%s: a backend that provides no conversion is told so" % q, ps and all(p.sig != "ret" for p in ps), where(fn),
              "returns normally with unspecified results")

    # R3
    ctor = F.fn(B + "RoadGeometry::RoadGeometry", 5)
    lt, at, sl = (P(ctor, i) for i in (1, 2, 3))
    S.throws_iff("RoadGeometry: tolerances and scale length must be positive", ctor,
                 Or(Le(lt, num(0)), Le(at, num(0)), Le(sl, num(0))))
    for meth, i in (("do_id", 0), ("do_linear_tolerance", 1), ("do_angular_tolerance", 2), ("do_scale_length", 3),
                    ("do_inertial_to_backend_frame_translation", 4)):
        stores(S, "RoadGeometry.%s: as built" % meth[3:], ctor, B + "RoadGeometry::" + meth, i)
    S.done()
