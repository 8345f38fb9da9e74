"""P05: assembling a road geometry links every part to one parent, numbers it by position and indexes it."""
from rules.common import *

FLOOR = 40
EXPLANATION = ("The assembling entry points of the geometry base classes (AddLane/AddSegment/AddJunction/AddBranchPoint, the attach and "
               "indexing callbacks, instantiated from synth/geometry.cc) are enumerated path by path: null or already attached "
               "parts are rejected, accepted ones are appended to the container the indexed accessor reads, get this object as "
               "parent and their position as index, and they and everything below them reach the id index, whether attached "
               "before or after their parent. Neighbour, count and tolerance accessors are checked against the same containers.")
ASSUMPTIONS = ["std::vector/std::map/std::function behave as specified", "an index or callback already set implies a parent already set"]
G = "maliput::geometry_base::"
A = "maliput::api::"


def stored_in(S, fn, value, obj=THIS):
    """Fields of obj that fn sets to value on every normal path."""
    out = None
    for p in S.run(fn) or []:
        if p.sig == "ret":
            w = {e.a[1] for e in p.events("write") if e.a[0] == obj and e.a[2] == value}
            out = w if out is None else out & w
    return sorted(out or ())


def accessor(S, name, fn, M, n=0):
    """fn(i) is M[i] for i in range and throws otherwise."""
    i = P(fn, n)

    def ok(p):
        return None if p.val in (("at", M, i), ("addr", ("at", M, i))) else "returns %s" % show(p.val)
    S.each_path(name + ": yields the entry at that position", fn, ok)
    S.throws_iff(name + ": rejects positions out of range", fn, Ge(i, ("size", M), True), may=Lt(i, num(0), True))


def container(S, count_fn):
    """Container whose size count_fn returns."""
    for p in S.run(count_fn) or []:
        if p.sig == "ret" and p.val and p.val[0] == "size":
            return p.val[1]
    return None


def attach(S, cls, parent_fn, attach_fn, extra_may=None, extra_bad=None, arg=1):
    """attach_fn(passkey, parent, ...) rejects null and a second parent, otherwise records the parent."""
    F = S.F
    fn = F.fn(G + cls + "::" + attach_fn, None)
    par = P(fn, arg)
    fld = S.E.getter(G + cls + "::" + parent_fn, THIS)
    bad = Or(Null(par), NotNull(fld), *( [extra_bad(fn)] if extra_bad else []))
    S.throws_iff("%s.%s: rejects null and re-attachment" % (cls, attach_fn), fn, bad, may=extra_may(fn) if extra_may else None)
    S.each_path("%s.%s: records the parent" % (cls, attach_fn), fn,
                lambda p: None if performs(p, fld, "write", (par,)) else "the parent accessor does not return the new parent")
    return fn


def run(ck):
    F = ck.F
    ck.rule("R1", "assembling functions reject null and already attached parts, exactly")
    ck.rule("R2", "accepted parts are appended, linked to their parent, numbered by position and indexed with all descendants")
    ck.rule("R3", "count, positional, neighbour and tolerance accessors read the same state")
    S = Spec(ck)
    g = S.E.getter

    # containers behind the counted accessors
    M = {}
    for cls, cnt, item in (("Segment", "do_num_lanes", "do_lane"), ("Junction", "do_num_segments", "do_segment"),
                           ("RoadGeometry", "do_num_junctions", "do_junction"),
                           ("RoadGeometry", "do_num_branch_points", "do_branch_point")):
        fn = F.fn(G + cls + "::" + cnt, 0)
        M[cls, item] = container(S, fn)
        ck.ob("%s.%s counts a container" % (cls, cnt), M[cls, item] is not None, where(fn))
        if M[cls, item]:
            accessor(S, "%s.%s" % (cls, item), F.fn(G + cls + "::" + item, 1), M[cls, item])
    ck.ob("the counted containers are distinct", len(set(M.values())) == len(M), "")

    # parents
    attach(S, "Segment", "do_junction", "AttachToJunction")
    attach(S, "BranchPoint", "do_road_geometry", "AttachToRoadGeometry")
    idx = g(G + "Lane::do_index", THIS)
    fn = attach(S, "Lane", "do_segment", "AttachToSegment",
                extra_bad=lambda fn: Lt(P(fn, 2), num(0), True), extra_may=lambda fn: Not(EqN(idx, num(-1))))
    S.each_path("Lane.AttachToSegment: records the index", fn,
                lambda p: None if performs(p, idx, "write", (P(fn, 2),)) else "the index accessor does not return the new index")

    # indexing callbacks
    setcb = F.fn(G + "Segment::SetLaneIndexingCallback", 2)
    scb = stored_in(S, setcb, P(setcb, 1))
    ck.ob("Segment.SetLaneIndexingCallback stores the callback", len(scb) == 1, where(setcb))
    lanes = M["Segment", "do_lane"]
    att = F.fn(G + "Junction::AttachToRoadGeometry", 4)
    jseg, jlane = stored_in(S, att, P(att, 2)), stored_in(S, att, P(att, 3))
    ck.ob("Junction.AttachToRoadGeometry stores both callbacks", len(jseg) == 1 and len(jlane) == 1 and jseg != jlane, where(att))
    if not (len(scb) == 1 and len(jseg) == 1 and len(jlane) == 1 and all(M.values())):
        S.done()
        return
    scb, jseg, jlane = scb[0], jseg[0], jlane[0]
    lane_cb = ("f", THIS, scb)
    cb = P(setcb, 1)
    S.throws_iff("Segment.SetLaneIndexingCallback: rejects empty and second callbacks", setcb, Or(Null(cb), NotNull(lane_cb)))

    def lanes_indexed(evs, seg_lanes, f, facts):
        return decide(facts, ("empty", seg_lanes)) is True or \
            for_all(evs, seg_lanes, lambda el, x: bool(icalls(x, f, el)))
    S.each_path("Segment.SetLaneIndexingCallback: indexes the lanes already added", setcb,
                lambda p: None if lanes_indexed(p.trace, lanes, cb, p.facts) else "lanes already in the segment are not indexed")

    # AddLane
    add = F.fn(G + "Segment::AddLane", 1)
    lane = P(add, 0)
    at_seg, at_idx = g(G + "Lane::do_segment", lane), g(G + "Lane::do_index", lane)
    S.throws_iff("Segment.AddLane: rejects null and attached lanes", add, Or(Null(lane), NotNull(at_seg)),
                 may=Not(EqN(at_idx, num(-1))))
    S.each_path("Segment.AddLane: returns the lane added", add, lambda p: None if p.val == lane else "returns %s" % show(p.val))

    def appended(p, C, item):
        evs = [e for e in p.events("mut") if e.a[0] == C]
        if len(evs) != 1 or evs[0].a[1] != "push_back" or evs[0].a[2] != (item,):
            return "does not append exactly the given item to %s" % show(C)
        return None

    def add_lane(p):
        c = appended(p, lanes, lane)
        if c:
            return c
        if not performs(p, at_seg, "write", (THIS,)):
            return "the lane's segment is not this segment"
        w = performs(p, at_idx, "write")
        pos = ("sizep", lanes, 1)
        if len(w) != 1 or w[0].a[2] not in (sub(pos, num(1)), ("size", lanes)):
            return "the lane's index (%s) is not its position" % (show(w[0].a[2]) if w else "unset")
        set_ = decide(pre_facts(p), atom_null(lane_cb)[0])
        called = bool(icalls(p.trace, lane_cb, lane))
        if set_ is None or called == set_:
            return "indexing callback %s" % ("not called although set" if set_ is False else "called although not known to be set")
        return None
    S.each_path("Segment.AddLane: appends, links, numbers and indexes the lane", add, add_lane)

    # AddSegment / AttachToRoadGeometry
    segs = M["Junction", "do_segment"]
    add = F.fn(G + "Junction::AddSegment", 1)
    seg = P(add, 0)
    at_j = g(G + "Segment::do_junction", seg)
    c_seg, c_lane = ("f", THIS, jseg), ("f", THIS, jlane)
    S.throws_iff("Junction.AddSegment: rejects null and attached segments", add, Or(Null(seg), NotNull(at_j)),
                 may=NotNull(("f", seg, scb)))
    S.each_path("Junction.AddSegment: returns the segment added", add, lambda p: None if p.val == seg else "returns %s" % show(p.val))

    def hands_down(evs, s_, f, facts):
        """The segment s_ is given the lane callback f and its lanes are indexed with it."""
        inner = subst(lanes, {THIS: s_})
        gave = [e for e in evs if e.k == "write" and e.a[:2] == (s_, scb) and e.a[2] == f]
        return bool(gave) and lanes_indexed(evs, inner, f, facts)

    def add_segment(p):
        c = appended(p, segs, seg)
        if c:
            return c
        if not performs(p, at_j, "write", (THIS,)):
            return "the segment's junction is not this junction"
        pre = pre_facts(p)
        h = decide(pre, atom_null(c_seg)[0])
        if h is not True and not icalls(p.trace, c_seg, seg):
            return "the segment is not indexed"
        h = decide(pre, atom_null(c_lane)[0])
        if h is not True and not hands_down(p.trace, seg, c_lane, p.facts):
            return "the lanes of the segment are not indexed, now and in the future"
        return None
    S.each_path("Junction.AddSegment: appends, links and indexes the segment and its lanes", add, add_segment)

    rg = P(att, 1)
    at_rg = g(G + "Junction::do_road_geometry", THIS)
    S.throws_iff("Junction.AttachToRoadGeometry: rejects null and re-attachment", att,
                 Or(Null(rg), Null(P(att, 2)), Null(P(att, 3)), NotNull(at_rg)),
                 may=Or(NotNull(c_seg), NotNull(c_lane), Fn(lambda c: seg_cb_set(c, segs, scb), "a segment already has a callback")))
    S.each_path("Junction.AttachToRoadGeometry: records the road geometry", att,
                lambda p: None if performs(p, at_rg, "write", (rg,)) else "parent not recorded")

    def index_all(p):
        if decide(p.facts, ("empty", segs)) is True:
            return None
        ok = for_all(p, segs, lambda el, x: bool(icalls(x, P(att, 2), el)))
        if not ok:
            return "segments already in the junction are not indexed"
        if not for_all(p, segs, lambda el, x: hands_down(x, el, P(att, 3), {})):
            return "lanes of segments already in the junction are not indexed, now and in the future"
        return None
    S.each_path("Junction.AttachToRoadGeometry: indexes what was already added", att, index_all)

    # AddJunction / AddBranchPoint
    index = g(G + "RoadGeometry::DoById", THIS)
    maps = {}
    for what in ("Lane", "Segment", "Junction", "BranchPoint"):
        r = S.registry_of(F.fn(A + "BasicIdIndex::DoGet" + what, 1))
        maps[what] = subst(r[0], {THIS: index}) if len(r) == 1 else None
    ck.ob("RoadGeometry.ById is an index with one container per kind", len(set(maps.values()) - {None}) == 4, "", show(index))
    add = F.fn(G + "RoadGeometry::AddJunction", 1)
    j = P(add, 0)
    js = M["RoadGeometry", "do_junction"]
    at = g(G + "Junction::do_road_geometry", j)
    S.each_path("RoadGeometry.AddJunction: rejects null and attached junctions", add,
                lambda p: None if holds(S.ctx(p), Or(Null(j), NotNull(at))) is False else "accepts a null or attached junction")
    S.each_path("RoadGeometry.AddJunction: returns the junction added", add, lambda p: None if p.val == j else "returns %s" % show(p.val))

    def ins(evs, what, item):
        k = g(A + what + "::id", item)
        return any(e.k == "mut" and e.a[0] == maps[what] and e.a[1] in ("insert", "set") and e.a[2] == (k, item) for e in evs)
    jsegs = subst(segs, {THIS: j})

    def add_junction(p):
        c = appended(p, js, j)
        if c:
            return c
        if not performs(p, at, "write", (THIS,)):
            return "the junction's road geometry is not this"
        if not ins(p.trace, "Junction", j):
            return "the junction is not indexed"
        if decide(p.facts, ("empty", jsegs)) is True:
            return None
        if not for_all(p, jsegs, lambda el, x: ins(x, "Segment", el)):
            return "its segments are not indexed"
        if not for_all(p, jsegs, lambda el, x: for_all(x, subst(lanes, {THIS: el}), lambda l, y: ins(y, "Lane", l))):
            return "its lanes are not indexed"
        return None
    S.each_path("RoadGeometry.AddJunction: appends, links and indexes the junction and all its parts", add, add_junction)
    add = F.fn(G + "RoadGeometry::AddBranchPoint", 1)
    b = P(add, 0)
    at = g(G + "BranchPoint::do_road_geometry", b)
    S.throws_iff("RoadGeometry.AddBranchPoint: rejects null, attached and duplicate branch points", add,
                 Or(Null(b), NotNull(at), Has(maps["BranchPoint"], g(A + "BranchPoint::id", b))))

    def add_bp(p):
        c = appended(p, M["RoadGeometry", "do_branch_point"], b)
        if c:
            return c
        if not performs(p, at, "write", (THIS,)):
            return "the branch point's road geometry is not this"
        return None if ins(p.trace, "BranchPoint", b) and p.val == b else "the branch point is not indexed or not returned"
    S.each_path("RoadGeometry.AddBranchPoint: appends, links and indexes the branch point", add, add_bp)

    # neighbours
    lidx, lseg = g(G + "Lane::do_index", THIS), g(G + "Lane::do_segment", THIS)
    n = g(A + "Segment::num_lanes", lseg)

    def neighbour(step, last):
        want = g(A + "Segment::lane", lseg, add_t(lidx, num(step)))

        def ok(p):
            c = S.ctx(p)
            edge = holds(c, last)
            if p.val == NULL:
                return None if edge is True else "no neighbour although the lane is not known to be the last"
            if p.val != want:
                return "returns %s" % show(p.val)
            return None if edge is False else "asks for a neighbour although the lane may be the last"
        return ok
    S.each_path("Lane.to_left: next higher index or none", F.fn(G + "Lane::do_to_left", 0), neighbour(1, left_edge(lidx, n)), need=2)
    S.each_path("Lane.to_right: next lower index or none", F.fn(G + "Lane::do_to_right", 0), neighbour(-1, right_edge(lidx)), need=2)

    # construction parameters
    ctor = F.fn(G + "RoadGeometry::RoadGeometry", 5)
    for i, acc in enumerate(("do_id", "do_linear_tolerance", "do_angular_tolerance", "do_scale_length",
                             "do_inertial_to_backend_frame_translation")):
        fld = g(G + "RoadGeometry::" + acc, THIS)
        S.each_path("RoadGeometry.%s is the constructor argument" % acc, ctor,
                    lambda p, fld=fld, i=i: None if performs(p, fld, "write", (P(ctor, i),)) else "not initialised from it")
    S.throws_iff("RoadGeometry rejects non-positive tolerances and scale length", ctor,
                 Or(*[Not(Gt(P(ctor, i), num(0))) for i in (1, 2, 3)]))
    for cls in ("Lane", "Segment", "Junction", "BranchPoint"):
        ctor = F.fn(G + cls + "::" + cls, 1)
        fld = g(G + cls + "::do_id", THIS)
        S.each_path("%s.id is the constructor argument" % cls, ctor,
                    lambda p, fld=fld: None if performs(p, fld, "write", (P(ctor, 0),)) else "id not initialised from it")
    S.done()


def add_t(a, b):
    import terms
    return terms.add(a, b)


def left_edge(i, n):
    """The index is that of the last lane (valid indices: anything not below it counts)."""
    def f(c):
        for cond in (EqN(i, sub(n, num(1))), Ge(i, sub(n, num(1)), True), Ge(add_t(i, num(1)), n, True)):
            h = holds(c, cond)
            if h is not None:
                return h
        return None
    return Fn(f, "last lane")


def right_edge(i):
    def f(c):
        for cond in (EqN(i, num(0)), Le(i, num(0), True)):
            h = holds(c, cond)
            if h is not None:
                return h
        return None
    return Fn(f, "first lane")


def seg_cb_set(c, segs, scb):
    for a, v in c.facts.items():
        if a[0] == "null" and not v and scb in repr(a) and mentions(a, segs):
            return True
    return None
