"""P17: the kd-tree holds every point it was given and its queries prune only what cannot matter."""
from rules.common import *

FLOOR = 14
EXPLANATION = ("Every path of the kd-tree's building, region, nearest-point and range-search functions (as instantiated for the sampled "
               "points of a road geometry) is enumerated, recursive calls being taken at their word: building splits the whole range "
               "around its median and links both halves; a node's region is its parent's cut at the parent's coordinate; the nearest-point "
               "query updates the best exactly when a node is nearer and skips a subtree only when the splitting plane is at least as far "
               "as the best; the range search reports a node exactly when it is inside the box and skips a subtree only when its region is "
               "disjoint from the box.")
ASSUMPTIONS = ["std::nth_element partitions around the chosen element",
               "AxisAlignedBox::Contains, Overlaps and GetIntersection are what P11 decides"]
M = "maliput::math::"
D, K = M + "details::", M + "KDTree3D::"
N = D + "Node::"


def pick(F, q, n, which=lambda f: True):
    """The definitions of q with n parameters, instantiated ones first."""
    fs = [f for f in F.fns_of(q) if len(f["params"]) == n and which(f)]
    if not fs:
        raise AnalysisError("%s with %d parameters not found" % (q, n))
    inst = [f for f in fs if not any("type-parameter" in p["t"] or "typename" in p["t"] for p in f["params"]) and
            "type-parameter" not in f["ret"]]
    return (inst or fs)[0]


def g(name, node):
    return ("c", N + "get_" + name, node)


def calls(p, q):
    return [e.a for e in p.events("call", True) if e.a[0] == q]


def run(ck):
    F = ck.F
    ck.rule("R1", "building keeps every point, splits around the median in turn along each dimension and links both halves")
    ck.rule("R2", "a node's region is its parent's region cut at the parent's coordinate")
    ck.rule("R3", "the nearest-point query takes every nearer node and skips only subtrees behind a plane at least as far as the best")
    ck.rule("R4", "the range search reports exactly the points inside the box and skips only disjoint subtrees")
    S = Spec(ck)
    ctx = S.ctx

    # R1
    fn = pick(F, D + "MakeKdTree", 4)
    b, e_, idx, nodes = (P(fn, i) for i in range(4))
    MK = D + "MakeKdTree"

    def next_of(t, dim=3):
        return t in (("bin%", add(idx, num(1)), num(dim)), ("bin", "%", add(idx, num(1)), num(dim))) or \
            (t[0].startswith("bin") and t[-2:] == (add(idx, num(1)), num(dim)))

    def make(p):
        rec = calls(p, MK)
        h = holds(ctx(p), Lt(b, e_))
        if h is None:
            return "does not look at the range"
        if h is False:
            return None if p.val == NULL and not rec else "builds nodes from an empty range"
        nth = [x for x in p.events("algo") if x.a[0] == "nth_element"]
        if len(nth) != 1:
            raise Unknown("the median is not selected by std::nth_element")
        a = ("",) + tuple(nth[0].a[1])
        offs = []
        for t in a[1:4]:
            if t[0] == "it":
                offs.append(num(0))
            else:
                offs.append(t[-1])
        mid = offs[1]
        if offs[0] != b or offs[2] != e_:
            return "selects the median of [%s, %s)" % (show(offs[0]), show(offs[2]))
        if len(a) < 5 or a[4][0] != "k" or a[4][3:] != (idx,):
            return "selects the median by %s" % show(a[4] if len(a) > 4 else ("nothing",))
        c = Ctx(dict(p.facts), [], F.enums)
        if decided(c, And(Le(b, mid), Lt(mid, e_))) is not True:
            raise Unknown("whether %s is in the range is not visible" % show(mid))
        me = lambda t: t[0] in ("at", "ix") and t[2] == mid or t[0] == "deref" and me(t[1]) or t[0] == "addr" and me(t[1])
        left = [x for x in rec if x[2][0] == b]
        right = [x for x in rec if x[2][0] != b]
        if len(left) != 1 or len(right) != 1:
            return "builds %d subtrees" % len(rec)
        if not same(left[0][2][1], mid, c):
            return "the left subtree covers [%s, %s)" % (show(b), show(left[0][2][1]))
        if not (same(right[0][2][0], add(mid, num(1)), c) and right[0][2][1] == e_):
            return "the right subtree covers [%s, %s)" % (show(right[0][2][0]), show(right[0][2][1]))
        if not (next_of(left[0][2][2]) and next_of(right[0][2][2])):
            return "the subtrees split along %s and %s" % (show(left[0][2][2]), show(right[0][2][2]))
        si = calls(p, N + "set_index")
        if [(me(x[1]), x[2]) for x in si] != [(True, (idx,))]:
            return "the node records dimension %s" % ", ".join(show(x[2][0]) for x in si)
        for side, sub_ in (("left", left[0]), ("right", right[0])):
            ss = calls(p, N + "set_" + side)
            if [(me(x[1]), x[2]) for x in ss] != [(True, (sub_[4],))]:
                return "%s child becomes %s" % (side, ", ".join(show(x[2][0]) for x in ss) or "nothing")
            if holds(ctx(p), Null(sub_[4])) is not True:
                sp = [x for x in calls(p, N + "set_parent") if x[1] == sub_[4]]
                if len(sp) != 1 or not me(sp[0][2][0]):
                    return "the %s child does not know its parent" % side
        return None if me(p.val) else "returns %s" % show(p.val)
    S.each_path("MakeKdTree: the median is the node, the two halves are its subtrees", fn, make, need=3)

    fn = pick(F, D + "NodeCmp::operator()", 2)
    at = lambda t, i: ("c", M + "VectorBase::operator[]", None, t, i)
    ix = None
    for p in S.run(fn) or []:
        for t in find_terms(("x",) + tuple(p.facts), lambda x: x[0] == "f" and x[1] == THIS):
            ix = t
    ck.ob("NodeCmp: compares along its dimension", ix is not None, where(fn))
    if ix is not None:
        S.bool_iff("NodeCmp: orders nodes by their coordinate in that dimension", fn,
                   Lt(at(g("coordinate", P(fn, 0)), ix), at(g("coordinate", P(fn, 1)), ix)))
        ctor = pick(F, D + "NodeCmp::NodeCmp", 1)
        stores(S, "NodeCmp: keeps the dimension", ctor, ix, 0)

    fn = pick(F, D + "KDTreeBase::KDTreeBase", 1)
    pts = P(fn, 0)
    S.throws_iff("KDTree: rejects exactly empty collections", fn, Empty(pts))

    def built(p):
        rec = calls(p, MK)
        if len(rec) != 1:
            return "builds %d trees" % len(rec)
        a = rec[0][2]
        C = a[3]
        if a[0] != num(0) or a[1] != ("size", C) or a[2] != num(0):
            return "builds the tree from [%s, %s) along dimension %s" % tuple(show(x) for x in a[:3])
        rootw = [e for e in p.events("write") if e.a[2] == rec[0][4]]
        if not rootw:
            return "drops the tree"
        for l, el, its in loops_over(p.trace, pts):
            if all([x for x in insertions(i.events, C)] and all(mentions(x[-1], el) for x in insertions(i.events, C)) and
                   len(insertions(i.events, C)) == 1 for i in its):
                return None
        return "does not keep every point"
    S.each_path("KDTree: holds every point it was given", fn, built)

    # R2
    fn = pick(F, D + "Initialize3dRegions", 2)
    left, node = P(fn, 0), P(fn, 1)
    par = g("parent", node)

    def region(p):
        h = holds(ctx(p), Is(left))
        if h is None:
            return "treats left and right alike"
        sr = [c for c in calls(p, N + "set_region") if c[1] == node]
        gi = [c for c in calls(p, M + "AxisAlignedBox::GetIntersection") if c[1] == g("region", par)]
        if len(sr) != 1 or len(gi) != 1 or not mentions(sr[0][2][0], gi[0][4]):
            return "the region is not cut from the parent's"
        box = gi[0][2][0]
        if box[0] != "k" or len(box) < 5:
            raise Unknown("cuts with %s" % show(box))
        want = box[4] if h else box[3]
        asg = [x.a for x in p.events("assign")]
        if asg != [(at(want, g("index", par)), at(g("coordinate", par), g("index", par)))]:
            return "the half space of a %s child is bounded by %s" % ("left" if h else "right", ", ".join(
                "%s = %s" % (show(x), show(v)) for x, v in asg) or "nothing")
        return children(p, node)

    def children(p, of):
        for name, flag in (("left", True), ("right", False)):
            c = g(name, of)
            rec = [x[2] for x in calls(p, D + "Initialize3dRegions") if x[2][1] == c]
            if holds(ctx(p), Null(c)) is True:
                if rec:
                    return "gives a missing child a region"
            elif [r[0] for r in rec] != [("b", flag)]:
                return "the %s child is treated as %s" % (name, ", ".join(show(r[0]) for r in rec) or "nothing")
        return None
    S.each_path("Initialize3dRegions: a child's region is the parent's half space on its side", fn, region, need=2)
    fn = pick(F, K + "InitializeRegions", 0)
    inf = float("inf")

    def whole(p):
        sr = calls(p, N + "set_region")
        if len(sr) != 1:
            return "sets %d regions" % len(sr)
        cs = [t for t in find_terms(sr[0][2][0], lambda x: x[0] == "list")]
        if [tuple(x for x in c[1:]) for c in cs] != [(num(-inf),) * 3, (num(inf),) * 3]:
            return "the root's region is %s" % show(sr[0][2][0])
        return children(p, sr[0][1])
    S.each_path("KDTree3D: the root's region is everything, its children are initialised", fn, whole)
    fn = pick(F, K + "KDTree3D", 1)
    S.each_path("KDTree3D: regions are initialised on construction", fn, lambda p: None if find_inits(p) else
                "does not initialise the regions", S.engine(opaque=(K + "InitializeRegions",)))

    # R3
    NP = D + "KDTreeBase::nearest_point"
    fn = pick(F, NP, 6)
    node, pt, idx, tol, nn, nd = (P(fn, i) for i in range(6))
    c_, p_ = at(g("coordinate", node), idx), at(pt, idx)
    dx = sub(c_, p_)

    def nearest(p):
        rec = [x[2] for x in calls(p, NP)]
        asg = [x.a for x in p.events("assign") if x.a[0] in (nd, ("deref", nd))]
        if holds(ctx(p), Null(node)) is True:
            return "visits or takes a missing node" if rec or asg else None
        if holds(ctx(p), Null(node)) is None:
            return "does not check for missing nodes"
        ds = [t for t in find_terms(("x",) + tuple(p.facts) + tuple(v for _, v in asg), lambda x: x[0] == "ic" and len(x) == 4)]
        ds = list(dict.fromkeys(ds))
        if len(ds) != 1 or {ds[0][2], ds[0][3]} != {g("coordinate", node), pt}:
            raise Unknown("the distance of the node is not visible")
        d = ds[0]
        h = holds(ctx(p), Or(Null(nn), Lt(d, nd)))
        if h is None:
            return "takes a node without comparing"
        if h and [v for _, v in asg] != [d]:
            return "a nearer node is not taken"
        if not h and asg:
            return "a node that is not nearer is taken"
        for r in rec:
            if r[1] != pt or r[3] != tol or r[5] != nd:
                return "continues with other arguments"
        if rec and (rec[0][4] != (node if h else nn)):
            return "the best node becomes %s" % show(rec[0][4])
        if not rec:
            return None if holds(ctx(p), Lt(nd, tol)) is True else "stops although the best is not within the tolerance"
        for r in rec:
            if not next_of3(r[2]):
                return "descends along %s" % show(r[2])
        pos = holds(ctx(p), Gt(dx, num(0)))
        neg = holds(ctx(p), Lt(dx, num(0)))
        # the side the point is on must be visited first; a point on the plane may go either way
        if rec[0][0] not in (g("left", node), g("right", node)) or \
           rec[0][0] == g("left", node) and not (pos or holds(ctx(p), Ge(dx, num(0)))) or \
           rec[0][0] == g("right", node) and not (neg or holds(ctx(p), Le(dx, num(0)))):
            return "descends into %s" % show(rec[0][0])
        if len(rec) == 1:
            return None if holds(ctx(p), Ge(mul(dx, dx), nd)) is True else \
                "skips the other side although the plane may be nearer than the best"
        other = g("right" if rec[0][0] == g("left", node) else "left", node)
        return None if len(rec) == 2 and rec[1][0] == other else "visits %s" % show(rec[1][0])

    def next_of3(t):
        return t[0].startswith("bin") and t[-2:] == (add(idx, num(1)), num(3))
    S.each_path("nearest_point: takes every nearer node, skips only subtrees that cannot be nearer", fn, nearest, need=6)
    fn = pick(F, NP, 2)

    def start(p):
        rec = [x[2] for x in calls(p, NP)]
        if len(rec) != 1 or rec[0][1:4] != (P(fn, 0), num(0), P(fn, 1)) or rec[0][4] != NULL:
            return "starts with %s" % "; ".join(", ".join(show(x) for x in r) for r in rec)
        if rec[0][0][0] != "f" or rec[0][0][1] != THIS:
            return "starts at %s" % show(rec[0][0])
        v = p.val
        return None if v[:2] == ("c", N + "get_coordinate") and v[2] != rec[0][0] and not any(v[2] == x for x in rec[0]) else "answers %s" % show(v)
    roots = [r[2][0] for p in S.run(fn) or [] for r in calls(p, NP)]
    S.throws_iff("nearest_point: rejects exactly an empty tree and a tolerance that is not positive", fn,
                 Or(Not(Gt(P(fn, 1), num(0))), Null(roots[0]) if roots else Or()))
    S.each_path("nearest_point: starts at the root with nothing found and answers the best", fn, start)
    fn = pick(F, D + "SquaredDistance::operator()", 2)

    def dist(p):
        for e in p.events("loop"):
            l = e.a[0]
            if l.over[0] == "range" and l.over != ("range", num(0), num(3)):
                return "sums over the dimensions [%s, %s)" % (show(l.over[1]), show(l.over[2]))
            if l.full and l.complete and l.over == ("range", num(0), num(3)):
                df = sub(at(P(fn, 0), l.el), at(P(fn, 1), l.el))
                sq = (mul(df, df), mul(neg_(df), neg_(df)))
                for i in l.iters:
                    v = [x for x in (i.changed or {}).values()]
                    if not any(x in [add(h, s) for s in sq for h in find_terms(x, lambda y: y[0] == "hv")] for x in v):
                        return "sums %s" % ", ".join(show(x) for x in v)
                return None
        raise Unknown("the distance is not summed by a plain loop")

    def neg_(t):
        return mul(num(-1), t)
    S.each_path("SquaredDistance: the sum of squared differences over every dimension", fn, dist)

    # R4
    fn = pick(F, K + "RangeSearch", 3)
    node, box, res = (P(fn, i) for i in range(3))
    coord = g("coordinate", node)
    ov = ("c", M + "BoundingRegion::Overlaps", box, g("region", node))
    inside = lambda c: Or(*[Is(t) for t in find_terms(("x",) + tuple(c), lambda x: x[0] == "c" and x[1].endswith("::Contains") and x[2] == box and contains_me(x[3]))] or [At(None, False)])

    def contains_me(t):
        if t == coord:
            return True
        ls = t[3:] if t[0] == "k" else ()
        ls = ls[0][1:] if len(ls) == 1 and ls[0][0] == "list" else ls
        return tuple(ls) == tuple(at(coord, num(i)) for i in range(3))
    OT = lambda n: Eq(ov, ("enum", M + "OverlappingType::" + n)) if False else None

    def overlap(p):
        """(contained, disjoint) as far as the path knows"""
        def is_(n):
            for a, v in p.facts.items():
                if ov in find_terms(a, lambda x: x == ov) and n in repr(a):
                    return v
            return None
        r = {n: is_(n) for n in ("kContained", "kIntersected", "kDisjointed")}
        for n in r:
            if r[n] is None and any(v is True for v in r.values()):
                r[n] = False
            if r[n] is None and sum(v is False for v in r.values()) == 2:
                r[n] = True
        return r

    def search(p):
        mine = [e for e in p.events("mut") if e.a[1] in GROWS and
                (e.a[0] == res or e.a[0][0] == "out" and e.a[0][1].startswith(K))]  # the list, also once a recursion extended it
        rep = [x[2][0] for x in calls(p, K + "ReportPointsInSubTree")]
        rec = [x[2] for x in calls(p, K + "RangeSearch")]
        if holds(ctx(p), Null(node)) is True:
            return "reports or visits a missing node" if mine or [r for r in rep + [x[0] for x in rec] if r == node] else None
        o = overlap(p)
        if any(e.a[2] != (coord,) and e.a[2] != (("addr", coord),) for e in mine) or any(r[1] != box for r in rec):
            return "reports or searches something else"
        h = holds(ctx(p), inside(p.facts)) if find_terms(("x",) + tuple(p.facts), lambda x: x[0] == "c" and x[1].endswith("::Contains")) else None
        own = len(mine) + rep.count(node)
        if own > 1:
            return "reports a point twice"
        if own and not (h is True or o["kContained"] is True):
            return "reports a point that may be outside the box"
        if not own and h is not False and o["kDisjointed"] is not True:
            return "drops a point that may be inside the box"
        for side in ("left", "right"):
            c = g(side, node)
            vis = rep.count(c) + [x[0] for x in rec].count(c) + rep.count(node)
            if rep.count(node) + rep.count(c) and o["kContained"] is not True:
                return "reports a subtree that is not contained in the box"
            if vis > 1:
                return "visits the %s subtree twice" % side
            if not vis and holds(ctx(p), Null(c)) is not True and o["kDisjointed"] is not True:
                return "skips the %s subtree" % side
        return None
    S.each_path("RangeSearch: reports exactly the points inside, skips only disjoint subtrees", fn, search, need=5)
    fn = pick(F, K + "ReportPointsInSubTree", 2)
    node, res2 = P(fn, 0), P(fn, 1)

    def report(p):
        mine = [e for e in p.events("mut") if e.a[0] == res2 and e.a[1] in GROWS]
        rec = [x[2][0] for x in calls(p, K + "ReportPointsInSubTree")]
        h = holds(ctx(p), Null(node))
        if h is True:
            return "reports a missing node" if mine or rec else None
        if h is None:
            return "does not check for missing nodes"
        c = g("coordinate", node)
        if [e.a[2] for e in mine] not in ([(c,)], [(("addr", c),)]):
            return "reports %d points of the node" % len(mine)
        for side in ("left", "right"):
            k = g(side, node)
            if rec.count(k) != 1 and holds(ctx(p), Null(k)) is not True:
                return "the %s subtree is reported %d times" % (side, rec.count(k))
        return None
    S.each_path("ReportPointsInSubTree: the node and both subtrees, once", fn, report, need=2)
    fn = pick(F, K + "RangeSearch", 1)

    def top(p):
        rec = [x[2] for x in calls(p, K + "RangeSearch")]
        if len(rec) != 1 or rec[0][1] != P(fn, 0) or rec[0][0][0] != "f" or rec[0][0][1] != THIS:
            return "searches %s" % "; ".join(", ".join(show(x) for x in r) for r in rec)
        return None
    S.each_path("RangeSearch: starts at the root with the given box", fn, top)
    S.done()


def find_inits(p):
    return [e for e in p.events("call", True) if e.a[0] == K + "InitializeRegions"]
