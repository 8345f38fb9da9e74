"""P23: the distance router searches the whole graph and keeps exactly the routes the constraints allow."""
from rules.common import *
from rules.p22 import BASE, RG, BYID, is_k, overload, fld, Shim
from terms import add

FLOOR = 25
EXPLANATION = ("Every path of the graph functions and of the distance router is enumerated with its helpers opaque, and each helper is decided "
               "on its own: the recursive search by its one-step rule (every edge of the node, the opposite node, visited nodes skipped), the "
               "filter by the three constraints, costs by complete minimum, sum and maximum loops.")
ASSUMPTIONS = ["doubles are real numbers", "the recursive search terminates: the visited set grows with each call and nodes are finitely many"]
A, B, G, AN = "maliput::api::", "maliput::routing::", "maliput::routing::graph::", "maliput::(anon)::"
GA = G + "(anon)::"
WHICH = A + "LaneEnd::Which::"
LANE, SEG = A + "Lane::", A + "Segment::"
GBP, GETL, SEGOF = LANE + "GetBranchPoint", A + "RoadGeometry::IdIndex::GetLane", LANE + "segment"
HELPERS = {n: AN + n for n in ("FilterRoutes", "MakePhase", "ComputeAllRoadPositions", "MaybeAddStartAndEndEdges", "MaxPhaseCostInRoute", "ComputeCost",
                               "HasLaneSwitch", "FindEquivalentSCoordinate", "ValidateEndToEndConnectivityInRoutes")}
SEARCH = GA + "FindAllEdgeSequencesHelper"
DRIVE = GA + "IsSequenceDrivable"
OPP = GA + "EdgesConnectToBranchPointsFromOpposingSides"
Ed, No, Gr = G + "Edge::", G + "Node::", G + "Graph::"


def run(ck):
    ck.rule("R1", "the search considers every edge of every reachable node once")
    ck.rule("R2", "every drivable edge sequence becomes one route, phases in order")
    ck.rule("R3", "exactly the routes the constraints allow are returned, validated")
    ck.rule("R4", "invalid input is rejected")
    S = Spec(ck, opaque=BASE + (GBP, GETL))
    nodes(S)
    search(S)
    drivable(S)
    router(S)
    costs(S)
    S.done()


def helper(S, q, name, n=None):
    fs = [f for f in S.F.fns_of(q) if n is None or n(f)]
    if len(fs) != 1:
        S.ck.undecided(name, "src/maliput", "%s is not a function of its own any more" % q)
        return None
    return fs[0]


def F_(cls, n, t):
    return ("f", t, cls + n)


def its(l):
    return [i for i in l.iters if i.sig in (None, "cont")]


def el_of(l):
    return l.el if l.el[0] == "el" else ("el", l.over, l.el[-1])


# ---------------------------------------------------------------------------------------------- graph queries
def nodes(S):
    F = S.F
    fn = F.fn(G + "FindNode", 3)
    bp = ("c", GBP, P(fn, 1), P(fn, 2))
    ns = F_(Gr, "nodes", P(fn, 0))
    has = lambda el: Has(F_(No, "branch_points", ("val", el)), bp)
    some = Ex(ns, has)
    S.returns("FindNode: the node holding the branch point of that lane end, none otherwise", fn,
              [(some, lambda v, c: bare(v)[0] == "val" and holds(c, has(bare(v)[1])) is True), (Not(some), NULL)])
    fn = F.fn(G + "DetermineEdgeEnd", 3)
    g, ref, tgt = (P(fn, i) for i in range(3))
    node = lambda n: ("at", F_(Gr, "nodes", g), F_(Ed, n, ref))
    at = lambda n: Has(F_(No, "edges", node(n)), F_(Ed, "id", tgt))
    same_seg = Eq(F_(Ed, "segment", ref), F_(Ed, "segment", tgt))
    S.returns("DetermineEdgeEnd: the end of the edge whose node the other edge touches", fn,
              [(same_seg, NULL), (at("node_a"), ("enum", WHICH + "kStart")), (at("node_b"), ("enum", WHICH + "kFinish")),
               (Not(Or(same_seg, at("node_a"), at("node_b"))), NULL)], throws=None)


def bare(v):
    while v and v[0] in ("addr", "copyof", "deref"):
        v = v[1]
    return v


def search(S):
    F = S.F
    name = "Search: every edge of a node leads on to its other node, visited nodes aside"
    fn = helper(S, SEARCH, name)
    if fn is not None:
        E = S.engine(opaque=BASE + (SEARCH,))
        g, start, end, visited = (P(fn, i) for i in range(4))

        def step(p):
            R = p.val
            edges = F_(No, "edges", start)
            ls = [e.a[0] for e in p.events("loop", True)]
            ls = [l for l in ls if l.over == edges]
            if len(ls) != 1 or not (ls[0].full and ls[0].complete):
                if not ls:
                    raise Unknown("the edges are visited in some other way")
                return "does not follow every edge"
            l = ls[0]
            edge = ("at", F_(Gr, "edges", g), el_of(l))
            seen = set()
            for i in its(l):
                c = Ctx(i.facts, i.events, F.enums)
                from_a = decided(c, Eq(F_(Ed, "node_a", edge), F_(No, "id", start)))
                if from_a is None:
                    from_b = decided(c, Eq(F_(Ed, "node_b", edge), F_(No, "id", start)))
                    if from_b is None:
                        raise Unknown("which node is visited is not visible")
                    from_a = not from_b
                nxt = ("at", F_(Gr, "nodes", g), F_(Ed, "node_b" if from_a else "node_a", edge))
                ids = (F_(No, "id", nxt), nxt[2])
                vis = [decided(c, Has(visited, x)) for x in ids]
                vis = True if True in vis else False if False in vis else None
                if vis is None:
                    return "does not ask whether the other node was visited; path: %s" % show_facts(i.facts)[:500]
                adds = [e for e in deep(i.events) if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
                if vis:
                    seen.add("visited")
                    if adds:
                        return "goes back to a visited node"
                    continue
                done = [decided(c, Eq(x, F_(No, "id", end))) for x in ids]
                done = True if True in done else False if False in done else None
                if done is None:
                    return "does not ask whether the other node is the end"
                if done:
                    seen.add("end")
                    if [e.a[2] for e in adds] != [(("list", edge),)]:
                        return "reaches the end with %s" % [tuple(map(show, e.a[2])) for e in adds]
                    continue
                seen.add("on")
                sub = [x.a[0] for x in i.events if x.k == "loop" and x.a[0].over[0] == "c" and x.a[0].over[1] == SEARCH]
                if len(sub) != 1 or not (sub[0].full and sub[0].complete):
                    if not any(t for x in i.events if x.k == "call" for t in [x.a[0]] if t == SEARCH):
                        return "stops at a node that is not the end"
                    raise Unknown("the sequences behind a node are used in some other way")
                call = sub[0].over
                if call[3] != g or call[4] != nxt or call[5] != end:
                    return "searches on with %s" % show(call)[:300]
                V = call[6]
                if V == visited:
                    return "does not mark the node as visited"
                marks = [e for e in i.events if (e.k == "mut" and e.a[0] == V and e.a[1] == "insert" and e.a[2][0] in ids) or
                         (e.k == "insert_noop" and e.a[0] == V)]
                if not marks:
                    return "does not mark the node as visited"
                for j in its(sub[0]):
                    s = el_of(sub[0])
                    front = [e for e in j.events if e.k == "mut" and e.a[0] == s and e.a[1] == "seq_insert" and e.a[2][0] == ("it", s, "b") and e.a[2][1] == edge]
                    put = [e for e in j.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS and e.a[2][-1] == s]
                    if not front or not put:
                        if any(e.k == "mut" and e.a[0][0] == "loc" and e.a[0] != R for e in j.events):
                            raise Unknown("sequences are put together in some other way")
                        return "does not put the edge in front of each sequence behind it" if put else "loses a sequence behind a node"
            if seen != {"visited", "end", "on"}:
                return "never handles %s" % sorted({"visited", "end", "on"} - seen)
            return None
        S.each_path(name, fn, step, E=E)
    fn = F.fn(G + "FindAllEdgeSequences", 3)
    g, a, b = (P(fn, i) for i in range(3))
    ida, idb = F_(No, "id", a), F_(No, "id", b)
    ns = F_(Gr, "nodes", g)
    E = S.engine(opaque=BASE + (SEARCH, DRIVE))
    S.throws_iff("FindAllEdgeSequences: rejects exactly nodes that are not in the graph", fn, Or(Not(Has(ns, ida)), Not(Has(ns, idb))), E=E)
    call = ("c", SEARCH, None, g, a, b, ("list", ida))

    def result(p):
        c = S.ctx(p)
        eq = decided(c, Eq(ida, idb))
        if eq is None:
            return "does not compare the nodes"
        v = p.val
        if eq:
            return None if v == ("list",) or v[0] == "loc" and not insertions(p.trace, v) else "returns %s for one node" % show(v)
        if not any(e.k == "call" and e.a[0] == SEARCH and e.a[2][:3] == (g, a, b) for e in deep(p.trace)):
            if any(e.k == "call" and e.a[0] == SEARCH for e in deep(p.trace)):
                return "searches between other nodes"
            raise Unknown("the search is done in some other way")
        V = next(e.a[2][3] for e in deep(p.trace) if e.k == "call" and e.a[0] == SEARCH)
        if V[0] == "list" and ida not in V[1:] or V[0] == "loc" and not any(k == (ida,) for k in insertions(p.trace, V)):
            return "starts without the start node marked as visited"
        return only(p, v, lambda t: t[0] == "loc" or t == call, DRIVE)
    S.each_path("FindAllEdgeSequences: the drivable sequences found, none between a node and itself", fn, result, E=E)


def only(p, R, source, pred):
    """None when container R ends up with exactly the elements of the source for which the predicate function holds."""
    for e in deep(p.trace):
        if e.k == "mut" and e.a[0] == R and e.a[1] == "erase":
            a = e.a[2]
            if len(a) == 2 and a[0][0] == "algo" and a[0][1] in ("remove_if", "remove") and a[1] == ("end", R) and a[0][2:4] == (("it", R, "b"), ("end", R)):
                f, keep = a[0][4], True
                while f[0] == "notfn":
                    f, keep = f[1], not keep
                if f[0] == "fnref" and f[1] == pred:
                    return None if not keep else "drops the elements for which %s holds" % pred.rpartition("::")[2]
                raise Unknown("the predicate of the removal is not visible")
    for e in p.events("loop", True):
        l = e.a[0]
        if not any(insertions(i.events, R) for i in l.iters):
            continue
        el = el_of(l)
        if not (l.full and l.complete):
            return "does not look at every element"
        for i in its(l):
            ins = insertions(i.events, R)
            v = [val for k, val in i.facts.items() if k[0] == "t" and k[1][0] == "c" and k[1][1] == pred and k[1][3] == el]
            if ins and ins[0][-1] != el:
                raise Unknown("keeps %s" % show(ins[0][-1]))
            if not v:
                return "does not ask %s" % pred.rpartition("::")[2] if not any(pred in repr(k) for k in i.facts) else None
            if bool(ins) is not v[0]:
                return "%s an element for which %s is %s" % ("keeps" if ins else "drops", pred.rpartition("::")[2], v[0])
        return None
    if any(pred in repr(e.a) for e in deep(p.trace)) or any(pred in repr(i.facts) for e in p.events("loop", True) for i in e.a[0].iters):
        raise Unknown("the elements are chosen in some other way")
    return "keeps everything"


def drivable(S):
    F = S.F
    name = "Drivable: every pair of consecutive edges connects from opposing sides"
    fn = helper(S, DRIVE, name)
    if fn is not None:
        E = S.engine(opaque=BASE + (OPP,))
        seq = P(fn, 0)
        one = EqN(("size", seq), num(1))
        bad = Ex(("range", num(0), add(("size", seq), num(-1))), lambda i: Not(Is(("c", OPP, None, ("at", seq, i), ("at", seq, add(i, num(1)))))))
        S.bool_iff(name, fn, First(Not(bad), one), E=E, pre_cond=Not(Empty(seq)))
    name = "Opposing sides: the edges lie on different sides of a common branch point"
    fn = helper(S, OPP, name)
    if fn is not None:
        sides(S, fn, name)


def sides(S, fn, name):
    F = S.F
    ref, tgt = P(fn, 0), P(fn, 1)
    E = S.engine(opaque=BASE + (GBP, SEGOF))
    na, nb = (lambda e: F_(Ed, "node_a", e)), (lambda e: F_(Ed, "node_b", e))
    seg = lambda e: F_(Ed, "segment", e)
    order = [(Eq(na(ref), na(tgt)), "kStart", "kStart"), (Eq(na(ref), nb(tgt)), "kStart", "kFinish"),
             (Eq(nb(ref), na(tgt)), "kFinish", "kStart"), (Eq(nb(ref), nb(tgt)), "kFinish", "kFinish")]

    def ends(c):
        for cond, x, y in order:
            h = decided(c, cond)
            if h is None:
                return None
            if h:
                return ("enum", WHICH + x), ("enum", WHICH + y)
        return False

    def points(p, e):
        """(container, end) pairs of the sets of branch points collected from the lanes of edge e"""
        out = []
        for x in p.events("loop"):
            l = x.a[0]
            if not l.full or not l.complete:
                continue
            for i in its(l):
                for m in deep(i.events):
                    if m.k == "mut" and m.a[1] in GROWS and m.a[2][-1][0] == "c" and m.a[2][-1][1] == GBP:
                        b = m.a[2][-1]
                        if seg(e) in find_terms(b[2], lambda t: t == seg(e)) and l.over[:2] == ("range", num(0)) and find_terms(l.over[2], lambda t: t == seg(e)):
                            out.append((m.a[0], b[3]))
        return set(out)

    def judge(p):
        c = S.ctx(p)
        w = ends(Ctx(p.facts, p.trace, F.enums))
        if w is None:
            raise Unknown("which nodes the edges share is not visible")
        if w is False:
            return "answers for edges without a common node"
        rs, ts = points(p, ref), points(p, tgt)
        if not rs or not ts:
            raise Unknown("how the branch points are collected is not visible")
        if {e for _, e in rs} != {w[0]} or {e for _, e in ts} != {w[1]}:
            return "compares the branch points at other ends than the common one"
        asks = {}
        for l in c.loops():
            for i in l.iters:
                for k, v in i.facts.items():
                    if k[0] == "eq" and any(find_terms(x, lambda t: "GetASide" in repr(t[:2]) or "GetBSide" in repr(t[:2])) for x in k[1:3]):
                        for e in (ref, tgt):
                            if seg(e) in k[1:3]:
                                side = "B" if "BSide" in repr(k) else "A"
                                if l.over[0] == "range" and not (l.over[1] == num(0) and l.over[2][0] == "c" and l.over[2][1].endswith(("::size", "::do_size"))):
                                    return "looks only at the lane ends %s of a side" % show(l.over)
                                if l.complete and l.full and v is False:
                                    asks.setdefault((e, side), False)
                                elif v is True and not l.complete:
                                    asks[(e, side)] = True
        if asks:
            for side in "AB":
                v = [asks.get((e, side)) for e in (ref, tgt)]
                if None not in v:
                    want = v[0] != v[1]
                    return None if p.val == ("b", want) else "returns %s although the edges are on %s sides" % (show(p.val), "different" if want else "the same")
            raise Unknown("the sides of the edges are not compared on one side")
        return None if p.val == FALSE else "returns %s without looking at the sides" % show(p.val)
    S.each_path(name, fn, judge, E=E)


def router(S):
    F, g = S.F, S.E.getter
    D = "maliput::DistanceRouter::"
    BG, FN, FA, DE, VRC = G + "BuildGraph", G + "FindNode", G + "FindAllEdgeSequences", G + "DetermineEdgeEnd", B + "ValidateRoutingConstraints"
    ctor = F.fn(D + "DistanceRouter", 2)
    E = S.engine(opaque=BASE + (BG,))
    S.throws_iff("DistanceRouter: rejects exactly a negative tolerance", ctor, Lt(P(ctor, 1), num(0)), E=E)
    keep = {}
    for p in E.paths(ctor):
        for e in p.trace:
            if e.k == "write" and e.a[0] == THIS:
                keep[e.a[2]] = ("f", THIS, e.a[1])
    rn = next((v for k, v in keep.items() if bare(k) == P(ctor, 0)), None)
    tol = keep.get(P(ctor, 1))
    graph = next((v for k, v in keep.items() if k[0] == "c" and k[1] == BG), None)
    S.ck.ob("DistanceRouter: searches the graph of the given road network",
            rn is not None and tol is not None and graph is not None and any(k[0] == "c" and k[1] == BG and k[3] in (("c", RG, P(ctor, 0)), ("c", RG, rn)) for k in keep),
            where(ctor))
    if rn is None or tol is None or graph is None:
        return
    present = {n: q for n, q in HELPERS.items() if S.F.fns_of(q)}
    VAL = B + "Route::ValidateEndToEndConnectivity"
    ops = BASE + (GETL, FN, FA, DE, VRC, VAL) + tuple(present[n] for n in ("FilterRoutes", "MakePhase", "ComputeAllRoadPositions", "MaybeAddStartAndEndEdges",
                                                                          "ValidateEndToEndConnectivityInRoutes") if n in present)
    E = S.engine(opaque=ops)
    fn = F.fn(D + "DoComputeRoutes", 3)
    start, end, con = (P(fn, i) for i in range(3))
    lane = lambda p: ("f", p, A + "RoadPosition::lane")
    mine = lambda p: ("c", GETL, ("c", BYID, ("c", RG, rn)), g(LANE + "id", lane(p)))
    sn, en = ("c", FN, None, graph, lane(start), ("enum", WHICH + "kStart")), ("c", FN, None, graph, lane(end), ("enum", WHICH + "kFinish"))
    must = [("a lane of the network at the start", And(NotNull(lane(start)), Eq(mine(start), lane(start)))),
            ("a lane of the network at the end", And(NotNull(lane(end)), Eq(mine(end), lane(end)))),
            ("a node at the start", NotNull(sn)), ("a node at the end", NotNull(en))]

    def pre(p):
        c = Ctx(p.facts, p.trace, F.enums)
        for n, m in must:
            if decided(c, m) is not True:
                return "routes without %s" % n
        if not any(e.k == "call" and e.a[0] == VRC and e.a[2] == (con,) for e in deep(p.trace)):
            return "routes without validating the constraints"
        return None
    ps = S.each_path("ComputeRoutes: only between lanes of the network, under valid constraints", fn, pre, E=E)
    bad = Or(*[Not(m) for _, m in must])

    def other_throw(p):
        return None if decided(S.ctx(p), bad) is True or any(k[0] == "null" and v and k[1][0] == "c" and k[1][1] == DE for k, v in p.facts.items()) or \
            any(k[0] == "empty" and not v for k, v in p.facts.items()) else "rejects valid input"
    S.each_path("ComputeRoutes: rejects only invalid input", fn, other_throw, E=E, sigs=("throw",), need=4)
    if "MaybeAddStartAndEndEdges" not in present or "MakePhase" not in present or "FilterRoutes" not in present:
        S.ck.undecided("ComputeRoutes: one route per edge sequence", where(fn), "its helpers are no functions of their own any more")
        return
    seqs = ("c", present["MaybeAddStartAndEndEdges"], None, graph, start, end, ("c", FA, None, graph, sn, en))
    MK, CP = present["MakePhase"], present.get("ComputeAllRoadPositions")

    def routes(p):
        v = p.val
        if not (v[0] == "c" and v[1] == present["FilterRoutes"]):
            if v[0] == "loc" or v[0] == "c":
                return "returns routes that were not filtered"
            raise Unknown("returns %s" % show(v)[:200])
        R = [x for x in v[3:] if x != con]
        if con not in v[3:] or len(R) != 1:
            return "filters by other constraints"
        R = R[0]
        ls = [e.a[0] for e in p.events("loop", True) if any(insertions(i.events, R) for i in e.a[0].iters)]
        if len(ls) != 1:
            raise Unknown("the routes are built by %d loops" % len(ls))
        l = ls[0]
        if l.over != seqs and l.over != ("range", num(0), ("size", seqs)):
            return "builds routes from %s" % show(l.over)[:300]
        if not (l.full and l.complete):
            return "does not build a route for every sequence"
        seq = el_of(l) if l.over == seqs else ("at", seqs, l.pos)
        for i in its(l):
            ins = insertions(i.events, R)
            if len(ins) != 1:
                return "builds %d routes for a sequence" % len(ins)
            k = ins[0][-1]
            if k[0] != "k" or bare(k[-1]) != rn:
                raise Unknown("route %s" % show(k)[:200])
            w = phases(i, seq, k[-2])
            if w:
                return w
        return None

    def phases(i, seq, C):
        if C[0] == "list":
            if len(C) != 2 or decided(Ctx(i.facts, i.events), EqN(("size", seq), num(1))) is not True:
                return "builds %d phases" % (len(C) - 1)
            return phase(C[1], num(0), ("at", seq, num(0)), seq, True, True, i)
        ls = [e.a[0] for e in i.events if e.k == "loop" and any(insertions(j.events, C) for j in e.a[0].iters)]
        if len(ls) != 1:
            raise Unknown("the phases are built by %d loops" % len(ls))
        l = ls[0]
        if not (l.full and l.complete and l.over in (seq, ("range", num(0), ("size", seq)))):
            return "does not build a phase for every edge"
        if l.el[0] not in ("ix", "el"):
            raise Unknown("how edges are counted is not visible")
        for j in its(l):
            ins = insertions(j.events, C)
            if len(ins) != 1:
                return "builds %d phases for an edge" % len(ins)
            ix = l.pos if l.pos[0] == "ix" else None
            if ix is None:
                raise Unknown("edges are visited without an index")
            c = Ctx(j.facts, j.events, F.enums)
            first, last = decided(c, EqN(ix, num(0))), decided(c, EqN(add(ix, num(1)), ("size", seq)))
            if first is None or last is None and not first:
                raise Unknown("whether an edge is the first or last one is not visible")
            w = phase(ins[0][-1], ix, None, seq, first, bool(last) and not first, j)
            if w:
                return w
        return None

    def phase(t, ix, edge, seq, first, last, it):
        if not (t[0] == "c" and t[1] == MK):
            raise Unknown("phase %s" % show(t)[:200])
        a = t[3:]
        edges = (edge,) if edge else (("at", seq, ix), ("el", seq, ix[-1]))
        want = {"index": a[0] == ix, "edge": a[1] in edges, "tolerance": a[2] == tol, "road network": bare(a[5]) == rn}
        for k, ok in want.items():
            if not ok:
                return "a phase has another %s" % k
        for k, at_end, given, other in ((3, first, start, -1), (4, last, end, 1)):
            v = a[k]
            if at_end:
                if v != ("list", given):
                    return "the %s phase does not %s at the given position" % (("first", "start") if k == 3 else ("last", "end"))
                continue
            if CP is None or not (v[0] == "c" and v[1] == CP):
                raise Unknown("positions %s" % show(v)[:200])
            near = ("at", seq, add(ix, num(other)))
            if v[3] not in edges or v[5] != near:
                return "the positions of an edge face another edge"
            e = v[4]
            if not (e[0] == "c" and e[1] == DE and e[3] == graph and e[4] in edges and e[5] == near):
                return "the positions of an edge are at %s" % show(e)[:200]
        return None
    S.each_path("ComputeRoutes: one route per edge sequence, from start to end, edge by edge", fn, routes, E=E)
    VR = present.get("ValidateEndToEndConnectivityInRoutes")

    def validated(p, evs=None):
        R = p.val
        for e in p.events("call", True):
            if VR and e.a[0] == VR and e.a[2] == (R,):
                return None
        ok = ok_loop(p, R)
        return ok

    def ok_loop(p, R):
        for e in p.events("loop", True):
            l = e.a[0]
            if l.over == R and l.full and l.complete and all(
                    any(k[0] == "empty" and v and k[1][0] == "c" and k[1][1] == VAL and k[1][2] == el_of(l) for k, v in i.facts.items()) for i in its(l)):
                return None
        return "returns routes that were not validated end to end"
    S.each_path("ComputeRoutes: the returned routes are validated", fn, validated, E=E)
    if VR:
        f = F.fns_of(VR)[0]
        S.each_path("Validation: every route must be connected end to end", f, lambda p: ok_loop(p, P(f, 0)), E=S.engine(opaque=BASE + (VAL,)))
    filters(S, present)


def filters(S, present):
    F = S.F
    name = "Filter: exactly the routes within the cost limits and without forbidden lane switches"
    fn = F.fns_of(present["FilterRoutes"])[0]
    con = next(i for i, p in enumerate(fn["params"]) if "Constraints" in p["t"])
    c, src = P(fn, con), P(fn, 1 - con)
    MP, CC, HL = (present.get(n) for n in ("MaxPhaseCostInRoute", "ComputeCost", "HasLaneSwitch"))
    if not (MP and CC and HL):
        S.ck.undecided(name, where(fn), "its helpers are no functions of their own any more")
        return
    f = lambda n: ("f", c, fld(F, B + "RoutingConstraints", n))
    conds = [lambda r: Or(Null(f("max_phase_cost")), Le(("c", MP, None, r), f("max_phase_cost"))),
             lambda r: Or(Null(f("max_route_cost")), Le(("c", CC, None, r), f("max_route_cost"))),
             lambda r: Or(Is(f("allow_lane_switch")), Not(Is(("c", HL, None, r))))]
    S.each_path(name, fn, lambda p: filtered(p, p.val, src, conds, F.enums, arg=lambda el: el), E=S.engine(opaque=BASE + (MP, CC, HL)))


def fold(p, v, M, op, val, start):
    """v is op over val(el) of every element of M, started at start; complaint otherwise."""
    for e in p.events("loop", True):
        l = e.a[0]
        if l.over == M or l.over == ("range", num(0), ("size", M)):
            break
    else:
        raise Unknown("no loop over %s" % show(M))
    if not (l.full and l.complete):
        return "does not visit all of %s" % show(M)
    els = [el_of(l), ("at", M, l.pos), l.pos]
    got = []
    for i in its(l):
        ch = {k: x for k, x in (i.changed or {}).items() if isinstance(k, tuple)}
        if len(ch) > 1:
            raise Unknown("the loop changes %d variables" % len(ch))
        if not ch:
            cur = {t for k in i.facts for t in find_terms(k, lambda t: t[0] == "hv")}
            ok = any(decided(Ctx(i.facts, i.events), (Le(h, val(x)) if op == "min" else Ge(h, val(x)))) is True for h in cur for x in els)
            if op == "sum" or not ok:
                return "skips an element; path: %s" % show_facts(i.facts)
            continue
        var, x = next(iter(ch.items()))
        got.append(x)
        first = (l.entry or {}).get(var)
        if first is None:
            raise Unknown("what the loop starts from is not visible")
        got.append(first)
        if not (op in ("sum", "max") and first == num(0) or op == "max" and limit(first, ("lowest",)) or
                op == "min" and limit(first, ("max", "infinity"))):
            return "starts from %s" % show(first)
        good = False
        for el in els:
            w = val(el)
            if op == "sum":
                d = add(x, w, -1)
                good |= d[0] == "hv"
            elif x[0] == op and w in x[1:3] and any(y[0] == "hv" for y in x[1:3]):
                good = True
            elif x == w:
                cur = {t for k in i.facts for t in find_terms(k, lambda t: t[0] == "hv")}
                good |= any(decided(Ctx(i.facts, i.events), (Le(w, h) if op == "min" else Ge(w, h))) is True for h in cur)
        if not good:
            return "combines %s" % show(x)
    if v is not None and v[0] != "hv" and v not in got:
        return "results in %s" % show(v)
    return None


def limit(t, names):
    return t[0] == "c" and t[1].startswith("std::numeric_limits") and t[1].rpartition("::")[2] in names or t == num(float("inf")) and "infinity" in names


def costs(S):
    F, g = S.F, S.E.getter
    fs = F.fns_of(HELPERS["ComputeCost"])
    of = {w: [f for f in fs if f["params"] and ("routing::" + w) in f["params"][0]["t"]] for w in ("Phase", "Route")}
    LEN = A + "LaneSRange::length"
    size, get = B + "Route::size", B + "Route::Get"
    E = S.engine(opaque=BASE + (LEN, HELPERS["ComputeCost"], size, get))
    for w, name, op in (("Phase", "Cost of a phase: its shortest lane range", "min"), ("Route", "Cost of a route: the sum over its phases", "sum")):
        if len(of[w]) != 1:
            S.ck.undecided(name, "src/maliput/base/distance_router.cc", "ComputeCost(%s) is not a function of its own any more" % w)
            continue
        cost(S, of[w][0], name, op, w, E, g)
    name = "Phase cost of a route: the largest over its phases"
    f = helper(S, HELPERS["MaxPhaseCostInRoute"], name)
    if f is not None:
        cost(S, f, name, "max", "Route", E, g)
    name = "Lane switch of a single phase: start and end on different lanes"
    f = helper(S, HELPERS["HasLaneSwitch"], name)
    if f is not None:
        r = P(f, 0)
        s, e = ("c", B + "Route::start_route_position", r), ("c", B + "Route::end_route_position", r)
        lane = lambda p: ("f", p, A + "RoadPosition::lane")
        E2 = S.engine(opaque=BASE + (size, get, B + "Route::start_route_position", B + "Route::end_route_position", GBP))

        def single(p):
            c = S.ctx(p)
            one = decided(c, EqN(("c", size, r), num(1)))
            if one is None:
                return "does not ask for the number of phases"
            if not one:
                return None
            d = decided(c, Eq(lane(s), lane(e)))
            return None if d is not None and p.val == ("b", not d) else "returns %s" % show(p.val)
        S.each_path(name, f, single, E=E2)
    lane_coordinates(S)


def cost(S, f, name, op, w, E, g):
    r = P(f, 0)
    if w == "Phase":
        M, val = g(B + "Phase::lane_s_ranges", r), lambda el: ("c", A + "LaneSRange::length", el)
    else:
        M, val = ("range", num(0), ("c", B + "Route::size", r)), lambda i: ("c", HELPERS["ComputeCost"], None, ("c", B + "Route::Get", r, i))

    def ok(p):
        if M[0] != "range":
            return fold(p, p.val, M, op, val, None)
        return fold_range(p, over_indices(p.events("loop", True), M[2], "the phases")[0], op, val, p.val)
    S.each_path(name, f, ok, E=E)


def fold_range(p, l, op, val, v):
    class One:
        pass
    o = One()
    o.events = lambda *a: [type("E", (), {"k": "loop", "a": (l,)})()]
    if not (l.full and l.complete):
        return "does not visit every phase"
    return fold(o, v, l.over, op, val, None)


def fraction(t):
    """Numerator and denominator factors of a product or quotient."""
    if t[0] == "mul":
        n, d = [], []
        for x in t[1:]:
            a, b = fraction(x)
            n, d = n + a, d + b
        return sorted(n, key=repr), sorted(d, key=repr)
    if t[0] == "div":
        (a, b), (c, d) = fraction(t[1]), fraction(t[2])
        return sorted(a + d, key=repr), sorted(b + c, key=repr)
    return [t], []


def clamped(t):
    """x, lo, hi of a value limited to a range."""
    if t[0] == "c" and t[1].endswith("clamp"):
        return t[3:6] if len(t) == 6 else None
    if t[0] in ("min", "max"):
        inner = "max" if t[0] == "min" else "min"
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == inner:
                for x, lim in ((a[1], a[2]), (a[2], a[1])):
                    yield_ = (x, lim, b) if t[0] == "min" else (x, b, lim)
                    if x[0] in ("mul", "div"):
                        return yield_
    return t[1:4] if t[0] == "clamp" else None


def lane_coordinates(S):
    F = S.F
    name = "Equivalent s: proportional to the lane lengths, snapped to the ends within tolerance"
    f = helper(S, HELPERS["FindEquivalentSCoordinate"], name)
    if f is not None:
        ref, lane, tol = (P(f, i) for i in range(3))
        E = S.engine(opaque=BASE + (LANE + "length",))
        L, L0 = ("c", LANE + "length", lane), ("c", LANE + "length", ("f", ref, A + "RoadPosition::lane"))
        s = S.E.getter(A + "LanePosition::s", ("f", ref, A + "RoadPosition::pos"))
        want = fraction(("div", ("mul", s, L), L0))

        def equivalent(p):
            c, ts = S.ctx(p), set()
            for k in list(p.facts) + [p.val]:
                ts |= {t for t in find_terms(k, lambda t: t[0] in ("c", "clamp", "min", "max") and clamped(t) is not None)}
            ts = {t for t in ts if fraction(clamped(t)[0]) == want}
            if len(ts) != 1:
                if not ts and decided(c, Eq(L0, L)) is not None:
                    raise Unknown("lanes of equal length are treated separately")
                return "the reference position is not scaled to the lane; path: %s" % show_facts(p.facts)[:600]
            t = ts.pop()
            x, lo, hi = clamped(t)
            if (lo, hi) != (num(0), L):
                return "limits s to [%s, %s]" % (show(lo), show(hi))
            longer = Gt(L, tol)
            low, high = And(longer, Le(t, tol)), And(longer, Le(add(L, t, -1), tol))
            v = p.val
            if v == num(0):
                return None if decided(c, low) is True else "returns 0 beyond the tolerance; path: %s" % show_facts(p.facts)[:600]
            if v == L:
                return None if decided(c, high) is True else "returns the lane length beyond the tolerance; path: %s" % show_facts(p.facts)[:600]
            if v != t:
                return "returns %s" % show(v)[:300]
            return None if decided(c, low) is False and decided(c, high) is False else "is not snapped; path: %s" % show_facts(p.facts)[:600]
        S.each_path(name, f, equivalent, E=E)
    phases(S)
    positions(S)
    ends(S)
    build(S)


def phases(S):
    F = S.F
    name = "Phase of an edge: one range per lane of its segment, between the given positions"
    f = helper(S, HELPERS["MakePhase"], name)
    if f is None:
        return
    EQV = HELPERS["FindEquivalentSCoordinate"]
    E = S.engine(opaque=BASE + (SEGOF, EQV))
    ps = f["params"]
    try:
        edge = P(f, next(i for i, p in enumerate(ps) if "graph::Edge" in p["t"]))
        a, b = (P(f, i) for i, p in enumerate(ps) if "RoadPosition" in p["t"])
        tol = P(f, next(i for i, p in enumerate(ps) if "double" in p["t"]))
        ix = P(f, next(i for i, p in enumerate(ps) if p["t"] in ("int", "const int")))
        net = P(f, next(i for i, p in enumerate(ps) if "RoadNetwork" in p["t"]))
    except (StopIteration, ValueError):
        S.ck.undecided(name, where(f), "its parameters changed")
        return
    seg = F_(Ed, "segment", edge)
    of = lambda el: Eq(("c", SEGOF, ("f", el, A + "RoadPosition::lane")), seg)
    S.throws_iff("Phase of an edge: positions must exist and lie on its segment", f,
                 Or(Null(seg), Empty(a), Empty(b), Ex(a, lambda el: Not(of(el))), Ex(b, lambda el: Not(of(el)))), E=E)
    nl, ln = E.getter(SEG + "num_lanes", seg), lambda i: E.getter(SEG + "lane", seg, i)

    def ok(p):
        v = p.val
        if v[0] != "k" or v[1] != B + "Phase":
            return "returns %s" % show(v)[:200]
        args = v[3:]
        if [bare(x) for x in (args[0], args[1], args[2], args[3], args[5])] != [ix, tol, a, b, net]:
            return "builds %s" % show(v)[:300]
        R = bare(args[4])
        l = over_indices(p.events("loop", True), nl, "the lanes")[0]
        if not (l.full and l.complete):
            return "leaves lanes out"
        lane = ln(l.el)
        sc = lambda w: {("c", EQV, None, pos, x, tol) for pos in (("at", w, num(0)), ("front", w), ("el0", w)) for x in (lane, ("deref", lane))}
        for i in its(l):
            ins = [e.a[2] for e in i.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
            if len(ins) != 1:
                return "adds %d ranges for a lane" % len(ins)
            r = ins[0][-1]
            k = [x for x in find_terms(r, lambda t: t[0] == "k" and t[1] == A + "SRange")]
            ids = E.getter(LANE + "id", lane)
            if len(k) != 1 or len(k[0]) < 5:
                return "adds %s" % show(r)[:300]
            if k[0][3] not in sc(a) or k[0][4] not in sc(b):
                return "the range of a lane is %s" % show(k[0])[:400]
            if ids not in r and ids not in [bare(x) for x in r]:
                return "the range is not that of the lane: %s" % show(r)[:300]
        return None
    S.each_path(name, f, ok, E=E)


def positions(S):
    F = S.F
    name = "Positions between edges: the ends of the lanes that touch the other segment"
    f = helper(S, HELPERS["ComputeAllRoadPositions"], name)
    if f is None:
        return
    CB, OB = LANE + "GetConfluentBranches", LANE + "GetOngoingBranches"
    E = S.engine(opaque=BASE + (SEGOF, CB, OB))
    ref, end, tgt = (P(f, i) for i in range(3))
    seg, other = F_(Ed, "segment", ref), F_(Ed, "segment", tgt)
    nl, ln = E.getter(SEG + "num_lanes", seg), lambda i: E.getter(SEG + "lane", seg, i)
    start = Eq(end, ("enum", WHICH + "kStart"))

    def scan(l, R):
        """Which branches the loop over the lanes looks at; complaint otherwise."""
        if not (l.full and l.complete):
            return None, "leaves lanes out"
        lane = ln(l.el)
        kind = None
        for i in its(l):
            ins = [e.a[2][-1] for e in i.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
            found = None
            for e in i.events:
                if e.k != "loop":
                    continue
                m = e.a[0]
                for q in (CB, OB):
                    s = ("c", q, lane, end)
                    if s in set(find_terms(m.over, lambda t: t == s)):
                        over_indices([e], E.getter(A + "LaneEndSet::size", s), "the branches")
                    if m.over == ("range", num(0), E.getter(A + "LaneEndSet::size", s)):
                        hit = Eq(("c", SEGOF, ("f", E.getter(A + "LaneEndSet::get", s, m.el), A + "LaneEnd::lane")), other)
                        if kind not in (None, q):
                            return None, "looks at both kinds of branches"
                        kind = q
                        if not m.full:
                            return None, "does not look at every branch"
                        if m.complete and all(decided(Ctx(x.facts, x.events), hit) is False for x in its(m)):
                            found = False
                        elif m.complete and all(decided(Ctx(x.facts, x.events), hit) is True for x in its(m)):
                            return None, "looks for lanes that do not touch the segment"
                        elif not m.complete and all(decided(Ctx(x.facts, x.events), hit) is (x.sig in (None, "cont")) for x in m.iters):
                            return None, "looks for lanes that do not touch the segment"
                        elif decided(Ctx(i.facts, i.events), hit) is True or (not m.complete and all(
                                decided(Ctx(x.facts, x.events), hit) is (x.sig not in (None, "cont")) for x in m.iters)):
                            found = True
            if found is None:
                raise Unknown("whether a lane touches the other segment is not visible")
            if bool(ins) != found:
                return None, "keeps a lane that does not touch the segment" if ins else "leaves out a lane that touches the segment"
            if not ins:
                continue
            if len(ins) != 1:
                return None, "adds a lane %d times" % len(ins)
            at = [t for t in find_terms(ins[0], lambda t: t[0] == "k" and t[1] == A + "LanePosition")]
            if len(at) != 1 or len(at[0]) != 6:
                return None, "adds %s" % show(ins[0])[:200]
            if lane not in ins[0]:
                return None, "the position is not on the lane: %s" % show(ins[0])[:200]
            st = decided(Ctx(i.facts, i.events, F.enums), start)
            if st is None:
                return None, "does not ask which end it is"
            if at[0][3] != (num(0) if st else E.getter(LANE + "length", lane)):
                return None, "at the %s s is %s" % ("start" if st else "finish", show(at[0][3])[:200])
            if at[0][4:] != (num(0), num(0)):
                return None, "the position is off the lane's centerline"
        return kind, None

    def ok(p):
        ls = over_indices(p.events("loop", True), nl, "the lanes")
        kinds = []
        for l in ls:
            Rs = {e.a[0] for i in its(l) for e in deep(i.events) if e.k == "mut" and e.a[1] in GROWS}
            if len(Rs) != 1:
                raise Unknown("positions are kept in several places")
            k, bad = scan(l, Rs.pop())
            if bad:
                return bad
            kinds.append(k)
        if kinds not in ([CB], [CB, OB]):
            return "looks at %s" % [k.rsplit("::", 1)[-1] for k in kinds]
        return None
    S.each_path(name, f, ok, E=E)
    S.each_path("Positions between edges: none is an error", f, lambda p: None if decided(S.ctx(p), Empty(p.val)) is False else "may return no position", E=E)


def ends(S):
    F = S.F
    name = "Start and end segments: added to a sequence that lacks them, no sequence dropped"
    f = helper(S, HELPERS["MaybeAddStartAndEndEdges"], name)
    if f is None:
        return
    E = S.engine(opaque=BASE + (SEGOF,))
    try:
        a, b = (P(f, i) for i, p in enumerate(f["params"]) if "RoadPosition" in p["t"])
        src = P(f, next(i for i, p in enumerate(f["params"]) if "vector" in p["t"] and "Edge" in p["t"]))
        g = P(f, next(i for i, p in enumerate(f["params"]) if "graph::Graph" in p["t"]))
    except (StopIteration, ValueError):
        S.ck.undecided(name, where(f), "its parameters changed")
        return
    edges = F_(Gr, "edges", g)

    def edge_of(t, pos):
        return t[0] == "at" and t[1] == edges and ("f", pos, A + "RoadPosition::lane") in set(find_terms(t[2], lambda x: x[0] == "f"))

    def ok(p):
        R = bare(p.val)
        ls = [(l, el, i) for l, el, i in loops_over(p.trace, src)]
        if not ls:
            return "does not visit every sequence"
        l, el, iters = ls[0]
        for i in iters:
            c = Ctx(i.facts, i.events)
            adds = [e.a[2][-1] for e in i.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
            if len(adds) != 1:
                return "keeps a sequence %d times" % len(adds)
            X = adds[0]
            front, back = [], []
            for e in i.events:
                if e.k == "mut" and e.a[0] == X:
                    if e.a[1] == "seq_insert" and e.a[2][0] == ("it", X, "b"):
                        front.append(e.a[2][1])
                    elif e.a[1] == "seq_insert" and e.a[2][0] in (("end", X), ("it", X, "e")):
                        back.append(e.a[2][1])
                    elif e.a[1] in ("push_back", "append"):
                        back.append(e.a[2][-1])
                    else:
                        raise Unknown("the sequence is built with %s" % e.a[1])
            if len(front) > 1 or len(back) > 1 or any(not edge_of(x, a) for x in front) or any(not edge_of(x, b) for x in back):
                return "adds %s in front and %s behind" % ([show(x)[:100] for x in front], [show(x)[:100] for x in back])
            for ins, pos, q in ((front, a, ("at", el, num(0))), (back, b, ("back", el))):
                e = [t for k in i.facts for t in find_terms(k, lambda t: edge_of(t, pos))]
                segs = [F_(Ed, "segment", x) for x in e] + [("c", SEGOF, ("f", pos, A + "RoadPosition::lane"))]
                rs = [decided(c, Eq(F_(Ed, "segment", q), s)) for s in segs]
                there = True if True in rs else False if False in rs else None
                if decided(c, Empty(el)) is True:
                    there = False if there is None or q[0] == "at" else there
                if there is None:
                    return "does not compare the %s segment; path: %s" % ("first" if q[0] == "at" else "last", show_facts(i.facts)[:400])
                if bool(ins) == there:
                    return "%s" % ("repeats a segment that is there" if there else "leaves out the %s segment" % ("start" if q[0] == "at" else "end"))
        return None
    S.each_path(name, f, ok, E=E)


def build(S):
    F = S.F
    f = F.fn(G + "BuildGraph", 1)
    rg = P(f, 0)
    GN, GB = GA + "GetNode", GA + "GetBranchPoints"
    name = "Graph: one edge per segment of every junction, known to the nodes of both its ends"
    if not (F.fns_of(GN) and F.fns_of(GB)):
        S.ck.undecided(name, where(f), "its helpers are no functions of their own any more")
        return
    E = S.engine(opaque=BASE + (GN, GB))
    S.each_path("Graph: rejects a null road geometry", f, lambda p: None if decided(S.ctx(p), Null(rg)) is False else "accepts null", E=E)
    nj, ju = E.getter(A + "RoadGeometry::num_junctions", rg), lambda i: E.getter(A + "RoadGeometry::junction", rg, i)

    def ok(p):
        gr = p.val
        l = over_indices(p.events("loop", True), nj, "the junctions")[0]
        if not (l.full and l.complete):
            return "leaves junctions out"
        j = ju(l.el)
        for i in its(l):
            ms = over_indices(i.events, E.getter(A + "Junction::num_segments", j), "the segments")
            if len(ms) != 1 or not (ms[0].full and ms[0].complete):
                return "leaves segments out"
            m = ms[0]
            seg = E.getter(A + "Junction::segment", j, m.el)
            pts = {w: ("c", GB, None, seg, ("enum", WHICH + w)) for w in ("kStart", "kFinish")}
            for x in its(m):
                nodes, edges = F_(Gr, "nodes", gr), F_(Gr, "edges", gr)
                ins = [e.a[2] for e in x.events if e.k == "mut" and e.a[0] == edges and e.a[1] in GROWS]
                if len(ins) != 1:
                    return "adds %d edges for a segment" % len(ins)
                key, ed = ins[0]
                d = dict(ed[2]) if ed[0] == "agg" else {}
                get = lambda n: next((v for k, v in d.items() if k in (n, Ed + n)), None)
                if get("segment") != seg or get("id") != key or E.getter(SEG + "id", seg) not in set(find_terms(key, lambda t: True)):
                    return "adds the edge %s" % show(ed)[:300]
                names = []
                for t in {t for e in x.events for q in (e.a if e.k in ("mut", "insert_noop") else ()) if isinstance(q, tuple)
                          for t in find_terms(q, lambda t: t[0] == "c" and t[1] == GN)}:
                    names += [(w, t) for w in pts if pts[w] in t]
                node = {w: {t for v, t in names if v == w} for w in pts}
                if not node["kFinish"]:
                    return "no node for the finish of a segment"
                known = [decided(Ctx(x.facts, x.events), Has(nodes, t)) for t in node["kStart"]]
                for n, w in (("node_a", "kStart"), ("node_b", "kFinish")):
                    v = get(n)
                    of = set(node[w])
                    if w == "kStart" and (False in known or not of):
                        of |= node["kFinish"]    # the two ends share a node
                    good = {t for t in of} | {F_(No, "id", ("at", nodes, t)) for t in of}
                    if v not in good:
                        return "%s is %s" % (n, show(v)[:300] if v else None)
                    if not any(e.k in ("mut", "insert_noop") and e.a[0] in {F_(No, "edges", ("at", nodes, t)) for t in of} and
                               (e.a[2] == (key,) if e.k == "mut" else e.a[1] == key) for e in x.events):
                        return "the node at the %s does not know the edge" % ("start" if w == "kStart" else "finish")
        return None
    S.each_path(name, f, ok, E=E)
    f = F.fns_of(GB)[0]
    E = S.engine(opaque=BASE + (GBP,))
    nl, ln = E.getter(SEG + "num_lanes", P(f, 0)), lambda i: E.getter(SEG + "lane", P(f, 0), i)

    def pts_ok(p):
        for e in p.events("loop", True):
            l = e.a[0]
            if l.over == ("range", num(0), nl) and l.full and l.complete:
                for i in its(l):
                    bp = ("c", GBP, ln(l.el), P(f, 1))
                    if not any(e.k in ("mut", "insert_noop") and e.a[0] == bare(p.val) and bp in (e.a[2] if e.k == "mut" else e.a[1:]) for e in i.events):
                        return "leaves out the branch point of a lane"
                return None
        return "does not visit every lane"
    S.each_path("Graph: the branch points of all lanes of a segment end", f, pts_ok, E=E)
    f = F.fns_of(GN)[0]
    E = S.engine(opaque=BASE)
    gp, bps = P(f, 0), P(f, 1)

    def node_ok(p):
        ns = F_(Gr, "nodes", gp)
        put = [e for e in p.events("mut", True) if e.a[0] == ns and e.a[1] in GROWS]
        noop = [e for e in p.events("insert_noop", True) if e.a[0] == ns]
        adds = [e for e in p.events("mut", True) if e.a[1] in ("insert_all",) and bps in [bare(x) for x in e.a[2]]]
        if not adds:
            for l, el, iters in loops_over(p.trace, bps):
                adds += [e for i in iters for e in i.events if e.k == "mut" and el in e.a[2]]
            if not adds:
                return "does not give the node the branch points"
        if not (put or noop):
            tgt = adds[0].a[0]
            if not find_terms(tgt, lambda t: t == ns):
                return "does not keep the node"
        return None
    S.each_path("Graph: a node knows every branch point it was made or reused for", f, node_ok, E=E)
