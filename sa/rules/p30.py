"""P30: simplification of meshes."""
from rules.common import *
from rules import alg as G
from terms import add, sub, num, subst

M = "maliput::utility::mesh::"
V = "maliput::math::"
OPAQUE = {M + x for x in ("DistanceToAPlane", "DistanceToALine", "ComputeInverseFaceEdgeMap", "ComputeFaceAdjacencyMap", "GetMeshFaceVertexPosition",
                          "GetMeshFaceVertexNormal", "IsMeshFaceCoplanarWithPlane", "IsMeshFacePlanar", "AggregateAdjacentCoplanarMeshFaces",
                          "FindOuterFaceEdgeIndex", "ComputeMeshFacesContour", "MeshFaceVertexAt", "SimplifyMeshFacesContour", "MergeMeshFaces",
                          "DoMeshVerticesLieOnPlane", "ApplyDouglasPeuckerSimplification")}
FLOOR = 20
EXPLANATION = ("Every path of the mesh simplification is walked: what each step of its loops and recursion records is compared with the definition of an edge "
               "map, of adjacency, of growing a planar region, of walking round its outline and of dropping vertices within the tolerance; distances are "
               "compared with their formulas as polynomials.")
ASSUMPTIONS = ["arithmetic on real numbers", "every directed edge belongs to one face, and regions are simply connected (both documented)"]


def run(ck):
    ck.rule("R1", "edges are known to their own face, and adjacent to the same edge reversed")
    ck.rule("R2", "faces are merged only when they are adjacent, not used before and in the plane of the first")
    ck.rule("R3", "the outline of merged faces is walked completely and only loses vertices within the tolerance")
    distances(ck)
    S = Spec(ck, opaque=OPAQUE)
    S.own = lambda name: S.engine(opaque=OPAQUE - {M + name})
    edges(S)
    planes(S)
    regions(S)
    outline(S)
    whole_mesh(S)
    S.done()


def distances(ck):
    S = G.Alg(ck)
    R, F = G.R, ck.F
    n, p, q, r = [S.syms(c, 3) for c in "npqr"]
    dot = lambda a, b: sum((x * y for x, y in zip(a, b)), R.c(0))
    fn = F.fn(M + "DistanceToAPlane", 3)
    root_ = G.sqrt

    def plane_ok(a):
        d = G.attempt(lambda: a.call(M + "DistanceToAPlane", None, S.vec_of(n), S.vec_of(p), S.vec_of(q)))
        if isinstance(d, G.Thrown):
            return None
        w, got, nn = dot(n, [y - x for x, y in zip(p, q)]), G.flat(d)[0], root_(dot(n, n))
        want = [R.app("abs", z / nn) for z in (w, -w)] + [R.app("abs", z) / nn for z in (w, -w)]
        return None if got in want or any(S.equal_here(a, got, z) for z in want) else "gives %s" % G.show(got)
    S.holds("distance to a plane: the offset along its normal", plane_ok, where(fn), need=2)
    S.throws_iff("distance to a plane: a zero normal is rejected", lambda a: (
        G.attempt(lambda: a.call(M + "DistanceToAPlane", None, S.vec_of(n), S.vec_of(p), S.vec_of(q))), G.logic.EqN(G.term(root_(dot(n, n))), num(0))), where(fn))
    fn = F.fn(M + "DistanceToALine", 3)

    def line_ok(a):
        d = G.flat(a.call(M + "DistanceToALine", None, S.vec_of(p), S.vec_of(r), S.vec_of(q)))[0]
        w = [y - x for x, y in zip(p, q)]
        got, want = d * d * dot(r, r), dot(w, w) * dot(r, r) - dot(w, r) * dot(w, r)
        return None if got == want or S.equal_here(a, got, want) else "gives %s" % G.show(d)
    S.holds("distance to a line: what is left without the part along it", line_ok, where(fn))
    S.done()


def loop_over(evs, C, what):
    """The loop over every element of C."""
    ls = [e.a[0] for e in evs if e.k == "loop" and e.a[0].over in (C, ("range", num(0), ("size", C)))]
    if not ls:
        ls = over_indices(evs, ("size", C), what)
    l = ls[0]
    if not (l.full and l.complete):
        raise Bad("does not look at %s" % what)
    return l


def element(l, C):
    return {l.el, ("at", C, l.pos), ("at", C, l.el), ("el", C, l.el[3] if len(l.el) > 3 else l.el[2])}


def sets_of(evs, C):
    """(key, value, event) of everything stored in the map or vector C."""
    out = []
    for x in evs:
        if x.k == "mut" and x.a[0] == C:
            a = x.a[2]
            if x.a[1] in ("set", "emplace", "try_emplace", "insert_or_assign") and len(a) == 2:
                out.append((a[0], a[1], x))
            elif x.a[1] == "insert" and len(a) == 1 and a[0][0] == "pair":
                out.append((a[0][1], a[0][2], x))
            elif x.a[1] == "insert" and len(a) == 2:
                out.append((a[0], a[1], x))
            elif x.a[1] in ("clear", "erase", "pop_back"):
                raise Bad("drops entries")
    return out


def edges(S):
    F, g = S.F, S.E.getter
    fn = F.fn(M + "ComputeInverseFaceEdgeMap", 1)
    E = S.own("ComputeInverseFaceEdgeMap")
    faces = P(fn, 0)
    VI = lambda v: ("f", v, M + "IndexFace::Vertex::vertex_index")

    def inverse(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        l = loop_over(p.trace, faces, "every face")
        for i in l.iters:
            if i.sig not in (None, "cont"):
                if i.sig in ("throw", "abort"):
                    continue
                return "leaves out faces"
            vs = None
            for f in element(l, faces):
                c = g(M + "IndexFace::vertices", f)
                if any(e.k == "loop" and mentions(e.a[0].over, c) for e in i.events):
                    vs = c
            if vs is None:
                if decided(Ctx(i.all_facts, i.events, F.enums), Empty(g(M + "IndexFace::vertices", l.el))) is True:
                    continue
                raise Unknown("vertices are visited in some other way")
            m = loop_over(i.events, vs, "every vertex of a face")
            here = {VI(v) for v in element(m, vs)}
            for j in m.iters:
                if j.sig not in (None, "cont"):
                    continue
                st = sets_of(j.events, R)
                if len(st) != 1:
                    return "records %d edges for a vertex" % len(st)
                k, v, x = st[0]
                k, v = agg(k), agg(v)
                if k.get("start_vertex_index") not in here:
                    return "the edge starts at %s" % show(k.get("start_vertex_index") or VOID)
                nxt = {VI(("at", vs, ("bin%", add(m.pos, num(1)), ("size", vs))))}
                if k.get("end_vertex_index") not in nxt:
                    c, e = Ctx(x.facts, j.events, F.enums), k.get("end_vertex_index")
                    if not e or e[0] != "f" or e[1][0] not in ("at", "front", "el"):
                        raise Unknown("the edge ends at %s" % show(e or VOID))
                    at = num(0) if e[1][0] == "front" else e[1][2]
                    last = decided(c, EqN(add(m.pos, num(1)), ("size", vs)))
                    want = num(0) if last is True else add(m.pos, num(1)) if last is False else None
                    if want is None or e[2] != M + "IndexFace::Vertex::vertex_index" or e[1][1] != vs or at != want:
                        return "the edge ends at %s" % show(e)
                if v.get("face_index") not in (l.pos, l.el) or v.get("edge_index") not in (m.pos, m.el):
                    return "the edge is said to be %s" % show(st[0][1])
        return None
    S.each_path("edge map: every edge of every face, from a vertex to the next one around", fn, inverse, E=E)

    def once(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        for e in deep(p.trace):
            for k, v, x in sets_of([e], R):
                if x.a[1] in ("emplace", "try_emplace", "insert"):
                    raise Unknown("entries are added in some other way")
                if decided(Ctx(x.facts, [], F.enums), Has(R, k)) is not False:
                    return "an edge of two faces in the same direction replaces the first"
        return None
    S.each_path("edge map: a second face with the same edge is rejected", fn, once, E=E)

    fn = F.fn(M + "ComputeFaceAdjacencyMap", 1)
    E = S.own("ComputeFaceAdjacencyMap")
    faces = P(fn, 0)
    inv = ("c", M + "ComputeInverseFaceEdgeMap", None, faces)
    FI, EI = (lambda e: ("f", e, M + "FaceEdgeIndex::face_index")), (lambda e: ("f", e, M + "FaceEdgeIndex::edge_index"))
    SV, EV = (lambda e: ("f", e, M + "DirectedEdgeIndex::start_vertex_index")), (lambda e: ("f", e, M + "DirectedEdgeIndex::end_vertex_index"))

    def adjacency(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        maps = [t for t in {e.a[0].over for e in p.events("loop")} if t == inv or t[0] == "loc"]
        l = None
        for e in p.events("loop"):
            if e.a[0].over in maps or (e.a[0].over[0] == "c" and e.a[0].over[1] == M + "ComputeInverseFaceEdgeMap"):
                l = e.a[0]
        if l is None:
            raise Unknown("edges are visited in some other way")
        if not (l.full and l.complete):
            return "does not look at every edge"
        key, val = ("key", l.el), ("val", l.el)
        adj = ("at", R, FI(val))
        rev = {"start_vertex_index": EV(key), "end_vertex_index": SV(key)}
        for i in l.iters:
            if i.sig not in (None, "cont"):
                return "does not look at every edge"
            grown = [x for x in i.events if x.k == "mut" and x.a[0] == adj and x.a[1] == "resize"]
            for x in grown:
                if len(x.a[2]) != 1 or x.a[2][0] != ("size", g(M + "IndexFace::vertices", ("at", faces, FI(val)))):
                    return "a face has %s edges" % show(x.a[2][0])
            st = [z for z in sets_of(i.events, adj)]
            asked = [f for f in i.all_facts if find_terms((f,), lambda t: t[0] == "has" and agg(t[2]) == rev)]
            if not asked:
                asked = [t for t in find_terms(tuple(x.a for x in i.events), lambda t: agg(t) == rev)]
                if not asked:
                    return "does not look for the same edge in the other direction"
            known = None
            for t in find_terms(tuple(i.all_facts), lambda t: t[0] == "has" and agg(t[2]) == rev):
                known = decided(Ctx(i.all_facts, i.events, F.enums), Has(t[1], t[2]))
            if known is None:
                raise Unknown("the reversed edge is looked up in some other way")
            if known is False:
                if st:
                    return "an edge without a neighbour is adjacent to %s" % show(st[0][1])
                continue
            if len(st) != 1:
                return "records %d neighbours of an edge" % len(st)
            k, v, x = st[0]
            if k != EI(val):
                return "the neighbour is recorded under edge %s" % show(k)
            while v[0] in ("copyof", "val"):
                v = v[1]
            if not (v[0] in ("at", "el", "entry") and agg(v[2]) == rev):
                return "the neighbour is %s" % show(v)
        return None
    S.each_path("adjacency: an edge's neighbour is the same edge reversed, and nothing otherwise", fn, adjacency, E=E)

    def sized(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        n = 0
        for e in deep(p.trace):
            if e.k == "mut" and e.a[0][0] == "at" and e.a[0][1] == R:
                c = Ctx(e.facts, [], F.enums)
                if e.a[1] == "resize":
                    n += 1
                elif e.a[1] in ("clear", "erase", "assign"):
                    return "forgets neighbours"
        if not n:
            raise Unknown("the edges of a face are made in some other way")
        return None
    S.each_path("adjacency: every face has as many entries as edges", fn, sized, E=E)


def planes(S):
    F = S.F
    pos, nrm = (lambda m, v: ("c", M + "GetMeshFaceVertexPosition", None, m, v)), (lambda m, v: ("c", M + "GetMeshFaceVertexNormal", None, m, v))
    for name, vec, attr, inner in (("GetMeshFaceVertexPosition", "vertices", "vertex_index", "v"), ("GetMeshFaceVertexNormal", "normals", "normal_index", "n")):
        fn = F.fn(M + name, 2)
        E = S.own(name)

        def ok(p, fn=fn, vec=vec, attr=attr, inner=inner):
            i = ("f", P(fn, 1), M + "IndexFace::Vertex::" + attr)
            ats = find_terms((p.val,), lambda t: t[0] == "at")
            if len(ats) != 1 or list(ats)[0][2] != i:
                return "gives %s" % show(p.val)
            return None if ("::%s_" % vec) in repr(list(ats)[0][1]) else "gives an element of %s" % show(list(ats)[0][1])
        S.each_path("%s: the element that the vertex names" % name[17:].lower(), fn, ok, E=E)
    fn = next(f for f in F.by_q[M + "DoMeshVerticesLieOnPlane"] if not f["dep"])
    E = S.own("DoMeshVerticesLieOnPlane")
    mesh, first, last, n, p0, tol = [P(fn, k) for k in range(6)]

    def lie(p):
        ls = [e.a[0] for e in p.events("loop")]
        if len(ls) != 1:
            raise Unknown("vertices are visited in some other way")
        l = ls[0]
        if l.over != ("rng", first, last):
            raise Unknown("vertices are visited in some other way: %s" % show(l.over))
        v = l.el
        if p.val == ("b", True) and not l.complete:
            return "does not look at every vertex"
        for i in l.iters:
            cos = [t for t in find_terms(tuple(i.all_facts), lambda t: t[0] == "c" and t[1].endswith("::dot"))]
            want = {("c", V + "VectorBase::dot", n, ("c", V + "VectorBase::normalized", nrm(mesh, v))),
                    ("c", V + "VectorBase::dot", ("c", V + "VectorBase::normalized", nrm(mesh, v)), n)}
            if not set(cos) or not set(cos) <= want:
                return "uses the angle %s" % "".join(show(c) for c in cos[:1])
            ct = ("abs", cos[0])
            d = [t for t in find_terms(tuple(i.all_facts), lambda t: t[0] == "c" and t[1] == M + "DistanceToAPlane")]
            if any(t != ("c", M + "DistanceToAPlane", None, n, p0, pos(mesh, v)) for t in d):
                return "measures %s" % show(d[0])
            c = Ctx(i.all_facts, i.events, F.enums)
            within = Lt(("div", ("c", M + "DistanceToAPlane", None, n, p0, pos(mesh, v)), ct), tol)
            inside = decided(c, And(Not(EqN(ct, num(0))), within))
            if inside is None:
                return "decides by something else than the distance of the vertex"
            stop = i.sig not in (None, "cont")
            if inside is stop:
                return "a vertex %s the tolerance is taken as %s" % (("within", "outside") if inside else ("outside", "inside"))
        if p.val not in (("b", True), ("b", False)) or (p.val == ("b", True)) != bool(l.complete):
            return "answers %s" % show(p.val)
        return None
    S.each_path("vertices lie in a plane when the distance along their normal is within the tolerance, for each of them", fn, lie, E=E)

    fn = F.fn(M + "IsMeshFaceCoplanarWithPlane", 5)
    g = S.E.getter
    LIE = lambda *a: ("c", M + "DoMeshVerticesLieOnPlane", None) + a

    def asks(p, want, what):
        cs = [e for e in p.events("call") if e.a[0] == M + "DoMeshVerticesLieOnPlane"]
        if len(cs) != 1:
            raise Unknown("decides in some other way")
        if not want(cs[0].a[2]):
            return "asks about %s" % ", ".join(show(x) for x in cs[0].a[2][1:])
        t = cs[0].a[4]
        if p.val == t:
            return None
        d = decided(p_ctx(S, p), Is(t))
        return None if p.val == ("b", d) else "answers %s" % show(p.val)

    vs = g(M + "IndexFace::vertices", P(fn, 1))
    S.each_path("a face is in a plane when all of its vertices are", fn,
                lambda p, fn=fn, vs=vs: asks(p, lambda a: a[0] == P(fn, 0) and begins(a[1], vs, 0) and a[2] == ("end", vs) and tuple(a[3:]) == (P(fn, 2), P(fn, 3), P(fn, 4)), ""),
                E=S.own("IsMeshFaceCoplanarWithPlane"))
    fn = F.fn(M + "IsMeshFacePlanar", 5)
    vs = g(M + "IndexFace::vertices", P(fn, 1))
    E = S.own("IsMeshFacePlanar")

    def planar(p):
        v0 = {("at", vs, num(0)), ("front", vs)}
        outs = {}
        for k, q in ((3, nrm), (4, pos)):
            outs[k] = {q(P(fn, 0), v) for v in v0}
            o = out_value(p, fn, k)
            if o not in outs[k] and not any(e.k == "assign" and e.a[0] == P(fn, k) and e.a[1] in outs[k] for e in p.trace):
                return "the plane's %s is %s" % ("normal" if k == 3 else "point", show(o or VOID))
        return asks(p, lambda a: a[0] == P(fn, 0) and (begins(a[1], vs, 1) or begins(a[1], vs, 0)) and a[2] == ("end", vs) and
                    a[3] in outs[3] | {P(fn, 3), ("deref", P(fn, 3))} and a[4] in outs[4] | {P(fn, 4), ("deref", P(fn, 4))} and a[5] == P(fn, 2), "")
    S.each_path("a face is planar when the others of its vertices are in the plane of the first, which is handed out", fn, planar, E=E)
    S.throws_iff("planar face: asks for somewhere to put the plane and for three vertices", fn,
                 Or(Null(P(fn, 3)), Null(P(fn, 4)), Lt(("size", vs), num(3), ints=True)), E=E)


def begins(t, vs, k):
    return t[0] == "it" and t[1] == vs and (t[2] in (num(k), k) or k == 0 and t[2] == "b")


def p_ctx(S, p):
    return Ctx(pre_facts(p), p.trace, S.F.enums)


def regions(S):
    F, g = S.F, S.E.getter
    fn = F.fn(M + "AggregateAdjacentCoplanarMeshFaces", 5)
    E = S.own("AggregateAdjacentCoplanarMeshFaces")
    mesh, start, adj, tol, seen = [P(fn, k) for k in range(5)]
    faces = g(M + "GeoMesh::faces", mesh)
    S.throws_iff("region: asks for a face of the mesh that was not used, a tolerance and somewhere to note the faces", fn,
                 Or(Lt(start, num(0), ints=True), Ge(start, ("size", faces), ints=True), Le(tol, num(0)), Null(seen), Has(seen, start)), E=E,
                 may=Fn(lambda c: True if any(e.k == "loop" for e in c.events) else None, "inside the loop"))

    def grows(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        cs = [e for e in p.events("call") if e.a[0] == M + "IsMeshFacePlanar"]
        if len(cs) != 1:
            raise Unknown("the plane is found in some other way")
        a = cs[0].a[2]
        if a[:3] != (mesh, ("at", faces, start), tol):
            return "takes the plane of %s" % show(a[1])
        n, pt = a[3], a[4]
        planar = decided(p_ctx(S, p), Is(cs[0].a[4]))
        ls = [e for e in p.events("loop")]
        if planar is False:
            if ls:
                return "grows from a face that is not planar"
            if not any(e.k == "mut" and e.a[0] == seen and e.a[1] in ("insert", "emplace") and e.a[2] == (start,) for e in p.trace):
                return "a face that is not planar is not noted as used"
            return None
        if planar is None or len(ls) != 1:
            raise Unknown("regions grow in some other way")
        l = ls[0].a[0]
        pops = {x.a[0] for i in l.iters for x in i.events if x.k == "mut" and x.a[1] in ("pop", "pop_front", "pop_back", "erase")}
        if len(pops) != 1:
            if not pops:
                return "never finishes with a face"
            raise Unknown("regions grow in some other way")
        W = pops.pop()
        for i in l.iters:
            if i.sig not in (None, "cont"):
                if i.sig in ("throw", "abort"):
                    continue
                if i.sig != "brk" or decided(Ctx(i.all_facts, i.events, F.enums), Empty(W)) is not True:
                    return "ends while faces are left"
                continue
            takes = [x for x in i.events if x.k == "mut" and x.a[0] == W and x.a[1].startswith(("pop", "erase"))]
            if len(takes) != 1:
                return "takes %d faces at once" % len(takes)
            cur = {("at", W, num(0)), ("front", W)} if takes[0].a[1] in ("pop", "pop_front") else {("back", W)}
            marks = [x for x in i.events if x.k in ("mut", "insert_noop") and x.a[0] == seen]
            if not any((x.a[2][0] if x.k == "mut" else x.a[2]) in cur for x in marks):
                return "a face of the region is not noted as used"
            ms = [e.a[0] for e in i.events if e.k == "loop"]
            if len(ms) != 1:
                raise Unknown("neighbours are visited in some other way")
            c = next((c for c in (("at", adj, t) for t in cur) if mentions(ms[0].over, c)), None)
            if c is None:
                return "visits the neighbours of something else: %s" % show(ms[0].over)
            m = loop_over(i.events, c, "every neighbour")
            other = {("f", v, M + "FaceEdgeIndex::face_index") for v in element(m, c)}
            for j in m.iters:
                if j.sig not in (None, "cont"):
                    if j.sig in ("throw", "abort"):
                        continue
                    return "does not look at every neighbour"
                into = [x for x in j.events if x.k == "mut" and x.a[0] == W and x.a[1] in ("push", "push_back", "emplace", "emplace_back")]
                out = [x for x in j.events if x.k == "mut" and x.a[0] == R and x.a[1] in ("insert", "emplace")]
                if any(x.a[2][0] not in other for x in into + out):
                    return "takes %s" % show((into + out)[0].a[2][0])
                o = next(iter(other))
                for z in other:
                    if mentions(tuple(j.all_facts), z):
                        o = z
                copl = ("c", M + "IsMeshFaceCoplanarWithPlane", None, mesh, ("at", faces, o), n, pt, tol)
                if not into and not out:
                    cj = Ctx(j.all_facts, j.events, F.enums)
                    skip = [decided(cj, x) for x in (EqN(o, num(-1)), Has(R, o), Has(seen, o), Not(Is(copl)))]
                    if not any(x is True for x in skip) and decided(cj, Lt(o, num(0), ints=True)) is not True:
                        return "leaves out a neighbour in the same plane"
                    continue
                if len(into) != 1 or len(out) != 1:
                    return "a face is %s" % ("not part of the region" if into else "not grown from")
                x = min(into + out, key=lambda x: j.events.index(x))
                cj = Ctx(x.facts, j.events, F.enums)
                if decided(cj, EqN(o, num(-1))) is not False and decided(cj, Lt(o, num(0), ints=True)) is not False:
                    return "takes an edge without a neighbour for one"
                if decided(cj, Has(R, o)) is not False:
                    return "looks at a face again that is part of the region"
                if decided(cj, Has(seen, o)) is not False:
                    return "takes a face that another region has"
                if decided(cj, Is(copl)) is not True:
                    return "takes a face that is not known to be in the plane of the first"
        return None
    S.each_path("region: everything adjacent in the plane of its first face that is not used, each once", fn, grows, E=E)


def outline(S):
    F, g = S.F, S.E.getter
    FE = M + "FaceEdgeIndex::"
    fn = F.fn(M + "FindOuterFaceEdgeIndex", 2)
    E = S.own("FindOuterFaceEdgeIndex")
    reg, adj = P(fn, 0), P(fn, 1)

    def outer(p):
        ls = [e.a[0] for e in p.events("loop") if e.a[0].over == reg]
        if len(ls) != 1:
            raise Unknown("faces are visited in some other way")
        l = ls[0]
        es = ("at", adj, l.el)
        a = agg(p.val)
        for i in l.iters:
            if i.sig in ("throw", "abort"):
                continue
            ms = [e.a[0] for e in i.events if e.k == "loop"]
            if len(ms) != 1 or not mentions(ms[0].over, es):
                raise Unknown("edges are visited in some other way")
            m = ms[0]
            if m.over not in (es, ("range", num(0), ("size", es))):
                return "does not look at every edge"
            for j in m.iters:
                outside = None
                for v in element(m, es):
                    d = decided(Ctx(j.all_facts, j.events, F.enums), Has(reg, ("f", v, FE + "face_index")))
                    outside = outside if d is None else not d
                if outside is None:
                    return "decides by something else than whether the neighbour is of the region"
                if outside is (j.sig in (None, "cont")):
                    return "takes an edge %s the region" % ("to another face of" if not outside else "inside") if not outside else "passes over an edge at the rim of the region"
        if not a:
            return None if l.complete and p.val[0] == "k" and len(p.val) == 3 else "answers %s" % show(p.val)
        if a.get("face_index") != l.el:
            return "names the face %s" % show(a.get("face_index") or VOID)
        m = [e.a[0] for e in p.events("loop") if mentions(e.a[0].over, es)]
        e = a.get("edge_index") or VOID
        if e[0] == "c" and e[1] == "std::distance":
            return None if begins(e[3], es, 0) and mentions(e[4], m[-1].el) else "names the edge %s" % show(e)
        if e[0] == "lin" and mentions(e, m[-1].el):
            return "names the edge %s" % show(e)
        if m and e not in (m[-1].pos, m[-1].el) and not (e[0] in ("dist", "posof", "ix", "hv", "c", "lin", "idx") and mentions(e, m[-1].el) or e[0] in ("dist", "c") and mentions(e, es)):
            return "names the edge %s" % show(e)
        return None
    S.each_path("outer edge: the first edge without a neighbour in the region", fn, outer, E=E)

    fn = F.fn(M + "ComputeMeshFacesContour", 2)
    E = S.own("ComputeMeshFacesContour")
    reg, adj = P(fn, 0), P(fn, 1)
    first = ("c", M + "FindOuterFaceEdgeIndex", None, reg, adj)

    def contour(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        ls = [e.a[0] for e in p.events("loop")]
        if len(ls) != 1:
            raise Unknown("the outline is walked in some other way")
        l = ls[0]
        for i in l.iters:
            if i.sig in ("throw", "abort"):
                continue
            c = Ctx(i.all_facts, i.events, F.enums)
            idx = [x.a for x in i.events if x.k == "index" and x.a[0][0] == "at" and x.a[0][1] == adj]
            if not idx:
                raise Unknown("the outline is walked in some other way")
            face, edge = idx[0][0][2], idx[0][1]
            if root(face)[0] != "hv" and face[0] != "hv":
                return "looks at the neighbours of face %s" % show(face)
            if edge[0] != "hv" and root(edge)[0] != "hv":
                return "looks at the neighbour of edge %s" % show(edge)
            nb = ("at", ("at", adj, face), edge)
            inside = decided(c, Has(reg, ("f", nb, FE + "face_index")))
            if inside is None:
                return "does not ask whether the neighbour is of the region"
            adds = [x for x in i.events if x.k == "mut" and x.a[0] == R]
            if inside is False:
                if len(adds) != 1 or adds[0].a[1] not in ("push_back", "emplace_back"):
                    return "an edge at the rim is not part of the outline"
                a = agg(adds[0].a[2][0])
                if a and (a.get("face_index") != face or a.get("vertex_index") != edge):
                    return "the outline gets %s" % show(adds[0].a[2][0])
            elif adds:
                return "an edge inside the region is part of the outline"
            on = face if inside is False else ("f", nb, FE + "face_index")
            e0 = edge
            ws = [x.a[2] for x in i.events if x.k == "write" and x.a[1] == FE + "edge_index"]
            ws += [agg(x.a[1]).get("edge_index") for x in i.events if x.k == "assign" and agg(x.a[1])]
            size = ("size", ("at", adj, on))
            if len(ws) != 1 or ws[0] is None:
                raise Unknown("the next edge is found in some other way")
            w = ws[0]
            if w[0] != "bin%" or w[2] != size:
                if w[0] == "bin%":
                    return "the next edge is %s" % show(w)
                raise Unknown("the next edge is %s" % show(w))
            e1 = add(w[1], num(1), -1)
            if inside is False and e1 != edge:
                return "the next edge is %s" % show(w)
            if inside and not (e1 == ("f", nb, FE + "edge_index") or e1[0] == "hv" and mentions(e1, nb)):
                return "goes on from %s" % show(e1)
        return None
    S.each_path("outline: rim edges in turn, passing to the neighbour where it is of the region, until the first again", fn, contour, E=E)

    def ends(p):
        l = [e.a[0] for e in p.events("loop")][0]
        for i in l.iters:
            if i.sig in (None, "cont"):
                continue
            if i.sig in ("throw", "abort"):
                continue
            fs = [f for f in i.all_facts if mentions((f,), first)]
            if not any(mentions((f,), FE + "face_index") or "face_index" in repr(f) for f in fs) or not any("edge_index" in repr(f) for f in fs):
                return "stops before it is back at the first edge"
        return None
    S.each_path("outline: stops only at the edge it began with", fn, ends, E=E)

    fn = F.fn(M + "MeshFaceVertexAt", 2)
    FV = M + "FaceVertexIndex::"
    want = ("at", g(M + "IndexFace::vertices", ("at", g(M + "GeoMesh::faces", P(fn, 0)), ("f", P(fn, 1), FV + "face_index"))), ("f", P(fn, 1), FV + "vertex_index"))
    S.each_path("a vertex of a face: the one that both indices name", fn, lambda p: None if p.val == want else "gives %s" % show(p.val), E=S.own("MeshFaceVertexAt"))

    fn = F.fn(M + "SimplifyMeshFacesContour", 3)
    E = S.own("SimplifyMeshFacesContour")
    C = P(fn, 1)

    def simplify(p):
        small = decided(p_ctx(S, p), Le(("size", C), num(3), ints=True))
        if p.val in (C, ("copyof", C)):
            return None
        cs = [e for e in p.events("call") if e.a[0] == M + "ApplyDouglasPeuckerSimplification"]
        if len(cs) != 1:
            raise Unknown("simplifies in some other way")
        a = cs[0].a[2]
        R = p.val[1] if p.val[0] == "copyof" else p.val
        if small is not False:
            return "an outline of three vertices or less is simplified"
        if not (a[0][0] == "it" and a[0][1] == C and a[0][2] in ("b", num(0))):
            return "begins at %s" % show(a[0])
        if not (mentions(a[1], C) and (a[1] in (("it", C, add(("size", C), num(1), -1)), ("itl", C)) or a[1][0] == "c" and a[1][1].endswith("operator-") and a[1][-1] == num(1) and ("end", C) in a[1])):
            return "the last vertex is %s" % show(a[1])
        if a[4] != P(fn, 2):
            return "the tolerance is %s" % show(a[4])
        for f, args, wants in ((a[2], ("u",), [("c", M + "GetMeshFaceVertexPosition", None, P(fn, 0), ("c", M + "MeshFaceVertexAt", None, P(fn, 0), ("s", "u")))]),):
            for q in E.paths_of(fn, f, ("s", "u")):
                if q.sig == "ret" and strip(q.val) not in wants:
                    return "a vertex is %s" % show(q.val)
        u, w = ("s", "u"), ("s", "w")
        for q in E.paths_of(fn, a[3], u, w):
            if q.sig == "ret":
                x = q.val
                fst, snd = (x[1], x[2]) if x[0] == "pair" else (x[1], x[2]) if x[0] in ("agg", "list") and len(x) > 2 else (None, None)
                if fst is None or fst[0] == "k":
                    raise Unknown("the line between two vertices is %s" % show(x))
                if strip(fst) not in (u, w) or [t for t in find_terms((snd,), lambda t: t[0] == "c")] and not line_dir(snd, u, w):
                    return "the line between two vertices is %s" % show(x)
        if not mentions(a[5], R):
            return "answers %s" % show(p.val)
        return None
    S.each_path("simplified outline: from its first vertex to its last, within the tolerance given", fn, simplify, E=E)

    for fn in [f for f in F.by_q[M + "ApplyDouglasPeuckerSimplification"] if not f["dep"]][:1]:
        E = S.own("ApplyDouglasPeuckerSimplification")
        E = S.engine(opaque=OPAQUE)
        a0, a1, tv, te, tol, out = [P(fn, k) for k in range(6)]

        def drop(p):
            same_ = decided(p_ctx(S, p), Eq(a0, a1))
            rec = [e.a[2] for e in p.events("call") if e.a[0] == M + "ApplyDouglasPeuckerSimplification"]
            puts = [e.a[1] for e in p.events("assign") if mentions((e.a[0],), out)]
            if same_ is True:
                return None if not rec and puts in ([a1], [a0], [("deref", a1)], [("deref", a0)]) else "a single vertex becomes %s" % ", ".join(map(show, puts))
            if same_ is None:
                return "does not ask whether there is only one vertex"
            ds = [t for t in find_terms(tuple(p.facts) + tuple(e.a for e in p.events("call")), lambda t: t[0] == "c" and t[1] == M + "DistanceToALine")]
            edge = ("ic", te, ("ic", tv, a0), ("ic", tv, a1))
            ds = set(ds)
            if len(ds) != 1:
                raise Unknown("measures %d distances" % len(ds))
            d = ds.pop()
            if d[3:5] != (("fst", edge), ("snd", edge)):
                return "measures the distance to %s" % show(d[3])
            far = [t for t in find_terms(d, lambda t: t[0] == "optmax_element" or t[0] == "opt" and "max" in repr(t[:2]))]
            if not far:
                return "measures the distance of %s" % show(d[5])
            far = far[0]
            if far[1] != ("rng", a0, a1):
                return "the vertex is the farthest of %s" % show(far[1])
            up = find_terms((far,), lambda t: t[0] == "lam")
            if not up:
                raise Unknown("the farthest vertex is found in some other way")
            u, w = ("s", "u"), ("s", "w")
            D = lambda z: ("c", M + "DistanceToALine", None, ("fst", edge), ("snd", edge), ("ic", tv, z))
            for facts, b in E.predicate(fn, up[0], u, w):
                if b is None or decided(Ctx(facts, [], F.enums), Lt(D(u), D(w))) is not b:
                    return "does not look for the vertex farthest from the line"
            over = decided(p_ctx(S, p), Gt(d, tol))
            if over is None:
                return "does not compare with the tolerance"
            if over is False:
                return None if not rec and puts in ([a0, a1], [("deref", a0), ("deref", a1)]) else "vertices within the tolerance become %s" % ", ".join(map(show, puts))
            if puts or len(rec) != 2:
                return "does not look at both parts"
            x, y = rec
            if x[0] != a0 or y[1] != a1 or not mentions((x[1],), far) or not mentions((y[0],), far):
                return "looks at %s" % "; ".join("%s .. %s" % (show(z[0]), show(z[1])) for z in rec)
            if x[1][0] in ("c",) and "operator" in x[1][1]:
                return "the first part ends at %s" % show(x[1])
            if not (y[0][0] == "c" and y[0][1].endswith("operator+") and y[0][-1] == num(1)) and y[0] != x[1]:
                return "the second part begins at %s" % show(y[0])
            if any(tuple(z[2:]) != (tv, te, tol, out) for z in rec):
                return "looks at the parts in some other way"
            return None
        S.each_path("dropping vertices: none farther than the tolerance from the line between the two kept ones", fn, drop, E=E)


def whole_mesh(S):
    F, g = S.F, S.E.getter
    fn = F.fn(M + "MergeMeshFaces", 4)
    PUSH = M + "GeoFace::push_vn"
    E = S.engine(opaque=(OPAQUE - {M + "MergeMeshFaces"}) | {PUSH})
    C = ("c", M + "SimplifyMeshFacesContour", None, P(fn, 0), ("c", M + "ComputeMeshFacesContour", None, P(fn, 1), P(fn, 2)), P(fn, 3))

    def merge(p):
        l = loop_over(p.trace, C, "every vertex of the outline")
        for i in l.iters:
            if i.sig not in (None, "cont"):
                return "does not look at every vertex of the outline"
            cs = [e for e in i.events if e.k == "call" and e.a[0] == PUSH]
            if len(cs) != 1:
                return "adds %d vertices for one" % len(cs)
            ok = False
            for v in element(l, C):
                v = ("c", M + "MeshFaceVertexAt", None, P(fn, 0), v)
                ok = ok or cs[0].a[2] == (("at", g(M + "GeoMesh::vertices", P(fn, 0)), ("f", v, M + "IndexFace::Vertex::vertex_index")),
                                          ("at", g(M + "GeoMesh::normals", P(fn, 0)), ("f", v, M + "IndexFace::Vertex::normal_index"))) or \
                    tuple(strip(x) for x in cs[0].a[2]) == (("at", g(M + "GeoMesh::vertices", P(fn, 0)), ("f", v, M + "IndexFace::Vertex::vertex_index")),
                                                            ("at", g(M + "GeoMesh::normals", P(fn, 0)), ("f", v, M + "IndexFace::Vertex::normal_index")))
            if not ok:
                return "adds %s" % ", ".join(map(show, cs[0].a[2]))
        return None
    S.each_path("merged face: the vertices and normals of the simplified outline, in its order", fn, merge, E=E)

    fn = F.fn(M + "SimplifyMeshFaces", 2)
    PF = M + "GeoMesh::PushFace"
    E = S.engine(opaque=(OPAQUE - {M + "SimplifyMeshFaces"}) | {PF})
    faces = g(M + "GeoMesh::faces", P(fn, 0))
    adj = ("c", M + "ComputeFaceAdjacencyMap", None, faces)

    def every(p):
        l = loop_over(p.trace, faces, "every face")
        at = {l.pos, l.el}
        for i in l.iters:
            if i.sig not in (None, "cont"):
                return "does not look at every face"
            cs = [e for e in i.events if e.k == "call" and e.a[0] == M + "AggregateAdjacentCoplanarMeshFaces"]
            ps = [e for e in i.events if e.k == "call" and e.a[0] == PF]
            if not cs:
                known = [f for f in find_terms(tuple(i.all_facts), lambda t: t[0] == "has" and t[2] in at)]
                if not any(decided(Ctx(i.all_facts, i.events, F.enums), Has(f[1], f[2])) is True for f in known):
                    return "leaves out a face that no region has"
                if ps:
                    return "adds a face again"
                continue
            a = cs[0].a[2]
            if len(cs) != 1 or a[0] != P(fn, 0) or a[1] not in at or a[2] != adj or a[3] != P(fn, 1):
                return "grows from %s" % show(a[1])
            used = a[4][1] if a[4][0] == "addr" else a[4]
            if decided(Ctx(cs[0].facts, i.events, F.enums), Has(used, a[1])) is not False:
                return "grows from a face that may be used already"
            want = ("c", M + "MergeMeshFaces", None, P(fn, 0), cs[0].a[4], adj, P(fn, 1))
            if len(ps) != 1 or strip(ps[0].a[2][0]) != want:
                return "adds %s" % ", ".join(show(x.a[2][0]) for x in ps)
        return None
    S.each_path("simplified mesh: one merged face for every region, and every face in a region", fn, every, E=E)


def line_dir(t, u, w):
    """t is the direction from u to w or back."""
    for _ in range(5):
        t = strip(t)
        if t[0] == "c" and t[1].endswith("::normalized"):
            t = t[2]
        elif t[0] == "k" and len(t) == 4:
            t = t[3]
        elif t[0] == "agg" and len(t[2]) == 1:
            t = t[2][0][1]
    return t[0] == "c" and t[1].endswith("operator-") and {strip(x) for x in t[2:] if x} == {u, w}


def strip(t):
    while t and t[0] in ("copyof", "deref", "addr"):
        t = t[1]
    return t
