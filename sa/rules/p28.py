"""P28: the meshes of a road geometry and the OBJ files written from them."""
from rules.common import *
from terms import add, sub, num

FLOOR = 35
EXPLANATION = ("Every path of the mesh containers, of the functions that lay faces over lanes and of those that collect and write them is walked; "
               "the vertices of every face pushed, the mesh each drawer fills and every character sequence written to the files are compared with the road described.")
ASSUMPTIONS = ["hash containers and streams of the standard library behave as documented", "the geometry backend's lane functions are what the mesh is measured against"]
UT = "maliput::utility::"
AN = UT + "(anon)::"
ME = UT + "mesh::"
GM = ME + "GeoMesh"
LN = "maliput::api::Lane::"
LP = "maliput::api::LanePosition"
TOSTR = {UT + "to_str"}
CONTAIN = {ME + "UniqueIndexer::push_back", ME + "IndexFace::push_vertex", ME + "GeoFace::push_vn"}
FACES = {GM + "::PushFace", ME + "SrhFace::ToGeoFace", AN + "ComputeSampleStep", AN + "DrawLaneArrow"}
DRAW = {GM + "::AddFacesFrom", AN + "CoverLaneWithQuads", AN + "StripeLaneBounds", AN + "MarkLaneEnds", AN + "PickGridUnit", AN + "SimplifyMesh",
        UT + "GetMaterialByName", AN + "DrawBranch", AN + "DrawArrows"}
COLLECT = DRAW | {AN + "RenderSegment", AN + "RenderBranchPoint", AN + "IsSegmentRenderedNormally", UT + "BuildMesh"}
FILES = TOSTR | {UT + "BuildMeshes", GM + "::EmitObj", AN + "FormatMaterial"}


def run(ck):
    ck.rule("R1", "a mesh keeps each vertex and normal once, and its faces index the ones they were given")
    ck.rule("R2", "the text of a mesh has all its vertices, normals and faces, with running indices")
    ck.rule("R3", "faces lie side by side over the lane from start to finish, facing up")
    ck.rule("R4", "each feature of each lane, segment and branch point goes to its own mesh")
    ck.rule("R5", "every mesh is written once, with its material and the indices that follow from the ones before")
    for part, opaque in ((containers, CONTAIN), (emission, TOSTR), (surfaces, FACES), (drawing, DRAW), (collecting, COLLECT), (files, FILES)):
        S = Spec(ck, opaque=opaque)
        part(S)
        S.done()


def calls(evs, q):
    return [e for e in evs if e.k == "call" and e.a[0] == q]


def opt(S, name):
    """An internal function, when it exists under this name."""
    fs = [f for f in S.F.fns_of(AN + name) if f.get("body")]
    if not fs:
        S.ck.undecided(name, "generate_obj.cc", "the function is not there under this name")
    return fs[0] if fs else None


class Walk:
    """A loop over the elements of M, whether by element or by index."""

    def __init__(self, l, M):
        self.id, self.full, self.complete, self.iters, self.over, self.pos = l.id, l.full, l.complete, l.iters, M, l.pos
        self.el = l.el if l.el[0] == "el" else ("el", M, l.el[3])


def walks(evs, M):
    return [Walk(e.a[0], M) for e in evs if e.k == "loop" and e.a[0].over in (M, ("range", num(0), ("size", M)))]


def bare(t):
    while t and t[0] in ("deref", "copyof", "addr"):
        t = t[1]
    return t


def field(t, *qs):
    for q in qs:
        t = ("f", t, q)
    return t


# ---------------------------------------------------------------- containers
def nodes(x):
    if isinstance(x, dict):
        yield x
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            yield from nodes(y)


def copies(S):
    """A copy of a mesh points to its own elements: what it lists lies in its own map."""
    F, q = S.ck.F, ME + "UniqueIndexer"
    c = F.classes[q]
    name = "copies of a mesh own what they list"
    loc = where_class(c)
    listed = [f["q"] for f in c["fields"] if "*" in f["t"]]
    if not listed:
        S.ck.ob(name, True, loc, "no pointers are kept")
        return
    own = lambda m: not m.get("impl") and not m["del"]
    ms = [m for m in c["methods"] if not m.get("impl")]
    moves = any(m.get("move") or m["n"] == "operator=" and any(p.rstrip().endswith("&&") for p in m["params"]) for m in ms)
    cp = [m for m in ms if m.get("copy")]
    asg = [m for m in ms if m["n"] == "operator=" and not any(p.rstrip().endswith("&&") for p in m["params"])]
    for what, found in (("copied", cp), ("assigned", asg)):
        if not found and not moves or any(m["dflt"] and not m["del"] for m in found):
            S.ck.ob(name, False, loc, "a UniqueIndexer is %s member by member: its pointers stay with the original" % what)
            return
    if any(m["del"] for m in cp):
        S.ck.ob(name, True, loc, "copies are not possible")
        return
    bad, seen = None, 0
    E = S.engine(opaque={q + "::push_back"})
    for fn in F.fns_of(q + "::UniqueIndexer") + F.fns_of(q + "::operator="):
        if fn.get("dep") or len(fn["params"]) != 1 or fn["params"][0]["t"].rstrip().endswith("&&"):
            continue
        seen += 1
        other, assign = P(fn, 0), fn["q"].endswith("operator=")
        byval = not fn["params"][0]["t"].rstrip().endswith("&")
        if assign and byval:
            named = {n.get("f") for n in nodes(fn["body"])}
            left = [f["q"] for f in c["fields"] if f["q"] not in named]
            if left and len(left) < len(c["fields"]):
                bad = bad or "assignment leaves some part as it was"
            continue
        for n in nodes(fn["body"]):
            if n.get("k") != "rfor":
                continue
            v = {x.get("id") for x in nodes(n.get("v") or n.get("d") or [])} | {n.get("id")}
            addr = [x for x in nodes(n["b"]) if x.get("k") == "un" and x.get("op") == "&"]
            if addr and n["r"].get("k") == "mem" and n["r"]["b"].get("k") != "this":
                bad = bad or "the addresses of the original's elements are kept"
        for p in E.paths(fn):
            if p.sig == "throw":
                continue
            fills = [e for e in p.events("loop")] + [e for e in p.events("mut") if e.a[1] == "swap"]
            for f in listed:
                v = final(p, ("f", ("this",), f))
                if v == ("f", other, f) and not fills:
                    bad = bad or "the pointers of the original are taken over"
    S.ck.ob(name, bad is None and seen > 0, loc, bad or "%d functions" % seen)


def where_class(c):
    return "%s:%d %s" % (c["file"].replace("/repo/", ""), c["line"], c["q"])


def containers(S):
    copies(S)
    F = S.ck.F
    V, N, FC = GM + "::vertices_", GM + "::normals_", GM + "::faces_"
    raw = S.engine(opaque=())
    for i, fn in enumerate(F.fns_of(ME + "UniqueIndexer::push_back")):
        M, L = ("f", ("this",), ME + "UniqueIndexer::map_"), ("f", ("this",), ME + "UniqueIndexer::vector_")
        thing = P(fn, 0)

        def ok(p):
            ctx = S.ctx(p, pre=True)
            ms = [(bare(t), op, a) for _, t, op, a in muts(p)]
            known = decided(ctx, Has(M, thing))
            if known is True:
                if ms or not (p.val[0] == "at" and p.val[1] == M and bare(p.val[2]) == thing):
                    return "a known thing does not simply give its index"
                return None
            if known is None:
                return "does not ask whether the thing is known"
            n = ("size", L)
            if p.val != n or len(ms) != 2:
                return "a new thing does not get the next index"
            if (M, "insert") != ms[0][:2] or tuple(bare(x) for x in ms[0][2]) != (thing, n):
                return "a new thing is not stored with its index"
            if (L, "push_back") != ms[1][:2] or bare(ms[1][2][0]) != thing:
                return "a new thing is not listed at its index"
        S.each_path("indexer %d" % i, fn, ok, E=raw, need=2)

    def push_face(fn, faces, verts, vx, nx):
        def ok(p):
            for path in [p]:
                evs = path.trace
                outer = walks(evs, faces) if faces else [None]
                if len(outer) != 1:
                    return "walks the faces %d times" % len(outer)
                bodies = [(path.trace, None, path.facts)] if faces is None else [(i.events, outer[0].el, i.facts) for i in outer[0].iters]
                if faces and (not outer[0].full or not outer[0].complete or any(i.sig for i in outer[0].iters)):
                    return "does not take every face"
                for body, f, _ in bodies:
                    src = verts(f)
                    ls = walks(body, src)
                    if len(ls) != 1 or not ls[0].full or not ls[0].complete or any(i.sig for i in ls[0].iters):
                        return "does not take every vertex of the face"
                    l = ls[0]
                    local = None
                    for i in l.iters:
                        vs = calls(i.events, ME + "UniqueIndexer::push_back")
                        fs = calls(i.events, ME + "IndexFace::push_vertex")
                        if len(vs) != 2 or len(fs) != 1:
                            return "a vertex is not added once"
                        by = {e.a[1]: e for e in vs}
                        a, b = by.get(("f", ("this",), V)), by.get(("f", ("this",), N))
                        if not a or not b:
                            return "vertices and normals do not go to their own indices"
                        if bare(a.a[2][0]) != vx(f, l) or bare(b.a[2][0]) not in nx(f, l):
                            return "adds %s and %s" % (show(a.a[2][0]), show(b.a[2][0]))
                        if fs[0].a[2] != (a.a[4], b.a[4]):
                            return "the face's corner is not the index of its vertex and normal"
                        local = fs[0].a[1]
                    adds = [(n, e) for n, e in enumerate(body) if e.k == "mut" and e.a[0] == ("f", ("this",), FC)]
                    at = [n for n, e in enumerate(body) if e.k == "loop" and e.a[0].id == l.id]
                    if len(adds) != 1 or adds[0][1].a[1] not in ("push_back", "emplace_back") or adds[0][1].a[2] != (local,):
                        return "the face is not added once"
                    if adds[0][0] < at[0]:
                        return "the face is added before its corners"
                return None
        return ok
    fn = F.fn(GM + "::PushFace", 1)
    gv, gn = ME + "GeoFace::vertices_", ME + "GeoFace::normals_"
    f0 = P(fn, 0)
    S.each_path("a face pushed", fn, push_face(
        fn, None, lambda f: ("f", f0, gv), lambda f, l: l.el if l.el[0] != "ix" else ("at", ("f", f0, gv), l.pos),
        lambda f, l: [("at", ("f", f0, gn), x) for x in (l.pos, ("ix", num(0), ("size", ("f", f0, gv)), l.id))]))
    fn = F.fn(GM + "::AddFacesFrom", 1)
    o = P(fn, 0)
    vl = ME + "UniqueIndexer::vector_"
    iv = ME + "IndexFace::vertices_"
    S.each_path("faces of another mesh", fn, push_face(
        fn, ("f", o, FC), lambda f: ("f", f, iv), lambda f, l: ("at", field(o, V, vl), ("f", l.el, ME + "IndexFace::Vertex::vertex_index")),
        lambda f, l: [("at", field(o, N, vl), ("f", l.el, ME + "IndexFace::Vertex::normal_index"))]))

    fn = F.fn(ME + "GeoFace::push_vn", 2)
    S.each_path("a corner of a face", fn, lambda p: None if [(t, bare(a[0])) for _, t, op, a in muts(p) if op in ("push_back", "emplace_back")] in (
        [(("f", ("this",), gv), P(fn, 0)), (("f", ("this",), gn), P(fn, 1))], [(("f", ("this",), gn), P(fn, 1)), (("f", ("this",), gv), P(fn, 0))]) and len(muts(p)) == 2
        else "the vertex and the normal are not both appended", E=raw)
    fn = F.fn(ME + "IndexFace::push_vertex", 2)
    vq = ME + "IndexFace::Vertex"

    def corner(p):
        ms = muts(p)
        if len(ms) != 1 or ms[0][2] not in ("push_back", "emplace_back") or ms[0][1] != ("f", ("this",), iv):
            return "appends %d corners" % len(ms)
        a = ms[0][3]
        v = a[0] if len(a) == 1 else None
        if v is not None:
            v = dict(v[2]) if v[0] == "agg" else {"vertex_index": v[3], "normal_index": v[4]} if v[0] == "k" and len(v) == 5 else None
            a = v and (v.get("vertex_index"), v.get("normal_index"))
        if a != (P(fn, 0), P(fn, 1)):
            return "appends %s" % (ms[0][3],)
    S.each_path("an indexed corner", fn, corner, E=raw)
    ctor = next((f for f in F.fns_of(vq + "::Vertex") if len(f["params"]) == 2), None)
    if ctor:
        S.each_path("what a corner keeps", ctor, lambda p: None if dict((x[0], x[1]) for x in inits(p)) == {
            vq + "::vertex_index": P(ctor, 0), vq + "::normal_index": P(ctor, 1)} else "the indices are not kept as given", E=raw)

    for cls, get, fld in (("GeoVertex", "v", "v_"), ("GeoNormal", "n", "n_")):
        eq = F.fn(ME + cls + "::Equiv::operator()", 2)
        S.each_path("%ss are one only when their coordinates are" % cls, eq, lambda p: None if same_point(p, eq, ME + cls + "::" + fld) else
                    "is not decided by both coordinates: %s" % show_facts(p.facts), E=S.engine(opaque={"maliput::math::VectorBase::operator=="}), bool_result=False)
    for q, want in (("num_vertices", ("size", field(("this",), V, vl))), ("num_normals", ("size", field(("this",), N, vl))),
                    ("faces", field(("this",), FC)), ("vertices", field(("this",), V, vl)), ("normals", field(("this",), N, vl))):
        fn = F.fn(GM + "::" + q, 0)
        S.returns(q, fn, [(And(), want)], E=raw)
    for q, c in (("get_vertex", V), ("get_normal", N)):
        fn = F.fn(GM + "::" + q, 1)
        S.each_path(q, fn, lambda p: None if bare(p.val) == ("at", field(("this",), c, vl), P(fn, 0)) else "returns %s" % show(p.val), E=raw)

    fn = F.fn(ME + "SrhFace::ToGeoFace", 1)
    C = ("f", ("this",), ME + "SrhFace::vertices_")

    def togeo(p):
        ls = walks(p.trace, C)
        if len(ls) != 1 or not ls[0].full or not ls[0].complete or any(i.sig for i in ls[0].iters):
            return "does not take every vertex"
        for i in ls[0].iters:
            e = calls(i.events, ME + "GeoFace::push_vn")
            if len(e) != 1 or e[0].a[1] != p.val:
                return "a vertex is not added once to the face returned"
            v, n = e[0].a[2]
            el = ls[0].el
            lane = P(fn, 0)
            if not (v[0] == "k" and v[1] == ME + "GeoVertex" and v[3] == ("c", LN + "DoToInertialPosition", lane, el)):
                return "the vertex is %s" % show(v)
            want = ("c", LN + "DoGetOrientation", lane, el)
            ops = [x for x in subterms(n) if x[0] == "c" and x[1].endswith("operator*")]
            if not (n[0] == "k" and n[1] == ME + "GeoNormal" and len(ops) == 1 and root(ops[0][3]) == root(want) and want in list(subterms(ops[0][3])) and
                    ops[0][4] == field(("this",), ME + "SrhFace::normal_", LP + "::srh_")):
                return "the normal is %s" % show(n)
    S.each_path("a face in the inertial frame", fn, togeo)


def inits(p):
    return [(e.a[1], e.a[2]) for e in p.trace if e.k == "write" and e.a[0] == ("this",)]


def same_point(p, fn, fld):
    x = "maliput::api::InertialPosition::xyz_"
    a, b = field(P(fn, 0), fld, x), field(P(fn, 1), fld, x)
    want = {("c", "maliput::math::VectorBase::operator==", a, b), ("c", "maliput::math::VectorBase::operator==", None, a, b),
            ("c", "maliput::math::VectorBase::operator==", b, a), ("c", "maliput::math::VectorBase::operator==", None, b, a)}
    if p.val[0] == "b":
        keys = [k for k, v in p.facts.items() if v is p.val[1] and k[0] in ("t", "eq")]
        return len(p.facts) == 1 and (any(k[1] in want for k in keys) or any(k[0] == "eq" and {k[1], k[2]} == {a, b} for k in keys))
    return p.val in want or p.val[0] == "eq" and {p.val[1], p.val[2]} == {a, b}


# ---------------------------------------------------------------- text
def flat(v):
    if v[0] == "s":
        return [v[1]]
    if v[0] == "str":
        return flat(v[1])
    if v[0] == "cat":
        return flat(v[1]) + flat(v[2])
    if v[0] == "n" and isinstance(v[1], int):
        return [str(v[1])]
    if v[0] in ("copyof", "tostr"):
        return flat(v[1])
    if v[0] in ("fnref", "g") and "endl" in str(v[1]):
        return ["\n"]
    if v[0] == "k" and v[1].startswith("std::basic_string") and len(v) > 3:
        return flat(v[3])
    return [v]


def pieces(evs, stream):
    """What the events write to the stream: literals, values and loops of the same."""
    out = []
    for e in evs:
        if e.k == "out" and e.a[0] == stream:
            out += flat(e.a[1])
        elif e.k == "loop":
            its = [(i, pieces(i.events, stream)) for i in e.a[0].iters]
            if any(x for _, x in its):
                out.append((e.a[0], its))
    return merged(out)


def merged(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def lines(ps):
    """The lines of the text, without comments and empty ones; a loop that writes whole lines is a line of its own."""
    out, cur = [], []

    def end():
        if cur and not (isinstance(cur[0], str) and cur[0].startswith("#")):
            out.append(tuple(cur))
        cur.clear()
    for x in ps:
        if isinstance(x, str):
            parts_ = x.split("\n")
            for n, s in enumerate(parts_):
                if n:
                    end()
                if s:
                    cur.append(s)
        else:
            cur.append(x)
            if isinstance(x[0], str) or not isinstance(x[0], tuple):
                if not isinstance(x[0], str) and all(y and isinstance(y[-1], str) and y[-1].endswith("\n") for i, y in x[1] if i.sig in (None, "cont") and y):
                    end()
    end()
    return out


def emission(S):
    F = S.ck.F
    fn = F.fn(GM + "::EmitObj", 6)
    os, material, prec, org, v0, n0 = (P(fn, i) for i in range(6))
    V, N, FC = (field(("this",), GM + "::" + x) for x in ("vertices_", "normals_", "faces_"))
    vl = ME + "UniqueIndexer::vector_"
    XYZ = "maliput::api::InertialPosition::xyz_"

    def co(t, k):
        return ("c", "maliput::math::Vector3::" + k, ("f", t, XYZ))

    def text(x):
        return ("c", UT + "to_str", None, x, prec)

    def bodies(line, over):
        if len(line) != 1 or isinstance(line[0], str) or isinstance(line[0][0], str):
            raise Bad("expected a walk over %s" % show(over))
        l, its = line[0]
        l = Walk(l, over) if l.over in (over, ("range", num(0), ("size", over))) else l
        if l.over != over or not l.full or not l.complete:
            raise Bad("does not write every one of %s" % show(over))
        for i, ps in its:
            if i.sig == "throw":
                continue
            if i.sig:
                raise Bad("does not write every one of %s" % show(over))
            yield l, ps

    def tup(t):
        while t[0] == "tuple" and len(t) == 2:
            t = t[1]
        return t[1:] if t[0] in ("tuple", "pair") else None

    def ok(p):
        ctx = S.ctx(p, pre=True)
        got = lines(pieces(p.trace, os))
        none = decided(ctx, Empty(FC))
        if none is True:
            if got:
                return "writes something for a mesh without faces"
            if tup(p.val) != (v0, n0):
                return "a mesh without faces moves the offsets"
            return None
        if none is None:
            return "does not ask whether there are faces"
        if tup(p.val) != (add(v0, ("size", ("f", V, vl))), add(n0, ("size", ("f", N, vl)))):
            return "the offsets returned are not the ones given plus the vertices and normals written"
        named = decided(ctx, Not(Empty(material)))
        if named:
            m = [l for l in got if l == ("usemtl ", material)]
            if len(m) != 1:
                return "the material is not named once"
            if got.index(m[0]) != 2:
                return "the material is not named before the faces"
            got.remove(m[0])
        if len(got) != 3:
            return "writes %d groups of lines instead of vertices, normals and faces" % len(got)
        for l, ps in bodies(got[0], ("f", V, vl)):
            g = ("f", bare(l.el), ME + "GeoVertex::v_")
            want = ("v ",) + tuple(x for k in "xyz" for x in (text(sub(co(g, k), co(org, k))), " "))[:-1]
            if lines(ps) != [want]:
                return "a vertex is written as %s" % (lines(ps),)
        for l, ps in bodies(got[1], ("f", N, vl)):
            g = ("f", bare(l.el), ME + "GeoNormal::n_")
            want = ("vn ",) + tuple(x for k in "xyz" for x in (text(co(g, k)), " "))[:-1]
            if lines(ps) != [want]:
                return "a normal is written as %s" % (lines(ps),)
        for l, ps in bodies(got[2], FC):
            ls = lines(ps)
            if len(ls) != 1 or len(ls[0]) != 2 or ls[0][0] != "f":
                return "a face is not one line"
            for l2, q in bodies((ls[0][1],), ("f", l.el, ME + "IndexFace::vertices_")):
                vq = ME + "IndexFace::Vertex::"
                want = [" ", add(add(("f", l2.el, vq + "vertex_index"), num(1)), v0), "//", add(add(("f", l2.el, vq + "normal_index"), num(1)), n0)]
                if q != want:
                    return "a corner is written as %s" % (q,)
    S.each_path("the text of a mesh", fn, ok, need=3)

    fn2 = opt(S, "FormatMaterial")
    if fn2:
        mat = P(fn2, 0)
        mq = UT + "Material::"

        def material_text(p):
            got = lines(merged(flat(p.val)))

            def row(f):
                return tuple(x for k in "xyz" for x in (("c", "maliput::math::Vector3::" + k, ("f", mat, mq + f)), " "))[:-1]
            want = [("newmtl ", ("f", mat, mq + "name")), ("Ka ",) + row("ambient"), ("Kd ",) + row("diffuse"), ("Ks ",) + row("specular"),
                    ("Ns ", ("f", mat, mq + "shininess")), ("illum 2",), ("d ", ("c", UT + "to_str", None, sub(num(1), ("f", mat, mq + "transparency")), P(fn2, 1)))]
            if not got or got[0] != want[0]:
                return "a material does not begin with its name"
            if sorted(map(str, got)) != sorted(map(str, want)):
                return "a material is written as %s" % ([x for x in got if x not in want],)
        S.each_path("the text of a material", fn2, material_text)


# ---------------------------------------------------------------- faces over lanes
def quads(evs):
    """(mesh, lane, [(s, r, h)], normal) of each face pushed."""
    out = []
    for e in calls(evs, GM + "::PushFace"):
        t = e.a[2][0]
        if not (t[0] == "c" and t[1] == ME + "SrhFace::ToGeoFace" and t[2][0] == "k" and t[2][1] == ME + "SrhFace" and len(t[2]) == 5):
            raise Bad("pushes %s" % show(t))
        vs, n = t[2][3], t[2][4]
        pos = []
        for v in vs[1:]:
            if v[0] != "k" or v[1] != LP or len(v) != 6:
                raise Bad("a vertex is %s" % show(v))
            pos.append(v[3:6])
        if n[0] != "k" or n[1] != LP or len(n) != 6:
            raise Bad("a normal is %s" % show(n))
        out.append((e.a[1], t[3], pos, n[3:6]))
    return out


def cyc(a, b):
    return len(a) == len(b) and any(a[k:] + a[:k] == b for k in range(len(a)))


UP = (num(0), num(0), num(1))


def surfaces(S):
    F = S.ck.F
    step = [f for f in F.fns_of(AN + "ComputeSampleStep") if f.get("body")]
    L_ = "do_length"

    def along(p, lane, ok):
        """Checks every round of the walk along s: ok(round, s0, s1)."""
        length = ("c", LN + L_, lane)
        ls = [e.a[0] for e in p.trace if e.k == "loop"]
        if len(ls) != 1 or ls[0].over[0] != "general":
            return "walks along the lane %d times" % len(ls)
        l = ls[0]
        best = None
        for key, v in (l.entry or {}).items():
            if v != num(0):
                continue
            s0 = ("hv", l.id, key[1])
            goes = [i for i in l.iters if i.sig in (None, "cont")]
            stops = [i for i in l.iters if i.sig == "brk"]
            if not goes or not stops or any(i.sig in ("ret",) for i in l.iters):
                continue
            C = S.ctx(p, pre=True)
            if not all(decided(Ctx(i.all_facts, i.events, C.enums), Lt(s0, length)) is False for i in stops):
                continue
            best = (key, s0, goes)
        if not best:
            return "does not walk from the start of the lane until its length"
        key, s0, goes = best
        n = 0
        for i in goes:
            if decided(Ctx(i.all_facts, i.events, C.enums), Lt(s0, length)) is not True:
                return "goes on past the length of the lane"
            s1 = i.changed.get(key)
            if s1 is None or s1 == s0:
                return "does not advance"
            c = ok(i, s0, s1, Ctx(i.all_facts, i.events, C.enums))
            n += 1
            if c:
                return c
        return None if n else "draws nothing"

    def bound(q, which):
        return ("f", q, "maliput::api::RBounds::%s_" % which)

    def clamped(i, s0, s1, ctx, lane, grid):
        """s1 is one grid unit further, or the lane's end when that is within tolerance."""
        length = ("c", LN + L_, lane)
        tol = ("c", "maliput::api::RoadGeometry::do_linear_tolerance",
               ("c", "maliput::api::Junction::do_road_geometry", ("c", "maliput::api::Segment::do_junction", ("c", LN + "do_segment", lane))))
        late = decided(ctx, Gt(add(s0, grid), sub(length, tol)))
        if late is None:
            raise Bad("does not ask whether the lane ends within this step")
        if s1 != (length if late else add(s0, grid)):
            raise Bad("the next position is %s" % show(s1))

    fn = opt(S, "CoverLaneWithQuads")
    if fn:
        mesh, lane, grid, seg, elev, fast = (P(fn, i) for i in range(6))

        def b(ctx, s, which):
            w = decided(ctx, Is(seg))
            if w is None:
                raise Bad("does not ask which bounds to use")
            return bound(("c", LN + ("do_segment_bounds" if w else "do_lane_bounds"), lane, s), which)

        def high(qs):
            out = []
            for m, ln, vs, n in qs:
                if m != mesh or ln != lane:
                    raise Bad("a face goes to another mesh or lane")
                if n != UP:
                    raise Bad("a face does not face up")
                for s, r, h in vs:
                    if h not in (("ic", elev, s, r),):
                        raise Bad("a vertex is not at the elevation of its own position")
                out.append([(s, r) for s, r, _ in vs])
            return out

        def optimized(i, s0, s1, ctx):
            got = high(quads(list(deep(i.events))))
            if any(e.k == "loop" and quads(list(deep([e]))) for e in i.events):
                return "draws in an inner walk"
            if step and s1 != add(s0, ("c", AN + "ComputeSampleStep", None, lane, s0, grid)):
                return "the next position is not one sample step further"
            a, bq, c, d = (s0, b(ctx, s0, "max")), (s0, b(ctx, s0, "min")), (s1, b(ctx, s1, "min")), (s1, b(ctx, s1, "max"))
            for want in ([[a, bq, c, d]], [[a, bq, d], [bq, c, d]], [[a, bq, c], [a, c, d]]):
                if len(want) == len(got) and all(any(cyc(g, w) for g in got) for w in want):
                    return None
            return "the faces do not cover the lane from one position to the next between its bounds"

        def precise(i, s0, s1, ctx):
            clamped(i, s0, s1, ctx, lane, grid)
            if quads(i.events):
                return "draws outside the walks across the lane"
            sides = set()
            for e in i.events:
                if e.k != "loop":
                    continue
                l = e.a[0]
                for side, sign, clamp in (("max", 1, "min"), ("min", -1, "max")):
                    found = side_of(l, s0, s1, b(ctx, s0, side), b(ctx, s1, side), sign, clamp)
                    if found is True:
                        if side in sides:
                            return "covers a side twice"
                        sides.add(side)
                        break
                else:
                    if any(quads(list(deep([e])))):
                        return "a walk across the lane does not cover a side of it edge to edge"
            if sides != {"max", "min"}:
                return "does not cover both sides of the lane"

        def side_of(l, s0, s1, e0, e1, sign, clamp):
            ent = l.entry or {}
            ks = [k for k, v in ent.items() if v == num(0)]
            goes = [i for i in l.iters if i.sig in (None, "cont")]
            for k0 in ks:
                for k1 in ks:
                    r00, r10 = ("hv", l.id, k0[1]), ("hv", l.id, k1[1])
                    good = True
                    for i in l.iters:
                        ctx = Ctx(i.all_facts, i.events, {})
                        more = [decided(ctx, Gt(e, r) if sign > 0 else Lt(e, r)) for e, r in ((e0, r00), (e1, r10))]
                        if i.sig == "brk":
                            good &= False in more
                            continue
                        if i.sig not in (None, "cont") or more != [True, True]:
                            good = False
                            continue
                        if i.changed.get(k0) != add(r00, grid, sign) or i.changed.get(k1) != add(r10, grid, sign):
                            good = False
                            continue
                        r01, r11 = clamp_of(clamp, add(r00, grid, sign), e0), clamp_of(clamp, add(r10, grid, sign), e1)
                        got = high(quads(i.events))
                        w = [(s0, r00), (s1, r10), (s1, "r11"), (s0, "r01")]
                        if sign < 0:
                            w = w[::-1]
                        if len(got) != 1:
                            good = False
                            continue
                        g = [(s, "r01" if r in r01 and s == s0 else "r11" if r in r11 and s == s1 else r) for s, r in got[0]]
                        good &= cyc(g, w)
                    if good and goes:
                        return True
            return False

        def clamp_of(f, a, b_):
            return {(f, a, b_), (f, b_, a), ("c", "std::" + f, None, a, b_), ("c", "std::" + f, None, b_, a)}

        def ok(p):
            f = decided(S.ctx(p, pre=True), Is(fast))
            if f is None:
                return "does not ask how to draw"
            return along(p, lane, optimized if f else precise)
        S.each_path("a lane's surface", fn, ok, need=2)
    if step:
        g = step[0]
        room = sub(("c", LN + L_, P(g, 0)), P(g, 1))
        S.each_path("a sample step stays on the lane", g, lambda p: None if p.val == room or p.val[0] in ("min", "c") and room in p.val and
                    (p.val[0] == "min" or p.val[1] == "std::min") else "the step is %s" % show(p.val))

    fn3 = opt(S, "StripeLaneBounds")
    if fn3:
        mesh3, lane3, grid3, h3, w3 = (P(fn3, i) for i in range(5))

        def stripes(i, s0, s1, ctx):
            clamped(i, s0, s1, ctx, lane3, grid3)
            got = []
            for m, ln, vs, n in quads(list(deep(i.events))):
                if m != mesh3 or ln != lane3 or n != UP or any(h != h3 for _, _, h in vs):
                    return "a stripe is not above its lane, facing up"
                got.append([(s, r) for s, r, _ in vs])
            from fractions import Fraction
            half = None
            want = []
            for side in ("max", "min"):
                e0, e1 = (bound(("c", LN + "do_lane_bounds", lane3, s), side) for s in (s0, s1))
                hw = times(w3, 0.5)
                want.append([(s0, sub(e0, hw)), (s1, sub(e1, hw)), (s1, add(e1, hw)), (s0, add(e0, hw))])
            if len(got) != 2 or not all(any(cyc(g, w) for g in got) for w in want):
                return "the stripes do not follow the lane's bounds"
        S.each_path("stripes", fn3, lambda p: along(p, lane3, stripes))

    fn4 = opt(S, "MarkLaneEnds")
    if fn4 and F.fns_of(AN + "DrawLaneArrow"):
        m4, l4, g4, h4 = (P(fn4, i) for i in range(4))
        length = ("c", LN + L_, l4)

        def marks(p):
            for e in calls(p.trace, AN + "DrawLaneArrow"):
                m, l, g, s, size, h = e.a[2]
                if (m, l, g, h) != (m4, l4, g4, h4):
                    return "an arrow goes elsewhere"
                e.a
                lo = s
                hi = sub(length, add(s, size))
                tol = [x for x in subterms(s) if x[0] == "c" and x[1].endswith("do_linear_tolerance")]
                if not tol or not (lo == tol[0] or hi == tol[0]):
                    return "an arrow is not next to an end of the lane"
                if lo == tol[0] and decided(S.ctx(p, pre=False), Lt(add(lo, size), length)) is not True:
                    return "an arrow is drawn without asking whether it fits"
            return None
        S.each_path("arrows at the ends of a lane", fn4, marks)


def times(t, k):
    from terms import lin_parts
    d, c = lin_parts(t)
    out = num(c * k)
    for x, n in d.items():
        out = add(out, ("lin", ((x, num(n * k)[1]),), 0))
    return out


# ---------------------------------------------------------------- which features are drawn
class Drawn:
    """The drawings a path adds to its meshes, in terms of drawer, lane and parameters."""

    def __init__(self, S, fn, features):
        self.S, self.fn, self.features = S, fn, features

    def of(self, evs):
        out, filled = [], {}
        for e in evs:
            if e.k == "call" and e.a[0] in (AN + "CoverLaneWithQuads", AN + "StripeLaneBounds", AN + "MarkLaneEnds"):
                args = list(e.a[2])
                if e.a[0].endswith("CoverLaneWithQuads"):
                    args[4] = self.elevation(args[4])
                filled.setdefault(args[0], []).append((e.a[0].rpartition("::")[2],) + tuple(args[1:]))
            elif e.k == "call" and e.a[0] == GM + "::AddFacesFrom":
                src = bare(e.a[2][0])
                if not (src[0] == "c" and src[1] == AN + "SimplifyMesh" and src[4] == self.features):
                    raise Bad("adds %s" % show(src))
                m = bare(src[3])
                if len(filled.get(m, ())) != 1:
                    raise Bad("a mesh is added that has %d drawings" % len(filled.get(m, ())))
                out.append((bare(e.a[1]),) + filled[m][0])
        used = {x[1:] for x in out}
        for l in filled.values():
            for d in l:
                if d not in used:
                    raise Bad("a drawing is not added to any mesh")
        return out

    def elevation(self, lam):
        s, r = ("p", 90, "s"), ("p", 91, "r")
        vs = {x.val for x in self.S.E.paths_of(self.fn, lam, s, r) if x.sig == "ret"}
        return vs.pop() if len(vs) == 1 else ("u", "elevation")


SR = (("p", 90, "s"), ("p", 91, "r"))
FE = UT + "ObjFeatures::"


def feature(f, n):
    return ("f", f, FE + n)


def bounds_of(lane, which):
    return ("f", ("c", LN + "do_elevation_bounds", lane) + SR, "maliput::api::HBounds::%s_" % which)


def tolerance(segment):
    return ("c", "maliput::api::RoadGeometry::do_linear_tolerance",
            ("c", "maliput::api::Junction::do_road_geometry", ("c", "maliput::api::Segment::do_junction", segment)))


def unit(f, lane, tol):
    return ("c", AN + "PickGridUnit", None, lane, feature(f, "max_grid_unit"), feature(f, "min_grid_resolution"), tol)


def base_unit(ctx, f, lane, tol):
    off = decided(ctx, Is(feature(f, "off_grid_mesh_generation")))
    if off is None:
        raise Bad("does not ask how the mesh is generated")
    return tol if off else unit(f, lane, tol)


def wanted(ctx, f, n):
    w = decided(ctx, Is(feature(f, n)))
    if w is None:
        raise Bad("does not ask for %s" % n)
    return w


def cover(f, lane, grid, seg, elev):
    return ("CoverLaneWithQuads", lane, grid, ("b", seg), elev, feature(f, "off_grid_mesh_generation"))


def unordered(a, b):
    return sorted(map(str, a)) == sorted(map(str, b))


def index_loop(evs, n, what):
    """The complete walk over indices 0..n."""
    ls = [e.a[0] for e in evs if e.k == "loop" and e.a[0].el[0] == "ix" and e.a[0].el[1:3] == (num(0), n)]
    if len(ls) != 1 or not ls[0].full or not ls[0].complete or any(i.sig in ("ret", "brk") for i in ls[0].iters):
        raise Bad("does not take every %s" % what)
    return ls[0]


def drawing(S):
    F = S.ck.F
    fn = opt(S, "RenderSegment")
    if fn and all(F.fns_of(AN + x) for x in ("CoverLaneWithQuads", "StripeLaneBounds", "MarkLaneEnds", "PickGridUnit", "SimplifyMesh")):
        seg, f = P(fn, 0), P(fn, 1)
        asphalt, lanes, marker, hb, walk = (P(fn, i) for i in range(2, 7))
        D = Drawn(S, fn, f)
        tol = tolerance(seg)
        n = ("c", "maliput::api::Segment::do_num_lanes", seg)

        def ok(p):
            ctx = S.ctx(p, pre=False)
            if decided(ctx, EqN(n, num(0))):
                return "draws a segment without lanes" if D.of(list(deep(p.trace))) else None
            l0 = ("c", "maliput::api::Segment::do_lane", seg, num(0))
            base = base_unit(ctx, f, l0, tol)
            want = [(asphalt,) + cover(f, l0, base, True, num(0))]
            if wanted(ctx, f, "draw_elevation_bounds"):
                want += [(hb,) + cover(f, l0, base, True, bounds_of(l0, w)) for w in ("max", "min")]
            got = D.of(p.trace)
            if not unordered(got, want):
                return "the segment's surfaces are %s" % ", ".join("%s in %s" % (x[1], show(x[0])) for x in got)
            l = index_loop(p.trace, n, "lane of the segment")
            for e in p.trace:
                if e.k == "loop" and e.a[0] is not l and D.of(list(deep([e]))):
                    return "draws lanes in another walk"
            for i in l.iters:
                if i.sig == "throw":
                    continue
                ln = ("c", "maliput::api::Segment::do_lane", seg, l.el)
                c2 = Ctx(i.all_facts, i.events, ctx.enums)
                if decided(c2, Null(ln)) is True:
                    continue
                want = lane_features(c2, f, ln, base, tol, lanes, marker)
                got = D.of(list(deep(i.events)))
                if not unordered(got, want):
                    return "a lane's features are %s" % ", ".join("%s in %s" % (x[1], show(x[0])) for x in got)
        S.each_path("what is drawn of a segment", fn, ok, need=3)

    fn2 = opt(S, "SimplifyMesh")
    if fn2:
        E = S.engine(opaque={ME + "SimplifyMeshFaces"})
        thr = feature(P(fn2, 1), "simplify_mesh_threshold")
        S.returns("what simplification applies to", fn2, [
            (EqN(thr, num(0)), P(fn2, 0)), (Not(EqN(thr, num(0))), ("c", ME + "SimplifyMeshFaces", None, P(fn2, 0), thr))], E=E)

    mats = {"Asphalt": "kBlandAsphalt", "Lane": "kLaneHaze", "Marker": "kMarkerPaint", "HBounds": "kHBoundsHaze", "BranchPointGlow": "kBranchPointGlow",
            "GrayedAsphalt": "kGrayedBlandAsphalt", "GrayedLane": "kGrayedLaneHaze", "GrayedMarker": "kGrayedMarkerPaint", "Sidewalk": "kSidewalk"}

    def name_of(ctx, t):
        for k in mats:
            if decided(ctx, Eq(t, ("enum", UT + "MaterialType::" + k))) is True:
                return k
        return None

    def material(p, k, pair=True):
        v = p.val
        if pair:
            if v[0] != "pair":
                raise Bad("returns %s" % show(v))
            v = v[2]
        if bare(v) != ("c", UT + "GetMaterialByName", None, ("g", AN + mats[k])):
            raise Bad("the material of %s is %s" % (k, show(v)))

    by_name(S, F)
    gm = F.fn(UT + "GetMaterialFromMesh", 1)

    def of_type(p):
        k = name_of(S.ctx(p, pre=False), P(gm, 0))
        if not k:
            return "does not ask for the type"
        material(p, k, False)
    S.each_path("the material of a type", gm, of_type, need=len(mats))

    ID = "maliput::api::RoadGeometry::"
    for fn3 in F.fns_of(UT + "BuildMesh"):
        rg, f, idp, mt = (P(fn3, i) for i in range(4))
        kind = "Lane" if "LaneId" in fn3["params"][2]["t"] or "Lane>" in fn3["params"][2]["t"] else "Segment" if "Segment" in fn3["params"][2]["t"] else "BranchPoint"
        by = ("c", ID + "DoById", rg)
        obj = ("c", ID + "IdIndex::DoGet" + kind, by, idp)
        D3 = Drawn(S, fn3, f)

        def ok3(p):
            ctx = S.ctx(p, pre=False)
            k = name_of(ctx, mt)
            if not k:
                return "does not ask for the type"
            material(p, k)
            m = bare(p.val[1])
            if kind == "BranchPoint":
                return branch(p, ctx, k, m)
            if kind == "Segment":
                if k not in ("Asphalt", "GrayedAsphalt"):
                    return "a segment is drawn as %s" % k
                l0 = ("c", "maliput::api::Segment::do_lane", obj, num(0))
                want = [(m,) + cover(f, l0, base_unit(ctx, f, l0, tolerance(obj)), True, num(0))]
            else:
                tol = tolerance(("c", LN + "do_segment", obj))
                base = base_unit(ctx, f, obj, tol)
                if k in ("Asphalt", "GrayedAsphalt"):
                    want = [(m,) + cover(f, obj, base, False, num(0))]
                elif k in ("Lane", "GrayedLane"):
                    want = [(m,) + cover(f, obj, base, False, feature(f, "lane_haze_elevation"))] if wanted(ctx, f, "draw_lane_haze") else []
                elif k in ("Marker", "GrayedMarker"):
                    want = markers(ctx, f, obj, tol, m)
                elif k == "HBounds":
                    want = [(m,) + cover(f, obj, base, False, bounds_of(obj, w)) for w in ("max", "min")] if wanted(ctx, f, "draw_elevation_bounds") else []
                else:
                    return "a lane is drawn as %s" % k
            got = D3.of(list(deep(p.trace)))
            if not unordered(got, want):
                return "%s is drawn with %s" % (k, ", ".join("%s in %s" % (x[1], show(x[0])) for x in got) or "nothing")

        def branch(p, ctx, k, m):
            if k != "BranchPointGlow":
                return "a branch point is drawn as %s" % k
            return branch_drawings(p.trace, ctx, obj, feature(f, "branch_point_elevation"), feature(f, "branch_point_height"), m)
        S.each_path("the mesh of a %s" % kind, fn3, ok3)

    fn5 = opt(S, "RenderBranchPoint")
    if fn5:
        bp, e0, height, mesh, prev = (P(fn5, i) for i in range(5))

        def rendered(p):
            ctx = S.ctx(p, pre=False)
            A, B = (("c", "maliput::api::LaneEndSet::do_size", ("c", "maliput::api::BranchPoint::DoGet%sSide" % x, bp)) for x in "AB")
            if decided(ctx, And(EqN(A, num(0)), EqN(B, num(0)))) is True:
                return "draws an empty branch point" if calls(p.trace, AN + "DrawBranch") or calls(p.trace, AN + "DrawArrows") else None
            ls = [e.a[0] for e in p.trace if e.k == "loop"]
            if len(ls) != 1:
                return "looks for a place %d times" % len(ls)
            l = ls[0]
            ks = [k for k, v in (l.entry or {}).items() if v == e0]
            if len(ks) != 1:
                return "does not start at the elevation given"
            at = ("hv", l.id, ks[0][1])
            for i in l.iters:
                if i.sig == "brk":
                    continue
                new = [e for e in i.events if e.k == "mut" and e.a[0] == prev]
                moved = i.changed.get(ks[0], at)
                if new and moved != at or not new and moved != add(at, height):
                    return "a taken place is not left by one height, or a free one not kept"
                for e in new:
                    c = bare(e.a[2][0])
                    if not any(x[0] == "k" and x[1] == LP and x[5] == at for x in subterms(c) if len(x) == 6):
                        return "the place noted is not the one found"
            return branch_drawings(p.trace, ctx, bp, at, height, mesh)
        S.each_path("a branch point among others", fn5, rendered, need=2)

    fn6 = opt(S, "DrawArrows")
    if fn6:
        E6 = S.engine(opaque={AN + "DrawBranch"})
        el, he, st, me = (P(fn6, i) for i in range(4))

        def arrows(p):
            l = index_loop(p.trace, ("c", "maliput::api::LaneEndSet::do_size", st), "lane end")
            for i in l.iters:
                if i.sig == "throw":
                    continue
                cs = calls(i.events, AN + "DrawBranch")
                if i.sig or len(cs) != 1 or cs[0].a[2] != (el, he, ("c", "maliput::api::LaneEndSet::do_get", st, l.el), ("b", False), me):
                    return "a lane end's arrow is not drawn once"
        S.each_path("arrows of a branch point", fn6, arrows, E=E6)


def branch_drawings(evs, ctx, bp, elevation, height, mesh):
    sets = {x: ("c", "maliput::api::BranchPoint::DoGet%sSide" % x, bp) for x in "AB"}
    a = decided(ctx, Gt(("c", "maliput::api::LaneEndSet::do_size", sets["A"]), num(0), ints=True))
    if a is None:
        return "does not ask which side has lane ends"
    ref = ("c", "maliput::api::LaneEndSet::do_get", sets["A" if a else "B"], num(0))
    ds, ars = calls(list(deep(evs)), AN + "DrawBranch"), calls(list(deep(evs)), AN + "DrawArrows")
    if [e.a[2] for e in ds] != [(elevation, height, ref, ("b", True), mesh)]:
        return "the diamond is not drawn once at the reference lane end"
    if not unordered([e.a[2] for e in ars], [(elevation, height, sets[x], mesh) for x in "AB"]):
        return "the arrows are not drawn once for each side"


def markers(ctx, f, lane, tol, m):
    g = unit(f, lane, tol)
    out = []
    if wanted(ctx, f, "draw_stripes"):
        out.append((m, "StripeLaneBounds", lane, g, feature(f, "stripe_elevation"), feature(f, "stripe_width")))
    if wanted(ctx, f, "draw_arrows"):
        out.append((m, "MarkLaneEnds", lane, g, feature(f, "arrow_elevation")))
    return out


def lane_features(ctx, f, lane, base, tol, haze, marker):
    out = markers(ctx, f, lane, tol, marker)
    if wanted(ctx, f, "draw_lane_haze"):
        out.append((haze,) + cover(f, lane, base, False, feature(f, "lane_haze_elevation")))
    return out


# ---------------------------------------------------------------- all of a road geometry
KEYS = {"asphalt": "kBlandAsphalt", "lane": "kLaneHaze", "marker": "kMarkerPaint", "h_bounds": "kHBoundsHaze", "branch_point": "kBranchPointGlow",
        "grayed_asphalt": "kGrayedBlandAsphalt", "grayed_lane": "kGrayedLaneHaze", "grayed_marker": "kGrayedMarkerPaint", "sidewalk": "kSidewalk"}
RG = "maliput::api::RoadGeometry::"


def collecting(S):
    F = S.ck.F
    fn = opt(S, "IsSegmentRenderedNormally")
    if fn:
        hl = P(fn, 1)
        E = S.engine(opaque=(), id_opaque=True)
        S.bool_iff("which segments are rendered normally", fn, Or(Empty(hl), In(hl, P(fn, 0))), E=E)

    def segments(p, rg, f, need_null, each):
        nj = ("c", RG + "do_num_junctions", rg)
        l = index_loop(p.trace, nj, "junction")
        for i in l.iters:
            if i.sig == "throw":
                continue
            j = ("c", RG + "do_junction", rg, l.el)
            c = Ctx(i.all_facts, i.events, S.ctx(p, pre=False).enums)
            if decided(c, Null(j)) is True and not calls(list(deep(i.events)), AN + "RenderSegment"):
                continue
            l2 = index_loop(i.events, ("c", "maliput::api::Junction::do_num_segments", j), "segment")
            for i2 in l2.iters:
                if i2.sig == "throw":
                    continue
                s = ("c", "maliput::api::Junction::do_segment", j, l2.el)
                c2 = Ctx(i2.all_facts, i2.events, c.enums)
                r = calls(list(deep(i2.events)), AN + "RenderSegment")
                if decided(c2, Null(s)) is True and not r:
                    continue
                normal = decided(c2, Is(("c", AN + "IsSegmentRenderedNormally", None, ("c", "maliput::api::Segment::do_id", s), feature(f, "highlighted_segments"))))
                if normal is None:
                    raise Bad("does not ask whether the segment is rendered normally")
                if len(r) != 1 or r[0].a[2][:2] != (s, f):
                    raise Bad("a segment is not rendered once")
                each(normal, r[0].a[2][2:], s, i2, c2)

    def settings(p, M):
        """Entries (key, value) of each container set outside loops."""
        out = {}
        for e in p.trace:
            if e.k == "mut" and e.a[1] in ("set", "insert", "emplace", "try_emplace", "insert_or_assign") and root(e.a[0]) == root(M):
                k, v = e.a[2][0], e.a[2][1]
                kk = "".join(x if isinstance(x, str) else "?" for x in flat(k))
                out.setdefault((e.a[0], kk), []).append(v)
        return out

    fn2 = next(f for f in F.fns_of(UT + "BuildMeshes") if "RoadGeometry" in f["params"][0]["t"])
    rg, f = P(fn2, 0), P(fn2, 1)

    def meshes(p):
        role = {}

        def each(normal, targets, s, i2, c2):
            for k, t in zip(("asphalt", "lane", "marker", "h_bounds", "sidewalk"), targets):
                k = k if normal or k in ("h_bounds", "sidewalk") else "grayed_" + k
                if role.setdefault(k, bare(t)) != bare(t):
                    raise Bad("%s goes to different meshes" % k)
        segments(p, rg, f, True, each)
        ctx = S.ctx(p, pre=False)
        bps = [e for e in p.trace if e.k == "loop" and calls(list(deep([e])), AN + "RenderBranchPoint")]
        if wanted(ctx, f, "draw_branch_points"):
            l = index_loop(p.trace, ("c", RG + "do_num_branch_points", rg), "branch point")
            for i in l.iters:
                if i.sig == "throw":
                    continue
                b = ("c", RG + "do_branch_point", rg, l.el)
                r = calls(i.events, AN + "RenderBranchPoint")
                if decided(Ctx(i.all_facts, i.events, ctx.enums), Null(b)) is True and not r:
                    continue
                if len(r) != 1 or r[0].a[2][:3] != (b, feature(f, "branch_point_elevation"), feature(f, "branch_point_height")):
                    return "a branch point is not rendered once with its features"
                if role.setdefault("branch_point", bare(r[0].a[2][3])) != bare(r[0].a[2][3]):
                    return "branch points go to different meshes"
        elif bps:
            return "branch points are rendered without being asked for"
        ent = settings(p, p.val)
        got = {}
        for (M, k), vs in ent.items():
            if len(vs) != 1 or vs[0][0] != "pair":
                return "the mesh of %s is given %d times" % (k, len(vs))
            got[k] = (bare(vs[0][1]), bare(vs[0][2]))
        if set(got) != set(KEYS):
            return "the meshes are %s" % sorted(got)
        if len({m for m, _ in got.values()}) != len(KEYS):
            return "two names share a mesh"
        for k, (m, mat) in got.items():
            if k in role and m != role[k]:
                return "what is drawn as %s is not returned as %s" % (k, k)
            if mat != ("c", UT + "GetMaterialByName", None, ("g", AN + KEYS[k])):
                return "the material of %s is %s" % (k, show(mat))
        return None
    S.each_path("the meshes of a road geometry", fn2, meshes, need=2)

    fn3 = F.fn(UT + "BuildRoadGeometryMesh", 2)
    rg3, f3 = P(fn3, 0), P(fn3, 1)
    MQ = UT + "RoadGeometryMesh::"

    def by_name(e):
        return e.a[0][2].rpartition("::")[2] if e.a[0][0] == "f" else None

    def parts_of(p):
        role = {}

        def each(normal, targets, s, i2, c2):
            for k, t in zip(("asphalt", "lane", "marker", "hbounds", "sidewalk"), targets):
                k = k if normal or k in ("hbounds", "sidewalk") else "grayed_" + k
                if role.setdefault(k, bare(t)) != bare(t):
                    raise Bad("%s goes to different meshes" % k)
            l = index_loop(i2.events, ("c", "maliput::api::Segment::do_num_lanes", s), "lane")
            ln = ("c", "maliput::api::Segment::do_lane", s, l.el)
            lid = ("c", LN + "do_id", ln)
            for i in l.iters:
                if i.sig == "throw":
                    continue
                got = []
                for e in i.events:
                    if e.k == "mut" and e.a[1] in ("set", "insert", "insert_or_assign") and by_name(e):
                        got.append((by_name(e), bare(e.a[2][1])))
                g = "" if normal else "grayed_"
                G = "" if normal else "Grayed"
                want = [("lane_%slane_mesh" % g, ("c", UT + "BuildMesh", None, rg3, f3, lid, ("enum", UT + "MaterialType::%sLane" % G))),
                        ("lane_%smarker_mesh" % g, ("c", UT + "BuildMesh", None, rg3, f3, lid, ("enum", UT + "MaterialType::%sMarker" % G)))]
                if not unordered(got, want):
                    raise Bad("a lane's meshes are %s" % ", ".join("%s: %s" % (a, show(b)) for a, b in got))
        segments(p, rg3, f3, False, each)
        ctx = S.ctx(p, pre=False)
        draws = [e for e in p.trace if e.k == "loop" and any(x.k == "mut" and by_name(x) == "branch_point_mesh" for x in deep([e]))]
        if wanted(ctx, f3, "draw_branch_points"):
            l = index_loop(p.trace, ("c", RG + "do_num_branch_points", rg3), "branch point")
            b = ("c", "maliput::api::BranchPoint::do_id", ("c", RG + "do_branch_point", rg3, l.el))
            for i in l.iters:
                if i.sig != "throw" and [bare(e.a[2][1]) for e in i.events if e.k == "mut" and by_name(e) == "branch_point_mesh"] != [
                        ("c", UT + "BuildMesh", None, rg3, f3, b, ("enum", UT + "MaterialType::BranchPointGlow"))]:
                    return "a branch point's mesh is not added once"
        elif draws:
            return "branch points are drawn without being asked for"
        got = {}
        for e in p.trace:
            if e.k == "mut" and e.a[1] == "set" and by_name(e):
                got[by_name(e)] = e.a[2][1]
        want = {"asphalt": "kBlandAsphalt", "grayed_asphalt": "kGrayedBlandAsphalt", "hbounds": "kHBoundsHaze", "sidewalk": "kSidewalk"}
        for k, mat in want.items():
            v = got.get(k + "_mesh")
            if not v or v[0] != "pair" or k in role and bare(v[1]) != role[k] or bare(v[2]) != ("c", UT + "GetMaterialByName", None, ("g", AN + mat)):
                return "the mesh of %s is not the one drawn" % k
    S.each_path("the meshes by lane and segment", fn3, parts_of, need=2)

    fn4 = next(f for f in F.fns_of(UT + "BuildMeshes") if "RoadNetwork" in f["params"][0]["t"])
    E4 = S.engine(opaque={fn2["key"]} if False else (), watch=())
    net = ("c", "maliput::api::RoadNetwork::road_geometry", P(fn4, 0))


# ---------------------------------------------------------------- the files
def files(S):
    F = S.ck.F
    fn = next(f for f in F.fns_of(UT + "GenerateObjFile") if "RoadGeometry" in f["params"][0]["t"])
    rg, d, froot, f = (P(fn, i) for i in range(4))

    def key_of(t):
        t = bare(t)
        if t[0] == "f" and t[2].endswith("::first") or t[0] == "fst":
            t = bare(t[1])
        elif t[0] == "f":
            return None
        if t[0] == "at":
            k = flat(t[2])
            return (t[1], k[0]) if len(k) == 1 and isinstance(k[0], str) else None
        return None

    def ok(p):
        src = calls(p.trace, UT + "BuildMeshes")
        if len(src) != 1 or src[0].a[2] != (rg, f):
            return "the meshes are not those of this road geometry"
        em = calls(p.trace, GM + "::EmitObj")
        vo = no = num(0)
        seen, stream = {}, set()
        for e in em:
            k = key_of(e.a[1])
            if not k:
                return "writes %s" % show(e.a[1])
            os, mat, prec, org, v, n = e.a[2]
            if k[1] in seen:
                return "writes %s twice" % k[1]
            seen[k[1]] = k[0]
            stream.add(os)
            if bare(mat) != ("g", AN + KEYS.get(k[1], "?")):
                return "%s is written with material %s" % (k[1], show(mat))
            if org != feature(f, "origin"):
                return "%s is not written about the features' origin" % k[1]
            if not first(v, vo, 0) or not first(n, no, 1):
                return "the indices of %s do not follow from the meshes before" % k[1]
            vo = no = e.a[4]
        if set(seen) != set(KEYS):
            return "does not write %s" % sorted(set(KEYS) - set(seen))
        if len(stream) != 1 or len(set(seen.values())) != 1:
            return "writes to different files"
        os = stream.pop()
        M = next(iter(seen.values()))
        head = lines(pieces(p.trace, os))
        if head != [("mtllib ", froot, ".mtl")]:
            return "the object file names its materials as %s" % (head,)
        if not opened(p, os, ".obj"):
            return "the object file is not <directory>/<root>.obj"
        others = {e.a[0] for e in deep(p.trace) if e.k == "out" and e.a[0] != os}
        if len(others) != 1:
            return "there is not one material file"
        mo = others.pop()
        if not opened(p, mo, ".mtl"):
            return "the material file is not <directory>/<root>.mtl"
        ls = lines(pieces(p.trace, mo))
        if len(ls) != 1 or len(ls[0]) != 1 or isinstance(ls[0][0][0], (str, tuple)):
            return "the material file is not one walk over the meshes"
        l, its = ls[0][0]
        l = Walk(l, M) if l.over in (M, ("range", num(0), ("size", M))) else l
        if l.over != M or not l.full or not l.complete:
            return "does not write the material of every mesh"
        for i, ps in its:
            if i.sig == "throw":
                continue
            if i.sig == "cont" and not ps:
                if decided(Ctx(i.all_facts, i.events, {}), Eq(("key", l.el), ("s", "sidewalk"))) is not True and not any(
                        v is True and "sidewalk" in str(a) for a, v in i.facts.items()):
                    return "leaves out a material"
                continue
            want = ("snd", ("val", l.el))
            if i.sig or len(ps) != 1 or not (ps[0][0] == "c" and ps[0][1] == AN + "FormatMaterial" and bare(ps[0][3]) in (want, ("f", ("val", l.el), "std::pair::second"))):
                return "a material is written as %s" % (ps,)

    def first(t, prev, k):
        return t == prev if prev == num(0) else bare(t) == ("get", prev, k)

    def opened(p, os, ext):
        init = p.st.inits.get(os)
        names = [init[3]] if init and init[0] == "k" and len(init) > 3 else []
        names += [e.a[2][0] for e in deep(p.trace) if e.k in ("mut", "call") and (e.a[0] == os and e.a[1] == "open" or e.a[1] == os and str(e.a[0]).endswith("::open"))]
        return len(names) == 1 and merged(flat(names[0])) == [d, "/", froot, ext]
    S.each_path("the files written", fn, ok)


def by_name(S, F):
    """The material of a name, among those there are."""
    fn = F.fn(UT + "GetMaterialByName", 1)
    E = S.engine(inline_eq=True)
    table = ("g", AN + "kMaterial")
    if AN + "kMaterial" not in F.vars:
        S.ck.undecided("the material of a name", where(fn), "no table kMaterial")
        return

    def ok(p):
        known = [v for t, v in p.facts.items() if t == ("has", table, P(fn, 0))]
        if not known:
            return "does not look the name up in the table"
        if known[0] != (p.sig == "ret"):
            return "throws for a known name" if known[0] else "accepts an unknown name"
        if p.sig == "ret" and p.val != P(fn, 0):
            if p.val[0] == "at" and p.val[2][0] == "n":
                return "returns %s" % show(p.val)
            raise Unknown("returns %s" % show(p.val))
        return None
    S.each_path("the material of a name", fn, ok, E=E, sigs=("ret", "throw"))
    eq = [f for f in F.fns_of(UT + "operator==") if len(f["params"]) == 2 and "Material" in f["params"][0]["t"]]
    for f in eq:
        S.bool_iff("a material is found by its name", f, Eq(("f", P(f, 0), UT + "Material::name"), ("f", P(f, 1), UT + "Material::name") if "Material" in f["params"][1]["t"] else P(f, 1)))
