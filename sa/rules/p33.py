"""P33: texts: what is streamed, and in which order."""
from rules.common import *
from terms import show

FLOOR = 26
EXPLANATION = ("Every path of the stream operators, of GenerateString, GenerateDotStream and GenerateUrdfFile is turned into the sequence of what it "
               "streams: adjacent constants merged, iterated parts kept as loops. That sequence must be the required one: every component or "
               "element of the value once, in its order, with its own label, and the optional parts exactly under their options.")
ASSUMPTIONS = ["the standard stream operators print a value as documented", "junctions, segments and lanes are not null, other than junctions in GenerateString"]
A, U, MA, RT = "maliput::api::", "maliput::utility::", "maliput::math::", "maliput::routing::"
OPAQUE = {U + "GenerateObjFile"}
ID = A + "TypeSpecificIdentifier::string"


class Loop:
    """A required iterated part: over (range lo..hi or container), each(el, it) -> required text of one iteration or None to accept nothing."""

    def __init__(self, over, each):
        self.over, self.each = over, each


def const(v):
    """A constant text, None when the value is not one."""
    if v[0] == "s":
        return v[1]
    if v[0] == "fnref" and v[1] == "std::endl":
        return "\n"
    if v[0] == "str" and v[2:] == (NULL,) and v[1][0] == "s":
        return v[1][1]
    if v[0] == "str" and len(v) > 2 and v[1][0] == "n" and v[2][0] == "n":
        return chr(int(v[2][1])) * int(v[1][1])
    return None


def merge(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


MANIP = ("std::flush", "std::fixed", "std::setprecision")


def pieces(v):
    if v[0] == "cat":
        return pieces(v[1]) + pieces(v[2])
    c = const(v)
    if c is not None:
        return [c]
    if v[0] == "str" and v[2:] == (NULL,):
        return pieces(v[1])
    return [v]


def text(evs, stream):
    """What the events stream, as merged constants, terms and loop objects."""
    other = {}
    out = []
    for e in evs:
        if e.k == "out":
            to, v = e.a
            if v[0] == "fnref" and v[1] in MANIP:
                continue
            if to == stream:
                out += other[v] if v in other else pieces(v)
            elif to[0] == "loc":
                other.setdefault(to, []).extend(pieces(v))
        elif e.k == "loop":
            l = e.a[0]
            if any(writes(i.events, stream) for i in l.iters):
                out.append(l)
    return merge(out)


def writes(evs, stream):
    return any(e.k == "out" and e.a[0] == stream or e.k == "loop" and any(writes(i.events, stream) for i in e.a[0].iters) for e in evs)


def shown(items):
    return " ".join(repr(x) if isinstance(x, str) else "[each of %s]" % show(x.over) if not isinstance(x, tuple) else show(x) for x in items) or "nothing"


def match(got, want, stream):
    """Complaint, or None when the text is the required one."""
    want = merge(want)
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if isinstance(w, Loop) and g is not None and not isinstance(g, (str, tuple)):
            over = g.over
            if over != w.over:
                return "runs over %s instead of %s" % (show(over), show(w.over))
            if not g.complete or not g.full:
                return "does not go through all of %s" % show(over)
            for i in g.iters:
                if i.sig in ("throw", "ret", "break"):
                    return "leaves the loop over %s early" % show(over)
                r = w.each(g.el, i)
                if r is None:
                    r = []
                c = match(text(i.events, stream), r, stream)
                if c:
                    return c
            continue
        if g != w:
            if isinstance(g, tuple) and "'hv'" in repr(g):
                raise Unknown("streams a value kept from one iteration to the next: %s" % show(g))
            if g is None or w is None or isinstance(g, str) or isinstance(w, str):
                return "streams %s instead of %s" % (shown(got[k:k + 2]), shown_want(want[k:k + 2]))
            return "streams %s instead of %s" % (shown([g]), shown_want([w]))
    return None


def shown_want(items):
    return " ".join(repr(x) if isinstance(x, str) else "[each of %s]" % show(x.over) if isinstance(x, Loop) else show(x) for x in items) or "nothing"


def run(ck):
    F = ck.F
    ck.rule("R1", "a stream operator writes every component of its value, in order, under its own name")
    ck.rule("R2", "GenerateString: each junction, segment and lane once, in order, at its level, exactly when its option is set")
    ck.rule("R3", "GenerateDotStream: each edge once, between its own nodes, coloured iff a phase of the route lies in its segment")
    ck.rule("R4", "GenerateUrdfFile: the mesh is written and named by the file of the same root")
    S = Spec(ck, opaque=OPAQUE)
    operators(ck, F, S)
    listing(ck, F, S)
    dot(ck, F, S)
    urdf(ck, F, S)
    S.done()


def templ(S, name, f, stream_of, want_of, E=None, alts=()):
    """Every returning path streams want_of(p)."""
    E = E or S.E
    det, line = [], None
    n = 0
    try:
        for p in E.paths(f):
            if p.sig != "ret":
                continue
            n += 1
            s = stream_of(p)
            got = text(p.trace, s)
            c = match(got, want_of(p), s)
            if c and not any(match(got, w(p), s) is None for w in alts):
                det.append("%s; path: %s" % (c, show_facts(p.facts)))
                line = line or p.line
        if not n:
            det.append("no path returns")
        S.ck.ob(name, not det, where(f, line), "; ".join(det[:2]))
    except Bad as e:
        S.ck.ob(name, False, where(f), str(e))
    except Unknown as e:
        S.ck.undecided(name, where(f), str(e))


def local_stream(p):
    """The one local stream of a path that is handed out as its value."""
    v = p.val
    while isinstance(v, tuple) and v and v[0] in ("c", "at") and v[0] != "loc":
        inner = [x for x in v[1:] if isinstance(x, tuple)]
        if not inner:
            break
        v = inner[0]
    if not isinstance(v, tuple) or v[0] != "loc":
        raise Unknown("the value is not the text of a local stream: %s" % show(p.val))
    return v


def operators(ck, F, S):
    E = S.E

    def fields(v, cls, names, labels, sep, open_="(", close=")", eq=" = "):
        out = [open_]
        for k, (m, l) in enumerate(zip(names, labels)):
            out += [sep if k else "", l + eq, E.getter(cls + "::" + m, v)]
        return out + [close]

    def op(ns, typ):
        fs = [f for f in F.by_q[ns + "operator<<"] if not f["dep"] and len(f["params"]) == 2 and f["params"][1]["t"].replace("const ", "").rstrip("& ").endswith(typ)]
        if not fs:
            from facts import AnalysisError
            raise AnalysisError("no operator<< for " + typ)
        return fs[0]
    f = op(A, "InertialPosition")
    templ(S, "operator<<(InertialPosition): x, y and z in order", f, lambda p: P(f, 0), lambda p: fields(P(f, 1), A + "InertialPosition", "xyz", "xyz", ", "))
    g = op(A, "LanePosition")
    templ(S, "operator<<(LanePosition): s, r and h in order", g, lambda p: P(g, 0), lambda p: fields(P(g, 1), A + "LanePosition", "srh", "srh", ", "))
    h = op(A, "Rotation")
    templ(S, "operator<<(Rotation): roll, pitch and yaw in order", h, lambda p: P(h, 0),
          lambda p: fields(P(h, 1), A + "Rotation", ("roll", "pitch", "yaw"), ("roll", "pitch", "yaw"), ", "))
    q = op(MA, "Quaternion")
    templ(S, "operator<<(Quaternion): w, x, y and z in order", q, lambda p: P(q, 0),
          lambda p: [y for k, m in enumerate("wxyz") for y in ["(" if not k else ", ", m + ": ", ("c", MA + "Quaternion::" + m, P(q, 1))]] + [")"])
    w = op(A, "LaneEnd::Which")
    start = Eq(P(w, 1), ("enum", A + "LaneEnd::Which::kStart"))

    def which(p):
        v = decided(S.ctx(p), start)
        if v is None:
            raise Bad("streams a name without telling the ends apart")
        return ["start" if v else "finish"]
    templ(S, "operator<<(LaneEnd::Which): the name of that end", w, lambda p: P(w, 0), which)
    # a first element written ahead of the others is accepted
    for f in sorted((f for f in F.by_q[MA + "VectorBase::to_str"] if not f["dep"]), key=lambda f: f["key"]):
        n = f["key"].split("VectorBase")[-1][:60]
        vals = ("f", THIS, MA + "VectorBase::values_")

        def each(el, i):
            return ["" if first(i) else ", ", el]
        templ(S, "Vector::to_str [%s]: the components in order, in braces" % tag(f), f, local_stream, lambda p: ["{", Loop(vals, each), "}"],
              alts=[lambda p, hi=hi: ["{", ("at", vals, num(0)), Loop(("range", num(1), hi), lambda el, i: [", ", ("at", vals, el)]), "}"]
                    for hi in [("size", vals)] + [num(k) for k in (1, 2, 3, 4)]])
    for f in sorted((f for f in F.by_q[MA + "operator<<"] if not f["dep"] and "Matrix<" in f["params"][1]["t"]), key=lambda f: f["params"][1]["t"]):
        n = int(f["params"][1]["t"].split("Matrix<")[1].split(">")[0])

        def rows(el, i, f=f):
            return ["" if first(i) else ",\n", ("c", MA + "Matrix::row", P(f, 1), el)]
        templ(S, "operator<<(Matrix<%d>): the rows in order, in braces" % n, f, lambda p, f=f: P(f, 0),
              lambda p: ["{", Loop(("range", num(0), num(n)), rows), "}"],
              alts=[lambda p, f=f, n=n: ["{", ("c", MA + "Matrix::row", P(f, 1), num(0)), Loop(("range", num(1), num(n)), lambda el, i: [
                  ",\n", ("c", MA + "Matrix::row", P(f, 1), el)]), "}"]])
    for f in sorted((f for f in F.by_q[MA + "operator<<"] if not f["dep"] and "VectorBase<" in f["params"][1]["t"]), key=lambda f: f["params"][1]["t"]):
        X = S.engine(opaque=set(OPAQUE) | {MA + "VectorBase::to_str"})
        templ(S, "operator<<(%s): to_str" % f["params"][1]["t"].split("maliput::math::", 1)[1].rstrip("& "), f, lambda p, f=f: P(f, 0),
              lambda p, f=f: [("c", MA + "VectorBase::to_str", P(f, 1))], X)
        ck.absorb(X)


def first(i):
    """Whether the iteration is that of index 0."""
    for t, v in i.all_facts.items():
        if t[0] == "eqn" and t[1][0] == "ix" and t[2] == 0:
            return v
        if t[0] in ("gt", "lt") and t[1][0] == "ix" and len(t) == 3 and isinstance(t[2], (int, float)):
            at0, at1 = (0 > t[2], 1 > t[2]) if t[0] == "gt" else (0 < t[2], 1 < t[2])
            if at0 != at1:
                return v == at0
    return False


def tag(f):
    import re
    m = re.search(r"VectorBase>#VK?([\w#$@]+?)(?:@F@|$)", f["key"])
    return m.group(1)[-18:] if m else f["key"][-24:]


def listing(ck, F, S):
    E = S.E
    f = F.fn(U + "GenerateString", 2)
    rg, o = P(f, 0), P(f, 1)
    O = U + "GenerateStringOptions::include_"

    def opt(facts, n):
        return facts.get(("t", ("f", o, O + n)))

    def need(facts, n):
        v = opt(facts, n)
        if v is None:
            raise Bad("streams without having looked at include_%s" % n)
        return v

    def name_of(t, cls):
        return ("c", ID, ("c", A + cls + "::do_id", t))

    def want(p):
        def have(facts, n):
            v = facts.get(("t", ("f", o, O + n)), p.facts.get(("t", ("f", o, O + n))))
            if v is None:
                raise Open(n)
            return v

        def line(facts, indent, label, t, cls):
            return ["  " * indent, label + ": " if have(facts, "type_labels") else "", name_of(t, cls), "\n"]

        def junction(ji, i):
            j = ("c", A + "RoadGeometry::do_junction", rg, ji)
            if i.all_facts.get(("null", j)) is True:
                return []
            fj = i.all_facts

            def segment(si, i2):
                s = ("c", A + "Junction::do_segment", j, si)
                fs = i2.all_facts

                def lane(li, i3):
                    l = ("c", A + "Segment::do_lane", s, li)
                    fl = i3.all_facts
                    ind = "  " * (have(fl, "road_geometry_id") + have(fl, "junction_ids") + have(fl, "segment_ids"))
                    out = line(fl, len(ind) // 2, "lane", l, "Lane")
                    if have(fl, "lane_details"):
                        length = E.getter(A + "Lane::length", l)

                        def pos(at):
                            return pos_of(E, l, at)
                        out += [ind + "  length: ", length, "\n" + ind + "  geo positions:\n", ind + "    s_min: "] + pos(num(0)) + [
                            "\n" + ind + "    s_max: "] + pos(length) + ["\n"]
                        for side in ("left", "right"):
                            n = ("c", A + "Lane::do_to_" + side, l)
                            absent = fl.get(("null", n))
                            if absent is None:
                                raise Bad("the lane to the %s is named without having looked whether there is one" % side)
                            out += [ind + "  to %s: " % side] + ([] if absent else [name_of(n, "Lane")]) + ["\n"]
                    return out
                out = []
                if have(fs, "segment_ids"):
                    out += line(fs, have(fs, "road_geometry_id") + have(fs, "junction_ids"), "segment", s, "Segment")
                if have(fs, "lane_ids"):
                    out.append(Loop(("range", num(0), ("c", A + "Segment::do_num_lanes", s)), lane))
                return out
            out = []
            if have(fj, "junction_ids"):
                out += line(fj, int(have(fj, "road_geometry_id")), "junction", j, "Junction")
            out.append(Loop(("range", num(0), ("c", A + "Junction::do_num_segments", j)), segment))
            return out
        out = []
        if have(p.facts, "road_geometry_id"):
            out += line(p.facts, 0, "geometry", rg, "RoadGeometry")
        return out + [Loop(("range", num(0), ("c", A + "RoadGeometry::do_num_junctions", rg)), junction)]

    class Open(Unknown):
        pass

    def stream(p):
        v = local_stream(p)
        empty = p.facts.get(("empty", v))
        whole = p.val == v
        cut = not whole and "substr" in repr(p.val[:2])
        if whole and empty is not True:
            raise Bad("the last end of line is not removed")
        if cut:
            args = p.val[-2:]
            if args[0] != num(0) or args[1] != ("lin", ((("size", v), 1),), -1):
                raise Bad("hands out %s instead of all but the last end of line" % show(p.val))
        elif not whole:
            raise Unknown("hands out %s" % show(p.val))
        return v
    # the options are looked at in nested loops: outputs decide which of them are settled on a path
    det, line, und = [], None, None
    try:
        for p in E.paths(f):
            if p.sig != "ret":
                det.append("throws; path: %s" % show_facts(p.facts))
                continue
            v = stream(p)
            try:
                c = match(text(p.trace, v), want(p), v)
            except Open as e:
                und = "include_%s is not settled on path %s" % (e, show_facts(p.facts))
                continue
            if c:
                det.append("%s; path: %s" % (c, show_facts(p.facts)))
                line = line or p.line
        if und and not det:
            ck.undecided("GenerateString: every element once, in order, under its option", where(f), und)
        else:
            ck.ob("GenerateString: every element once, in order, under its option", not det, where(f, line), "; ".join(det[:2]))
    except Bad as e:
        ck.ob("GenerateString: every element once, in order, under its option", False, where(f), str(e))
    except Unknown as e:
        ck.undecided("GenerateString: every element once, in order, under its option", where(f), str(e))


def pos_of(E, lane, s):
    p = E.F.fn(A + "Lane::ToInertialPosition", 1)
    ctor = next(f for f in E.F.fns_of(A + "LanePosition::LanePosition") if len(f["params"]) == 3)
    lp = ("k", A + "LanePosition", ctor["usr"] if "usr" in ctor else ctor["key"], s, num(0), num(0))
    t = ("c", A + "Lane::DoToInertialPosition", lane, lp)
    out = ["("]
    for k, m in enumerate("xyz"):
        out += [", " if k else "", m + " = ", E.getter(A + "InertialPosition::" + m, t)]
    return out + [")"]


def dot(ck, F, S):
    G = RT + "graph::"
    fns = sorted(F.fns_of(U + "GenerateDotStream"), key=lambda f: len(f["params"]))
    for f in fns:
        n = len(f["params"])
        graph, os = P(f, 0), P(f, n - 1)
        edges = ("f", graph, G + "Graph::edges")

        def want(p, n=n, graph=graph, edges=edges):
            def each(el, i):
                e = ("val", el)
                seg = ("f", e, G + "Edge::segment")
                red = [v for t, v in i.all_facts.items() if t[0] == "has" and t[2] == seg]
                if n == 3 and not red:
                    raise Bad("an edge is listed without having looked whether a phase lies in its segment")
                return [("f", e, G + "Edge::node_a"), " -- ", ("f", e, G + "Edge::node_b"), ' [ label = "', ("c", ID, ("c", A + "Segment::do_id", seg)), '"',
                        ' color = "red"' if n == 3 and red[0] else "", " ];\n"]
            return ["graph {\n", Loop(edges, each), "}\n"]
        templ(S, "GenerateDotStream(%s): every edge once, between its nodes%s" % ("graph, route" if n == 3 else "graph", ", red iff a phase lies there" if n == 3 else ""),
              f, lambda p, os=os: os, want)
        if n == 2:
            S.throws_iff("GenerateDotStream(graph): refuses no stream", f, Null(os))
            continue
        phases = ("f", P(f, 1), RT + "Route::phases_")
        name = "GenerateDotStream(graph, route): the red segments are those of the phases, all of the graph"
        det, line = [], None
        try:
            for p in S.E.paths(f):
                null = p.facts.get(("null", os))
                if null:
                    if p.sig != "throw":
                        det.append("takes no stream")
                    continue
                loops = [e.a[0] for e in p.trace if e.k == "loop" and e.a[0].over == phases]
                if len(loops) != 1 or not loops[0].full:
                    raise Unknown("no loop over the phases of the route")
                l = loops[0]
                if p.sig == "throw":
                    if l.complete:
                        det.append("throws after every phase was found in the graph; path: %s" % show_facts(p.facts))
                    continue
                for i in l.iters:
                    lane = [t for e in i.events if e.k == "call" and e.a[0] == A + "Lane::do_segment" for t in (e.a[1],)]
                    if not lane:
                        raise Unknown("the segment of a phase is not taken from one of its lanes")
                    seg = ("c", A + "Lane::do_segment", lane[0])
                    if not mentions_el(lane[0], l.el):
                        det.append("takes %s for the segment of a phase" % show(seg))
                    adds = [e.a for e in i.events if e.k == "mut" and e.a[1] in ("insert", "emplace")]
                    if i.sig == "throw":
                        if not any(e.k == "loop" and e.a[0].over == edges and e.a[0].complete for e in i.events):
                            det.append("a phase is refused before every edge was tried")
                    elif not any(seg in a[2] for a in adds) and not any(t[0] == "has" and t[2] == seg and v is True for t, v in i.facts.items()):
                        det.append("the segment of a phase is not kept")
                    elif not any(e.k == "loop" and e.a[0].over == edges and not e.a[0].complete for e in i.events) and not any(
                            t[0] == "ex" or "edges" in repr(t) for t in i.all_facts):
                        det.append("a phase outside the graph is accepted")
            ck.ob(name, not det, where(f), "; ".join(sorted(set(det))[:2]))
        except Unknown as e:
            ck.undecided(name, where(f), str(e))


def mentions_el(t, el):
    from terms import subterms
    return any(x == el for x in subterms(t))


def urdf(ck, F, S):
    f = F.fn(U + "GenerateUrdfFile", 4)
    rg, d, r, feat = (P(f, k) for k in range(4))
    X = S.engine(opaque=OPAQUE)
    name = "GenerateUrdfFile: writes the mesh, and an URDF naming the road and that mesh"
    det, line = [], None
    try:
        for p in X.paths(f):
            if p.sig != "ret":
                continue
            calls = [e.a for e in p.trace if e.k == "call" and e.a[0] == U + "GenerateObjFile"]
            if [tuple(c[2]) for c in calls] != [(rg, d, r, feat)]:
                det.append("GenerateObjFile is called with %s" % [show(x) for c in calls for x in c[2]])
            streams = {e.a[0] for e in p.trace if e.k == "out"}
            if len(streams) != 1:
                raise Unknown("%d streams are written" % len(streams))
            s = streams.pop()
            got = text(p.trace, s)
            holes = [x for x in got if not isinstance(x, str)]
            txt = "".join(x if isinstance(x, str) else "\0" for x in got)
            want = ['robot name="\0"', '<mesh filename="\0\\.obj"']
            import re
            if not re.search(r'<robot name="\0">', txt) or not re.search(r'<mesh filename="\0\.obj"', txt) or len(holes) != 2:
                det.append("the URDF does not name the road and the mesh: %s" % shown(got)[:300])
            elif holes != [("c", ID, ("c", A + "RoadGeometry::do_id", rg)), r]:
                det.append("the URDF names %s" % ", ".join(show(x) for x in holes))
        ck.ob(name, not det, where(f, line), "; ".join(det[:2]))
    except Unknown as e:
        ck.undecided(name, where(f), str(e))
    ck.absorb(X)
