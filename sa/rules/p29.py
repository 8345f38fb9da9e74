"""P29: waypoints of a route, and the segments that belong together."""
from rules.common import *
from terms import add, sub, num, subst

FLOOR = 6
EXPLANATION = ("Every path of SampleAheadWaypoints is walked; the distance from one waypoint to the next, across the ranges of the route, is computed "
               "from the recurrences of its loops. The search for confluent segments is compared with the rule of one step of a complete search.")
ASSUMPTIONS = ["arithmetic on real numbers", "lanes, branch points and segments answer truthfully (P01-P09)"]
A = "maliput::api::"
UT = "maliput::utility::"


def run(ck):
    ck.rule("R1", "waypoints lie on the route, one sampling step after the other, from its start to its end")
    ck.rule("R2", "a segment's component holds what its lanes are confluent with, and so on")
    S = Spec(ck, opaque={A + "LaneSRoute::length"})
    waypoints(S)
    confluence(S)
    S.done()


def put(t, var, v):
    """t with v for var, of which it is a linear function."""
    for sign in (1, -1):
        rest = add(t, var, -sign)
        if not find_terms(rest, lambda x: x == var):
            return add(rest, v, sign)
    return subst(t, {var: v})


def waypoints(S):
    F, g = S.F, S.E.getter
    pub = F.fn(A + "RoadGeometry::SampleAheadWaypoints", 2)
    raw = S.engine(opaque={A + "RoadGeometry::DoSampleAheadWaypoints"})
    S.each_path("the public call samples the given route at the given rate", pub,
                lambda p: None if p.val == ("c", A + "RoadGeometry::DoSampleAheadWaypoints", THIS, P(pub, 0), P(pub, 1)) else "returns %s" % show(p.val), E=raw)
    fn = F.fn(A + "RoadGeometry::DoSampleAheadWaypoints", 2)
    E = S.engine(opaque={A + "LaneSRoute::length"})
    route, want = P(fn, 0), P(fn, 1)
    tol = g(A + "RoadGeometry::linear_tolerance", THIS)
    ranges = g(A + "LaneSRoute::ranges", route)
    lid = lambda r: g(A + "LaneSRange::lane_id", r)
    sr = lambda r: g(A + "LaneSRange::s_range", r)
    s0, s1 = (lambda r: g(A + "SRange::s0", sr(r))), (lambda r: g(A + "SRange::s1", sr(r)))
    size = lambda r: g(A + "SRange::size", sr(r))

    def is_rate(t):
        if t[0] != "max":
            return False
        for a, b in (t[1:3], t[2:0:-1]):
            if a == tol and b[0] == "min" and set(b[1:3]) == {("c", A + "LaneSRoute::length", route), want}:
                return True
        return False

    def lane_of(t, r):
        """t is the lane that the id of range r names."""
        return t[0] == "c" and t[1].endswith("GetLane") and t[3] == lid(r)

    def position(t):
        """Lane and s of an inertial position on the centre line of a lane."""
        if t[0] == "k" and len(t) == 4:
            t = t[3]
        if not (t[0] == "c" and t[1].endswith("ToInertialPosition")):
            return None
        pos = t[3]
        if not (pos[0] == "k" and len(pos) == 6):
            return None
        return (t[2], pos[3]) if pos[4] == num(0) and pos[5] == num(0) else None

    def pushes(evs):
        return [e for e in evs if e.k == "mut" and e.a[1] in ("push_back", "emplace_back")]

    def where_is(t, which):
        """The waypoint t is the start (first range) or the end (last range) of the route."""
        q = position(t)
        if q is None:
            return False
        lane, s = q
        if not (lane[0] == "c" and lane[1].endswith("GetLane")):
            return False
        cands = [("at", ranges, num(0)), ("front", ranges)] if which == "first" else [("back", ranges), ("at", ranges, add(("size", ranges), num(1), -1))]
        return any(lane_of(lane, r) and s == (s0(r) if which == "first" else s1(r)) for r in cands)

    def route_loop(p):
        ls = [e.a[0] for e in p.events("loop", True) if e.a[0].over in (ranges, ("range", num(0), ("size", ranges)))]
        if len(ls) != 1:
            raise Unknown("the ranges are visited by %d loops" % len(ls))
        return ls[0]

    def el_range(l):
        return l.el if l.el[0] == "el" else ("at", ranges, l.el)

    def steps(l):
        """Per iteration: complaint, or the distance that is left before the end of the range's last waypoint."""
        r = el_range(l)
        carry = None
        out = []
        for i in [i for i in l.iters if i.sig in (None, "cont")]:
            inner = [e.a[0] for e in i.events if e.k == "loop"]
            if len(inner) != 1:
                raise Unknown("a range is sampled by %d loops" % len(inner))
            m = inner[0]
            go = [j for j in m.iters if j.sig in (None, "cont")]
            if not go or any(len(pushes(j.events)) != 1 for j in go) or any(pushes(j.events) for j in m.iters if j.sig not in (None, "cont")):
                raise Bad("a step does not add one waypoint")
            c = Ctx(i.all_facts, i.events, F.enums)
            back = decided(c, Gt(s0(r), s1(r)))
            if back is None:
                back = decided(c, Ge(s0(r), s1(r)))
            if back is None:
                raise Unknown("the direction of the range is not asked for") if decided(c, Le(s0(r), s1(r))) is None else Bad("?")
            for j in go:
                q = position(pushes(j.events)[0].a[2][0])
                if q is None or not lane_of(q[0], r):
                    raise Bad("adds %s" % show(pushes(j.events)[0].a[2][0])[:200])
                d = add(q[1], s0(r), -1)
                D = add(num(0), d, -1) if back else d
                hv = [t for t in set(find_terms(D, lambda t: t[0] == "hv")) if t[1] == m.id]
                if len(hv) != 1:
                    raise Unknown("the waypoints depend on %d variables" % len(hv))
                hv = hv[0]
                var = next((k for k in (m.entry or {}) if k[1] == hv[2]), None)
                ch = {k[1]: v for k, v in (j.changed or {}).items() if isinstance(k, tuple)}
                if var is None or hv[2] not in ch:
                    raise Bad("does not move on")
                step = add(put(D, hv, ch[hv[2]]), D, -1)
                if not is_rate(step):
                    raise Bad("the next waypoint is %s further" % show(step)[:200])
                cj = Ctx(j.all_facts, j.events, F.enums)
                if decided(cj, Le(D, size(r))) is not True:
                    raise Bad("adds waypoints beyond the end of a range")
                for k in m.iters:
                    if k.sig == "brk" and decided(Ctx(k.all_facts, k.events, F.enums), Gt(D, size(r))) is not True:
                        raise Bad("ends a range before its last waypoint")
                D0 = put(D, hv, m.entry[var])
                h = [t for t in set(find_terms(D0, lambda t: t[0] == "hv")) if t[1] == l.id]
                if len(h) != 1:
                    raise Bad("each range starts anew") if not h else Unknown("the state between ranges is held in %d variables" % len(h))
                h = h[0]
                hk = next(k for k in l.entry if k[1] == h[2])
                if put(D0, h, l.entry[hk]) != step:
                    raise Bad("the first step is %s long" % show(put(D0, h, l.entry[hk]))[:200])
                new = {k[1]: v for k, v in (i.changed or {}).items() if isinstance(k, tuple)}.get(h[2])
                if new is None or put(D0, h, new) != add(D, size(r), -1):
                    raise Bad("what is left of a range is not taken over to the next: %s" % show(put(D0, h, new) if new else h)[:200])
                out.append(add(step, put(D0, h, new), -1))
        return out, step

    def norm(p):
        c = S.ctx(p)
        if decided(c, Empty(ranges)) is True:
            return None if not pushes(p.events()) else "an empty route has waypoints"
        l = route_loop(p)
        top = [(n, e) for n, e in enumerate(p.events()) if e in pushes(p.events())]
        at = next(n for n, e in enumerate(p.events()) if e.k == "loop" and e.a[0] is l)
        before, after = [e for n, e in top if n < at], [e for n, e in top if n > at]
        if len(before) != 1 or not where_is(before[0].a[2][0], "first"):
            return "does not begin with the start of the route"
        if decided(Ctx(next(e for e in p.trace if e.k in ("index", "call", "deref") and mentions(e.a, ranges)).facts, [], F.enums), Empty(ranges)) is not False:
            return "reads the first range of a route that may be empty"
        if not (l.full and l.complete):
            return "does not sample every range"
        rest, step = steps(l)
        end = None
        for x in rest + [num(0)]:
            for z in (("abs", x), ("abs", add(num(0), x, -1)), x):
                d = decided(c, Gt(z, tol))
                if d is not None and z != num(0):
                    end = d if end is None else end
        if end is None:
            end = decided(c, Lt(tol, num(0)))
        if end is None:
            for x in rest:
                if any(k[0] in ("lt", "gt") and (find_terms(k, lambda t: t in (("abs", x), ("abs", add(num(0), x, -1)))) or add(k[1], x, -1) != k[1] and
                       find_terms(k[1], lambda t: t[0] == "hv") == find_terms(x, lambda t: t[0] == "hv")) for k in p.facts if k not in set().union(*[i.facts for i in l.iters])):
                    return "compares what is left with something else than the tolerance"
            raise Unknown("does not ask for what is left of the route")
        if end and (len(after) != 1 or not where_is(after[0].a[2][0], "last")):
            return "does not end with the end of the route"
        if not end and after:
            return "adds the end of the route once more"
        if p.val != before[0].a[0]:
            return "returns %s" % show(p.val)[:100]
    S.each_path("waypoints: from the start, each a step further, to the end", fn, norm, E=E)

    def fails(p):
        c = S.ctx(p)
        bad_rate = decided(c, Le(want, num(0)))
        unknown = any(v and k[0] == "null" and k[1][0] == "c" and k[1][1].endswith("GetLane") and
                      find_terms(k[1][3], lambda t: t == ranges) for k, v in p.facts.items())
        if p.sig == "throw":
            return None if bad_rate is True or unknown else "fails without reason"
        if bad_rate is not False:
            return "takes rates that are not positive"
        if decided(c, Empty(ranges)) is True:
            return None
        l = route_loop(p)
        for i in l.iters:
            if i.sig in (None, "cont") and not any(not v and k[0] == "null" and lane_of(k[1], el_range(l)) for k, v in i.all_facts.items()):
                return "goes on when a lane is unknown"
    S.each_path("fails exactly for rates that are not positive and for unknown lanes", fn, fails, E=E, sigs=("ret", "throw"))


def missing(c, t):
    """Whether a pointer is null: asked by comparison or by truth."""
    v = decided(c, Null(t))
    if v is None:
        v = c.facts.get(("t", t))
        v = None if v is None else not v
    return v


def confluence(S):
    F, g = S.F, S.E.getter
    fn = F.fn(UT + "FindConfluentSegments", 1)
    seed = P(fn, 0)
    SEG, LANE = A + "Segment::", A + "Lane::"
    E = S.engine(opaque={SEG + "num_lanes", SEG + "lane", LANE + "GetConfluentBranches", A + "LaneEndSet::size", A + "LaneEndSet::get", LANE + "segment"})
    call = lambda t, q: t[0] == "c" and t[1] == q

    def work(p):
        """The loop over the segments still to be looked at, their container, and the result."""
        V = p.val
        if V[0] == "copyof":
            V = V[1]
        for e in p.events("loop"):
            l = e.a[0]
            pops = {x.a[0] for i in l.iters for x in i.events if x.k == "mut" and x.a[1] in ("pop", "pop_front", "pop_back", "erase")}
            if len(pops) == 1:
                return l, pops.pop(), V
        raise Unknown("segments are visited in some other way")

    def puts(evs, C, ops=("push_back", "push", "insert", "emplace")):
        return [x for x in evs if x.k == "mut" and x.a[0] == C and x.a[1] in ops]

    def step(p):
        l, W, V = work(p)
        if [x.a[2][0] for e in p.trace[:p.trace.index(next(e for e in p.trace if e.k == "loop" and e.a[0] is l))] for x in puts([e], W)] != [seed]:
            return "does not begin with the segment given"
        for i in l.iters:
            if i.sig not in (None, "cont"):
                if i.sig != "brk" or decided(Ctx(i.all_facts, i.events, F.enums), Empty(W)) is not True:
                    return "ends while segments are left"
                continue
            takes = [x for x in i.events if x.k == "mut" and x.a[0] == W and x.a[1].startswith(("pop", "erase"))]
            if len(takes) != 1:
                return "takes %d segments at once" % len(takes)
            ls = [e.a[0] for e in i.events if e.k == "loop"]
            if len(ls) != 1:
                raise Unknown("lanes are visited by %d loops" % len(ls))
            m = ls[0]
            n = m.over[2] if m.over[0] == "range" and m.over[1] == num(0) else None
            if n is None or not call(n, SEG + "num_lanes"):
                if m.over[0] == "range" and find_terms(m.over, lambda t: call(t, SEG + "num_lanes")):
                    return "looks at the lanes %s" % show(m.over)[:200]
                raise Unknown("lanes are visited in some other way")
            seg = n[2]
            if seg not in (("at", W, num(0)), ("front", W), ("back", W)) and not (seg[0] in ("at", "front", "back") and seg[1] == W):
                return "looks at the lanes of %s" % show(seg)
            if not (m.full and m.complete):
                return "does not look at every lane"
            for j in m.iters:
                if j.sig not in (None, "cont"):
                    return "does not look at every lane"
                c = Ctx(j.all_facts, j.events, F.enums)
                lane = ("c", SEG + "lane", seg, m.el)
                if missing(c, lane) is True:
                    continue
                for w in ("kStart", "kFinish"):
                    sets = [t for t in find_terms((tuple(j.all_facts), tuple(x.a for x in j.events if x.k == "call")), lambda t: t[0] == "c" and t[1] == LANE + "GetConfluentBranches")]
                    sets = [t for t in set(sets) if t[2] == lane and t[3][0] == "enum" and t[3][1].endswith("::" + w)]
                    if len(sets) != 1:
                        return "does not ask for the lanes confluent with the %s of a lane" % w[1:].lower()
                    st = sets[0]
                    if missing(c, st) is True:
                        continue
                    ks = [e.a[0] for e in j.events if e.k == "loop" and e.a[0].over[0] == "range" and e.a[0].over[1] == num(0) and e.a[0].over[2] == ("c", A + "LaneEndSet::size", st)]
                    if len(ks) != 1:
                        if not [e for e in j.events if e.k == "loop"]:
                            return "does not look at the lanes confluent with the %s of a lane" % w[1:].lower()
                        if any(e.a[0].over[0] == "range" and mentions(e.a[0].over, st) for e in j.events if e.k == "loop"):
                            return "does not look at all of the confluent lanes"
                        raise Unknown("the confluent lanes are visited in some other way")
                    k = ks[0]
                    if not (k.full and k.complete):
                        return "does not look at every confluent lane"
                    other = ("c", LANE + "segment", ("f", ("c", A + "LaneEndSet::get", st, k.el), A + "LaneEnd::lane"))
                    for u in k.iters:
                        into, out = puts(u.events, W), puts(u.events, V)
                        cu = Ctx(u.all_facts, u.events, F.enums)
                        if missing(cu, other) is True:
                            if into or out:
                                return "records a segment that is not there"
                            continue
                        if any(x.a[2][0] != other for x in into + out):
                            return "records another segment"
                        if not into and not out:
                            if decided(cu, Has(V, other)) is not True:
                                return "leaves out a confluent segment"
                            continue
                        first = (into + out)[0] if not out else min(into + out, key=lambda x: u.events.index(x))
                        known = decided(Ctx(first.facts, u.events, F.enums), Has(V, other))
                        if len(into) != 1 or len(out) != 1:
                            return "a new segment is %s" % ("not part of the component" if into else "not looked at further")
                        if known is not False:
                            return "looks at a segment again that is known already" if known else "does not ask whether the segment is known"
    S.each_path("component: everything confluent with a segment of it, each once", fn, step, E=E)

    def own(p):
        l, W, V = work(p)
        if any(x.a[2][0] == seed for e in p.trace for x in puts([e], V)):
            return None
        if all(any(x.a[2][0][0] in ("at", "front", "back") and x.a[2][0][1] == W for x in puts(i.events, V)) for i in l.iters if i.sig in (None, "cont")):
            return None
        return "a segment whose lanes have no confluent branches is not in its own component"
    S.each_path("component: holds the segment it was asked for", fn, own, E=E)

    fn2 = F.fn(UT + "AnalyzeConfluentSegments", 1)
    rg = P(fn2, 0)
    RG, J = A + "RoadGeometry::", A + "Junction::"
    E = S.engine(opaque={UT + "FindConfluentSegments", RG + "num_junctions", RG + "junction", J + "num_segments", J + "segment"})

    def groups(p):
        R = p.val[1] if p.val[0] == "copyof" else p.val
        ls = [e.a[0] for e in p.events("loop")]
        if len(ls) != 1 or ls[0].over != ("range", num(0), ("c", RG + "num_junctions", rg)):
            raise Unknown("junctions are visited in some other way")
        l = ls[0]
        if not (l.full and l.complete):
            return "does not look at every junction"
        for i in l.iters:
            j = ("c", RG + "junction", rg, l.el)
            if missing(Ctx(i.all_facts, i.events, F.enums), j) is True:
                continue
            ms = [e.a[0] for e in i.events if e.k == "loop"]
            if len(ms) != 1 or ms[0].over != ("range", num(0), ("c", J + "num_segments", j)):
                if not ms:
                    return "does not look at every junction"
                raise Unknown("segments are visited in some other way")
            m = ms[0]
            if not (m.full and m.complete):
                return "does not look at every segment"
            seg = ("c", J + "segment", j, m.el)
            comp = ("c", UT + "FindConfluentSegments", None, seg)
            vs = set()
            for u in m.iters:
                adds = [x for x in u.events if x.k == "mut" and x.a[0] == R]
                marks = [(x, x.a[0], x.a[2]) for x in u.events if x.k == "mut" and x.a[0] != R]
                for e in u.events:
                    if e.k == "loop" and e.a[0].full and e.a[0].complete:
                        it = (e.a[0].el, ("at", e.a[0].over, e.a[0].pos))
                        one = [[x for x in w.events if x.k == "mut"] for w in e.a[0].iters]
                        into = {x.a[0] for o in one for x in o}
                        if len(into) == 1 and all(len(o) == 1 and o[0].a[2][-1] in it or
                                                  not o and any(w.all_facts.get(("has", C, y)) for C in into for y in it) for o, w in zip(one, e.a[0].iters)):
                            marks.append((e, into.pop(), (e.a[0].over,)))
                early = min(adds + [x for x, _, _ in marks], key=u.events.index).facts if adds else u.all_facts
                has = {k[1]: v for k, v in early.items() if k[0] == "has" and k[2] == seg}
                if not adds:
                    if True not in has.values():
                        return "leaves out a segment"
                    vs |= set(has)
                    continue
                if False not in has.values():
                    return "does not ask whether the segment is in a component already"
                if len(adds) != 1 or adds[0].a[2][0] != comp:
                    return "adds %s" % show(adds[0].a[2][0])[:200]
                vs |= set(has)
                if len(marks) != 1 or marks[0][1] not in vs:
                    return "does not remember the segments of a component"
                what = marks[0][2]
                if not any(t in (comp, ("back", R)) or t[0] == "at" and t[1] == R for t in find_terms(what, lambda t: t == comp or t[0] in ("back", "at"))):
                    return "remembers %s" % show(what)[:200]
            if len(vs) != 1:
                raise Unknown("what is known is held in %d containers" % len(vs))
    S.each_path("components: every segment of every junction in exactly one", fn2, groups, E=E)
