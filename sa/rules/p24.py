"""P24: lane sequences follow ongoing lanes, respect the length limit and become continuous s-routes."""
from rules.common import *
from rules.p22 import BASE
from rules.p23 import bare, el_of, helper, its
from terms import add

FLOOR = 8
EXPLANATION = ("The recursive lane search is decided by its one-step rule (both ends' ongoing lanes, visited lanes skipped, length added once per "
               "intermediate lane), the U-turn filter by the connection recurrence, and the s-routes by the range each position in the sequence gets.")
ASSUMPTIONS = ["doubles are real numbers", "lane ids are unique in a road network"]
A, B = "maliput::api::", "maliput::routing::"
BA = B + "(anon)::"
LANE = A + "Lane::"
OB, LEN, LID = LANE + "GetOngoingBranches", LANE + "length", LANE + "id"
SEARCH, UTURN, CONN, FIND, EDGE_S = BA + "FindLaneSequencesHelper", BA + "HasUTurn", BA + "BuildConnectionSet", B + "FindLaneSequences", B + "DetermineEdgeS"
END = lambda w: ("enum", A + "LaneEnd::Which::" + w)


def run(ck):
    ck.rule("R1", "every ongoing lane at either end is followed once, lanes already on the way aside")
    ck.rule("R2", "the length limit counts intermediate lanes only")
    ck.rule("R3", "U-turns are removed exactly on request")
    ck.rule("R4", "s-routes run from start to end, each lane entered and left where it touches its neighbours")
    S = Spec(ck, opaque=BASE + (OB,))
    edge_s(S)
    search(S)
    uturns(S)
    routes(S)
    S.done()


def has_lane(S, lane, end, other):
    """Some ongoing lane end at that end of the lane belongs to the other lane."""
    s = ("c", OB, lane, END(end))
    E = S.E
    n = E.getter(A + "LaneEndSet::size", s)
    return Ex(("range", num(0), n), lambda i: Eq(("f", E.getter(A + "LaneEndSet::get", s, i), A + "LaneEnd::lane"), other))


def edge_s(S):
    fn = S.F.fn(EDGE_S, 2)
    lane, nxt = P(fn, 0), P(fn, 1)
    at = lambda w: Either(has_lane(S, lane, w, nxt), has_lane(S, lane, w, ("addr", nxt)))
    S.returns("DetermineEdgeS: the end of the lane at which the other lane goes on, none if there is none", fn,
              [(at("kFinish"), S.E.getter(LEN, lane)), (at("kStart"), num(0)), (Not(Or(at("kStart"), at("kFinish"))), NULL)],
              throws=None)


# ------------------------------------------------------------------------------------------------ search
def search(S):
    F = S.F
    name = "Search: every ongoing lane at both ends leads on, lanes on the way aside"
    fn = helper(S, SEARCH, name)
    if fn is not None:
        E = S.engine(opaque=BASE + (OB, SEARCH))
        start, end, visited, limit, length = (P(fn, i) for i in range(5))
        S.each_path("Search: gives up exactly beyond the length limit", fn, lambda p: limited(S, p, limit, length), E=E)
        S.each_path(name, fn, lambda p: step(S, E, p, start, end, visited, limit, length), E=E)
    fn = F.fn(FIND, 3)
    a, b, limit = (P(fn, i) for i in range(3))
    E = S.engine(opaque=BASE + (SEARCH,))
    same_lane = Either(Eq(E.getter(LID, a), E.getter(LID, b)), Eq(a, b))

    def start_search(v, c):
        if v[0] == "c" and v[1] == SEARCH:
            if v[3:5] != (a, b) or v[6:] != (limit, num(0)):
                raise Bad("searches with %s" % show(v)[:300])
            if v[5] != ("list", a):
                if v[5][0] != "list":
                    raise Unknown("the lanes on the way are given in some other way")
                raise Bad("starts with %s on the way" % show(v[5]))
            return True
        raise Unknown("the search is done in some other way")
    S.returns("FindLaneSequences: one lane for start and end on it, otherwise the search", fn,
              [(same_lane, ("list", ("list", a))), (Not(same_lane), start_search)], E=E)


def limited(S, p, limit, length):
    c = S.ctx(p)
    over = decided(c, Gt(length, limit))
    searched = [e for e in p.events("loop", True)]
    if over is None:
        return "does not compare the length with the limit" if searched else "may give up within the limit"
    if over:
        return "goes on beyond the limit" if any(insertions([e], p.val) for e in deep(p.trace)) else None
    return None if searched else "gives up within the limit"


def step(S, E, p, start, end, visited, limit, length):
    R = p.val
    ls = p.events("loop", True)
    sets = {w: ("c", OB, start, END(w)) for w in ("kStart", "kFinish")}
    size, get = A + "LaneEndSet::size", A + "LaneEndSet::get"
    if not ls:
        return None     # beyond the limit
    direct, pool = {}, {}
    for e in ls:
        l = e.a[0]
        for w, s in sets.items():
            if s not in set(find_terms(l.over, lambda t: t == s)):
                continue
            l = over_indices([e], E.getter(size, s), "the ongoing lanes")[0]
            lane = ("f", E.getter(get, s, l.el), A + "LaneEnd::lane")
            if all(not any(x.k == "loop" for x in i.events) and not insertions(i.events, R) for i in its(l)):
                for i in its(l):
                    ins = [x.a[0] for x in i.events if x.k == "mut" and x.a[1] in GROWS and x.a[2][-1] == lane]
                    if len(ins) != 1:
                        return "drops an ongoing lane"
                    pool.setdefault(ins[0], set()).add(w)
            else:
                direct[w] = (l, lane)
    todo = []
    if direct:
        if set(direct) != set(sets):
            return "follows only %s" % sorted(direct)
        todo = list(direct.values())
    else:
        for C, ws in pool.items():
            if ws != set(sets):
                return "follows only the lanes at %s" % sorted(ws)
            for e in ls:
                if e.a[0].over == C:
                    todo.append((e.a[0], el_of(e.a[0])))
    if not todo:
        raise Unknown("the ongoing lanes are followed in some other way") if pool else Bad("follows no lane")
    seen = set()
    for l, nxt in todo:
        if not (l.full and l.complete):
            return "does not follow every lane"
        for i in its(l):
            c = Ctx(i.facts, i.events, S.F.enums)
            adds = [e for e in deep(i.events) if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
            vis = decided(c, Has(visited, nxt))
            if vis is None:
                return "does not ask whether the lane is on the way already; path: %s" % show_facts(i.facts)[:400]
            if vis:
                seen.add("visited")
                if adds:
                    return "follows a lane twice"
                continue
            done = [decided(c, x) for x in (Eq(E.getter(LID, nxt), E.getter(LID, end)), Eq(nxt, end))]
            done = True if True in done else False if False in done else None
            if done is None:
                return "does not ask whether the lane is the end"
            if done:
                seen.add("end")
                if [e.a[2] for e in adds] not in ([(("list", start, end),)], [(("list", start, nxt),)]):
                    return "reaches the end with %s" % [tuple(map(show, e.a[2])) for e in adds]
                continue
            seen.add("on")
            sub = [x.a[0] for x in i.events if x.k == "loop" and x.a[0].over[0] == "c" and x.a[0].over[1] == SEARCH]
            if len(sub) != 1 or not (sub[0].full and sub[0].complete):
                if not any(x.k == "call" and x.a[0] == SEARCH for x in i.events):
                    return "stops at a lane that is not the end"
                raise Unknown("the sequences behind a lane are used in some other way")
            call = sub[0].over
            if call[3:5] != (nxt, end) or call[6] != limit:
                return "searches on with %s" % show(call)[:300]
            if call[7] != add(length, E.getter(LEN, nxt)):
                return "counts the length as %s" % show(call[7])[:300]
            V = call[5]
            if V == visited or not any(e.k in ("mut", "insert_noop") and e.a[0] == V and nxt in (e.a[2] if e.k == "mut" else e.a[1:]) for e in i.events):
                return "does not mark the lane as on the way"
            for j in its(sub[0]):
                s = el_of(sub[0])
                front = [e for e in j.events if e.k == "mut" and e.a[0] == s and e.a[1] == "seq_insert" and e.a[2][0] == ("it", s, "b") and e.a[2][1] == start]
                put = [e for e in j.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS and e.a[2][-1] == s]
                if not front or not put:
                    if any(e.k == "mut" and e.a[0][0] == "loc" and e.a[0] != R for e in j.events):
                        raise Unknown("sequences are put together in some other way")
                    return "does not put the lane in front of each sequence behind it" if put else "loses a sequence behind a lane"
    if seen != {"visited", "end", "on"}:
        return "never handles %s" % sorted({"visited", "end", "on"} - seen)
    return None


# ------------------------------------------------------------------------------------------------ U-turns
def uturns(S):
    F = S.F
    fn = F.fn(FIND, 4)
    args = tuple(P(fn, i) for i in range(3))
    flag = P(fn, 3)
    present = bool(F.fns_of(UTURN))
    E = S.engine(opaque=BASE + (FIND, UTURN))
    src = ("c", FIND, None) + args

    def result(p):
        c = S.ctx(p)
        f = decided(c, Is(flag))
        if not any(e.k == "call" and e.a[0] == FIND and e.a[2] == args for e in deep(p.trace)) and src != bare(p.val):
            raise Unknown("the search is done in some other way")
        if f is not True and bare(p.val) == src:
            return "keeps U-turns" if f is None else None
        if f is False:
            raise Unknown("returns %s" % show(p.val)[:200])
        if bare(p.val) == src:
            return "keeps U-turns"
        if not present:
            raise Unknown("U-turns are found in some other way")
        return without(p, p.val, src)

    def without(p, R, src):
        for e in deep(p.trace):
            if e.k == "mut" and e.a[0] == R and e.a[1] == "erase":
                a = e.a[2]
                if len(a) == 2 and a[0][0] == "algo" and a[0][1] == "remove_if" and a[1] == ("end", R) and a[0][2:4] == (("it", R, "b"), ("end", R)):
                    if a[0][4][0] == "fnref" and a[0][4][1] == UTURN:
                        return None
                raise Unknown("sequences are removed in some other way")
        ls = [e.a[0] for e in p.events("loop", True) if any(insertions(i.events, R) for i in e.a[0].iters)]
        if len(ls) != 1:
            raise Unknown("sequences are kept in some other way")
        l = ls[0]
        if l.over != src or not (l.full and l.complete):
            return "does not look at every sequence"
        el = el_of(l)
        for i in its(l):
            ins = insertions(i.events, R)
            v = [val for k, val in i.facts.items() if k[0] == "t" and (
                k[1][0] == "c" and k[1][1] == UTURN and k[1][3] == el or
                k[1][0] == "ic" and k[1][1][:2] == ("fnref", UTURN) and k[1][2] == el)]
            if not v:
                raise Unknown("whether a sequence has a U-turn is not visible")
            if ins and ins[0][-1] != el:
                return "keeps %s" % show(ins[0][-1])
            if bool(ins) is v[0]:
                return "%s a sequence with%s U-turn" % ("keeps" if ins else "drops", "" if v[0] else "out")
        return None
    S.each_path("FindLaneSequences: without U-turns on request only", fn, result, E=E)
    name = "U-turn: leaves a lane at the end it was entered by"
    fn = helper(S, UTURN, name)
    if fn is not None and F.fns_of(CONN):
        seq = P(fn, 0)
        E = S.engine(opaque=BASE + (OB, CONN))
        at = lambda i: ("at", seq, i)
        conn = lambda i: ("c", CONN, None, at(i), at(add(i, num(1))))

        def turn(p):
            c = S.ctx(p)
            short = decided(c, Lt(("size", seq), num(3), ints=True))
            if short is True:
                return None if p.val == ("b", False) else "reports a U-turn among at most two lanes"
            if short is None:
                return "does not ask for the number of lanes"
            ls = [e.a[0] for e in p.events("loop", True)]
            if len(ls) != 1:
                raise Unknown("the lanes are visited by %d loops" % len(ls))
            l = ls[0]
            last = add(("size", seq), num(1), -1)
            if l.over == ("range", num(1), last):
                prev = lambda i: (conn(add(i, num(1), -1)), conn(i))
            elif l.over == ("range", num(0), add(last, num(1), -1)):
                prev = lambda i: (conn(i), conn(add(i, num(1))))
            elif l.over[0] == "range":
                return "looks at the lanes %s only" % show(l.over)
            else:
                raise Unknown("the lanes are visited in some other way")
            cur, nxt = prev(l.el)
            for i in l.iters:
                k = [x for x in i.facts if x[0] == "eq" and find_terms(x, lambda t: t[0] == "f" and t[2].endswith("LaneEnd::end"))]
                if len(k) != 1:
                    raise Unknown("what is compared is not visible")
                parts = {x for x in find_terms(k[0], lambda t: t[0] == "f" and t[2].endswith("LaneEnd::end"))}
                fld = lambda t: (t[1][2].rpartition("::")[2], t[1][1]) if t[1][0] == "f" else (None, None)
                got = dict(fld(t) for t in parts)
                if set(got) != {"incoming", "ongoing"}:
                    return "compares %s" % show_facts(i.facts)[:300]
                if got["incoming"] != nxt:
                    return "compares the way out of %s" % show(got["incoming"])[:300]
                o = got["ongoing"]
                if o != cur:
                    if o[0] != "hv":
                        return "compares the way into %s" % show(o)[:300]
                    ch = i.changed or {}
                    if i.sig in (None, "cont") and nxt not in ch.values():
                        return "does not move on to the next connection"
                if i.facts[k[0]] is not (i.sig not in (None, "cont")):
                    return "goes on after a U-turn" if i.sig in (None, "cont") else "takes going straight for a U-turn"
            if p.val == ("b", True):
                return "reports a U-turn that is not there" if l.complete else None
            return None if l.complete and p.val == ("b", False) else "misses a U-turn"
        S.each_path(name, fn, turn, E=E)
    name = "Connection: the end at which the next lane goes on, and that lane end"
    fn = helper(S, CONN, name)
    if fn is not None:
        a, b = P(fn, 0), P(fn, 1)
        E = S.engine(opaque=BASE + (OB,))
        st, fi = has_lane(S, a, "kStart", b), has_lane(S, a, "kFinish", b)

        def is_conn(w):
            def f(v, c):
                d = agg(v)
                if not d:
                    raise Unknown("returns %s" % show(v)[:200])
                inc, on = d.get("incoming"), d.get("ongoing")
                s = ("c", OB, a, END(w))
                return inc is not None and inc[-2:] == (a, END(w)) and on is not None and s in set(find_terms(on, lambda t: t == s))
            return f
        S.returns(name, fn, [(st, is_conn("kStart")), (And(Not(st), fi), is_conn("kFinish"))], E=E, throws=Or(Null(a), Null(b), Not(Or(st, fi))))


# ------------------------------------------------------------------------------------------------ s-routes
def routes(S):
    F = S.F
    fn = F.fn(B + "DeriveLaneSRoutes", 3)
    a, b, limit = (P(fn, i) for i in range(3))
    E = S.engine(opaque=BASE + (FIND, EDGE_S))
    lane = lambda p: ("f", p, A + "RoadPosition::lane")
    s = lambda p: E.getter(A + "LanePosition::s", ("f", p, A + "RoadPosition::pos"))
    src = ("c", FIND, None, lane(a), lane(b), limit)

    def pre(p):
        c = S.ctx(p)
        return None if decided(c, Null(lane(a))) is False and decided(c, Null(lane(b))) is False else "accepts a position without a lane"
    S.each_path("DeriveLaneSRoutes: rejects positions without a lane", fn, pre, E=E)

    def rng(t):
        """lane id, s0, s1 of a range however it is stored"""
        k = [x for x in find_terms(t, lambda t: t[0] == "k" and t[1] == A + "SRange")]
        if len(k) != 1 or len(k[0]) != 5:
            raise Unknown("range %s" % show(t)[:200])
        return k[0][3], k[0][4]

    def ids(t):
        return {x[2] for x in find_terms(t, lambda t: t[0] == "c" and t[1] == LID)} | {
            x[2] for x in find_terms(t, lambda t: t == E.getter(LID, t[2] if len(t) > 2 and isinstance(t[2], tuple) else ("n", 0)))}

    def one(p):
        R = bare(p.val)
        ls = [e.a[0] for e in p.events("loop", True) if e.a[0].over == src or any(insertions(i.events, R) for i in e.a[0].iters)]
        if len(ls) != 1:
            raise Unknown("the routes are built by %d loops" % len(ls))
        l = ls[0]
        if l.over != src:
            if l.over[0] == "c" and l.over[1] == FIND:
                return "looks for sequences with %s" % show(l.over)[:300]
            raise Unknown("routes are built from %s" % show(l.over)[:200])
        if not (l.full and l.complete):
            return "does not build a route for every sequence"
        seq = el_of(l)
        for i in its(l):
            ins = insertions(i.events, R)
            if len(ins) != 1:
                return "builds %d routes for a sequence" % len(ins)
            C = bare(ins[0][-1])
            if C[0] == "k":
                C = bare(C[-1])
            single = decided(Ctx(i.facts, i.events), EqN(("size", seq), num(1)))
            if C[0] == "list":
                if single is not True or len(C) != 2:
                    return "builds %d ranges" % (len(C) - 1)
                if rng(C[1]) != (s(a), s(b)):
                    return "the range on a single lane runs %s" % show(C[1])[:300]
                continue
            if single is not False:
                if single is None:
                    raise Unknown("a single lane is not treated on its own")
                g = insertions(i.events, C)
                if len(g) != 1 or rng(g[0][-1]) != (s(a), s(b)):
                    return "the ranges on a single lane are %s" % [show(x[-1])[:200] for x in g]
                continue
            ms = [e.a[0] for e in i.events if e.k == "loop" and any(insertions(j.events, C) for j in e.a[0].iters)]
            if len(ms) != 1:
                raise Unknown("the ranges are built by %d loops" % len(ms))
            m = ms[0]
            if m.over not in (seq, ("range", num(0), ("size", seq))):
                over_indices([e for e in i.events if e.k == "loop"], ("size", seq), "the lanes")
                raise Unknown("the lanes are visited in some other way")
            if not (m.full and m.complete):
                return "does not build a range for every lane"
            cases = set()
            for j in its(m):
                g = insertions(j.events, C)
                if len(g) != 1:
                    return "builds %d ranges for a lane" % len(g)
                ix = m.pos if m.pos[0] == "ix" else None
                ixs = {t for k in j.facts for t in find_terms(k, lambda t: t[0] == "ix" and t[-1] == m.pos[-1])}
                ix = ix or (ixs.pop() if len(ixs) == 1 else None)
                if ix is None:
                    raise Unknown("lanes are visited without an index")
                c = Ctx(j.facts, j.events)
                first, last = decided(c, EqN(ix, num(0))), decided(c, EqN(add(ix, num(1)), ("size", seq)))
                if first is None or last is None and not first:
                    raise Unknown("whether a lane is the first or last one is not visible")
                last = bool(last) and not first
                cases.add((first, last))
                here = (("at", seq, ix), ("el", seq, ix[-1]))
                if not ids(g[0][-1] if len(g[0]) == 1 else ("list",) + g[0]) & set(here):
                    return "the range is not on its lane: %s" % show(g[0][-1])[:300]
                s0, s1 = rng(("list",) + g[0])
                for v, given, ends, off, what in ((s0, s(a), first, -1, "starts"), (s1, s(b), last, 1, "ends")):
                    if ends:
                        if v != given:
                            return "the route %s at %s" % (what, show(v)[:200])
                        continue
                    near = {("at", seq, add(ix, num(off)))}
                    if first and off == 1:
                        near.add(("at", seq, num(1)))
                    if not (v[0] == "c" and v[1] == EDGE_S and v[3] in here and v[4] in near):
                        if v[0] == "c" and v[1] == EDGE_S or v[0] == "n" or v in (s(a), s(b)):
                            return "a range %s at %s" % (what, show(v)[:300])
                        raise Unknown("a range %s at %s" % (what, show(v)[:200]))
            if len(cases) < 3:
                return "treats only %d kinds of lanes" % len(cases)
        return None
    S.each_path("DeriveLaneSRoutes: one continuous route per sequence, from start to end", fn, one, E=E)
