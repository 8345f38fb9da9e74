"""P06: branch points record lane ends on both sides consistently."""
from rules.common import *

FLOOR = 25
EXPLANATION = ("Every path of AddABranch/AddBBranch/SetDefault and of the branch queries of BranchPoint, Lane and LaneEndSet is "
               "enumerated: a lane end is accepted only once, is appended to its own side, has that side as confluent and the "
               "other side as ongoing branches, and the lane learns this branch point for that very end; a default must be an "
               "ongoing branch; queries read exactly those records.")
ASSUMPTIONS = ["std::vector/std::map behave as specified", "a lane end with a branch point is in that branch point's records"]
G = "maliput::geometry_base::"
A = "maliput::api::"
START, FINISH = ("enum", A + "LaneEnd::Which::kStart"), ("enum", A + "LaneEnd::Which::kFinish")


def lane_end(t):
    """(lane, end) of a constructed LaneEnd term."""
    if t[0] == "k" and t[1] == A + "LaneEnd" and len(t) == 5:
        return t[3], t[4]
    if t[0] == "agg" and t[1] == A + "LaneEnd" and len(t[2]) == 2:
        d = {f.rpartition("::")[2]: v for f, v in t[2]}
        return d.get("lane"), d.get("end")
    return None


def which(c, end):
    """kStart / kFinish as established by the path."""
    for e in (START, FINISH):
        if holds(c, Eq(end, e)) is True:
            return e
    return None


def run(ck):
    F = ck.F
    ck.rule("R1", "a lane end is accepted exactly when its lane is given and the end is not registered yet")
    ck.rule("R2", "accepting records the end on its side, the confluent and ongoing sets, and the lane's own link")
    ck.rule("R3", "queries read those records; defaults lead to an ongoing branch")
    S = Spec(ck)
    g = S.E.getter
    q = G + "BranchPoint::"

    sides = {"A": g(q + "DoGetASide", THIS), "B": g(q + "DoGetBSide", THIS)}
    ck.ob("the two sides are distinct sets", len(set(sides.values())) == 2, "", str([show(s) for s in sides.values()]))
    conf = S.registry_of(F.fn(q + "DoGetConfluentBranches", 1))
    ong = S.registry_of(F.fn(q + "DoGetOngoingBranches", 1))
    dfl = S.registry_of(F.fn(q + "DoGetDefaultBranch", 1))
    ck.ob("confluent, ongoing and default queries read one record each",
          len(conf) == len(ong) == len(dfl) == 1 and len({conf[0], ong[0], dfl[0]}) == 3, where(F.fn(q + "DoGetConfluentBranches", 1)))
    if not (len(conf) == len(ong) == len(dfl) == 1):
        S.done()
        return
    conf, ong, dfl = conf[0], ong[0], dfl[0]
    lookup(S, "BranchPoint.GetConfluentBranches", F.fn(q + "DoGetConfluentBranches", 1), conf, "std::out_of_range")
    lookup(S, "BranchPoint.GetOngoingBranches", F.fn(q + "DoGetOngoingBranches", 1), ong, "std::out_of_range")
    lookup(S, "BranchPoint.GetDefaultBranch", F.fn(q + "DoGetDefaultBranch", 1), dfl, "null")

    # LaneEndSet
    gt = F.fn(G + "LaneEndSet::do_get", 1)
    ends = None
    for p in S.run(F.fn(G + "LaneEndSet::do_size", 0)) or []:
        if p.val and p.val[0] == "size":
            ends = p.val[1]
    ck.ob("LaneEndSet.size counts a container", ends is not None, where(gt))
    if ends is not None:
        i = P(gt, 0)
        S.each_path("LaneEndSet.get: yields the entry at that position", gt,
                    lambda p: None if p.val in (("at", ends, i), ("addr", ("at", ends, i))) else "returns %s" % show(p.val))
        S.throws_iff("LaneEndSet.get: rejects positions out of range", gt, Ge(i, ("size", ends), True), may=Lt(i, num(0), True))
        fn = F.fn(G + "LaneEndSet::Add", 1)
        le = P(fn, 0)
        S.throws_iff("LaneEndSet.Add: rejects ends without a lane", fn, Null(("f", le, A + "LaneEnd::lane")))
        S.each_path("LaneEndSet.Add: appends the end", fn, lambda p: None if [
            (e.a[1], e.a[2]) for e in p.events("mut") if e.a[0] == ends] == [("push_back", (le,))] else "does not append it once")

    # AddABranch / AddBBranch
    for side, other in (("A", "B"), ("B", "A")):
        fn = F.fn(q + "Add%sBranch" % side, 2)
        lane, end = P(fn, 0), P(fn, 1)
        name = "BranchPoint.Add%sBranch" % side
        own, oth = sides[side], sides[other]
        bp = {START: g(G + "Lane::mutable_start_branch_point", lane), FINISH: g(G + "Lane::mutable_finish_branch_point", lane)}

        def is_le(t, lane=lane, end=end):
            r = lane_end(t)
            return r is not None and r[0] == lane and (r[1] == end or r[1] in (START, FINISH))

        def hasle(m):
            def f(c):
                r = None
                for a, v in c.facts.items():
                    if a[0] == "has" and a[1] == m and is_le(a[2]):
                        r = v
                return r
            return Fn(f, "the end is registered in %s" % show(m))

        def linked(c, end=end, bp=bp):
            w = which(c, end)
            return None if w is None else holds(c, NotNull(bp[w]))
        S.throws_iff(name + ": rejects a missing lane and an end already registered", fn,
                     Or(Null(lane), Fn(lambda c, h=(hasle(conf), hasle(ong)): same([holds(c, x) for x in h]), "end registered")),
                     may=Fn(linked, "the lane end has a branch point"))

        def add(p, lane=lane, end=end, own=own, oth=oth, bp=bp, is_le=is_le):
            want = {"side": 0, "conf": 0, "ong": 0, "link": 0}
            w = which(S.ctx(p), end)
            if w is None:
                return "does not distinguish the two lane ends"
            es = subst(ends, {THIS: own})
            for e, t, op, a in muts(p):
                if t == es and op == "push_back" and is_le(a[0]):
                    want["side"] += 1
                elif t == conf and op in ("set", "insert") and is_le(a[0]) and a[1] in (own, ("addr", own)):
                    want["conf"] += 1
                elif t == ong and op in ("set", "insert") and is_le(a[0]) and a[1] in (oth, ("addr", oth)):
                    want["ong"] += 1
                elif op == "write" and t == bp[w] and a == (THIS,):
                    want["link"] += 1
                elif not mentions(t, THIS) and not mentions(t, lane):
                    continue
                else:
                    return "unexpected change of %s by %s(%s)" % (show(t), op, ", ".join(map(show, a)))
            miss = [k for k, v in want.items() if v != 1]
            return "does not record exactly once: %s" % miss if miss else None
        S.each_path(name + ": records the end on this side, both branch sets and the lane", fn, add, need=2)

    # SetDefault
    fn = F.fn(q + "SetDefault", 2)
    le, d = P(fn, 0), P(fn, 1)
    S.throws_iff("BranchPoint.SetDefault: only an ongoing branch of a registered end", fn,
                 Or(Not(Has(ong, le)), Not(Has(conf, d)), Not(Eq(("at", conf, d), ("at", ong, le)))))
    S.each_path("BranchPoint.SetDefault: records the default for that end only", fn, lambda p: None if [
        (t, op in ("set", "insert"), a) for e, t, op, a in muts(p)] == [(dfl, True, (le, d))] else "records something else")

    # Lane queries
    L = G + "Lane::"
    gbp = F.fn(L + "DoGetBranchPoint", 1)
    links = {START: g(L + "mutable_start_branch_point", THIS), FINISH: g(L + "mutable_finish_branch_point", THIS)}

    def by_end(p, fn=gbp):
        w = which(S.ctx(p), P(fn, 0))
        return None if w and p.val == links[w] else "returns %s for %s" % (show(p.val), show(w) if w else "an undetermined end")
    S.each_path("Lane.GetBranchPoint: the branch point of that end", gbp, by_end, need=2)
    for n, bpn in (("DoGetConfluentBranches", "GetConfluentBranches"), ("DoGetOngoingBranches", "GetOngoingBranches"),
                   ("DoGetDefaultBranch", "GetDefaultBranch")):
        fn = F.fn(L + n, 1)
        end = P(fn, 0)

        def fwd(p, end=end, n=n):
            v = p.val
            w = which(S.ctx(p), end)
            if not (v[0] == "c" and v[1] == A + "BranchPoint::" + n and len(v) == 4 and w):
                return "returns %s" % show(v)
            r = lane_end(v[3])
            if v[2] != links[w] or r is None or r[0] != THIS or r[1] not in (end, w):
                return "asks %s" % show(v)
            return None
        S.each_path("Lane.%s: asks the branch point of that end about that end" % bpn, fn, fwd, need=2)
    for n in ("SetStartBranchPoint", "SetFinishBranchPoint"):
        fn = F.fn(L + n, 2)
        fld = links[START if "Start" in n else FINISH]
        S.throws_iff("Lane.%s: rejects null and a second branch point" % n, fn, Or(Null(P(fn, 1)), NotNull(fld)))
        S.each_path("Lane.%s: records it for that end" % n, fn,
                    lambda p, fld=fld, fn=fn: None if performs(p, fld, "write", (P(fn, 1),)) else "not recorded")

    # ordering of lane ends: both components decide
    fn = F.fn(A + "LaneEnd::StrictOrder::operator()", 2)
    comp = [(A + "LaneEnd::lane"), (A + "LaneEnd::end")]
    for p in (S.run(fn) or [])[:1]:
        used = {f for a in p.facts for f in comp for x in (0, 1) if mentions(a, ("f", P(fn, x), f))}
        ck.ob("LaneEnd ordering distinguishes lane and end", used == set(comp), where(fn), str(used))
    S.done()


def same(vs):
    """Both records have the same keys: either one decides."""
    return True if True in vs else False if False in vs else None
