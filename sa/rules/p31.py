"""P31: original-format road rulebooks become the rules they describe, made of the standard rule types."""
import facts
from engine import Engine
from rules.common import *
from rules.p26 import Y, Def, Kind, norm, as_, id_, STR, pushes, root_of, at_root, Docs, calls, expect, outside, OPAQUE as OPAQUE26

FLOOR = 30
EXPLANATION = ("Every path of the original road rulebook loader, of its building steps (each analysed with the other steps kept as symbols) and of "
               "the functions that make the standard rule types is enumerated. A document is rejected exactly when it lacks a required field, "
               "has one of the wrong kind, names an unknown lane, state, zone type or leaves a lane; each right-of-way rule is added three "
               "times (as such, as a vehicle-stop rule and as a right-of-way discrete rule, linked to one another), each direction usage rule once; "
               "each standard type has its documented states with every severity.")
ASSUMPTIONS = ["yaml-cpp and std containers behave as documented", "a rejected YAML conversion throws (yaml-cpp contract)"]
OPAQUE = OPAQUE26
A, R = "maliput::api::", "maliput::api::rules::"
FILE = "base/road_rulebook_loader.cc"
STEPS = ("ObtainSRange", "BuildLaneSRange", "BuildLaneSRoute", "BuildRightOfWayStates", "BuildRightOfWayZoneType", "BuildRelatedBulbGroups",
         "BuildRightOfWayRule", "GetRuleIdFrom", "BuildVehicleStopInZoneBehaviourDiscreteValueRule", "BuildRightOfWayTypeDiscreteValueRule",
         "BuildDirectionUsageStates", "BuildDirectionUsageRule")
ROW, ZONE, DIR = "Right-Of-Way Rule Type", "Vehicle-Stop-In-Zone-Behavior Rule Type", "Direction-Usage Rule Type"


def text(t):
    """The characters of a string constant."""
    if t and t[0] == "str":
        t = t[1]
    return t[1] if t and t[0] == "s" else None


def unw(t):
    """Copies made with braces and single wrappers removed."""
    while t and t[0] == "agg" and len(t[2]) == 1:
        t = t[2][0][1]
    return t


def deep_unw(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(deep_unw(x) for x in t)
    return unw(t) if t and t[0] == "agg" else t


def step(t, name):
    """Arguments of a call of a building step, or None."""
    return t[3:] if t and t[0] == "c" and t[1].rpartition("::")[2] == name and "(anon)" in t[1] else None


def type_id(t):
    n = norm(t)
    return text(n[1]) if n and n[0] == "id" else None


def loops_in(evs):
    return [e.a[0] for e in evs if e.k == "loop"]


def whole_loop(evs, over):
    ls = [l for l in loops_in(evs) if l.over == over]
    if len(ls) != 1:
        raise Unknown("%d loops over %s" % (len(ls), show(over)[-60:]))
    if not (ls[0].full and ls[0].complete):
        raise Bad("leaves the loop over %s early" % show(over)[-60:])
    return ls[0]


def normal(l):
    return [i for i in l.iters if i.sig in (None, "cont")]


def run(ck):
    ck.rule("R1", "a node is rejected exactly when a required field is missing, of the wrong kind, unknown, or leaves its lane")
    ck.rule("R2", "every node becomes the rules it describes, in both rule kinds, linked to one another")
    ck.rule("R3", "the standard rule types have their documented identifiers and states, each with every severity")
    F = ck.F
    S = Spec(ck, opaque=OPAQUE)
    steps = {}
    for q, fs in F.by_q.items():
        if "(anon)" in q and q.rpartition("::")[2] in STEPS:
            for f in fs:
                if facts.rel(f["file"]).endswith(FILE):
                    steps[q.rpartition("::")[2]] = f
    allq = {f["q"] for f in steps.values()}
    memo = {}

    def engine(name):
        """An engine that keeps the other steps as symbols."""
        if name not in memo:
            memo[name] = Engine(F, opaque=(set(OPAQUE) | allq) - ({steps[name]["q"]} if name in steps else set()))
        return memo[name]

    def have(*names):
        for n in names:
            if n not in steps:
                ck.undecided("%s" % n, "", "no such step")
                return False
        return True

    lane_range(S, steps, have, engine)
    right_of_way(S, steps, have, engine)
    discrete(S, steps, have, engine)
    direction(S, steps, have, engine)
    book(S, steps, have, engine("book"))
    standard(S)
    S.done()


# ----------------------------------------------------------------------------------------------------------------- zones
def lane_range(S, steps, have, engine):
    if have("ObtainSRange"):
        fn = steps["ObtainSRange"]
        ln, n = P(fn, 0), P(fn, 1)
        node = Y(n, "SRange")
        length = ("c", A + "Lane::length", ln)
        g = as_(node, A + "SRange")
        s0, s1 = [x[1] if x[0] == "addr" else x for x in (S.E.getter(A + "SRange::" + m, g) for m in ("s0", "s1"))]
        bad = And(Def(node), Or(Lt(s0, num(0)), Gt(s0, length), Gt(s1, length)))
        S.throws_iff("zone range: a given range that leaves its lane is rejected", fn, bad, E=engine("ObtainSRange"),
                     may=And(Def(node), Lt(s1, num(0))))

        def value(p):
            d = decided(S.ctx(p), Def(node))
            if d is None:
                return "presence of the range is not looked at"
            v = norm(p.val)
            if d:
                return None if v == g or v == ("K", A + "SRange", norm(s0), norm(s1)) else "not the given range: %s" % show(p.val)
            return None if v == ("K", A + "SRange", num(0), norm(length)) else "not the whole lane: %s" % show(p.val)
        S.each_path("zone range: the given one, else the whole lane", fn, value, E=engine("ObtainSRange"))
    if have("BuildLaneSRange", "ObtainSRange"):
        fn = steps["BuildLaneSRange"]
        rg, n = P(fn, 0), P(fn, 1)
        E = engine("BuildLaneSRange")
        lid = id_(Y(n, "Lane"))

        def lanes(ctx):
            return {x for k in ctx.facts for x in find_terms(k, lambda z: z[0] == "c" and z[1].endswith(("GetLane", "DoGetLane")) and len(z) > 3 and norm(z[3]) == lid)}
        unknown = Fn(lambda c: next((v for k, v in c.facts.items() if k[0] == "null" and k[1] in lanes(c)), None), "the lane is unknown")
        S.throws_iff("lane range: unless it names a known lane, it is rejected", fn, Or(Not(Kind(n, "IsMap")), Not(Def(Y(n, "Lane"))), unknown), E=E)

        def built(p):
            v = p.val
            if not (v and v[0] == "k" and v[1] == A + "LaneSRange" and len(v) == 5):
                raise Unknown("returns %s" % show(v)[:120])
            if norm(v[3]) != lid:
                return "its lane is %s" % show(v[3])[:120]
            a = step(v[4], "ObtainSRange")
            if a is None:
                raise Unknown("the range is read in some other way")
            ctx = S.ctx(p)
            return None if a[0] in lanes(ctx) and a[1] == n else "the range is that of %s" % show(a[0])[:120]
        S.each_path("lane range: the lane and range of the node", fn, built, E=E)
    if have("BuildLaneSRoute", "BuildLaneSRange"):
        fn = steps["BuildLaneSRoute"]
        rg, n = P(fn, 0), P(fn, 1)
        E = engine("BuildLaneSRoute")
        S.throws_iff("zone: anything but a sequence is rejected", fn, Not(Kind(n, "IsSequence")), E=E, may=Fn(
            lambda c: any(e.k == "loop" and any(i.sig == "throw" for i in e.a[0].iters) for e in c.events) or None, "a node is rejected"))

        def route(p):
            l = whole_loop(p.trace, n)
            v = p.val
            if not (v and v[0] == "k" and v[1] == A + "LaneSRoute" and len(v) == 4):
                raise Unknown("returns %s" % show(v)[:120])
            for i in normal(l):
                ps = pushes(i.events)
                if [(e.a[0], tuple(step(x, "BuildLaneSRange") or (x,) for x in e.a[2])) for e in ps] != [(v[3], ((rg, l.el),))]:
                    return "a node becomes %s" % [show(x)[:80] for e in ps for x in e.a[2]]
            return None
        S.each_path("zone: every node, in order", fn, route, E=E)


# ----------------------------------------------------------------------------------------------------- right of way rules
KEYS = (("Go", "kGo"), ("Stop", "kStop"), ("StopThenGo", "kStopThenGo"))


def right_of_way(S, steps, have, engine):
    if have("BuildRightOfWayStates"):
        fn = steps["BuildRightOfWayStates"]
        n = P(fn, 0)
        E = engine("BuildRightOfWayStates")
        name = "right-of-way states: one per known key of the node, nothing else"
        det, odd = [], None
        try:
            for p in E.paths(fn):
                ctx = S.ctx(p)
                if decided(ctx, Kind(n, "IsMap")) is not True:
                    if p.sig == "ret" or decided(ctx, Kind(n, "IsMap")) is None:
                        det.append("a node that is no map is not rejected first")
                    continue
                flags = [decided(ctx, Def(Y(n, k))) for k, _ in KEYS]
                if None in flags:
                    raise Unknown("keys are looked at in some other way")
                got = []
                for e in p.trace:
                    for x in (e.a[2] if e.k == "mut" and e.a[1] in ("push_back", "append") else ()):
                        if isinstance(x, tuple) and x[0] == "k" and x[1] == R + "RightOfWayRule::State":
                            got.append((e.a[0], x))
                want = [(k, en) for (k, en), f in zip(KEYS, flags) if f]
                words = []
                for _, x in got:
                    if len(x) != 6:
                        raise Unknown("a state is built with %d values" % (len(x) - 3))
                    i = norm(x[3])
                    w = text(i[1]) if i[0] == "id" else None
                    t = x[4][1].rpartition("::")[2] if x[4][0] == "enum" else None
                    words.append((w, t))
                    if norm(x[5])[0] != "yas" or norm(x[5])[1] != Y(n, w or ""):
                        det.append("state %s yields to %s" % (w, show(x[5])[:100]))
                if sorted(words) != sorted(want):
                    det.append("keys %s give states %s" % ([k for k, _ in want], words))
                v = p.val
                if p.sig == "ret" and any(t != v for t, _ in got):
                    det.append("returns %s" % show(v)[:80])
                cands = [num(len(want))] + sorted({t for k in p.facts for t in find_terms(k, lambda t: t[0] == "size" and t[1][0] == "loc")}, key=repr)
                sz = next((d for d in (decided(ctx, EqN(("size", n), c)) for c in cands) if d is not None), None)
                if sz is None and not want:
                    sz = decided(ctx, Empty(n))
                if sz is None:
                    if p.sig == "ret" and not any(l.over == n for l in loops_in(p.trace)) and not any(
                            k[0] in ("eq", "eqn") and find_terms(k, lambda t: t == ("size", n)) for k in p.facts):
                        det.append("accepts a node with unknown states")
                        continue
                    odd = "states are counted in some other way"
                    continue
                if (p.sig == "ret") != sz:
                    det.append("%s a node with %s states" % ("accepts" if p.sig == "ret" else "rejects", "only known" if sz else "unknown"))
            if odd and not det:
                raise Unknown(odd)
            S.ck.ob(name, not det, where(fn), "; ".join(sorted(set(det))[:2]))
        except Unknown as u:
            S.ck.undecided(name, where(fn), str(u))
    if have("BuildRightOfWayZoneType"):
        fn = steps["BuildRightOfWayZoneType"]
        z = Y(P(fn, 0), "ZoneType")
        E = engine("BuildRightOfWayZoneType")
        w = as_(z, STR)

        def word(t):
            return Fn(lambda c: next((v for k, v in c.facts.items() if k[0] == "eq" and any(text(x) == t for x in k[1:]) and any(norm(x) == w for x in k[1:])), None), t)
        S.throws_iff("zone type: an unknown word is rejected", fn, And(Def(z), Not(word("StopExcluded")), Not(word("StopAllowed"))), E=E)

        def ztype(p):
            c = S.ctx(p)
            d = decided(c, Def(z))
            allowed = decided(c, word("StopAllowed")) if d else False
            if d and allowed is None:
                allowed = False if decided(c, word("StopExcluded")) else None
            if d is None or allowed is None:
                return "the word is not looked at"
            want = ("enum", R + "RightOfWayRule::ZoneType::" + ("kStopAllowed" if allowed else "kStopExcluded"))
            return None if p.val == want else "%s is %s" % ("StopAllowed" if allowed else "StopExcluded", show(p.val))
        S.each_path("zone type: the one of that name, else stops are excluded", fn, ztype, E=E)
    if have("BuildRelatedBulbGroups"):
        fn = steps["BuildRelatedBulbGroups"]
        node = Y(P(fn, 0), "RelatedBulbGroups")
        E = engine("BuildRelatedBulbGroups")
        S.throws_iff("related bulb groups: anything but a map of distinct traffic lights is rejected", fn, And(Def(node), Not(Kind(node, "IsMap"))), E=E,
                     may=Fn(lambda c: any(k[0] == "has" and v and find_terms(k, lambda t: t[0] == "key" and t[1][0] == "el" and t[1][1] == node)
                                          for k, v in c.facts.items()) or None, "a traffic light repeats"))

        def groups(p):
            d = decided(S.ctx(p), Def(node))
            if d is None:
                return "presence is not looked at"
            if not d:
                return None if not loops_in(p.trace) and not pushes(p.trace) else "builds groups out of nothing"
            l = whole_loop(p.trace, node)
            for i in normal(l):
                ins = [e for e in i.events if e.k == "mut" and e.a[1] in ("insert", "set")]
                if len(ins) != 1 or ins[0].a[0] != p.val:
                    return "a traffic light is added %d times" % len(ins)
                key, val = ins[0].a[2][:2]
                if norm(key) != id_(("key", l.el)):
                    return "its traffic light is %s" % show(key)[:80]
                m = whole_loop(i.events, ("val", l.el))
                for j in normal(m):
                    got = [(e.a[0], norm(x)) for e in pushes(j.events) for x in e.a[2]]
                    if got not in ([(val, as_(m.el, STR))], [(val, id_(m.el))]):
                        return "a bulb group becomes %s" % [show(x)[:80] for _, x in got]
            return None
        S.each_path("related bulb groups: every group of every traffic light", fn, groups, E=E)
    if have("BuildRightOfWayRule", "BuildRightOfWayStates", "BuildLaneSRoute", "BuildRightOfWayZoneType", "BuildRelatedBulbGroups"):
        fn = steps["BuildRightOfWayRule"]
        rg, n = P(fn, 0), P(fn, 1)
        E = engine("BuildRightOfWayRule")
        S.throws_iff("right-of-way rule: a node without id, states or zone is rejected", fn,
                     Or(Not(Kind(n, "IsMap")), *[Not(Def(Y(n, k))) for k in ("ID", "States", "Zone")]), E=E)

        def rule(p):
            v = p.val
            if not (v and v[0] == "k" and v[1] == R + "RightOfWayRule" and len(v) == 8):
                raise Unknown("returns %s" % show(v)[:120])
            def by(name, *args):
                return lambda t: None if step(t, name) == args else "it is %s" % show(t)[:120]
            return expect(v[3:], (id_(Y(n, "ID")), by("BuildLaneSRoute", rg, Y(n, "Zone")), by("BuildRightOfWayZoneType", n),
                                  by("BuildRightOfWayStates", Y(n, "States")), by("BuildRelatedBulbGroups", n)),
                          ("id", "zone", "zone type", "states", "bulb groups"))
        S.each_path("right-of-way rule: built from its own fields", fn, rule, E=E)


# ----------------------------------------------------------------------------------------------------- as discrete values
def discrete(S, steps, have, engine):
    row = lambda x, f: S.E.getter(R + "RightOfWayRule::" + f, x)
    plain = lambda t: t[1] if t and t[0] == "addr" else t
    if have("GetRuleIdFrom"):
        fn = steps["GetRuleIdFrom"]
        E = engine("GetRuleIdFrom")
        s = lambda k: ("c", A + "TypeSpecificIdentifier::string", P(fn, k))
        S.each_path("rule ids: the type and the id, told apart by a slash", fn, lambda p: None if norm(p.val) == (
            "id", ("cat", ("cat", s(0), ("s", "/")), s(1))) else "the id is %s" % show(p.val)[:160], E=E)

    def rid(t, word, of):
        a = step(t, "GetRuleIdFrom")
        if a is None:
            raise Unknown("ids are made in some other way")
        return type_id(a[0]) == word and deep_unw(a[1]) == deep_unw(of)

    if have("BuildVehicleStopInZoneBehaviourDiscreteValueRule", "GetRuleIdFrom"):
        fn = steps["BuildVehicleStopInZoneBehaviourDiscreteValueRule"]
        E = engine("BuildVehicleStopInZoneBehaviourDiscreteValueRule")
        r = P(fn, 0)
        zt = plain(row(r, "zone_type"))
        S.ck.ob("vehicle-stop rule: every rule has one", all(p.sig == "ret" for p in E.paths(fn)), where(fn), "some rule is rejected")

        def stop(p):
            v = p.val
            if not (v and v[0] == "k" and v[1] == R + "DiscreteValueRule" and len(v) == 7):
                raise Unknown("returns %s" % show(v)[:120])
            if not rid(v[3], ZONE, plain(row(r, "id"))):
                return "its id is %s" % show(v[3])[:140]
            if type_id(v[4]) != ZONE:
                return "its type is %s" % show(v[4])[:140]
            if v[5] != plain(row(r, "zone")):
                return "its zone is %s" % show(v[5])[:140]
            if v[6][0] != "list" or len(v[6]) != 2:
                raise Unknown("states %s" % show(v[6])[:100])
            x = v[6][1]
            ex = decided(S.ctx(p), Eq(zt, ("enum", R + "RightOfWayRule::ZoneType::kStopExcluded")))
            if ex is None:
                al = decided(S.ctx(p), Eq(zt, ("enum", R + "RightOfWayRule::ZoneType::kStopAllowed")))
                ex = None if al is None else not al
            if ex is None:
                return "the zone type is not looked at"
            got = x[3:] if x[0] == "k" else tuple(a for _, a in x[2])
            if len(got) != 4 or got[0] != num(0) or any(g not in (("list",), ) and g[0] != "k" for g in got[1:3]):
                return "its state is %s" % show(x)[:160]
            want = "DoNotStop" if ex else "UnconstrainedParking"
            return None if text(got[3]) == want else "its state is %s where stops are %s" % (show(got[3]), "excluded" if ex else "allowed")
        S.each_path("vehicle-stop rule: stopping as the zone type says", fn, stop, E=E)
    if have("BuildRightOfWayTypeDiscreteValueRule", "GetRuleIdFrom"):
        fn = steps["BuildRightOfWayTypeDiscreteValueRule"]
        E = engine("BuildRightOfWayTypeDiscreteValueRule")
        r, zid = P(fn, 0), P(fn, 1)
        states, lights = plain(row(r, "states")), plain(row(r, "related_bulb_groups"))

        def links(p):
            v = p.val
            if not (v and v[0] == "k" and v[1] == R + "DiscreteValueRule" and len(v) == 7):
                raise Unknown("returns %s" % show(v)[:120])
            if not rid(v[3], ROW, plain(row(r, "id"))):
                return "its id is %s" % show(v[3])[:140]
            if type_id(v[4]) != ROW:
                return "its type is %s" % show(v[4])[:140]
            if v[5] != plain(row(r, "zone")):
                return "its zone is %s" % show(v[5])[:140]
            l = whole_loop(p.trace, lights)
            for i in normal(l):
                m = whole_loop(i.events, ("val", l.el))
                for j in normal(m):
                    got = [norm(x) for e in pushes(j.events) for x in e.a[2]]
                    if got != [("K", R + "UniqueBulbGroupId", ("key", l.el), m.el)]:
                        return "a bulb group becomes %s" % [show(x)[:100] for x in got]
            return None
        S.each_path("right-of-way discrete rule: id, type, zone and bulb groups", fn, links, E=E)

        def each_state(p):
            v = p.val
            l = whole_loop(p.trace, states)
            for i in normal(l):
                st = ("val", l.el)
                ps = [e for e in pushes(i.events) if e.a[0] == v[6]]
                if len(ps) != 1:
                    return "a state is added %d times" % len(ps)
                x = ps[0].a[2][0]
                got = x[3:] if x[0] == "k" else tuple(a for _, a in x[2])
                if len(got) != 4:
                    raise Unknown("a state is built with %d values" % len(got))
                if got[0] != num(0):
                    return "its severity is %s" % show(got[0])
                rel = got[1]
                ins = [(e.a[2][0], e.a[2][1]) for e in i.events if e.k == "mut" and e.a[1] in ("insert", "set") and e.a[0] == rel]
                keys = [text(k) for k, _ in ins]
                missing = {ZONE, "Yield Group"} - set(keys)
                if len(missing) == len(keys) == 1 and rel[0] == "loc" and all(any(
                        k[0] == "has" and k[1] == rel and text(k[2]) == w and f for k, f in i.all_facts.items()) for w in missing):
                    continue  # a fresh map cannot hold the key already
                if sorted(map(str, keys)) != sorted([ZONE, "Yield Group"]):
                    if rel[0] == "list":
                        raise Unknown("related rules are listed in some other way")
                    return "its related rules are %s" % keys
                by = dict(zip(keys, [b for _, b in ins]))
                if by[ZONE] != ("list", zid):
                    return "its vehicle-stop rule is %s" % show(by[ZONE])[:100]
                yt = plain(S.E.getter(R + "RightOfWayRule::State::yield_to", st))
                m = whole_loop(i.events, yt)
                for j in normal(m):
                    pj = [x for e in pushes(j.events) if e.a[0] == by["Yield Group"] for x in e.a[2]]
                    if len(pj) != 1 or not rid(pj[0], ROW, m.el):
                        return "yields to %s" % [show(x)[:100] for x in pj]
                if not find_terms(got[2], lambda t: t == ("s", "Bulb Group")) and got[2][0] != "loc":
                    return "its bulb groups are %s" % show(got[2])[:100]
                ty = plain(S.E.getter(R + "RightOfWayRule::State::type", st))
                words = got[3]
                if words[0] == "at" and words[2] == ty:
                    t = [z for z in find_terms(words[1], lambda t: t[0] == "pair")]
                    m2 = {a[1][1].rpartition("::")[2]: text(a[2]) for a in t}
                    if m2 != {en: k for k, en in KEYS}:
                        return "names of states are %s" % m2
                elif text(words) is not None:
                    en = dict(KEYS).get(text(words))
                    d = en and decided(Ctx({**p.facts, **i.all_facts}, i.events, S.F.enums), Eq(ty, ("enum", R + "RightOfWayRule::State::Type::" + en)))
                    if d is not True:
                        return "a state is named %s" % text(words)
                else:
                    raise Unknown("states are named in some other way")
            return None
        S.each_path("right-of-way discrete rule: a strict state per state, linked to its vehicle-stop rule and those it yields to", fn, each_state, E=E)


# -------------------------------------------------------------------------------------------------------- direction usage
def direction(S, steps, have, engine):
    if have("BuildDirectionUsageStates"):
        fn = steps["BuildDirectionUsageStates"]
        n = P(fn, 0)
        E = engine("BuildDirectionUsageStates")
        el = None
        need = ("ID", "Severity", "Type")
        S.throws_iff("direction usage states: anything but a sequence of states is rejected", fn,
                     Or(Not(Kind(n, "IsSequence")), Ex(n, lambda e: Or(*[Not(Def(Y(e, k))) for k in need]))), E=E)

        def states(p):
            l = whole_loop(p.trace, n)
            for i in normal(l):
                ps = pushes(i.events)
                if len(ps) != 1 or ps[0].a[0] != p.val:
                    return "a state is added %d times" % len(ps)
                x = ps[0].a[2][0]
                if x[0] != "k" or len(x) != 6:
                    raise Unknown("built in some other way")
                c = expect(x[3:], (id_(Y(l.el, "ID")), as_(Y(l.el, "Type"), R + "DirectionUsageRule::State::Type"),
                                   as_(Y(l.el, "Severity"), R + "DirectionUsageRule::State::Severity")), ("id", "type", "severity"))
                if c:
                    return c
            return None
        S.each_path("direction usage states: every node, from its own fields", fn, states, E=E)
    if have("BuildDirectionUsageRule", "BuildDirectionUsageStates", "BuildLaneSRange"):
        fn = steps["BuildDirectionUsageRule"]
        rg, n = P(fn, 0), P(fn, 1)
        E = engine("BuildDirectionUsageRule")
        S.throws_iff("direction usage rule: a node without id, states or zone is rejected", fn,
                     Or(Not(Kind(n, "IsMap")), *[Not(Def(Y(n, k))) for k in ("ID", "States", "Zone")]), E=E)

        def rule(p):
            v = p.val
            if not (v and v[0] == "k" and v[1] == R + "DirectionUsageRule" and len(v) == 6):
                raise Unknown("returns %s" % show(v)[:120])
            def by(name, *args):
                return lambda t: None if step(t, name) == args else "it is %s" % show(t)[:120]
            return expect(v[3:], (id_(Y(n, "ID")), by("BuildLaneSRange", rg, Y(n, "Zone")), by("BuildDirectionUsageStates", Y(n, "States"))),
                          ("id", "zone", "states"))
        S.each_path("direction usage rule: built from its own fields", fn, rule, E=E)


# ---------------------------------------------------------------------------------------------------------------- rulebook
def book(S, steps, have, E):
    from rules.p26 import loaders
    for fn, k in loaders(S, "maliput::LoadRoadRulebook{}", 2):
        v = fn["q"].rpartition("::")[2]
        ps = list(E.paths(fn))
        rg = P(fn, 0)
        root = root_of(fn, k)
        node = Y(root, "RoadRulebook")
        parts = [Y(node, x) for x in ("RightOfWayRules", "DirectionUsageRules")]
        bad = Or(Not(Kind(root, "IsMap")), Not(Def(node)), Not(Kind(node, "IsMap")), *[c for x in parts for c in (Not(Def(x)), Not(Kind(x, "IsSequence")))])
        det = []
        for p in ps:
            h = decided(S.ctx(p), bad)
            if (p.sig == "ret") != (h is False):
                det.append("accepts a document although %s" % bad if p.sig == "ret" else "rejects a document for another reason: %s" % show_facts(p.facts)[-160:])
        S.ck.ob("%s: document shape" % v, not det, where(fn), "; ".join(sorted(set(det))[:2]))
        if not have("BuildRightOfWayRule", "BuildVehicleStopInZoneBehaviourDiscreteValueRule", "BuildRightOfWayTypeDiscreteValueRule", "BuildDirectionUsageRule"):
            continue
        rets = [p for p in ps if p.sig == "ret"]

        def adds(i, p):
            es = [e for e in i.events if e.k == "call" and e.a[0].endswith("::ManualRulebook::AddRule")]
            if any(e.a[1] != p.val and p.val not in (e.a[1],) and deep_unw(e.a[1]) != deep_unw(p.val) for e in es):
                raise Bad("adds to another rulebook")
            return [deep_unw(e.a[2][0]) for e in es]

        def each(name, ok):
            det = []
            try:
                for p in rets:
                    c = ok(p)
                    if c:
                        det.append(c)
            except Unknown as u:
                S.ck.undecided(name, where(fn), str(u))
                return
            except Bad as u:
                det.append(str(u))
            S.ck.ob(name, not det and bool(rets), where(fn), "; ".join(sorted(set(det))[:2]))

        def rows(p):
            l = whole_loop(p.trace, parts[0])
            for i in normal(l):
                got = adds(i, p)
                row = next((t for t in got if step(t, "BuildRightOfWayRule")), None)
                zone = next((t for t in got if step(t, "BuildVehicleStopInZoneBehaviourDiscreteValueRule")), None)
                disc = next((t for t in got if step(t, "BuildRightOfWayTypeDiscreteValueRule")), None)
                if row is None or zone is None or disc is None or len(got) != 3:
                    return "a node adds %s" % [show(t)[:60] for t in got]
                if step(row, "BuildRightOfWayRule") != (rg, l.el):
                    return "the rule is built from %s" % show(row)[:120]
                if step(zone, "BuildVehicleStopInZoneBehaviourDiscreteValueRule") != (row,):
                    return "the vehicle-stop rule is built from %s" % show(zone)[:120]
                d = step(disc, "BuildRightOfWayTypeDiscreteValueRule")
                if d[0] != row:
                    return "the discrete rule is built from %s" % show(d[0])[:120]
                if d[1][0] == "f" and d[1][2].endswith("::id_"):
                    if unw(d[1][1]) != zone:
                        return "the discrete rule is linked to %s" % show(d[1])[:120]
                elif not find_terms(d[1], lambda t: t == zone):
                    return "the discrete rule is linked to %s" % show(d[1])[:120]
            return None
        each("%s: each right-of-way rule is added with its vehicle-stop and discrete rules" % v, rows)

        def dirs(p):
            l = whole_loop(p.trace, parts[1])
            for i in normal(l):
                got = adds(i, p)
                if len(got) != 1 or step(got[0], "BuildDirectionUsageRule") != (rg, l.el):
                    return "a node adds %s" % [show(t)[:80] for t in got]
            return None
        each("%s: each direction usage rule is added" % v, dirs)


# ---------------------------------------------------------------------------------------------------------- standard types
def standard(S):
    F, ck = S.F, S.ck
    kept = {}
    for fq, tid, sev, words in (
            ("DirectionUsage", DIR, (0,), ("WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking", "Undefined")),
            ("RightOfWay", ROW, (0, 1), None), ("VehicleStopInZoneBehavior", ZONE, (0,), None), ("SpeedLimit", "Speed-Limit Rule Type", None, None)):
        fn = F.fn("maliput::%sRuleTypeId" % fq, 0)
        S.each_path("%s: type id" % fq, fn, lambda p, tid=tid: None if type_id(p.val) == tid else "the id is %s" % show(p.val))
        if sev is None:
            continue
        fn = F.fn("maliput::Build%sRuleType" % fq, 0)

        def states(p, tid=tid, sev=sev, words=words, fq=fq):
            v = p.val
            if v[0] == "agg":
                v = ("pair",) + tuple(x for _, x in v[2])
            if v[0] != "pair":
                raise Unknown("returns %s" % show(v)[:100])
            if type_id(v[1]) != tid:
                return "its type is %s" % show(v[1])
            if v[2][0] == "list":
                vals = v[2][1:]
            else:
                vals = [x for e in p.trace if e.k == "mut" and e.a[0] == v[2] and e.a[1] in ("push_back", "append") for x in e.a[2]]
                if loops_in(p.trace):
                    raise Unknown("states are made in some other way")
            got = []
            for x in vals:
                a = x[3:] if x[0] == "k" else tuple(z for _, z in x[2])
                if len(a) != 4 or a[0][0] != "n" or text(a[3]) is None:
                    raise Unknown("a state is %s" % show(x)[:100])
                if any(find_terms(z, lambda t: t[0] in ("s", "pair")) for z in a[1:3]):
                    return "state %s has related rules" % text(a[3])
                got.append((int(a[0][1]), text(a[3])))
            kept.setdefault(fq, set()).update(w for _, w in got)
            if len(set(got)) != len(got):
                return "a state repeats"
            ws = {w for _, w in got}
            if set(got) != {(s, w) for s in sev for w in ws}:
                return "not every state has every severity: %s" % sorted(got)
            if words and ws != set(words):
                return "its states are %s" % sorted(ws)
            return None if ws else "it has no states"
        S.each_path("%s: every state with every severity" % fq, fn, states)
    for fq, words in (("RightOfWay", ("Go", "Stop", "StopThenGo")), ("VehicleStopInZoneBehavior", ("DoNotStop", "UnconstrainedParking"))):
        fn = F.fn("maliput::Build%sRuleType" % fq, 0)
        for w in words:
            name = "%s: the loaded state %s is one of the type" % (fq, w)
            if fq not in kept:
                ck.undecided(name, where(fn), "states are unknown")
            else:
                ck.ob(name, w in kept[fq], where(fn), "states are %s" % sorted(kept[fq]))
    fn = F.fn("maliput::BuildVehicleStopInZoneBehaviorRuleType", 0)
    if "VehicleStopInZoneBehavior" in kept:
        ws = kept["VehicleStopInZoneBehavior"]
        want = {("5", "Minute"), ("30", "Minute"), ("45", "Minute"), ("1", "Hour"), ("2", "Hour"), ("4", "Hour")}
        import re
        got = {m.groups() for m in (re.match(r"(\d+)(Minute|Hour)", w) for w in ws) if m}
        ck.ob("VehicleStopInZoneBehavior: the documented durations", got == want and len(ws) == 8, where(fn), "durations are %s" % sorted(got))
