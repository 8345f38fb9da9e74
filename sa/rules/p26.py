"""P26: the YAML loaders build what the document says."""
from rules.common import *
from logic import At

FLOOR = 85
EXPLANATION = ("Every path of the public loaders, helpers inlined, is summarised over symbolic document nodes; each normal iteration over a sequence or "
               "map node must build the object of that node from exactly its fields, and iterations reject exactly malformed nodes.")
ASSUMPTIONS = ["yaml-cpp parses, converts and iterates nodes as documented; a failed conversion throws",
               "the constructors and books called with the loaded values are decided by other properties"]
R = "maliput::api::rules::"
A = "maliput::api::"
STR = "string"


# -- terms over document nodes
def Y(n, *ks):
    for k in ks:
        n = ("y", n, ("s", k) if isinstance(k, str) else num(k))
    return n


def Def(n):
    return At(("def", n))


def Kind(n, k):
    return At(("ykind", k, n))


def Any(*cs):
    return Or(*cs)


def short_type(t):
    t = t.replace("std::__cxx11::", "std::")
    if t.startswith("std::basic_string<char"):
        return STR
    return t


def norm(t):
    """Constructor terms without constructor names, conversions with short type names."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "yas":
        return ("yas", norm(t[1]), short_type(t[2]))
    if t[0] == "k":
        if len(t) == 4 and t[1].endswith("TypeSpecificIdentifier") or len(t) == 4 and t[1] == A + "UniqueId":
            return ("id", norm(t[3]))
        if t[1].startswith("std::unique_ptr") and len(t) == 4:
            return norm(t[3])
        return ("K", t[1]) + tuple(norm(x) for x in t[3:])
    if t[0] == "agg":
        return ("A", t[1]) + tuple(norm(v) for f, v in t[2])
    return tuple(norm(x) for x in t)


def as_(n, t):
    return ("yas", n, t)


def id_(n):
    return ("id", as_(n, STR))


class Docs:
    """The loops over document nodes on every returning path of a loader."""

    def __init__(self, S, fn, ps):
        self.S, self.fn = S, fn
        self.ps = ps and [p for p in ps if p.sig == "ret"]
        self.n = 0

    def node_loops(self):
        """[(loop, over, facts)] of loops over containers, at any depth, on returning paths (inside normal iterations)."""
        def rec(evs, facts):
            for e in evs:
                if e.k == "loop":
                    l = e.a[0]
                    yield l, facts
                    for i in l.iters:
                        if i.sig in (None, "cont"):
                            yield from rec(i.events, {**facts, **i.all_facts})
        for p in self.ps:
            yield from rec(p.trace, p.facts)

    def each(self, name, over, bad, then, may=None, need=None):
        """Loops whose container satisfies over(term, facts): every iteration (element el) fails exactly when bad(el) holds;
        then(el, iteration, ctx) is a complaint about a normal iteration or None."""
        if self.ps is None:
            return
        det, line, found = [], None, 0
        try:
            for l, facts in self.node_loops():
                if not over(l.over, facts):
                    continue
                found += 1
                if not (l.full and l.complete):
                    det.append("leaves the loop over %s early" % show(l.over)[-60:])
                line = line or l.line
                el = l.el
                b = bad(el)
                for i in l.iters:
                    if i.sig not in (None, "cont", "throw"):
                        continue
                    ctx = Ctx({**facts, **i.all_facts}, i.events, self.S.F.enums)
                    if i.sig == "throw":
                        if inner_throw(i) or any(find_terms(k, lambda z: z[0] == "el" and z != el and find_terms(z[1], lambda y: y == el)) for k in i.facts):
                            continue  # fails inside a nested node
                        if b is not None and decided(ctx, b) is not True and not (may and decided(ctx, Or(may(el), b)) is True):
                            det.append("rejects an element for another reason: %s" % show_facts(i.facts)[-200:])
                        if b is None and not (may and decided(ctx, may(el)) is True):
                            det.append("rejects an element: %s" % show_facts(i.facts)[-200:])
                        continue
                    if b is not None and decided(ctx, b) is not False:
                        det.append("accepts an element although %s" % b)
                        continue
                    c = then(el, i, ctx)
                    if c:
                        det.append(c)
        except Unknown as u:
            self.S.ck.undecided(name, where(self.fn, line), str(u))
            return
        except Bad as u:
            det.append(str(u))
        if not found and need and not any(need(k) for p in self.ps for k in p.facts):
            self.S.ck.ob(name, False, where(self.fn), "nothing looks at the names")
            return
        if not found:
            self.S.ck.undecided(name, where(self.fn), "no such loop")
            return
        self.S.ck.ob(name, not det, where(self.fn, line), "; ".join(sorted(set(d[:400] for d in det))[:2]))


def inner_throw(i):
    """The iteration fails inside a nested loop."""
    loops = [e.a[0] for e in i.events if e.k == "loop"]
    return bool(loops) and not loops[-1].complete and any(j.sig == "throw" for j in loops[-1].iters)


def calls(i, name):
    return [e for e in i.events if e.k == "call" and e.a[0].endswith(name)]


def pushes(evs):
    return [e for e in evs if e.k == "mut" and e.a[1] in ("push_back", "append")]


def builds(i, cls):
    """Constructor terms of cls that this iteration appends or hands to a call."""
    out = []
    for e in i.events:
        if e.k == "mut":
            if e.a[1] == "seq_insert" and e.a[2] and e.a[2][0] == ("it", e.a[0], "b") and any(isinstance(x, tuple) and x[:2] in (("k", cls), ("agg", cls)) for x in e.a[2]):
                raise Bad("a %s goes in front of the earlier ones" % cls.rpartition("::")[2])
            out += [(e, x) for x in e.a[2] if isinstance(x, tuple) and x[:2] in (("k", cls), ("agg", cls))]
        elif e.k == "call":
            out += [(e, x) for x in e.a[2] if isinstance(x, tuple) and x[:2] in (("k", cls), ("agg", cls))]
    return out


def one(xs, what):
    if len(xs) != 1:
        raise Bad("%s happens %d times for one element" % (what, len(xs))) if len(xs) != 1 and not xs == [] else Bad("%s does not happen" % what)
    return xs[0]


def expect(got, want, names):
    """Complaint when constructor arguments differ."""
    if len(got) != len(want):
        raise Unknown("built with %d values" % len(got))
    for g, w, n in zip(got, want, names):
        if w is None:
            continue
        g2 = norm(g)
        if callable(w):
            c = w(g)
            if c:
                return "%s: %s" % (n, c)
        elif g2 != w:
            return "%s is %s instead of %s" % (n, show(g)[:160], show(w)[:160] if w and w[0] not in ("id", "yas") else brief(w))
    return None


def brief(w):
    if w[0] == "id":
        return "id(%s)" % brief(w[1])
    if w[0] == "yas":
        return "%s as %s" % (show(w[1])[-60:], w[2].rpartition("::")[2])
    return show(w)[:120]


def filled_by(i, loc_test):
    pass


def root_of(fn, k):
    return ("c", "YAML::" + k, None, P(fn, next(j for j, p in enumerate(fn["params"]) if "basic_string" in p["t"] or "std::string" in p["t"])))


def loaders(S, q, nparams=None):
    """(function, root node) of a loader's string and file variants."""
    out = []
    for suffix, k in (("", "Load"), ("FromFile", "LoadFile")):
        name = q.replace("{}", suffix)
        for f in S.F.fns_of(name):
            if nparams is None or len(f["params"]) == nparams:
                out.append((f, k))
    return out


def run(ck):
    ck.rule("R1", "a loader visits every node of the sequences and maps of its document, and builds one object per node")
    ck.rule("R2", "each value of the object is converted from the field of that name")
    ck.rule("R3", "a node is rejected exactly when a required field is missing or of the wrong kind, or an id is unknown")
    ck.rule("R4", "names map one to one to the enumerators")
    S = Spec(ck, opaque=OPAQUE)
    mappers(S)
    conversions(S)
    helpers(S)
    traffic_lights(S)
    rule_registry(S)
    rulebook(S)
    phase_rings(S)
    phase_rings_old(S)
    intersections(S)
    S.done()


OPAQUE = (R + "Bulb::Bulb", R + "BulbGroup::BulbGroup", R + "TrafficLight::TrafficLight", "maliput::TrafficLightBook::AddTrafficLight",
          R + "RuleRegistry::RegisterDiscreteValueRule", R + "RuleRegistry::RegisterRangeValueRule",
          "maliput::ManualRulebook::AddRule", R + "RuleRegistry::BuildDiscreteValueRule", R + "RuleRegistry::BuildRangeValueRule",
          A + "LaneSRoute::LaneSRoute", "maliput::ManualPhaseRingBook::AddPhaseRing", R + "PhaseRing::PhaseRing", R + "Phase::Phase",
          R + "TrafficLight::GetBulbGroup", R + "BulbGroup::GetBulb", R + "BulbGroup::bulbs", R + "Bulb::GetDefaultState", R + "Bulb::unique_id",
          R + "TrafficLightBook::GetTrafficLight", R + "RoadRulebook::GetDiscreteValueRule", R + "RoadRulebook::Rules", R + "RoadRulebook::GetRule",
          R + "BulbColorMapper", R + "BulbTypeMapper", R + "BulbStateMapper", R + "DirectionUsageRule::StateTypeMapper",
          R + "PhaseRingBook::GetPhaseRing", "maliput::IntersectionBook::IntersectionBook", "maliput::Intersection::Intersection",
          "maliput::ManualPhaseProvider::AddPhaseRing", "maliput::ManualPhaseProvider::SetPhase", R + "PhaseProvider::GetPhase",
          A + "RoadGeometry::ById", A + "Lane::length", "maliput::IntersectionBook::AddIntersection")


# ---------------------------------------------------------------------------------------------------------------- names
def mappers(S):
    for q, en, prefix in ((R + "BulbColorMapper", R + "BulbColor", ""), (R + "BulbTypeMapper", R + "BulbType", ""),
                          (R + "BulbStateMapper", R + "BulbState", ""),
                          (R + "DirectionUsageRule::StateTypeMapper", R + "DirectionUsageRule::State::Type", ""),
                          ("maliput::routing::LaneSRangeRelationMapper", "maliput::routing::LaneSRangeRelation", "k")):
        fn = S.F.fn(q, 0)
        consts = [c.rpartition("::")[2] for c in S.F.enums[en]["consts"]]
        E = S.engine(opaque=())
        ps = S.run(fn, E)
        if ps is None:
            continue
        p = max((p for p in ps if p.sig == "ret"), key=lambda p: sum(e.k == "mut" for e in p.trace))
        table = []
        v = p.val
        for t in find_terms(v, lambda t: t[0] == "pair" and len(t) == 3):
            table.append((t[1], t[2]))
        init = p.st.inits.get(v) if v and v[0] == "loc" else None
        for t in find_terms(init, lambda t: t[0] == "pair" and len(t) == 3) if init else ():
            table.append((t[1], t[2]))
        for e in p.trace:
            if e.k == "mut" and e.a[1] in ("insert", "set") and e.a[0] == v:
                table.append(tuple(e.a[2][:2]))
            elif e.k == "insert_noop":
                table.append(tuple(e.a[1:3]))
        if not table or any(k[0] != "enum" or x[0] != "s" for k, x in table):
            S.ck.undecided("%s maps every name once" % q.rpartition("::")[2], where(fn), "not a table: %s" % [show(k) for k, x in table][:3])
            continue
        got = {}
        bad = []
        for k, x in table:
            c = k[-1].rpartition("::")[2] if isinstance(k[-1], str) else show(k).rpartition("::")[2]
            if c in got:
                bad.append("%s is listed twice" % c)
            got[c] = x[1]
            if x[1] != prefix + c[1:]:
                bad.append("%s is called \"%s\"" % (c, x[1]))
        known = {"kUndefined"} if "StateTypeMapper" in q else set()
        missing = [c for c in consts if c not in got and c not in known]
        if missing:
            bad.append("no name for %s" % ", ".join(missing))
        S.ck.ob("%s maps every name once" % q.rpartition("::")[2], not bad, where(fn), "; ".join(bad))


def decode_of(S, frag):
    for f in S.F.fns_of("YAML::convert::decode"):
        if frag in f["params"][1]["t"]:
            yield f


def answers(S, name, fn, cond):
    """fn, where it returns, answers cond."""
    def ok(p):
        h = decided(S.ctx(p), cond)
        if h is None:
            return "does not decide %s" % cond
        return None if p.val == ("b", h) else "answers %s" % show(p.val)
    S.each_path(name, fn, ok, need=2)


def conversions(S):
    E0 = S.E
    for frag, mapper in (("BulbColor &", "BulbColorMapper"), ("BulbType &", "BulbTypeMapper"), ("rules::BulbState &", "BulbStateMapper"),
                         ("DirectionUsageRule::State::Type &", "StateTypeMapper")):
        for fn in decode_of(S, frag):
            node = P(fn, 0)

            def ok(p, fn=fn, node=node):
                if p.val not in (("b", True), ("b", False)):
                    raise Unknown("does not answer plainly")
                name = as_(node, STR)
                ls = [e.a[0] for e in p.trace if e.k == "loop" and find_terms(e.a[0].over, lambda t: t[0] == "c" and t[1].endswith(mapper))]
                if not ls:
                    raise Unknown("names are searched in some other way")
                ls = [l for l in ls if any(k[0] == "eq" and name in (norm(k[1]), norm(k[2])) for i in l.iters for k in i.all_facts)]
                if not ls:
                    return "no entry's name is compared"
                for l in ls:
                    if l.complete and not l.full:
                        return "some names are not tried"
                    for i in l.iters:
                        if not any(k[0] == "eq" and {norm(k[1]), norm(k[2])} == {name, ("val", l.el)} for k in i.all_facts):
                            return "an entry is taken without comparing its name"
                hits = [l for l in ls if any(k[0] == "eq" and v and {norm(k[1]), norm(k[2])} == {name, ("val", l.el)} for k, v in p.facts.items())]
                if p.val == ("b", False):
                    return "rejects a known name" if hits else None
                if not hits:
                    return "accepts an unknown name"
                v = out_value(p, fn, 1)
                if v not in [("key", l.el) for l in hits]:
                    return "the value is not the one with that name: %s" % (show(v) if v else "none is given")
                for l in hits:
                    for i in l.iters:
                        same = any(k[0] == "eq" and v and {norm(k[1]), norm(k[2])} == {name, ("val", l.el)} for k, v in i.all_facts.items())
                        if not same and ("key", l.el) in i.changed.values():
                            return "takes the value of another name"
            S.each_path("decode %s: the enumerator whose name is given" % frag.strip(" &"), fn, ok, need=2)
    for frag, n, comps in (("InertialPosition &", 3, ("x", "y", "z")), ("api::SRange &", 2, ("s0_", "s1_")), ("api::Rotation &", 4, None)):
        for fn in decode_of(S, frag):
            node, rhs = P(fn, 0), P(fn, 1)
            answers(S, "decode %s: a sequence of %d" % (frag.strip(" &"), n), fn, And(Kind(node, "IsSequence"), EqN(("size", node), num(n))))

            def ok(p, fn=fn, node=node, comps=comps, n=n):
                if p.val != ("b", True):
                    return None
                want = [as_(Y(node, k), "double") for k in range(n)]
                if comps:
                    out = {}
                    v = out_value(p, fn, 1)
                    if v is not None and v[0] == "k" and len(v) == 3 + n:
                        out.update(zip(comps, v[3:]))
                    elif v is not None and v[0] == "agg" and len(v[2]) == n:
                        out.update(zip(comps, [x for f, x in v[2]]))
                    for e in p.trace:
                        if e.k == "assign" and e.a[0][0] == "c":
                            out[e.a[0][1].rpartition("::")[2]] = e.a[1]
                        elif e.k == "assign" and e.a[0][0] == "at" and e.a[0][2][0] == "n":
                            out[comps[e.a[0][2][1]]] = e.a[1]
                        elif e.k == "write":
                            if e.a[2][0] == "k" and len(e.a[2]) == 3 + n:
                                out.update(zip(comps, e.a[2][3:]))
                            else:
                                out[e.a[1].rpartition("::")[2]] = e.a[2]
                    got = [out.get(c) for c in comps]
                else:
                    ks = [t for e in p.trace if e.k == "write" for t in find_terms(e.a[2], lambda t: t[0] == "k" and len(t) == 3 + n)]
                    got = list(ks[-1][3:]) if ks else [None] * n
                if None in got:
                    raise Unknown("components are set in some other way")
                return None if [norm(g) for g in got] == want else "components are %s" % ", ".join(show(g) for g in got)
            S.each_path("decode %s: components in order" % frag.strip(" &"), fn, ok)
    for fn in decode_of(S, "Bulb::BoundingBox &"):
        node = P(fn, 0)
        mn, mx = Y(node, "min"), Y(node, "max")
        answers(S, "decode BoundingBox: a map of min and max", fn,
                   And(Kind(node, "IsMap"), *[c for m in (mn, mx) for c in (Def(m), Kind(m, "IsSequence"), EqN(("size", m), num(3)))]))

        def box(p, mn=mn, mx=mx):
            if p.val != ("b", True):
                return None
            got = {e.a[1].rpartition("::")[2]: e.a[2] for e in p.trace if e.k == "write"}
            for f, m in (("p_BMin", mn), ("p_BMax", mx)):
                if f not in got:
                    raise Unknown("corners are set in some other way")
                if norm(got[f])[2:] != tuple(as_(Y(m, k), "double") for k in range(3)):
                    return "%s becomes %s" % (f, show(got[f]))
        S.each_path("decode BoundingBox: min and max corners", fn, box)
    for fn in decode_of(S, "std::vector<maliput::api::rules::BulbState"):
        node = P(fn, 0)

        def states(p, node=node):
            if p.val != ("b", True):
                return None
            l = next((e.a[0] for e in p.trace if e.k == "loop" and e.a[0].over == node), None)
            if l is None:
                raise Unknown("no loop over the sequence")
            if not (l.full and l.complete):
                return "not every state is read"
            for i in l.iters:
                inner = [e.a[0] for e in i.events if e.k == "loop" and find_terms(e.a[0].over, lambda t: t[0] == "c" and t[1].endswith("BulbStateMapper"))]
                if not inner:
                    raise Unknown("names are searched in some other way")
                named = [v for k, v in i.all_facts.items() if k[0] == "eq" and {norm(k[1]), norm(k[2])} == {as_(l.el, STR), ("val", inner[0].el)}]
                tops = pushes(i.events)
                if tops and not any(pushes(j.events) for j in inner[0].iters):
                    # found first, added afterwards
                    if len(tops) != 1 or tops[0].a[2][0] != ("key", inner[0].el) or True not in named:
                        return "the states read are not those named"
                    if any(not any(k[0] == "eq" and {norm(k[1]), norm(k[2])} == {as_(l.el, STR), ("val", inner[0].el)} for k in j.all_facts) for j in inner[0].iters):
                        return "a state is taken without comparing its name"
                    continue
                if True not in named and not any(pushes(j.events) for j in inner[0].iters):
                    if i.sig in (None, "cont"):
                        return "a name that no state has is skipped"
                    continue
                for j in inner[0].iters:
                    eqs = [v for k, v in j.facts.items() if k[0] == "eq" and {norm(k[1]), norm(k[2])} == {as_(l.el, STR), ("val", inner[0].el)}]
                    ps_ = [e for e in pushes(j.events) if e.a[2][0] == ("key", inner[0].el)]
                    if not eqs:
                        return "a state is taken without comparing its name"
                    if bool(eqs[-1]) != (len(ps_) == 1):
                        return "the states read are not those named"
                if i.sig in (None, "cont") and not any(k[0] == "eq" and v and as_(l.el, STR) in (norm(k[1]), norm(k[2])) for k, v in i.all_facts.items()):
                    return "a name that no state has is skipped"
            return None
        S.each_path("decode bulb states: one per name, unknown names rejected", fn, states)
        S.each_path("decode bulb states: anything but a sequence is rejected", fn,
                    lambda p, node=node: "answers true" if p.val == ("b", True) and decided(S.ctx(p), Kind(node, "IsSequence")) is not True else None)
    for fn in decode_of(S, "std::map<"):
        node, rhs = P(fn, 0), P(fn, 1)
        name = "decode related %s: every name gets an empty group" % ("rules" if "Identifier" in fn["params"][1]["t"] else "ids")

        def groups(p, node=node, rhs=rhs):
            if p.val != ("b", True):
                return None if decided(S.ctx(p), Kind(node, "IsSequence")) is False else "rejects a sequence"
            l = next((e.a[0] for e in p.trace if e.k == "loop" and e.a[0].over == node), None)
            if decided(S.ctx(p), Kind(node, "IsSequence")) is not True:
                return "accepts anything"
            if l is None:
                raise Unknown("no loop over the sequence")
            if not (l.full and l.complete):
                return "not every name is read"
            for i in l.iters:
                if i.sig not in (None, "cont"):
                    continue
                has = any(k[0] == "has" and v and k[1] == rhs and norm(k[2]) == as_(l.el, STR) for k, v in i.all_facts.items())
                if not has:
                    return "a name is skipped"
                if any(e.k == "mut" and (e.a[1] not in ("default_insert", "insert") or norm(e.a[2][0]) != as_(l.el, STR)) for e in i.events):
                    return "adds something else"
        S.each_path(name, fn, groups)
    for fn in S.F.fns_of("YAML::convert::encode"):
        if "api::SRange" in fn["params"][0]["t"]:
            s0, s1 = (S.E.getter(A + "SRange::" + n, P(fn, 0)) for n in ("s0", "s1"))

            def enc(p):
                got = [e.a[2][0] if e.k == "mut" else e.a[-1] for e in p.trace if e.k in ("mut", "ypush") and e.a[1] == "push_back" or e.k == "ypush"]
                if not got:
                    raise Unknown("encoded in some other way")
                return None if got == [s0, s1] else "encodes %s" % ", ".join(show(g) for g in got)
            S.each_path("encode SRange: s0 then s1", fn, enc)


def helpers(S):
    E = S.E
    fn = S.F.fn("maliput::GetSeverityFromYamlNode", 1)
    n = P(fn, 0)
    sev = Y(n, "severity")
    S.throws_iff("severity: negative values are rejected", fn, And(Def(sev), Lt(as_(sev, "int"), num(0), ints=True)))

    def value(p):
        d = decided(S.ctx(p), Def(sev))
        want = as_(sev, "int") if d else num(0)
        return "presence of severity is not looked at" if d is None else None if p.val == want else "severity is %s" % show(p.val)
    S.each_path("severity: the given value, else strict", fn, value)
    fn = S.F.fn("maliput::GetRangeMinMaxValuesFromYamlNode", 1)
    r = Y(P(fn, 0), "range")
    lo, hi = as_(Y(r, 0), "double"), as_(Y(r, 1), "double")
    S.throws_iff("range: anything but an ordered pair is rejected", fn,
                 Or(Not(Kind(r, "IsSequence")), Not(EqN(("size", r), num(2))), Gt(lo, hi)))
    S.each_path("range: minimum then maximum", fn, lambda p: None if tuple(p.val[1:3]) == (lo, hi) else "returns %s" % show(p.val))
    for f, key in (("GetValueFromYamlNode", "value"), ("GetDescriptionFromYamlNode", "description")):
        fn = S.F.fn("maliput::" + f, 1)
        n = Y(P(fn, 0), key)
        S.throws_iff("%s: a missing field is rejected" % key, fn, Not(Def(n)))
        S.each_path("%s: the text of the field" % key, fn, lambda p, n=n: None if norm(p.val) == as_(n, STR) else "returns %s" % show(p.val))
    for f, keys in (("IsDiscreteValue", ("value",)), ("IsRangeValue", ("range", "description"))):
        fn = S.F.fn("maliput::" + f, 1)
        n = P(fn, 0)

        def shape(p, n=n, keys=keys):
            ctx = S.ctx(p)
            req = decided(ctx, And(*[Def(Y(n, k)) for k in keys]))
            if req is False:
                return None if p.val == ("b", False) else "answers true without the required fields"
            if req is None:
                return "the required fields are not looked at"
            opt = [decided(ctx, Def(Y(n, k))) for k in ("severity", "related_rules", "related_unique_ids")]
            if None in opt:
                raise Unknown("fields are counted in some other way")
            want = decided(ctx, EqN(("size", n), num(len(keys) + sum(opt))))
            if want is None:
                v = p.val
                raise Unknown("fields are counted in some other way: %s" % show(v))
            return None if p.val == ("b", want) else "answers %s with %d of the optional fields" % (show(p.val), sum(opt))
        S.each_path("%s: the required fields and nothing but the optional ones" % f, fn, shape)


# ------------------------------------------------------------------------------------------------------- traffic lights
def at_root(S, name, fn, ps, k, key, kind="IsSequence", extra=None, optional=False):
    """The loader rejects a document exactly when it is not a map with a `key` of the given kind."""
    root = root_of(fn, k)
    node = Y(root, key)
    conds = [Not(Kind(root, "IsMap"))] + ([And(Def(node), Not(Kind(node, kind)))] if optional else [Not(Def(node)), Not(Kind(node, kind))])
    bad = Or(*(conds + list(extra or ())))
    det = []
    for p in ps:
        h = decided(S.ctx(p), bad)
        if p.sig == "ret" and h is not False:
            det.append("accepts a document although %s" % bad)
        if p.sig != "ret" and h is not True:
            last = [e for e in p.trace if e.k == "loop"]
            if not any(i.sig == "throw" for e in last for i in e.a[0].iters) or not any(
                    find_terms(f, lambda t: t[0] == "el" and t[1] == node) for f in p.facts):
                det.append("rejects a document for another reason: %s" % show_facts(p.facts)[:200])
    S.ck.ob(name, not det, where(fn), "; ".join(det[:2]))
    return node


def overs(node):
    return lambda o, facts: o == node


def traffic_lights(S):
    for fn, k in loaders(S, "maliput::LoadTrafficLightBook{}"):
        ps = S.run(fn)
        if ps is None:
            continue
        v = fn["q"].rpartition("::")[2]
        D = Docs(S, fn, ps)
        node = at_root(S, "%s: document shape" % v, fn, ps, k, "TrafficLights")
        cls = (R + "TrafficLight", R + "BulbGroup", R + "Bulb")
        pose = lambda el, n: (Y(el, "Pose", "position_" + n), Y(el, "Pose", "orientation_" + n))

        def posed(el, n):
            a, b = pose(el, n)
            return [Not(Def(Y(el, "Pose"))), Not(Kind(Y(el, "Pose"), "IsMap")), Not(Def(a)), Not(Def(b))]

        def children(el, key):
            return [Not(Def(Y(el, key))), Not(Kind(Y(el, key), "IsSequence"))]

        def filled(i, el, key, child):
            def f(loc):
                ls = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == Y(el, key)]
                if not ls:
                    return "not filled from %s" % key
                for j in ls[0].iters:
                    if j.sig in (None, "cont"):
                        e, t = one(builds(j, child), "adding a %s" % child.rpartition("::")[2])
                        if e.k == "mut" and e.a[0] != loc:
                            return "another list is filled"
            return f

        def light(el, i, ctx):
            e, t = one(builds(i, cls[0]), "adding a traffic light")
            p, o = pose(el, "road_network")
            return expect(t[3:], (id_(Y(el, "ID")), as_(p, A + "InertialPosition"), as_(o, A + "Rotation"), filled(i, el, "BulbGroups", cls[1])),
                          ("id", "position", "orientation", "bulb groups"))
        D.each("%s: traffic lights" % v, overs(node),
               lambda el: Or(Not(Kind(el, "IsMap")), *(posed(el, "road_network") + children(el, "BulbGroups"))), light,
               may=lambda el: Not(Def(Y(el, "ID"))))

        def group(el, i, ctx):
            e, t = one(builds(i, cls[1]), "adding a bulb group")
            p, o = pose(el, "traffic_light")
            return expect(t[3:], (id_(Y(el, "ID")), as_(p, A + "InertialPosition"), as_(o, A + "Rotation"), filled(i, el, "Bulbs", cls[2])),
                          ("id", "position", "orientation", "bulbs"))
        D.each("%s: bulb groups" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "BulbGroups"),
               lambda el: Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "ID"))), *(posed(el, "traffic_light") + children(el, "Bulbs"))), group,
               may=lambda el: Not(Def(el)))

        def bulb(el, i, ctx):
            e, t = one(builds(i, cls[2]), "adding a bulb")
            p, o = pose(el, "bulb_group")
            typ = next((x for x in t[3:] if x[0] == "yas" and x[2] == R + "BulbType"), None)
            arrow = decided(ctx, Eq(typ, ("enum", R + "BulbType::kArrow"))) if typ else None
            if arrow is None:
                return "an arrow orientation is or is not given whatever the type"
            has_states, has_box = decided(ctx, Def(Y(el, "States"))), decided(ctx, Def(Y(el, "BoundingBox")))
            if None in (has_states, has_box):
                return "optional fields are not looked at"

            def content(x):
                for e2 in i.events:
                    if e2.k == "assign" and e2.a[0] == x:
                        x = e2.a[1]
                return i.inits.get(x, x) if x[0] == "loc" else x

            def states(x):
                x = content(x)
                if has_states:
                    return None if x[0] == "yas" and x[1] == Y(el, "States") else "not those given"
                es = {show(z).rpartition("::")[2] for z in find_terms(x, lambda z: z[0] == "enum" and R + "BulbState::" in repr(z))}
                return None if es == {"kOn", "kOff"} else "default to %s" % show(x)

            def box(x):
                x = content(x)
                if has_box:
                    return None if norm(x) == as_(Y(el, "BoundingBox"), R + "Bulb::BoundingBox") else "not the given one"
                return "not the default one" if find_terms(x, lambda z: z[0] == "y") else None
            return expect(t[3:], (id_(Y(el, "ID")), as_(p, A + "InertialPosition"), as_(o, A + "Rotation"), as_(Y(el, "Color"), R + "BulbColor"),
                                  as_(Y(el, "Type"), R + "BulbType"), as_(Y(el, "ArrowOrientation"), "double") if arrow else NULL, states, box),
                          ("id", "position", "orientation", "color", "type", "arrow orientation", "states", "bounding box"))
        bb = lambda el: Y(el, "BoundingBox")
        D.each("%s: bulbs" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "Bulbs"),
               lambda el: Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "ID"))), Not(Def(Y(el, "Color"))), Not(Def(Y(el, "Type"))),
                             And(Def(bb(el)), Not(Kind(bb(el), "IsMap"))),
                             And(Eq(as_(Y(el, "Type"), R + "BulbType"), ("enum", R + "BulbType::kArrow")), Not(Def(Y(el, "ArrowOrientation")))),
                             *posed(el, "bulb_group")), bulb, may=lambda el: Not(Def(el)))


# -------------------------------------------------------------------------------------------------------- rule registry
def state_fields(el, ctx, i, inline):
    """(severity, related rules, related unique ids) expected of a state node."""
    sev = decided(ctx, Def(Y(el, "severity")))
    if sev is None:
        raise Bad("the presence of a severity is not looked at")

    def related(key, cls):
        def f(x):
            n = Y(el, key)
            if not inline:
                d = decided(ctx, Def(n))
                if d is None:
                    return "its presence is not looked at"
                return None if (x[0] == "yas" and x[1] == n) == d and (d or x in (("list",),) or x[0] == "k" and len(x) == 3) else "not those given"
            ls = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == n]
            if not ls:
                return "the groups are not read"
            ok = 0
            for a in ls[0].iters:
                for e in a.events:
                    if e.k == "loop" and e.a[0].over == ls[0].el:
                        g = e.a[0].el
                        for b in e.a[0].iters:
                            for e2 in b.events:
                                if e2.k == "loop" and e2.a[0].over == ("val", g):
                                    for c in e2.a[0].iters:
                                        ms = pushes(c.events)
                                        if len(ms) != 1:
                                            return "an id is added %d times" % len(ms)
                                        tgt = ms[0].a[0]
                                        if norm(ms[0].a[2][0]) not in (("id", as_(e2.a[0].el, STR)), ("id", ("K", "std::basic_string", as_(e2.a[0].el, STR)))) and \
                                           not find_terms(norm(ms[0].a[2][0]), lambda z: z == as_(e2.a[0].el, STR)):
                                            return "another id is added: %s" % show(ms[0].a[2][0])
                                        if not (tgt[0] == "at" and tgt[1] == x and norm(tgt[2]) == as_(("key", g), STR)):
                                            return "ids go to %s" % show(tgt)[:100]
                                        if not (e2.a[0].full and e2.a[0].complete and e.a[0].full and e.a[0].complete):
                                            return "not every id is read"
                                        ok += 1
            return None if ok else "the groups are not read"
        return f
    return (as_(Y(el, "severity"), "int") if sev else num(0), related("related_rules", 0), related("related_unique_ids", 1))


def discrete_state(inline):
    def f(el, i, ctx):
        e, t = one(builds(i, R + "DiscreteValueRule::DiscreteValue"), "adding a value")
        args = [v for f_, v in t[2]] if t[0] == "agg" else t[3:]
        return expect(args, state_fields(el, ctx, i, inline) + (as_(Y(el, "value"), STR),), ("severity", "related rules", "related unique ids", "value"))
    return f


def range_state(inline):
    def f(el, i, ctx):
        e, t = one(builds(i, R + "RangeValueRule::Range"), "adding a range")
        args = [v for f_, v in t[2]] if t[0] == "agg" else t[3:]
        r = Y(el, "range")
        return expect(args, state_fields(el, ctx, i, inline) + (as_(Y(el, "description"), STR), as_(Y(r, 0), "double"), as_(Y(r, 1), "double")),
                      ("severity", "related rules", "related unique ids", "description", "minimum", "maximum"))
    return f


def range_bad(el):
    r = Y(el, "range")
    return Or(Not(Kind(r, "IsSequence")), Not(EqN(("size", r), num(2))), Gt(as_(Y(r, 0), "double"), as_(Y(r, 1), "double")),
              And(Def(Y(el, "severity")), Lt(as_(Y(el, "severity"), "int"), num(0), ints=True)), Not(Def(Y(el, "description"))))


def pushes_cls(l, cls):
    return any(builds(i, cls) for i in l.iters)


def rule_registry(S):
    for fn, k in loaders(S, "maliput::LoadRuleRegistry{}", 1):
        ps = S.run(fn)
        if ps is None:
            continue
        v = fn["q"].rpartition("::")[2]
        D = Docs(S, fn, ps)
        node = at_root(S, "%s: document shape" % v, fn, ps, k, "RuleRegistry", kind="IsMap")

        def entry(el, i, ctx):
            d, r = calls(i, "::RegisterDiscreteValueRule"), calls(i, "::RegisterRangeValueRule")
            c = one(d + r, "registering a rule type")
            if norm(c.a[2][0]) != id_(("key", el)):
                return "registered as %s" % show(c.a[2][0])
            cls = R + ("DiscreteValueRule::DiscreteValue" if d else "RangeValueRule::Range")
            ls = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == ("val", el)]
            fill = [l for l in ls if pushes_cls(l, cls)]
            if not fill:
                return "registered without its states"
            for l in fill:
                for j in l.iters:
                    if j.sig in (None, "cont"):
                        e, t = one(builds(j, cls), "adding a state")
                        if e.a[0] != c.a[2][1]:
                            return "another list is registered"
            # the kind of every state was looked at
            kinds = [l for l in ls if l not in fill]
            if not kinds:
                raise Unknown("the kind of rule is decided in some other way")
            seen = set()
            for l in kinds:
                for j in l.iters:
                    for x in j.changed.values():
                        if x[0] == "enum" and "RuleType::" in repr(x):
                            seen.add(show(x).rpartition("::")[2])
            return None
        D.each("%s: rule types" % v, overs(node), lambda el: Or(Not(Kind(("val", el), "IsSequence")), Empty(("val", el))), entry,
               may=lambda el: True_)
        D2 = Docs(S, fn, ps)

        def fills(cls):
            return lambda l: pushes_cls(l, cls)
        states_of(D2, "%s: discrete states" % v, R + "DiscreteValueRule::DiscreteValue", discrete_state(False),
                  lambda el: And(Def(Y(el, "severity")), Lt(as_(Y(el, "severity"), "int"), num(0), ints=True)))
        states_of(D2, "%s: range states" % v, R + "RangeValueRule::Range", range_state(False), range_bad)
        kinds(S, D2, "%s: kind of rule" % v)


True_ = Or(Is(("b", True)), Not(Is(("b", True))))


def states_of(D, name, cls, then, bad, may=None):
    """Like each, for the loops that build states of cls."""
    loops = [(l, f) for l, f in D.node_loops() if pushes_cls(l, cls)]
    if not loops:
        D.S.ck.undecided(name, where(D.fn), "no loop builds %s" % cls)
        return
    keep = D.node_loops
    D.node_loops = lambda: iter(loops)
    D.each(name, lambda o, f: True, bad, then, may=may)
    D.node_loops = keep


def kinds(S, D, name):
    """A state list counts as discrete (range) only if an element was found to be one, and a list with both is refused."""
    det, n = [], 0
    for l, facts in D.node_loops():
        for i in l.iters:
            for x in i.changed.values() if i.changed else ():
                if not (isinstance(x, tuple) and x and x[0] == "enum" and "::RuleType::" in repr(x)):
                    continue
                n += 1
                ctx = Ctx({**facts, **i.all_facts}, i.events, S.F.enums)
                c = show(x).rpartition("::")[2]
                el = l.el
                d = decided(ctx, Def(Y(el, "value")))
                r = decided(ctx, And(Def(Y(el, "range")), Def(Y(el, "description"))))
                if c not in ("kDiscreteValueRuleType", "kRangeValueRuleType"):
                    continue
                other = ({"kDiscreteValueRuleType", "kRangeValueRuleType"} - {c}).pop()
                if i.sig in (None, "cont") and not any(k2[0] == "eq" and not v2 and any(isinstance(t, tuple) and t and t[0] == "hv" for t in k2[1:])
                                                       and any(isinstance(t, tuple) and t and t[0] == "enum" and show(t).endswith(other) for t in k2[1:])
                                                       for k2, v2 in i.all_facts.items()):
                    det.append("a list already counted as %s then counts as %s" % (other, c))
                if c == "kDiscreteValueRuleType" and d is not True or c == "kRangeValueRuleType" and r is not True:
                    det.append("a list counts as %s without such a state" % c)
    if not n:
        S.ck.undecided(name, where(D.fn), "decided in some other way")
        return
    S.ck.ob(name, not det, where(D.fn), "; ".join(sorted(set(det))[:2]))


# -------------------------------------------------------------------------------------------------------------- rulebook
def lane_terms(facts, el, key="lane_id"):
    return {x for k2 in facts for x in find_terms(k2, lambda z: z[0] == "c" and z[1].endswith(("GetLane", "DoGetLane")) and norm(z[3]) == id_(Y(el, key)))}


def unknown_lane(el, key="lane_id"):
    return Fn(lambda ctx: next((v for k2, v in ctx.facts.items() if k2[0] == "null" and k2[1] in lane_terms([k2], el, key)), None), "the lane is unknown")


def outside(S, el, key="s_range", lane="lane_id"):
    """The given range leaves the lane."""
    def f(ctx):
        got = {x for k2 in ctx.facts for x in find_terms(k2, lambda z: z[0] == "yas" and z[1] == Y(el, key))}
        lanes = lane_terms(ctx.facts, el, lane)
        for g in got:
            s0, s1 = [x[1] if x[0] == "addr" else x for x in (S.E.getter(A + "SRange::" + m, g) for m in ("s0", "s1"))]
            for ln in lanes:
                r = decided(ctx, Or(Lt(s0, num(0)), Gt(s0, ("c", A + "Lane::length", ln)), Gt(s1, ("c", A + "Lane::length", ln))))
                if r is not None:
                    return r
        return None
    return Fn(f, "its range leaves the lane")


def rulebook(S):
    for fn, k in loaders(S, "maliput::LoadRoadRulebook{}", 3):
        ps = S.run(fn)
        if ps is None:
            continue
        v = fn["q"].rpartition("::")[2]
        D = Docs(S, fn, ps)
        rg, reg = P(fn, 0), P(fn, 2)
        node = at_root(S, "%s: document shape" % v, fn, ps, k, "RoadRulebook", extra=(Null(rg),))

        def rule(el, i, ctx):
            c = one(calls(i, "::ManualRulebook::AddRule"), "adding a rule")
            t = c.a[2][0]
            if not (t[0] == "c" and t[1].endswith(("::BuildDiscreteValueRule", "::BuildRangeValueRule"))):
                raise Unknown("the rule is built in some other way")
            if t[2] != reg:
                return "built by %s" % show(t[2])
            disc = t[1].endswith("BuildDiscreteValueRule")
            key = "values" if disc else "ranges"
            if decided(ctx, And(Def(Y(el, key)), Def(Y(el, "id")), Def(Y(el, "type")), Def(Y(el, "zone")))) is not True:
                return "built without its fields"
            rid, tid, zone, states = t[3:7]
            zl = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == Y(el, "zone")]
            sl = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == Y(el, key) and
                  pushes_cls(e.a[0], R + ("DiscreteValueRule::DiscreteValue" if disc else "RangeValueRule::Range"))]
            if not zl or not sl:
                return "built without its zone or states"

            req = ("value",) if disc else ("range", "description")
            looks = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == Y(el, key)]
            told = lambda l: l.full and l.complete and all(
                decided(Ctx(j.all_facts, j.events, S.F.enums), And(*[Def(Y(l.el, r)) for r in req])) is True and
                any(k2[0] in ("eq", "eqn") and v2 and ("size", l.el) in k2 for k2, v2 in j.facts.items()) for j in l.iters if j.sig in (None, "cont"))
            if not any(told(l) for l in looks):
                if any(k2[0] == "def" and k2[1] == Y(l.el, r) for l in looks for j in l.iters for k2 in j.facts for r in req):
                    return "some state may lack its %s or have other fields" % " or ".join(req)
                raise Unknown("the kind of a state is looked at in some other way")

            def by(ls, loc):
                return all(e.a[0] == loc for l in ls for j in l.iters if j.sig in (None, "cont") for e in pushes(j.events)
                           if e.a[0][0] == "loc")
            zt = norm(zone)
            if not (by(zl, zone[3] if zone[0] == "k" and len(zone) > 3 else zone)):
                return "another zone is used"
            if not by(sl, states):
                return "another list of states is used"
            return expect((rid, tid), (id_(Y(el, "id")), id_(Y(el, "type"))), ("id", "type"))
        D.each("%s: rules" % v, overs(node), lambda el: Or(Not(Kind(el, "IsMap")), Empty(el), Not(Def(Y(el, "id"))), Not(Def(Y(el, "type"))), Not(Def(Y(el, "zone"))),
                                                      Not(Kind(Y(el, "zone"), "IsSequence"))), rule, may=lambda el: True_)

        def zone(el, i, ctx):
            e, t = one(builds(i, A + "LaneSRange"), "adding a lane range")
            lanes = [k2[1] for k2 in i.all_facts if k2[0] == "null" and k2[1][0] == "c" and k2[1][1].endswith(("GetLane", "DoGetLane"))
                     and norm(k2[1][3]) == id_(Y(el, "lane_id"))]
            given = decided(ctx, Is(Y(el, "s_range")))
            if given is None:
                given = decided(ctx, Def(Y(el, "s_range")))
            if given is None or not lanes:
                raise Unknown("ranges are read in some other way")
            if decided(ctx, Null(lanes[0])) is not False:
                return "the lane may be unknown"

            def srange(x):
                s = as_(Y(el, "s_range"), A + "SRange")
                if given:
                    if norm(x) != s:
                        return "not the given one"
                    out = decided(ctx, outside(S, el))
                    return None if out is False else "its bounds are not checked" if out is None else "it may leave the lane"
                n = norm(x)
                return None if n[0] == "K" and n[2] == num(0) and n[3][0] == "c" and n[3][1].endswith("length") and n[3][2] == norm(lanes[0]) \
                    else "not the whole lane"
            return expect(t[3:], (id_(Y(el, "lane_id")), srange), ("lane", "range"))
        D.each("%s: zones" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "zone"), lambda el: Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "lane_id")))), zone,
               may=lambda el: Or(outside(S, el), unknown_lane(el), Null(rg)))
        disc_bad = lambda el: Or(Not(Kind(el, "IsMap")), And(Def(Y(el, "severity")), Lt(as_(Y(el, "severity"), "int"), num(0), ints=True)))
        states_of(D, "%s: discrete states" % v, R + "DiscreteValueRule::DiscreteValue", discrete_state(True), disc_bad, may=lambda el: Or(
            Not(Kind(Y(el, "related_rules"), "IsSequence")), Not(Kind(Y(el, "related_unique_ids"), "IsSequence")), Not(Def(Y(el, "value")))))
        states_of(D, "%s: range states" % v, R + "RangeValueRule::Range", range_state(True), lambda el: Or(Not(Kind(el, "IsMap")), range_bad(el)),
                  may=lambda el: Or(Not(Kind(Y(el, "related_rules"), "IsSequence")), Not(Kind(Y(el, "related_unique_ids"), "IsSequence"))))


KEYWORDS = ["Stop", "StopThenGo", "Go"]
STEPS = ("maliput::(anon)::LoadBulbStates", "maliput::(anon)::BuildNextPhases")


def phase_rings(S):
    rings(S, "maliput::LoadPhaseRingBook{}", True)


def phase_rings_old(S):
    rings(S, "maliput::LoadPhaseRingBook{}OldRules", False)


def phase_loop_of(i, el):
    return [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == Y(el, "Phases")]


def rings(S, q, new):
    E = S.engine(opaque=OPAQUE + STEPS)
    book = "GetDiscreteValueRule" if new else "GetRule"
    done = set()
    for fn, k in loaders(S, q):
        ps = S.run(fn, E)
        if ps is None:
            continue
        v = fn["q"].rpartition("::")[2]
        D = Docs(S, fn, ps)
        rb, tl = P(fn, 0), P(fn, 1)
        node = at_root(S, "%s: document shape" % v, fn, ps, k, "PhaseRings")
        rs = lambda el: Y(el, "RightOfWayRuleStates")

        def ring(el, i, ctx):
            c = one(calls(i, "::AddPhaseRing"), "adding a phase ring")
            t = c.a[2][0]
            if t[:2] != ("k", R + "PhaseRing"):
                raise Unknown("the ring is built in some other way")
            ls = phase_loop_of(i, el)
            if not ls:
                return "the phases are not read"
            locs = {e.a[0] for l in ls for j in l.iters for e, x in builds(j, R + "Phase")}
            if t[4] not in locs:
                return "built from other phases"
            nx = t[5] if len(t) > 5 else None
            if nx and nx[0] == "c" and nx[1] == STEPS[1] and tuple(nx[3:]) != (t[4], el):
                return "next phases come from %s" % show(nx)
            if nx is None or nx == NULL and not decided(ctx, Def(Y(el, "PhaseTransitionGraph"))) is False:
                return "next phases are not passed on"
            return expect((t[3],), (id_(Y(el, "ID")),), ("id",))
        D.each("%s: phase rings" % v, overs(node), lambda el: Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "ID"))), Not(Kind(Y(el, "Rules"), "IsSequence")),
                                                            Not(Def(Y(el, "Phases"))), Not(Kind(Y(el, "Phases"), "IsSequence"))), ring)

        def rule(el, i, ctx):
            w = id_(el)
            got = [tuple(norm(x) for x in e.a[2]) for e in i.events if e.k == "mut" and e.a[1] in ("insert", "set")] + \
                  [tuple(norm(x) for x in e.a[1:3]) for e in i.events if e.k == "insert_noop"]
            x = one(got, "keeping a rule")
            return None if x[0] == w and x[1][0] == "c" and x[1][1].endswith(book) and x[1][2] == rb and x[1][3] == w else "keeps %s" % show(x[1])
        D.each("%s: rules of a ring" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "Rules"), lambda el: None, rule)

        def fill(loops, loc):
            """The loop that gives every rule its default state in loc."""
            for l in loops:
                if any(norm_insert(e) and (e.a[0] == loc) for j in l.iters for e in j.events):
                    return l

        def phase(el, i, ctx):
            e, t = one(builds(i, R + "Phase"), "adding a phase")
            states = t[5] if new else t[4]
            bulbs = t[6] if len(t) > 6 else None
            if bulbs and bulbs[0] == "c" and bulbs[1] == STEPS[0] and tuple(bulbs[3:]) != (tl, el):
                return "bulb states come from %s" % show(bulbs)
            if bulbs is None or bulbs == NULL and decided(ctx, Def(Y(el, "TrafficLightStates"))) is not False:
                return "bulb states are not passed on"
            src = states
            loops = [x.a[0] for x in i.events if x.k == "loop"]
            f = fill(loops, src)
            if f is None and src[0] == "loc" and src in i.inits:
                o = i.inits[src]
                o = o[3] if o[0] == "k" and len(o) == 4 else o[1] if o[0] == "copyof" else o
                if o[0] == "loc" and not any(x.k == "mut" and x.a[0] == o for x in deep(i.events)):
                    f = True
            sets = [x for x in deep(i.events) if x.k == "mut" and x.a[0] == src and x.a[1] in ("set", "insert", "insert_or_assign")]
            if f is None:
                ov = [l for l in loops if l.over == rs(el)]
                if sets or any(x.k == "mut" and x.a[0] == src for l in ov for j in l.iters for x in j.events):
                    return "the states given for this phase stay for the phases after it"
            if f not in (None, True) and not (f.full and f.complete):
                return "not every rule gets its default state"
            return expect((t[3],), (id_(Y(el, "ID")),), ("id",))

        def phase_bad(el):
            n = rs(el)
            return Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "ID"))), *((And(Def(n), Not(Kind(n, "IsMap"))),) if new else (Not(Def(n)), Not(Kind(n, "IsMap")))))
        D.each("%s: phases start from the default states" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "Phases"), phase_bad, phase,
               may=lambda el: And(Def(rs(el)), Kind(rs(el), "IsMap"), Not(Empty(rs(el)))) if new else True_)

        def override(el, i, ctx):
            sets = [e for e in i.events if e.k == "mut" and e.a[1] in ("set", "insert", "insert_or_assign")]
            e = one(sets, "setting a state")
            kk, x = e.a[2]
            if norm(kk) != id_(("key", el)):
                return "sets the state of %s" % show(kk)
            if not new:
                return None if norm(x) == id_(("val", el)) else "sets %s" % show(x)
            if find_terms(x, lambda z: z[0] == "enddref"):
                return "takes a state although the rule has none of that value"
            if not (x[0] == "el" and x[1][0] == "f" or x[0] == "el"):
                if x[0] in ("front", "at") and (x[0] == "front" or x[2][0] == "n"):
                    return "takes a state whatever its value"
                raise Unknown("states are found in some other way")
            rule_of = find_terms(x[1], lambda z: z[0] == "at" and norm(z[2]) == id_(("key", el)))
            val = decided(ctx, Eq(S.E_value(x), None)) if False else [v2 for k2, v2 in i.all_facts.items() if k2[0] == "eq" and find_terms(k2, lambda z: z == x)
                                                                     and as_(("val", el), STR) in (norm(k2[1]), norm(k2[2]))]
            if not rule_of:
                return "takes a state of another rule"
            return None if val and val[-1] else "takes a state without that value"
        D.each("%s: states given in the document" % v, lambda o, f: o[0] == "y" and o[2] == ("s", "RightOfWayRuleStates"), lambda el: None, override,
               may=lambda el: True_)

        def default(l, facts):
            pass
        if new:
            defaults(S, D, v, lambda l: any(norm_insert(e) and norm_insert(e)[0] == ("key", l.el) and norm_insert(e)[1][0] == "el"
                                            for j in l.iters for e in j.events),
                     lambda x, facts: next((c[1] for k2, val in facts.items() if k2[0] == "eq" and val and find_terms(k2, lambda z: z == x)
                                            for c in k2[1:] if isinstance(c, tuple) and c[0] == "s"), None), KEYWORDS)
        else:
            defaults(S, D, v, lambda l: any(norm_insert(e) and norm_insert(e)[0] == ("key", l.el) and find_terms(norm_insert(e)[1], lambda z: z[0] == "el" and z != l.el)
                                            for j in l.iters for e in j.events),
                     lambda x, facts: next((c[1].rpartition("::k")[2] for k2, val in facts.items() if k2[0] == "eq" and val and find_terms(k2, lambda z: z == x)
                                            for c in k2[1:] if isinstance(c, tuple) and c[0] == "enum"), None), KEYWORDS)
        if fn["file"] not in done:
            done.add(fn["file"])
            steps(S, fn["file"])


def norm_insert(e):
    if e.k == "mut" and e.a[1] in ("insert", "set") and len(e.a[2]) == 2:
        return e.a[2]
    if e.k == "insert_noop":
        return e.a[1:3]


def defaults(S, D, v, is_fill, word_of, words):
    """Each rule's default is its first state of the first keyword that some state has."""
    det, n, unk = [], 0, None
    for l, facts in D.node_loops():
        if l.over[0] == "y" or not is_fill(l):
            continue
        for i in l.iters:
            if i.sig not in (None, "cont"):
                continue
            ins = [norm_insert(e) for e in i.events if norm_insert(e)]
            if len(ins) != 1:
                det.append("a rule gets %d default states" % len(ins))
                continue
            x = next(iter(find_terms(ins[0][1], lambda z: z[0] == "el" and z != l.el)), None)
            w = x and word_of(x, {**facts, **i.all_facts})
            if w is None:
                unk = "defaults are found in some other way"
                continue
            n += 1
            searches = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == x[1]]
            if w not in words:
                det.append("\"%s\" is taken as a default" % w)
            elif len(searches) != words.index(w) + 1:
                det.append("%s is preferred out of turn" % w)
            seen = {word_of(s.el, j.all_facts) for s in searches for j in s.iters} - {None}
            if seen - set(words[:words.index(w) + 1] if w in words else ()):
                det.append("%s is looked for before %s" % (", ".join(sorted(seen - {w})), w))
    name = "%s: default states prefer Stop, then StopThenGo, then Go" % v
    if unk and not det or not n:
        S.ck.undecided(name, where(D.fn), unk or "no defaults found")
        return
    S.ck.ob(name, not det, where(D.fn), "; ".join(sorted(set(det))[:2]))


def steps(S, file):
    v = file.rpartition("/")[2][:-3]
    for fn in S.F.fns_of(STEPS[0]):
        if fn["file"] != file:
            continue
        ps = S.run(fn)
        if ps is None:
            continue
        tl, node = P(fn, 0), Y(P(fn, 1), "TrafficLightStates")
        S.throws = None
        D = Docs(S, fn, ps)
        det = []
        for p in ps:
            d = decided(S.ctx(p), Def(node))
            if d is None or p.sig == "ret" and (p.val == NULL) == d:
                det.append("bulb states are given although absent, or the reverse")
        S.ck.ob("%s: bulb states are optional" % v, not det, where(fn), "; ".join(det[:1]))
        light = lambda el: ("c", R + "TrafficLightBook::GetTrafficLight", tl)
        found = lambda i, end, key: [k2[1] for k2 in i.all_facts if k2[0] == "null" and k2[1][0] == "c" and k2[1][1].endswith(end) and norm(k2[1][3]) == id_(("key", key))]

        def known(end, key, i, ctx):
            g = found(i, end, key)
            return None if g and decided(ctx, Null(g[0])) is False else "an unknown id is accepted"
        D.each("%s: traffic lights of a phase" % v, overs(node),
               lambda el: Or(Not(Def(("val", el))), Not(Kind(("val", el), "IsMap"))), lambda el, i, ctx: known("GetTrafficLight", el, i, ctx), may=lambda el: nulls("GetTrafficLight", el))
        D.each("%s: bulb groups of a phase" % v, lambda o, f: o[0] == "val" and o[1][0] == "el" and o[1][1] == node,
               lambda el: Or(Not(Def(("val", el))), Not(Kind(("val", el), "IsMap"))), lambda el, i, ctx: known("GetBulbGroup", el, i, ctx), may=lambda el: nulls("GetBulbGroup", el))
        D.each("%s: only known bulbs are named" % v, lambda o, f: o[0] == "val" and o[1][0] == "el" and o[1][1] != node, lambda el: None,
               lambda el, i, ctx: known("GetBulb", el, i, ctx), may=lambda el: nulls("GetBulb", el),
               need=lambda k: find_terms(k, lambda z: z[0] == "size" and z[1][0] == "val"))

        def bulb(el, i, ctx):
            sets = [norm_insert(e) for e in i.events if norm_insert(e)]
            kk, x = one(sets, "giving a bulb its state")
            if not (kk[0] == "c" and kk[1].endswith("unique_id") and kk[2] == el):
                return "the state goes to %s" % show(kk)
            nodes = [k2[1] for k2 in i.all_facts if k2[0] == "def" and k2[1][0] == "y" and find_terms(k2[1][2], lambda z: z == el)]
            if not nodes:
                return "the document is not looked at"
            given = decided(ctx, Def(nodes[0]))
            if given:
                return None if norm(x) == norm(as_(nodes[0], R + "BulbState")) else "the state is %s" % show(x)
            return None if x[0] == "c" and x[1].endswith("GetDefaultState") and x[2] == el else "the state is %s" % show(x)
        D.each("%s: bulbs take the given or their default state" % v, lambda o, f: o[0] == "c" and o[1].endswith("BulbGroup::bulbs"), lambda el: None, bulb)
    for fn in S.F.fns_of(STEPS[1]):
        if fn["file"] != file:
            continue
        ps = S.run(fn)
        if ps is None:
            continue
        phases, node = P(fn, 0), Y(P(fn, 1), "PhaseTransitionGraph")
        D = Docs(S, fn, ps)
        det = []
        for p in ps:
            d = decided(S.ctx(p), Def(node))
            if d is None or p.sig == "ret" and (p.val == NULL) == d:
                det.append("next phases are given although absent, or the reverse")
        S.ck.ob("%s: the transition graph is optional" % v, not det, where(fn), "; ".join(det[:1]))
        isphase = lambda i, ctx, w: any(k2[0] == "eq" and v2 and w in (norm(k2[1]), norm(k2[2])) and find_terms(k2, lambda z: z[0] == "el" and z[1] == phases)
                                        for k2, v2 in i.all_facts.items())

        def entry(el, i, ctx):
            ins = [norm_insert(e) for e in i.events if norm_insert(e)]
            kk, x = one(ins, "keeping the phases after a phase")
            if norm(kk) != id_(("key", el)):
                return "kept for %s" % show(kk)
            ls = [e.a[0] for e in i.events if e.k == "loop" and e.a[0].over == ("val", el)]
            if not ls or not all(e.a[0] == x for l in ls for j in l.iters for e in pushes(j.events)):
                return "another list is kept"
            return None if isphase(i, ctx, id_(("key", el))) else "an unknown phase is accepted"
        D.each("%s: transitions" % v, overs(node), lambda el: Not(Kind(("val", el), "IsSequence")), entry, may=lambda el: True_)

        def nxt(el, i, ctx):
            e, t = one(builds(i, R + "PhaseRing::NextPhase"), "adding a next phase")
            args = [v2 for f_, v2 in t[2]] if t[0] == "agg" else t[3:]
            d = decided(ctx, Def(Y(el, "duration_until")))
            if d is None:
                return "the duration is not looked at"
            if not isphase(i, ctx, id_(Y(el, "ID"))):
                return "an unknown next phase is accepted"
            return expect(args, (id_(Y(el, "ID")), as_(Y(el, "duration_until"), "double") if d else NULL), ("id", "duration"))
        D.each("%s: next phases" % v, lambda o, f: o[0] == "val" and o[1][0] == "el" and o[1][1] == node,
               lambda el: Or(Not(Kind(el, "IsMap")), Not(Def(Y(el, "ID")))), nxt, may=lambda el: True_)


def nulls(end, el):
    def f(ctx):
        return True if any(k[0] == "null" and v and k[1][0] == "c" and k[1][1].endswith(end) and norm(k[1][3]) == id_(("key", el))
                           for k, v in ctx.facts.items()) else None
    return Fn(f, "the id is unknown")


# ----------------------------------------------------------------------------------------------------------- intersections
def intersections(S):
    for fn, k in loaders(S, "maliput::LoadIntersectionBook{}"):
        ps = S.run(fn)
        if ps is None:
            continue
        v = fn["q"].rpartition("::")[2]
        D = Docs(S, fn, ps)
        node = at_root(S, "%s: document shape" % v, fn, ps, k, "Intersections", optional=True)
        types = [p["t"] for p in fn["params"]]
        by = lambda frag: P(fn, next(j for j, t in enumerate(types) if frag in t))
        rb, prb, geo, pp = by("RoadRulebook"), by("PhaseRingBook"), by("RoadGeometry"), by("PhaseProvider")

        def inter(el, i, ctx):
            c = one(calls(i, "::AddIntersection"), "adding an intersection")
            t = c.a[2][0]
            t = t[3] if t[0] == "k" and t[1].startswith("std::unique_ptr") and len(t) == 4 else t
            if t[:2] != ("k", "maliput::Intersection"):
                raise Unknown("the intersection is built in some other way")
            ringq = next((x for k2 in i.all_facts for x in find_terms(k2, lambda z: z[0] == "c" and z[1].endswith("GetPhaseRing"))), None)
            if ringq is None or ringq[2] != prb or norm(ringq[3]) != id_(Y(el, "PhaseRing")):
                return "the phase ring is %s" % (show(ringq) if ringq else "not looked up")
            if decided(ctx, Null(ringq)) is not False:
                return "an unknown phase ring is accepted"
            phases = S.E.getter(R + "PhaseRing::phases", ringq)
            nexts = S.E.getter(R + "PhaseRing::next_phases", ringq)
            phases, nexts = [x[1] if x[0] == "addr" else x for x in (phases, nexts)]
            init = id_(Y(el, "InitialPhase"))
            if not any(k2[0] == "has" and v2 and k2[1] in (phases, nexts) and norm(k2[2]) == init for k2, v2 in i.all_facts.items()):
                return "an unknown initial phase is accepted"
            a, s = calls(i, "::ManualPhaseProvider::AddPhaseRing"), calls(i, "::ManualPhaseProvider::SetPhase")
            e = one(a + s, "setting the initial phase")
            if e.a[1] != pp:
                return "the phase goes to %s" % show(e.a[1])
            known = [v2 for k2, v2 in i.all_facts.items() if k2[0] == "null" and k2[1][0] == "c" and k2[1][1].endswith("GetPhase") and norm(k2[1][3]) == id_(Y(el, "PhaseRing"))]
            if not known:
                return "whether the provider knows the ring is not looked at"
            if known[-1] != bool(a):
                return "a known ring is added again" if a else "an unknown ring is set"
            lst = [k2 for k2 in i.all_facts if k2[0] == "empty" and find_terms(k2[1], lambda z: z == nexts)] or \
                [k2 for k2 in i.all_facts if find_terms(k2, lambda z: z[0] == "size" and find_terms(z, lambda y: y == nexts))]
            r, ph, np_, du = e.a[2][:4]
            if norm(r) != id_(Y(el, "PhaseRing")) or norm(ph) != init:
                return "sets %s of %s" % (show(ph), show(r))
            first = find_terms((np_, du), lambda z: z[0] == "at" and find_terms(z[1], lambda y: y == nexts)) + \
                find_terms((np_, du), lambda z: z[0] in ("at", "front") and z[1][0] == "at" and z[1][1] == nexts)
            if np_ == NULL and du == NULL:
                if not any(k2[0] == "empty" and v2 for k2, v2 in i.all_facts.items() if k2 in lst):
                    return "the next phase is dropped"
            else:
                f0 = lambda x, n: x[0] == "f" and x[2].endswith("NextPhase::" + n) and (x[1][0] == "front" or x[1][0] == "at" and x[1][2] == num(0))
                strip = lambda x: x[3] if x[0] == "k" and len(x) == 4 else x
                if not (f0(strip(np_), "id") and f0(strip(du), "duration_until")):
                    return "the next phase is %s until %s" % (show(np_)[-80:], show(du)[-80:])
            if norm(t[3]) != id_(Y(el, "ID")):
                return "the id is %s" % show(t[3])
            if t[5] not in (ringq, ("deref", ringq), ("get", ringq)) or t[6] != pp:
                return "built from another ring or provider"
            return region(el, i, t[4], phases)

        def region(el, i, loc, phases):
            fills = {}
            for e in i.events:
                if e.k == "loop":
                    for j in e.a[0].iters:
                        for e2 in j.events:
                            if e2.k == "loop":
                                for m in e2.a[0].iters:
                                    if m.sig in (None, "cont") and not pushes(m.events) and e2.a[0].over[0] == "f" and e2.a[0].over[2].endswith("ranges_"):
                                        raise Bad("some range of a zone is left out")
                                    for x in pushes(m.events):
                                        fills.setdefault(x.a[0], []).append((e.a[0], e2.a[0].over, x.a[2][0] == e2.a[0].el, x.a[2][0], e2.a[0].full and e2.a[0].complete))
                            elif e2.k == "mut" and e2.a[1] == "append" and j.sig in (None, "cont"):
                                fills.setdefault(e2.a[0], []).append((e.a[0], e2.a[2][0], True, None, True))
            if not fills:
                raise Unknown("the region is collected in some other way")
            names = []
            for tgt, fs in fills.items():
                for l, over, same_, what, full in fs:
                    rules = find_terms(over, lambda z: z[0] == "c" and z[1].endswith(("GetDiscreteValueRule", "::GetRule")))
                    if not rules:
                        raise Unknown("zones are read in some other way")
                    if rules[0][2] != rb or rules[0][3] != ("key", l.el):
                        return "the region comes from another rule"
                    if not same_:
                        return "the region holds %s" % show(what)
                    if not (l.full and l.complete and full):
                        return "part of the region is missing"
                    names.append((tgt, rules[0][1].endswith("GetDiscreteValueRule")))
            empties = {k2[1]: v2 for k2, v2 in i.all_facts.items() if k2[0] == "empty"}
            new = {t for t, d in names if d}
            if (loc, True) in names and (loc, False) not in names:
                if any(empties.get(t) is not False for t in new):
                    return "the region of the deprecated rules is not used although no other is known"
            elif (loc, False) in names and (loc, True) not in names:
                if any(empties.get(t) is not True for t in new):
                    return "the region of the deprecated rules is used although another is known"
            return None
        D.each("%s: intersections" % v, overs(node),
               lambda el: Or(Not(Kind(el, "IsMap")), *[Not(Def(Y(el, n))) for n in ("ID", "PhaseRing", "InitialPhase")]), inter, may=lambda el: True_)
        S.each_path("%s: the book is for the given road geometry" % v, fn,
                    lambda p: None if norm(p.val) in (("K", "maliput::IntersectionBook", geo),) else "returns %s" % show(p.val))
