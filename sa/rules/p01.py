"""P01: every registry rejects an id it already holds, registers exactly what it was given otherwise, and walks cover all."""
from rules.common import *

FLOOR = 40
EXPLANATION = ("Every registering entry point of maliput is enumerated path by path by an abstract interpreter over clang's AST; "
               "the container each one must use is discovered from the matching public lookup. A path that rejects must have "
               "established the duplicate (or null/invalid) condition on the state at entry, a path that accepts must have "
               "excluded it and must perform the insertion of that very id and object and no other change.")
ASSUMPTIONS = ["std containers behave as specified (map/unordered_map/set insertion models)",
               "equality of ids is equality of their strings (TypeSpecificIdentifier, checked by P14)"]


def dup_items(vals):
    """Some item of vals occurs more than once (count==1 idiom, or failed insertion in a local set)."""
    def f(el):
        def g(ctx):
            r = None
            for a, v in ctx.facts.items():
                if a[0] == "eqn" and a[1][0] == "cnt" and a[1][1] == vals and a[2] == 1:
                    r = (not v) if r is None or v is False else r
                if a[0] in ("lt", "gt") and a[1][0] == "cnt" and a[1][1] == vals:
                    if a[0] == "gt" and a[2] == 1:
                        r = v
                    if a[0] == "lt" and a[2] == 2:
                        r = not v
                if a[0] == "has" and a[1][0] == "loc" and el == a[2]:
                    r = v
            for e in ctx.events:
                if e.k == "insert_noop" and e.a[0][0] in ("loc", "hv") and e.a[1] == el:
                    return True
                if e.k == "mut" and e.a[0][0] in ("loc", "hv") and e.a[1] == "insert" and e.a[2][0] == el:
                    return False
            return r
        return Fn(g, "occurs more than once")
    return Ex(vals, f, "values")


def inserted(p, M, K, V):
    for e, t, op, args in muts(p, deep=True):
        if t == M and op in ("insert", "set") and args and args[0] == K:
            if V is None or (len(args) > 1 and (args[1] == V or (callable(V) and V(args[1])))):
                return True
    return False


def add_contract(S, name, fn, maps, key, value=None, extra_bad=None, own=None, others=(), **kw):
    """fn(item) throws iff key already in one of maps (or extra_bad); otherwise inserts key->value in maps[0] only."""
    bad = Or(*([Has(m, key) for m in maps] + ([extra_bad] if extra_bad is not None else [])))
    ps = S.throws_iff(name + ": rejects exactly the duplicates", fn, bad, **kw)
    if ps is None:
        return
    M = own or maps[0]

    def stored(p):
        if not inserted(p, M, key, value):
            return "does not store the item under its id in %s" % show(M)
        for e, t, op, args in muts(p):
            if t == M and not (op in ("insert", "set") and args and args[0] == key):
                return "also changes %s by %s" % (show(t), op)
            if t in maps and t != M:
                return "changes the other registry %s" % show(t)
            if op == "set" and t == M and holds(Ctx(e.facts, [], None), Has(M, key)) is not False:
                return "overwrites an existing entry of %s" % show(M)
    S.each_path(name + ": stores the item under its id", fn, stored, **kw)


def run(ck):
    F = ck.F
    ck.rule("R1", "throws_iff(duplicate at entry) for every registering function")
    ck.rule("R2", "accepting paths insert exactly (id, item) into the container the public lookup reads")
    ck.rule("R3", "WalkAndAddAll reaches every junction, segment, lane and branch point")
    S = Spec(ck)
    A = "maliput::api::"

    # -- BasicIdIndex
    q = A + "BasicIdIndex::"
    regs = {}
    for what in ("Lane", "Segment", "Junction", "BranchPoint"):
        get = F.fn(q + "DoGet" + what, 1)
        ms = S.registry_of(get)
        ck.ob("BasicIdIndex.Get%s reads one container" % what, len(ms) == 1, where(get), "containers: %s" % [show(m) for m in ms])
        if len(ms) != 1:
            continue
        regs[what] = ms[0]
        fn = F.fn(q + "Add" + what, 1)
        item = P(fn, 0)
        key = S.E.getter(A + what + "::id", item)
        add_contract(S, "BasicIdIndex.Add" + what, fn, ms, key, item)
    ck.ob("BasicIdIndex containers distinct", len(set(regs.values())) == len(regs) == 4, where(get))
    walk = F.fn(q + "WalkAndAddAll", 1)
    rg = P(walk, 0)
    ps = S.run(walk) or []

    def covered(trace, target, want, depth, outer):
        """Every run of trace inserts, for each element of `depth` nested full loops, into target."""
        for e in trace:
            if depth == 0 and e.k == "mut" and e.a[0] == target and e.a[1] in ("insert", "set") and want(outer, e.a[2]):
                return True
            if e.k == "loop" and depth > 0:
                l = e.a[0]
                lvl = want(outer, None, l.over)
                if not (l.full and l.complete and lvl):
                    continue
                its = [i for i in l.iters if i.sig in (None, "cont")]
                if its and all(covered(i.events, target, want, depth - 1, outer + [l.el]) for i in its):
                    return True
        return False

    def call(q_, recv, *a):
        return ("c", q_, recv) + a

    def lvls(names):
        """Loop bounds and element terms of the nested walk."""
        def want(outer, args, over=None):
            recv = rg
            for (cnt, item), el in zip(names, outer):
                recv = S.E.getter(item, recv, el)
            i = len(outer)
            if over is not None:
                n = S.E.getter(names[i][0], recv)
                return over == ("range", num(0), n)
            return len(args) > 1 and args[1] == recv and i == len(names)
        return want
    J = (A + "RoadGeometry::num_junctions", A + "RoadGeometry::junction")
    Sg = (A + "Junction::num_segments", A + "Junction::segment")
    L = (A + "Segment::num_lanes", A + "Segment::lane")
    B = (A + "RoadGeometry::num_branch_points", A + "RoadGeometry::branch_point")
    for what, names in (("Junction", [J]), ("Segment", [J, Sg]), ("Lane", [J, Sg, L]), ("BranchPoint", [B])):
        if what not in regs:
            continue
        bad = [p for p in ps if p.sig == "ret" and not covered(p.trace, regs[what], lvls(names), len(names), [])]
        ck.ob("BasicIdIndex.WalkAndAddAll covers every " + what, ps and not bad and any(p.sig == "ret" for p in ps), where(walk),
              "a path does not register every %s: %s" % (what, show_facts(bad[0].facts) if bad else ""))

    # -- RuleRegistry
    q = A + "rules::RuleRegistry::"
    get = F.fn(q + "GetPossibleStatesOfRuleType", 1)
    ms = S.registry_of(get)
    ck.ob("RuleRegistry lookup reads both kinds", len(ms) == 2, where(get), "containers: %s" % [show(m) for m in ms])
    kinds = {"RegisterDiscreteValueRule": q + "DiscreteValueRuleTypes", "RegisterRangeValueRule": q + "RangeValueRuleTypes"}
    own = []
    for n in kinds:
        fn = F.fn(q + n, 2)
        key, vals = P(fn, 0), P(fn, 1)
        tgt = [t for p in (S.run(fn) or []) if p.sig == "ret" for e, t, op, a in muts(p)]
        m = [x for x in ms if x in tgt]
        ck.ob("RuleRegistry.%s uses a looked-up container" % n, len(set(m)) == 1, where(fn))
        if not m:
            continue
        own.append(m[0])
        add_contract(S, "RuleRegistry." + n, fn, ms, key, vals, Or(Empty(vals), dup_items(vals)), own=m[0])
    ck.ob("RuleRegistry kinds use distinct containers", len(set(own)) == 2, where(get))
    for n, idx in (("RangeValueRuleTypes", 1), ("DiscreteValueRuleTypes", 0)):
        fn = F.fn(q + n, 0)
        if len(own) == 2:
            v = S.E.getter(q + n, THIS)
            ck.ob("RuleRegistry.%s exposes the registered kind" % n, v == own[idx], where(fn), show(v))

    # -- ManualRulebook
    q = "maliput::ManualRulebook::"
    R = A + "rules::"
    rb = {}
    for kind in ("RightOfWayRule", "SpeedLimitRule", "DirectionUsageRule"):
        get = F.fn(q + "DoGetRule", ptypes=[kind])
        rb[kind] = S.registry_of(get)
    for kind, g in (("DiscreteValueRule", "DoGetDiscreteValueRule"), ("RangeValueRule", "DoGetRangeValueRule")):
        rb[kind] = S.registry_of(F.fn(q + g, 1))
    ck.ob("ManualRulebook keeps five distinct registries", len({m[0] for m in rb.values() if len(m) == 1}) == 5,
          where(get), str({k: [show(m) for m in v] for k, v in rb.items()}))
    for kind, ms in rb.items():
        if len(ms) != 1:
            continue
        fn = F.fn(q + "AddRule", ptypes=["::" + kind])
        rule = P(fn, 0)
        idq = (R + "Rule::id") if kind in ("DiscreteValueRule", "RangeValueRule") else R + kind + "::id"
        key = S.E.getter(idq, rule)
        maps = ms
        if kind in ("DiscreteValueRule", "RangeValueRule"):
            maps = [ms[0]] + rb["RangeValueRule" if kind == "DiscreteValueRule" else "DiscreteValueRule"]
        add_contract(S, "ManualRulebook.AddRule(%s)" % kind, fn, maps, key, rule)

    # -- books
    for cls, add, get, item in (("TrafficLightBook", "AddTrafficLight", "DoGetTrafficLight", "rules::TrafficLight"),
                                ("IntersectionBook", "AddIntersection", "DoGetIntersection", "Intersection")):
        q = "maliput::%s::" % cls
        ms = S.registry_of(F.fn(q + get, 1))
        fn = F.fn(q + add, 1)
        t = P(fn, 0)
        key = S.E.getter(A + item + "::id", t)
        ck.ob("%s lookup reads one container" % cls, len(ms) == 1, where(fn))
        if ms:
            add_contract(S, "%s.%s" % (cls, add), fn, ms, key, t, Null(t))
    q = "maliput::ManualPhaseRingBook::"
    ms = S.registry_of(F.fn(q + "DoGetPhaseRing", 1))
    rules_get = F.fn(q + "DoFindPhaseRing", ptypes=["<maliput::api::rules::Rule>"])
    row_get = F.fn(q + "DoFindPhaseRing", ptypes=["<maliput::api::rules::RightOfWayRule>"])
    fn = F.fn(q + "AddPhaseRing", 1)
    ring = P(fn, 0)
    key = S.E.getter(R + "PhaseRing::id", ring)
    rm, wm = lookup_sets(S, rules_get), lookup_sets(S, row_get)
    ck.ob("ManualPhaseRingBook lookups by rule use their own containers", len(rm) >= 1 and len(wm) >= 1 and not set(rm) & set(wm),
          where(rules_get), "%s / %s" % ([show(x) for x in rm], [show(x) for x in wm]))
    ph = S.E.getter(R + "PhaseRing::phases", ring)

    def ring_rules(getter):
        """Containers of rule states of the phases of `ring`."""
        field = S.E.getter(getter, ("p", 99, "x"))[2]
        return lambda over: over[0] == "f" and over[2] == field and mentions(over, ph)

    if ms:
        add_contract(S, "ManualPhaseRingBook.AddPhaseRing", fn, ms, key, ring, Or(
            Ex(ring_rules(R + "Phase::discrete_value_rule_states"), lambda el: Or(*[Has(m, ("key", el)) for m in rm]), "rules of the ring"),
            Ex(ring_rules(R + "Phase::rule_states"), lambda el: Or(*[Has(m, ("key", el)) for m in wm]), "right-of-way rules of the ring")))

        def linked(p):
            for maps, g in ((rm, R + "Phase::discrete_value_rule_states"), (wm, R + "Phase::rule_states")):
                sel = ring_rules(g)
                good = False
                for e in p.events("loop"):
                    l = e.a[0]
                    if not (sel(l.over) and l.full and l.complete):
                        continue
                    its = [i for i in l.iters if i.sig in (None, "cont")]
                    if its and all(any(x.k == "mut" and x.a[0] in maps and x.a[1] in ("insert", "set") and
                                       x.a[2] == (("key", l.el), key) for x in i.events) or
                                   any(x.k == "insert_noop" and x.a[0] in maps and x.a[1] == ("key", l.el) for x in i.events)
                                   for i in its):
                        good = True
                if not good and not any(decide(p.facts, a) for a in p.facts if a[0] == "empty" and sel(a[1])):
                    return "does not link every rule of the ring (%s) to the ring id" % g
            return None
        S.each_path("ManualPhaseRingBook.AddPhaseRing: links every rule of the ring to it", fn, linked)

    q = "maliput::ManualPhaseProvider::"
    ms = S.registry_of(F.fn(q + "DoGetPhase", 1))
    fn = F.fn(q + "AddPhaseRing", 4)
    key, nxt, dur = P(fn, 0), P(fn, 2), P(fn, 3)
    ck.ob("ManualPhaseProvider lookup reads one container", len(ms) == 1, where(fn))
    if ms:
        add_contract(S, "ManualPhaseProvider.AddPhaseRing", fn, ms, key, None, And(NotNull(dur), Null(nxt)))
    S.done()


def lookup_sets(S, fn):
    """Containers searched with the parameter of fn."""
    out = []
    for p in S.run(fn) or []:
        for a in p.facts:
            if a[0] == "has" and a[2] == P(fn, 0) and a[1] not in out:
                out.append(a[1])
    return out
