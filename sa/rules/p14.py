"""P14: rule state and phase providers report the states that were set or that the current phase assigns."""
from rules.common import *

FLOOR = 46
EXPLANATION = ("Every path of SetState, AddState, SetPhase, AddPhaseRing, GetState and GetPhase of the providers, and of the functions "
               "that populate default providers and filter rules, is enumerated: a state is accepted exactly when the rulebook's rule "
               "declares it (and its successor, with a positive duration) and is recorded unchanged under its id; phase based providers "
               "read the state the current phase of the rule's ring assigns to that rule; look-ups by position choose among exactly the "
               "rules of the requested type whose zone intersects the position within the tolerance.")
ASSUMPTIONS = ["std containers, std::function and std::find behave as specified",
               "LaneSRoute::Intersects decides zone membership (covered by P10)"]
A = "maliput::api::"
R = A + "rules::"
B = "maliput::"


def value(t, state, nstate=None, dur=None):
    """t is a provider result with this state and successor."""
    d = agg(t)
    if d.get("state") != state:
        return False
    n = d.get("next")
    if nstate is None:
        return n is None or n == NULL
    nd = agg(n)
    return nd.get("state") == nstate and nd.get("duration_until") == dur


def run(ck):
    F = ck.F
    ck.rule("R1", "a state is accepted exactly when the rule declares it and its successor; it is recorded unchanged under its id")
    ck.rule("R2", "GetState/GetPhase report what was recorded, or what the current phase assigns to the rule")
    ck.rule("R3", "look-ups by position use exactly the rules of that type whose zone intersects the position within the tolerance")
    ck.rule("R4", "default providers give every rule its first state and every ring a phase and a successor of it")
    S = Spec(ck)
    g = S.E.getter

    def set_only(name, fn, rec, k, ok, ops=("set", "insert")):
        def one(p):
            m = whole(F, [(t, op, a) for e, t, op, a in muts(p)])
            if len(m) != 1 or m[0][0] != rec or m[0][1] not in ops or m[0][2][0] != k:
                return "changes %s" % ", ".join("%s.%s" % (show(t), op) for t, op, a in m)
            return None if ok(p, m[0][2][1]) else "records %s" % show(m[0][2][1])
        S.each_path(name, fn, one)

    def next_ok(p, v, st, nst, dur):
        c = S.ctx(p)
        if holds(c, Null(nst)) is True:
            return value(v, st)
        if holds(c, NotNull(nst)) is True:
            if value(v, st, nst, dur):
                return True
            return holds(c, Null(dur)) is True and value(v, st, nst, NULL)
        return False

    # manual providers of rule states
    recs = {}
    for kind, get in (("Discrete", "GetDiscreteValueRule"), ("Range", "GetRangeValueRule")):
        cls = B + "Manual%sValueRuleStateProvider" % kind
        fn = F.fn(cls + "::SetState", 4)
        i, st, nst, dur = (P(fn, k) for k in range(4))
        gid = F.fn(cls + "::DoGetState", 1)
        reg = S.registry_of(gid)
        ck.ob("Manual%s.GetState: reads one record" % kind, len(reg) == 1, where(gid), "%d" % len(reg))
        if len(reg) != 1:
            continue
        rec = recs[kind] = reg[0]
        lookup(S, "Manual%s.GetState(id): the recorded state" % kind, gid, rec, "null")
        book = None
        for p in S.run(fn) or []:
            for e in p.events("call"):
                if e.a[0].endswith("Do" + get) and e.a[2] == (i,):
                    book = e.a[4] if len(e.a) > 4 else None
        ck.ob("Manual%s.SetState: consults the rulebook for that rule" % kind, book is not None, where(fn))
        if book is None:
            continue
        states = subst(g(R + "%sValueRule::states" % kind, THIS), {THIS: book})
        if states[0] == "addr":
            states = states[1]
        S.throws_iff("Manual%s.SetState: only states and successors the rule declares, durations positive" % kind, fn,
                     Or(Not(Has(states, st)), And(NotNull(nst), Not(Has(states, nst))),
                        And(NotNull(nst), NotNull(dur), Le(dur, num(0))), And(Null(nst), NotNull(dur))))
        set_only("Manual%s.SetState: records exactly the given state under the rule" % kind, fn, rec, i,
                 lambda p, v, st=st, nst=nst, dur=dur: next_ok(p, v, st, nst, dur))
        ctor = F.fn(cls + "::" + cls.rpartition("::")[2], 1)
        S.throws_iff("Manual%s: rejects a missing rulebook" % kind, ctor, Null(P(ctor, 0)))
        bookfld = book[2]
        stores(S, "Manual%s: keeps the given rulebook" % kind, ctor, bookfld, 0)

        # by position
        qs = [(cls, recs[kind], None)]
        if kind == "Discrete":
            qs.append((B + "PhasedDiscreteRuleStateProvider", rec, B + "PhasedDiscreteRuleStateProvider"))
        short = "%s_value_rules" % kind.lower()
        for c, rec_, phased in qs:
            fn = F.fn(c + "::DoGetState", 3)
            pos, ty, tol = (P(fn, k) for k in range(3))
            nm = "%s.GetState(position)" % c.replace(B, "")
            E = S.engine(opaque=(A + "LaneSRoute::Intersects",) + ((R + "PhaseRingBook::FindPhaseRing",) if phased else ()),
                         mute_text=True)
            src = ("f", ("c", R + "RoadRulebook::DoRules", bookfld), R + "RoadRulebook::QueryResults::" + short)
            tid, zone = (lambda v: subst(g(R + "Rule::type_id", THIS), {THIS: v})), (lambda v: subst(g(R + "Rule::zone", THIS), {THIS: v}))

            def near(v, pos=pos, tol=tol, zone=zone):
                def f(c):
                    r = None
                    for a, t in c.facts.items():
                        if a[0] == "t" and a[1][0] == "c" and a[1][1] == A + "LaneSRoute::Intersects" and a[1][2] == zone(v):
                            x = a[1]
                            if x[4] != tol or not at_position(x[3], pos):
                                continue
                            r = t
                    return r
                return Fn(f, "the zone intersects the position within the tolerance")

            def at_position(t, pos):
                s = g(A + "LanePosition::s", ("f", pos, A + "RoadPosition::pos"))
                lid = ("c", A + "Lane::do_id", ("f", pos, A + "RoadPosition::lane"))
                if not (t[0] == "k" and t[1] == A + "LaneSRoute"):
                    return False
                rs = t[3]
                if not (rs[0] == "list" and len(rs) == 2):
                    return False
                r = rs[1]
                if not (r[0] == "k" and r[1] == A + "LaneSRange" and r[3] == lid):
                    return False
                sr = r[4]
                return sr[0] == "k" and sr[1] == A + "SRange" and sr[3] == s and sr[4] == s
            conds = [lambda v: Eq(tid(v), ty), near]
            S.throws_iff(nm + ": rejects negative tolerances", fn, Lt(tol, num(0)), E,
                         may=Fn(lambda c: True, "the chosen rule has no state"))

            def found(p, src=src, conds=conds, rec_=rec_, phased=phased):
                Cs = {t[1] for t in find_terms(("x", p.val, tuple(p.facts)), lambda x: x[0] == "at" and x[2] == num(0))
                      if t[1][0] in ("loc", "c", "f", "copyof")}
                Cs = {C for C in Cs | {a[1] for a in p.facts if a[0] == "empty"} if C[0] in ("loc", "copyof") or C == src}
                if len(Cs) != 1:
                    if any(e.a[0].over == src for e in p.events("loop")):
                        raise Unknown("chooses while iterating the rules")
                    return "reads %d candidate sets" % len(Cs)
                C = Cs.pop()
                bad = filtered(p, C, src, conds, F.enums)
                if bad:
                    return bad
                if holds(S.ctx(p), Empty(C)) is True:
                    return None if p.val == NULL else "returns %s without any such rule" % show(p.val)
                first = ("fst", ("at", C, num(0)))
                if phased:
                    return None if mentions(p.val, first) or p.val == NULL else "returns %s" % show(p.val)
                return None if p.val == ("at", rec_, first) else "returns %s" % show(p.val)
            S.each_path(nm + ": state of a rule of that type whose zone contains the position", fn, found, E, need=2)

    # phase based providers
    for cls, states, fall in (("PhasedDiscreteRuleStateProvider", "discrete_value_rule_states", "Discrete"),
                              ("PhaseBasedRightOfWayRuleStateProvider", "rule_states", None)):
        fn = F.fn(B + cls + "::DoGetState", 1)
        rid = P(fn, 0)
        ctor = F.fn(B + cls + "::" + cls, 3 if fall else 2)
        E = S.engine(opaque=(R + "PhaseRingBook::FindPhaseRing", R + "PhaseProvider::GetPhase"))
        ring = phase = None
        for p in S.run(fn, E) or []:
            for e in p.events("call"):
                if e.a[0].endswith("PhaseRingBook::FindPhaseRing") and e.a[2] == (rid,):
                    ring = e.a[4]
                if e.a[0].endswith("PhaseProvider::GetPhase") and ring and e.a[2] == (subst(g(R + "PhaseRing::id", THIS), {THIS: ring}),):
                    phase = e.a[4]
        ck.ob("%s.GetState: asks for the ring of the rule and the phase of that ring" % cls, bool(ring and phase), where(fn))
        if not (ring and phase):
            continue
        for i, fld in enumerate((ring[2], phase[2])):
            stores(S, "%s: keeps the given %s" % (cls, ("book", "phase provider")[i]), ctor, fld, i + (1 if fall else 0))
        S.throws_iff("%s: rejects missing collaborators" % cls, ctor, Or(*[Null(P(ctor, i)) for i in range(len(ctor["params"]))]))
        phases = subst(g(R + "PhaseRing::phases", THIS), {THIS: ring})
        phases = phases[1] if phases[0] == "addr" else phases
        cur = ("f", phase, R + "StateProviderResult::state")
        nxt = ("f", phase, R + "StateProviderResult::next")
        ns, nd = (("f", nxt, R + "StateProviderResult::Next::" + n) for n in ("state", "duration_until"))

        def st(ph, states=states, phases=phases):
            t = subst(g(R + "Phase::" + states, THIS), {THIS: ("at", phases, ph)})
            return t[1] if t[0] == "addr" else t

        def by_phase(v, c, st=st, rid=rid, cur=cur, nxt=nxt, ns=ns, nd=nd):
            if holds(c, Null(nxt)) is True:
                return value(v, ("at", st(cur), rid))
            return holds(c, NotNull(nxt)) is True and value(v, ("at", st(cur), rid), ("at", st(ns), rid), nd)
        none = Or(Null(ring), Null(phase))
        if fall:
            rec = recs.get("Discrete")
            cases = [(And(none, Not(Has(rec, rid))), NULL), (none, ("at", rec, rid)), (Not(none), by_phase)]
        else:
            cases = [(none, NULL), (Not(none), by_phase)]
        S.returns("%s.GetState: the state the current phase gives the rule" % cls, fn, cases, E, throws=None)
        S.throws_iff("%s.GetState: fails only for inconsistent phases" % cls, fn,
                     And(Not(none), Or(Not(Has(phases, cur)), Not(Has(st(cur), rid)),
                                       And(NotNull(nxt), Or(Not(Has(phases, ns)), Not(Has(st(ns), rid)))))), E)

    # right of way states and phases set by hand
    cls = B + "ManualRightOfWayRuleStateProvider"
    fn = F.fn(cls + "::DoGetState", 1)
    reg = S.registry_of(fn)
    ck.ob("ManualRightOfWay.GetState: reads one record", len(reg) == 1, where(fn))
    if reg:
        rec = reg[0]
        S.returns("ManualRightOfWay.GetState: the recorded state, no successor", fn, [
            (Not(Has(rec, P(fn, 0))), NULL), (Has(rec, P(fn, 0)), lambda v, c, k=P(fn, 0): value(v, ("at", rec, k)))])
        add, sts = F.fn(cls + "::AddState", 2), F.fn(cls + "::SetState", 2)
        S.throws_iff("ManualRightOfWay.AddState: once per rule", add, Has(rec, P(add, 0)), exc="logic_error")
        set_only("ManualRightOfWay.AddState: records exactly the given state", add, rec, P(add, 0), lambda p, v: v == P(add, 1))
        S.throws_iff("ManualRightOfWay.SetState: only known rules", sts, Not(Has(rec, P(sts, 0))))
        set_only("ManualRightOfWay.SetState: records exactly the given state", sts, rec, P(sts, 0), lambda p, v: v == P(sts, 1),
                 ("set",))
    cls = B + "ManualPhaseProvider"
    fn = F.fn(cls + "::DoGetPhase", 1)
    reg = S.registry_of(fn)
    ck.ob("ManualPhaseProvider.GetPhase: reads one record", len(reg) == 1, where(fn))
    if reg:
        rec = reg[0]
        lookup(S, "ManualPhaseProvider.GetPhase: the recorded phase", fn, rec, "null")
        for n, bad in (("AddPhaseRing", lambda k: Has(rec, k)), ("SetPhase", lambda k: Not(Has(rec, k)))):
            fn = F.fn(cls + "::" + n, 4)
            k, ph, np, du = (P(fn, i) for i in range(4))
            S.throws_iff("ManualPhaseProvider.%s: rejects %s rings and durations without successor" % (
                n, "repeated" if n[0] == "A" else "unknown"), fn, Or(bad(k), And(NotNull(du), Null(np))))
            set_only("ManualPhaseProvider.%s: records exactly the given phase and successor" % n, fn, rec, k,
                     lambda p, v, ph=ph, np=np, du=du: next_ok(p, v, ph, np, du))

    # defaults
    fn = F.fn(cls + "::GetDefaultPopulatedManualPhaseProvider", 1)
    book = P(fn, 0)
    E = S.engine(opaque=(R + "PhaseRingBook::GetPhaseRing", R + "PhaseRingBook::GetPhaseRings", cls + "::AddPhaseRing"))
    rings = ("c", R + "PhaseRingBook::GetPhaseRings", book)
    S.throws_iff("ManualPhaseProvider default: rejects a missing book", fn, Null(book), E,
                 may=Fn(lambda c: True, "the book is inconsistent"))

    def every(p):
        ls = loops_over(p.trace, rings)
        if holds(S.ctx(p), Empty(rings)) is True and not ls:
            return None
        if not ls:
            return "does not visit every phase ring"
        done = 0
        for l, el, its in ls:
            ring = ("c", R + "PhaseRingBook::GetPhaseRing", book, el)
            phs = subst(g(R + "PhaseRing::phases", THIS), {THIS: ring})
            nxs = subst(g(R + "PhaseRing::next_phases", THIS), {THIS: ring})
            phs, nxs = (x[1] if x[0] == "addr" else x for x in (phs, nxs))
            for i in its:
                c = Ctx(i.facts, i.events, F.enums)
                add = [e for e in i.events if e.k == "call" and e.a[0].endswith("AddPhaseRing")]
                if not add and holds(c, Empty(phs)) is True:
                    continue
                if len(add) != 1:
                    return "adds %d entries for a ring" % len(add)
                a = add[0].a[2]
                init = ("fst", ("at", phs, num(0)))
                if a[0] != el or a[1] != init:
                    return "adds %s with phase %s" % (show(a[0]), show(a[1]))
                ns = ("at", nxs, init)
                if holds(c, Empty(ns)) is True:
                    ok = a[2] == NULL and a[3] == NULL
                else:
                    n0 = ("at", ns, num(0))
                    ok = a[2] == ("f", n0, R + "PhaseRing::NextPhase::id") and a[3] in (
                        ("f", n0, R + "PhaseRing::NextPhase::duration_until"), NULL)
                if not ok:
                    return "adds successor %s after %s" % (show(a[2]), show(a[3]))
                done += 1
        return None if done else "adds nothing"
    S.each_path("ManualPhaseProvider default: one entry per ring, with a phase and one of its successors", fn, every, E)
    for c, f, kind, n in (("PhasedDiscreteRuleStateProvider", "GetDefaultPhasedDiscreteRuleStateProvider", "discrete", 3),
                          ("ManualDiscreteValueRuleStateProvider", None, "discrete", 1),
                          ("ManualRangeValueRuleStateProvider", "GetDefaultManualRangeValueRuleStateProvider", "range", 1)):
        if not f:
            continue
        fn = F.fn(B + c + "::" + f, n)
        base = B + ("ManualDiscreteValueRuleStateProvider" if kind == "discrete" else c)
        E = S.engine(opaque=(base + "::SetState", R + "RoadRulebook::Rules"))
        rules = ("f", ("c", R + "RoadRulebook::Rules", P(fn, 0)), R + "RoadRulebook::QueryResults::%s_value_rules" % kind)
        stf = g(R + ("DiscreteValueRule" if kind == "discrete" else "RangeValueRule") + "::states", THIS)

        def all_set(p, rules=rules, stf=stf):
            ls = loops_over(p.trace, rules)
            for l, el, its in ls:
                st = subst(stf, {THIS: ("val", el)})
                st = st[1] if st[0] == "addr" else st
                for i in its:
                    s = [e for e in i.events if e.k == "call" and e.a[0].endswith("::SetState")]
                    if len(s) != 1:
                        return "sets %d states for a rule" % len(s)
                    a = s[0].a[2]
                    if a[0] != ("key", el) or a[1] not in (("at", st, num(0)), ("front", st)) or a[2] != NULL or a[3] != NULL:
                        return "sets %s" % ", ".join(map(show, a))
            return None if ls or holds(S.ctx(p), Empty(rules)) is True else "does not visit every rule"
        S.each_path("%s default: every rule has its first state" % c, fn, all_set, E)

    # rule filters
    fn = F.fn(B + "FilterRules", 3)
    rules = P(fn, 0)
    for i, kind in ((1, "discrete"), (2, "range")):
        fld = R + "RoadRulebook::QueryResults::%s_value_rules" % kind
        S.each_path("FilterRules: keeps exactly the %s value rules all filters accept" % kind, fn,
                    lambda p, i=i, fld=fld: filters_all(p, rules, P(fn, i), fld, F.enums))
    S.done()


def filters_all(p, rules, fs, fld, enums):
    """Every iteration over the filters narrows the result's collection by that filter."""
    ls = loops_over(p.trace, fs)
    if not ls:
        return None if decide(pre_facts(p), ("empty", fs), enums) is True else "does not apply every filter"
    for l, f, its in ls:
        for i in its:
            w = [e for e in i.events if e.k == "write" and e.a[1] == fld]
            if len(w) != 1:
                return "narrows the rules %d times for a filter" % len(w)
            C, res = w[0].a[2], w[0].a[0]
            inner = [e.a[0] for e in i.events if e.k == "loop" and any(insertions(j.events, C) for j in e.a[0].iters)]
            if any(x.k == "mut" and x.a[0] == C and x.a[1] not in GROWS for x in deep(i.events)):
                raise Unknown("%s is narrowed in place" % show(C))
            if len(inner) != 1 or not (inner[0].full and inner[0].complete):
                return "does not go through all rules"
            j = inner[0]
            src = j.over
            if src not in (("f", rules, fld), ("f", res, fld)) and not (src[0] == "hv" and fld in repr(src)):
                return "narrows %s" % show(src)
            el = j.el if j.el[0] == "el" else ("el", j.over, j.el[3])
            for it in j.iters:
                r = None
                for a, v in it.facts.items():
                    if a[0] == "t" and a[1][0] == "ic" and a[1][1] == f and a[1][2:] == (("val", el),):
                        r = v
                ins = insertions(it.events, C)
                if ins and (r is not True or tuple(ins[0]) not in ((("key", el), ("val", el)), (el,))):
                    return "keeps a rule although the filter is %s" % r
                if not ins and r is not False and not any(x.k == "insert_noop" for x in it.events):
                    return "drops a rule although the filter is %s" % r
    return None
