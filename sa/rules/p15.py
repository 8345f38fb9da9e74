"""P15: the rule registry builds only rules of registered types with registered states."""
from rules.common import *

FLOOR = 8
EXPLANATION = ("Every path of RuleRegistry's registering and building functions is enumerated: a type is registered exactly when it is new "
               "and its states are non-empty and distinct; a rule is built exactly when its type is registered for that kind and every "
               "state matches a registered one, and it is built from the given id, type, zone and states.")
ASSUMPTIONS = ["std containers and std::find_if behave as specified"]
R = "maliput::api::rules::"


def run(ck):
    F = ck.F
    ck.rule("R1", "rules are built exactly when the type is registered for that kind and every state matches a registered one")
    ck.rule("R2", "the built rule has the given id, type, zone and states")
    ck.rule("R3", "types are registered once, with non-empty and distinct states")
    S = Spec(ck)
    g = S.E.getter
    st = lambda e, n: ("f", e, R + "Rule::State::" + n)
    vl = lambda e, n: ("f", e, R + "DiscreteValueRule::DiscreteValue::" + n)
    rg = lambda e, n: ("f", e, R + "RangeValueRule::Range::" + n)
    recs = []
    for kind, acc, match in (
            ("Range", "RangeValueRuleTypes", lambda a, b: And(
                EqN(st(a, "severity"), st(b, "severity")), EqN(rg(a, "min"), rg(b, "min")), EqN(rg(a, "max"), rg(b, "max")),
                Eq(rg(a, "description"), rg(b, "description")))),
            ("Discrete", "DiscreteValueRuleTypes", lambda a, b: And(
                EqN(st(a, "severity"), st(b, "severity")), Eq(vl(a, "value"), vl(b, "value"))))):
        rec = g(R + "RuleRegistry::" + acc, THIS)
        rec = rec[1] if rec[0] == "addr" else rec
        recs.append(rec)
        fn = F.fn(R + "RuleRegistry::Build%sValueRule" % kind, 4)
        i, ty, zone, states = (P(fn, k) for k in range(4))
        M = ("at", rec, ty)
        bad = Or(Not(Has(rec, ty)), Ex(states, lambda e, M=M, match=match: Not(Ex(M, lambda q: match(q, e)))))
        S.throws_iff("RuleRegistry.Build%sValueRule: only registered types and states" % kind, fn, bad)
        cls = R + kind + "ValueRule"

        def built(p, cls=cls, want=(i, ty, zone, states)):
            v = p.val
            return None if v and v[0] == "k" and v[1] == cls and v[3:] == want else "builds %s" % show(v)
        S.each_path("RuleRegistry.Build%sValueRule: keeps id, type, zone and states" % kind, fn, built)
    ck.ob("the kinds have distinct registries", len(set(recs)) == 2, "")
    for kind, own, oth in (("Range", recs[0], recs[1]), ("Discrete", recs[1], recs[0])):
        fn = F.fn(R + "RuleRegistry::Register%sValueRule" % kind, 2)
        ty, vals = P(fn, 0), P(fn, 1)
        S.throws_iff("RuleRegistry.Register%sValueRule: once per type, states non-empty and distinct" % kind, fn,
                     Or(Has(recs[0], ty), Has(recs[1], ty), Empty(vals), Repeats(vals)))

        def rec1(p, own=own, ty=ty, vals=vals):
            m = [(t, op in ("set", "insert"), a) for e, t, op, a in muts(p)]
            return None if m == [(own, True, (ty, vals))] else "changes %s" % [(show(t), op) for t, op, a in m]
        S.each_path("RuleRegistry.Register%sValueRule: records exactly these states" % kind, fn, rec1)
    S.done()
