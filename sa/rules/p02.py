"""P02: a rejected change leaves the registry / book / state provider / value object as it was."""
from rules.common import *

FLOOR = 30
EXPLANATION = ("For every public mutating operation of the registries, rule/phase/intersection/traffic-light books, state "
               "providers and validated value types (discovered from the class definitions), every abstract path that ends in an "
               "exception must not have changed state reachable from the object (container insertion/erasure or field write, "
               "including those of earlier loop iterations) before the throw.")
ASSUMPTIONS = ["allocation failures are not modelled", "calls that stay opaque do not change the object's own containers"]

CLASSES = ("maliput::api::BasicIdIndex", "maliput::api::rules::RuleRegistry", "maliput::ManualRulebook",
           "maliput::TrafficLightBook", "maliput::IntersectionBook", "maliput::ManualPhaseRingBook",
           "maliput::ManualPhaseProvider", "maliput::ManualRightOfWayRuleStateProvider",
           "maliput::ManualDiscreteValueRuleStateProvider", "maliput::ManualRangeValueRuleStateProvider",
           "maliput::api::SRange", "maliput::api::RBounds", "maliput::api::HBounds", "maliput::geometry_base::LaneEndSet",
           "maliput::Intersection")
# WalkAndAddAll registers a whole road geometry; stopping at the first duplicate is its contract, not a single registration.
SKIP = {"maliput::api::BasicIdIndex::WalkAndAddAll"}


def run(ck):
    F = ck.F
    ck.rule("R1", "no state change on any path that throws")
    S = Spec(ck)
    # Linked containers of the phase ring book, to recognise paths that only exist on a corrupted book.
    ring = S.registry_of(F.fn("maliput::ManualPhaseRingBook::DoGetPhaseRing", 1))
    n = 0
    for c in CLASSES:
        cd = F.cls(c)
        for m in sorted(cd["methods"], key=lambda m: m["c"]):
            if m.get("ctor") or m["cst"] or m["static"] or m["acc"] != 0 or m["del"] or m.get("dtor") or m["pure"] or \
                    m["n"].startswith(("operator=", "~")) or m["q"] in SKIP:
                continue
            for fn in F.fns_of(m["q"]):
                if fn["c"] != m["c"]:
                    continue
                ps = S.run(fn)
                if ps is None:
                    continue
                if not any(x for p in ps for x in muts(p)):
                    continue
                bad = []
                for p in ps:
                    if p.sig == "ret":
                        continue
                    ms = [x for x in muts(p) if root(x[1])[0] in ("this", "g")]
                    if ms and not corrupted(p, ring):
                        bad.append("%s of %s precedes the throw at line %s; path: %s" % (
                            ms[0][2], show(ms[0][1]), p.line, show_facts(p.facts)))
                n += 1
                S.ck.ob("%s(%s): a throw leaves the object unchanged" % (
                    m["q"], ", ".join(x["t"].split("::")[-1] for x in fn["params"])), not bad, where(fn), "; ".join(bad[:2]))
    S.done()


def corrupted(p, ring):
    """The path found a registered ring one of whose rules is not linked: excluded by AddPhaseRing (P01)."""
    pre = pre_facts(p)
    known = [a[2] for a, v in pre.items() if a[0] == "has" and a[1] in ring and v]
    for a, v in p.facts.items():
        if a[0] == "has" and not v and any(mentions(a[2], ("at", r, k)) for r in ring for k in known):
            return True
    return False
