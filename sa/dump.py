"""Development aid: prints the paths of a function.  dump.py QNAME [v] [Pnn: with that rule's opaque set] [/text: only overloads with that in a parameter type]"""
import importlib
import sys
import facts
import engine
from terms import *
F = facts.load()


def main():
    q, rest = sys.argv[1], sys.argv[2:]
    opaque = ()
    for a in rest:
        if a[0] == "P" and a[1:].isdigit():
            opaque = importlib.import_module("rules." + a.lower()).OPAQUE
    frag = next((a[1:] for a in rest if a[0] == "/"), "")
    for fn in F.fns_of(q):
        if frag and not any(frag in p["t"] for p in fn["params"]):
            continue
        E = engine.Engine(F, opaque=opaque)
        print("==", q, [p["n"] for p in fn["params"]], facts.rel(fn["file"]), fn["line"])

        def pt(evs, ind):
            for e in evs:
                if e.k == "loop":
                    r = e.a[0]
                    print(ind + "loop#%d over %s full=%s complete=%s" % (r.id, show(r.over), r.full, r.complete))
                    for it in r.iters:
                        print(ind + "  iter [%s] sig=%s %s changed=%s" % (show_facts(it.facts), it.sig, show(it.val) if it.val else "", {k: show(v) for k, v in it.changed.items()}))
                        pt(it.events, ind + "      ")
                else:
                    print(ind + repr(e))
        try:
            ps = E.paths(fn)
        except engine.Budget as b:
            print("BUDGET", b)
            continue
        for p in ps:
            print("  ", p)
            if "v" in rest:
                pt(p.trace, "      ")
        print(len(ps), "paths")


main()
