"""Specification forms shared by the property rules."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from terms import *  # noqa
from logic import *  # noqa
from engine import Engine, Budget, LoopRec, Iter, Ev  # noqa
from facts import AnalysisError, rel  # noqa


def P(fn, i):
    """Term of the i-th parameter of fn."""
    return ("p", i, fn["params"][i]["n"] or "arg%d" % i)


def where(fn, line=None):
    return "%s:%s %s" % (rel(fn["file"]), line or fn["line"], fn["q"])


def root(t):
    """The object a location term lives in: this / parameter / local / global / call result."""
    while isinstance(t, tuple) and t:
        if t[0] in ("f", "at", "val", "key", "el", "deref", "fst", "snd", "addr", "&", "back", "front", "it", "itm", "size",
                    "ix", "get"):
            if len(t) > 1 and isinstance(t[1], tuple):
                t = t[1]
                continue
        break
    return t


def persistent(t):
    r = root(t)
    return r[0] not in ("loc", "k", "agg", "list", "hv", "new")


def muts(p, deep=True):
    """(event, target, op, args) of every change a path makes to state that outlives the call."""
    out = []
    for e in p.events(None, deep):
        if e.k == "mut" and persistent(e.a[0]):
            out.append((e, e.a[0], e.a[1], e.a[2]))
        elif e.k == "write" and persistent(e.a[0]):
            out.append((e, ("f", e.a[0], e.a[1]), "write", (e.a[2],)))
        elif e.k == "call" and len(e.a) > 5 and e.a[5]:
            pass
    return out


def whole(F, ms):
    """Changes (target, op, args) with the assignments of every field of one object replaced by one change of that object."""
    out, part = [], {}
    for t, op, a in ms:
        if op == "write" and t[0] == "f" and t[1][0] in ("at", "val"):
            part.setdefault(t[1], {})[t[2]] = a[0]
        else:
            out.append((t, op, a))
    for o, d in part.items():
        cls = next(iter(d)).rpartition("::")[0]
        names = [f["q"] for f in F.classes.get(cls, {}).get("fields", ())]
        if names and set(names) == set(d):
            out.append((o[1], "set", (o[2], ("agg", cls, tuple((q.rpartition("::")[2], d[q]) for q in names)))))
        else:
            out += [(("f", o, q), "write", (v,)) for q, v in d.items()]
    return out


def pre_facts(p, drop_targets=True):
    """What the path establishes about the state at entry of the function."""
    pre, changed = {}, set()

    def take(facts):
        for a, v in facts.items():
            if a not in pre and (not changed or changed.isdisjoint(parts(a))):
                pre[a] = v
    def note(evs):
        for x in evs:
            if x.k == "mut" and persistent(x.a[0]):
                changed.add(x.a[0])
            elif x.k == "write":
                changed.add(("f", x.a[0], x.a[1]))
            elif x.k == "loop":
                for it in x.a[0].iters:
                    note(it.events)
    for e in p.trace:
        if e.k == "loop":
            note([e])
            take(e.facts)
        else:
            take(e.facts)
            note([e])
    take(p.facts)
    return pre


def unchanged_prefix_facts(p):
    return pre_facts(p)


class Bad(Exception):
    """Raised by a check of a path: the complaint."""


class Unknown(Exception):
    """Raised by a path predicate when the code has a form it cannot judge: the obligation stays undecided."""


def deep(evs):
    """All events, those inside loops included."""
    for e in evs:
        yield e
        if e.k == "loop":
            for i in e.a[0].iters:
                yield from deep(i.events)


class Spec:
    """One property's obligations with a shared engine configuration."""

    def __init__(self, ck, **kw):
        self.ck, self.F, self.kw = ck, ck.F, kw
        self.E = Engine(ck.F, **kw)

    def done(self):
        self.ck.absorb(self.E)

    def engine(self, **kw):
        k = dict(self.kw)
        k.update(kw)
        return Engine(self.ck.F, **k)

    def run(self, fn, E=None, **kw):
        """Paths of fn, or None (with a failed obligation) when the abstract domain cannot enumerate them."""
        E = E or self.E
        try:
            return [p for p in E.paths(fn, **kw) if consistent(p.facts)]
        except Budget as b:
            self.ck.undecided("%s analysable" % fn["q"], where(fn), "path budget: %s" % b)
            return None
        except AnalysisError:
            raise
        except Exception as x:
            self.ck.undecided("%s analysable" % fn["q"], where(fn), "not modelled: %s %s" % (type(x).__name__, x))
            return None
        finally:
            if E is not self.E:
                self.ck.absorb(E)

    def ctx(self, p, pre=True):
        c = Ctx(pre_facts(p) if pre else p.facts, p.trace, self.F.enums)
        c.raw = p.facts
        return c

    def throws_iff(self, name, fn, bad, E=None, may=None, exc=None, **kw):
        """fn throws exactly when bad holds at entry (may: further conditions under which throwing is acceptable);
        optional exc: required exception class (substring)."""
        ps = self.run(fn, E, **kw)
        if ps is None:
            return None
        ok, det, line = True, [], None
        nthrow = nret = 0
        for p in ps:
            h = decided(self.ctx(p), bad)
            if p.sig == "ret":
                nret += 1
                if h is not False:
                    ok = False
                    line = line or p.line
                    det.append("returns normally although %s %s; path: %s" % (
                        bad, "holds" if h else "is not excluded", show_facts(p.facts)))
            else:
                nthrow += 1
                if h is not True and not (may is not None and decided(self.ctx(p), Or(may, bad)) is True):
                    ok = False
                    line = line or p.line
                    det.append("throws (%s) although %s is %s; path: %s" % (
                        show(p.val) if p.val else p.sig, bad, "not established" if h is None else "false",
                        show_facts(p.facts)))
                elif exc and exc not in repr(p.val):
                    ok = False
                    det.append("throws %s instead of %s" % (show(p.val) if p.val else p.sig, exc))
        if nret == 0:
            ok = False
            det.append("never returns normally")
        if nthrow == 0:
            ok = False
            det.append("no path rejects: expected to throw when %s" % bad)
        self.ck.ob(name, ok, where(fn, line), "; ".join(det[:3]))
        return ps

    def bool_iff(self, name, fn, cond, E=None, pre_cond=None, **kw):
        """fn returns true exactly when cond holds."""
        ps = self.run(fn, E, **kw)
        if ps is None:
            return None
        ok, det, line = True, [], None
        seen = set()
        for p in ps:
            c = self.ctx(p)
            if p.sig != "ret":
                if pre_cond is not None and holds(c, pre_cond) is False:
                    continue
                ok = False
                det.append("throws on path: %s" % show_facts(p.facts))
                continue
            if p.val[0] != "b":
                ok = False
                det.append("returns %s" % show(p.val))
                continue
            seen.add(p.val[1])
            h = decided(c, cond)
            if h is not p.val[1]:
                ok = False
                line = line or p.line
                det.append("returns %s but (%s) is %s; path: %s" % (p.val[1], cond, h, show_facts(p.facts)))
        if seen != {True, False}:
            ok = False
            det.append("only ever returns %s" % seen)
        self.ck.ob(name, ok, where(fn, line), "; ".join(det[:3]))
        return ps

    def returns(self, name, fn, cases, E=None, throws=False, **kw):
        """fn returns, on each path, the value of the case the path falls in: cases = [(condition, check(value, ctx) or
        term)]; every case must be reached.  throws: None to ignore throwing paths, else they are complaints."""
        ps = self.run(fn, E, **kw)
        if ps is None:
            return None
        det, line, seen, unk = [], None, set(), None
        for p in ps:
            if p.sig != "ret":
                if throws is False:
                    det.append("throws on path: %s" % show_facts(p.facts))
                continue
            todo = [(self.ctx(p), 0)]
            while todo:
                c, i = todo.pop()
                if i == len(cases):
                    det.append("no documented case covers path: %s" % show_facts(c.facts))
                    continue
                cond, want = cases[i]
                for w, h in worlds(c, cond):
                    if h is False:
                        todo.append((w, i + 1))
                    elif h is None:
                        det.append("whether %s is open on path: %s" % (cond, show_facts(w.facts)))
                    else:
                        seen.add(i)
                        try:
                            good = want(p.val, w) if callable(want) else same(p.val, want, w)
                        except Bad:
                            good = False
                        except Unknown as u:
                            unk = unk or (p, u)
                            continue
                        if not good:
                            line = line or p.line
                            det.append("returns %s when %s; path: %s" % (show(p.val), cond, show_facts(p.facts)))
        for i, (cond, want) in enumerate(cases):
            if i not in seen:
                det.append("never handles %s" % cond)
        if unk and not det:
            self.ck.undecided(name, where(fn, unk[0].line), str(unk[1]))
            return None
        self.ck.ob(name, not det, where(fn, line), "; ".join(det[:3]))
        return ps

    def each_path(self, name, fn, pred, E=None, sigs=("ret",), need=1, **kw):
        """pred(path) is None (fine) or a complaint, for every path ending in one of sigs."""
        ps = self.run(fn, E, **kw)
        if ps is None:
            return None
        det, n, line, unk = [], 0, None, None
        for p in ps:
            if p.sig in sigs:
                n += 1
                try:
                    c = pred(p)
                except Bad as b:
                    c = str(b)
                except Unknown as u:
                    unk = unk or (p, u)
                    continue
                if c:
                    line = line or p.line
                    det.append("%s; path: %s" % (c, show_facts(p.facts)))
        if n < need:
            det.append("only %d such paths" % n)
        if unk and not det:
            self.ck.undecided(name, where(fn, unk[0].line), str(unk[1]))
            return None
        self.ck.ob(name, not det, where(fn, line), "; ".join(det[:3]))
        return ps

    # -- registries
    def registry_of(self, getfn, key=None, **kw):
        """Containers a lookup function reads with its key parameter: [(container)]"""
        out = []
        E = self.engine()
        for p in E.paths(getfn, **kw):
            if p.sig != "ret":
                continue
            for t in find_terms(p.val, lambda x: x[0] == "at") if p.val else []:
                k = key if key is not None else P(getfn, 0)
                if t[2] == k and t[1] not in out:
                    out.append(t[1])
        return out


def same(v, want, ctx):
    """Equal terms, or numbers the facts force to be equal."""
    if v == want:
        return True
    if v is None or want is None:
        return False
    try:
        return decided(ctx, EqN(v, want)) is True
    except (TypeError, ValueError, KeyError, IndexError):
        return False


GROWS = ("push_back", "append", "insert", "insert_all", "set")


def effect(e):
    """(target, op, args) of a mutation event, None for other events."""
    if e.k == "mut":
        return e.a[0], e.a[1], e.a[2]
    if e.k == "write":
        return ("f", e.a[0], e.a[1]), "write", (e.a[2],)
    return None


def performs(p, target, op, args=None, deep=False):
    """Events by which the path applies op (a name or several) to target, with the given arguments."""
    ops = (op,) if isinstance(op, str) else op
    out = []
    for e in p.events(None, deep):
        m = effect(e)
        if m and m[0] == target and m[1] in ops and (args is None or (args(m[2]) if callable(args) else m[2] == args)):
            out.append(e)
    return out


def icalls(evs, f, *args):
    """Calls of the callable f with these arguments."""
    return [e for e in evs if e.k == "icall" and e.a[0] == f and e.a[1] == args]


def loops_over(evs, M):
    """Complete loops over every element of M, with the iterations that finish normally."""
    out = []
    for e in evs:
        if e.k == "loop" and e.a[0].full and e.a[0].complete:
            l = e.a[0]
            if l.over == M or l.over == ("range", num(0), ("size", M)):
                el = l.el if l.el[0] == "el" else ("el", M, l.el[3])
                its = [i for i in l.iters if i.sig in (None, "cont")]
                if its:
                    out.append((l, el, its))
    return out


def over_indices(evs, n, what="the elements"):
    """The loops over the indices 0 .. n-1 among these events; Bad when some index is left out, Unknown without such a loop."""
    out, part = [], None
    for e in evs:
        if e.k != "loop":
            continue
        l = e.a[0]
        if l.over == ("range", num(0), n):
            if not (l.full and l.complete):
                part = part or "leaves the loop over %s early" % what
            out.append(l)
        elif l.over[0] == "range":
            lo, hi = l.over[1:3]
            d = add(hi, n, -1)
            if (hi == n or d[0] == "n") and lo[0] == "n":
                part = part or "visits only some of %s: %s" % (what, show(l.over))
    if not out:
        raise Bad(part) if part else Unknown("%s are visited in some other way" % what)
    return out


def for_all(p_or_evs, M, pred):
    """Some complete loop over M satisfies pred(element, events) in each of its iterations."""
    evs = p_or_evs.trace if hasattr(p_or_evs, "trace") else p_or_evs
    return any(all(pred(el, i.events) for i in its) for l, el, its in loops_over(evs, M))


def collects(p, R, M, elem, out_key=None):
    """On path p container R ends up with elem(el) for every element el of M (or M is known to be empty)."""
    if decide(pre_facts(p), ("empty", M)) is True:
        return True
    if R in (M, ("copyof", M), ("setof", M)):
        return True

    def adds(evs, want):
        for x in evs:
            if x.k == "mut" and x.a[0] == R:
                if x.a[1] in ("push_back", "append") and want(x.a[2][0]):
                    return True
                if x.a[1] in ("insert", "set") and want(x.a[2][-1]) and (out_key is None or True):
                    return True
            if x.k == "insert_noop" and x.a[0] == R:
                return True
        return False
    for e in p.trace:
        if e.k == "mut" and e.a[0] == R and e.a[1] == "insert_all" and e.a[2] == (M,):
            return True
        if e.k == "loop":
            l = e.a[0]
            if l.over == M and l.full and l.complete:
                its = [i for i in l.iters if i.sig in (None, "cont")]
                el = l.el if l.el[0] == "el" else ("el", M, l.el[3])
                if its and all(adds(i.events, lambda v: v == elem(el)) for i in its):
                    return True
        if e.k == "algo" and e.a and e.a[0] == "copy_all" and e.a[1:] == (M, R):
            return True
    return False


def lookup(S, name, fn, M, absent, value=None, key=None, ignore=None, E=None, **kw):
    """fn(key) yields M[key] (or value(M[key])) when present; `absent` in ('null', exception substring) when not."""
    k = key if key is not None else P(fn, 0)
    ps = S.run(fn, E, **kw)
    if ps is None:
        return
    det, seen, line = [], set(), None
    for p in ps:
        if ignore and ignore(p):
            continue
        h = holds(S.ctx(p), Has(M, k))
        v = p.val
        bad = None
        if h is True:
            seen.add("present")
            want = ("at", M, k)
            if p.sig != "ret":
                bad = "throws although the id is registered"
            elif value is not None:
                if not value(p, want):
                    bad = "returns %s for a registered id" % show(v)
            elif v != want and v != ("addr", want):
                bad = "returns %s instead of the registered entry" % show(v)
        elif h is False:
            seen.add("absent")
            if absent == "null":
                if p.sig != "ret" or v != NULL:
                    bad = "%s %s for an unknown id instead of null" % (p.sig, show(v) if v else "")
            elif p.sig == "ret" or absent not in repr(v):
                bad = "%s %s for an unknown id instead of throwing %s" % (p.sig, show(v) if v else "", absent)
        else:
            bad = "outcome %s does not depend on the id being registered" % (show(v) if v else p.sig)
        if bad:
            line = line or p.line
            det.append("%s; path: %s" % (bad, show_facts(p.facts)))
    if seen != {"present", "absent"}:
        det.append("only handles %s ids" % sorted(seen))
    S.ck.ob(name, not det, where(fn, line), "; ".join(det[:3]))


def Either(*cs):
    """Equivalent formulations of one condition: whichever the path decides."""
    def f(ctx):
        vs = [holds(ctx, c) for c in cs]
        return True if True in vs else False if False in vs else None
    return Fn(f, " or equivalently ".join(map(repr, cs[:1])))


def counted(n, f):
    """f(i) for some i in [0, n)."""
    return Ex(("range", num(0), n), f)


def reports_iff(S, name, fn, bad, E=None, grows=lambda e: e.k == "mut" and e.a[0][0] == "loc" and e.a[1] in GROWS, **kw):
    """fn returns a list of complaints that is empty exactly when bad does not hold.

    Completeness: with every loop iteration that appends set aside, the remaining iterations refute bad.
    Soundness: what holds where an append happens establishes bad."""
    ps = S.run(fn, E, **kw)
    if ps is None:
        return None
    det, line, napp, nfree = [], None, 0, 0

    def silent(evs):
        """The events without the iterations that append; None when these events append themselves."""
        out = []
        for e in evs:
            if grows(e):
                return None
            if e.k == "loop":
                l = e.a[0]
                its = []
                for it in l.iters:
                    x = silent(it.events)
                    if x is not None:
                        its.append(Iter(it.facts, it.all_facts, x, it.sig, it.val, it.changed, it.env, it.inits))
                r = LoopRec(l.id, l.over, l.el, l.full, its, l.line, l.kind)
                r.complete, r.base_facts = l.complete, l.base_facts
                e = Ev("loop", (r,), e.line, e.facts, e.fn)
            out.append(e)
        return out
    for p in ps:
        if p.sig != "ret":
            det.append("%s; path: %s" % (p.sig, show_facts(p.facts)))
            continue
        for e in p.events(None, True):
            if grows(e):
                napp += 1
                if holds(Ctx(e.facts, [], S.F.enums), bad) is not True:
                    line = line or e.line
                    det.append("line %s reports although %s is not established; path: %s" % (e.line, bad, show_facts(e.facts)))
        evs = silent(p.trace)
        if evs is not None:
            nfree += 1
            if holds(Ctx(pre_facts(p), evs, S.F.enums), bad) is not False:
                line = line or p.line
                det.append("reports nothing although %s is not excluded" % bad)
    if not napp or not nfree:
        det.append("never %s" % ("reports" if not napp else "accepts"))
    S.ck.ob(name, not det, where(fn, line), "; ".join(det[:3]))
    return ps


def final(p, loc):
    """The value last written to a field location on the path, None when it is never written."""
    v = None
    for e in p.events("write"):
        if ("f", e.a[0], e.a[1]) == loc:
            v = e.a[2]
    if v == ("list",):
        for e in p.trace:
            if e.k == "mut" and e.a[0] == loc and e.a[1] == "push_back":
                v += (e.a[2][0],)
    return v


def out_value(p, fn, k):
    """What a path leaves in the reference parameter k, None when it is not touched."""
    v = [t for (d, i), t in p.st.env.items() if i == fn["params"][k]["id"]]
    return v[0] if len(v) == 1 and v[0] != P(fn, k) else None


def stores(S, name, ctor, getter, value, E=None, **kw):
    """After construction, the accessor yields value: the state it reads was given exactly that value."""
    fld = (E or S.E).getter(getter, THIS) if isinstance(getter, str) else getter
    if fld[0] == "addr":
        fld = fld[1]
    if isinstance(value, int):
        value = P(ctor, value)

    def ok(p):
        v = final(p, fld)
        return None if v == value else "%s becomes %s" % (show(fld), show(v) if v else "nothing in particular")
    return S.each_path(name, ctor, ok, E, **kw)


def Repeats(c, key=None):
    """Two elements of c share the same key: detected by counting, or by inserting into a keyed container."""
    k = key or (lambda e: e)

    def one(e):
        a, pol = atom_eq(k(("el", c, 0)), k(e))
        counts = ([] if key else [("cnt", c, e)]) + [("countif", c, (((a, pol),),))]
        return [Either(EqN(t, num(1)), Lt(t, num(2), ints=True)) for t in counts]

    def inserts(evs, kk, what):
        return [x.a[0] for x in evs if (x.k == "mut" and x.a[1] in ("insert", "set") and what == "new" or
                                        x.k == "insert_noop" and what == "old")
                and (x.a[2][0] if x.k == "mut" else x.a[1]) == kk]

    def f(ctx):
        for l in ctx.loops():
            if l.over != c or not l.full:
                continue
            el = l.el if l.el[0] == "el" else ("el", c, l.el[3])
            if not l.complete:
                if any(holds(ctx, a) is False for a in one(el)):
                    return True
                for i in l.iters:
                    for X in inserts(i.events, k(el), "new" if i.sig in (None, "cont") else "old"):
                        if decide(ctx.raw, ("has", X, k(el)), ctx.enums) is True:
                            return True
            else:
                its = [i for i in l.iters if i.sig in (None, "cont")]
                if its and all(any(holds(Ctx(i.facts, i.events, ctx.enums), a) is True for a in one(el)) or
                               inserts(i.events, k(el), "new") and not inserts(i.events, k(el), "old") for i in its):
                    return False
        if holds(ctx, Empty(c)) is True:
            return False
        return None
    return Fn(f, "%s has repeated %s" % (show(c), "keys" if key else "elements"))


def First(*cs):
    """Formulations of one condition, most reliable first: the first one the path decides."""
    def f(ctx):
        for c in cs:
            v = holds(ctx, c)
            if v is not None:
                return v
        return None
    return Fn(f, repr(cs[0]))


def agg(t):
    """{attribute: value} of a constructed aggregate term, {} for anything else."""
    return {f.rpartition("::")[2]: v for f, v in t[2]} if t and t[0] == "agg" else {}


def insertions(evs, C):
    """(key or element, value, inside a loop) for every growth of container C in these events."""
    out = []
    for e in evs:
        if e.k == "mut" and e.a[0] == C and e.a[1] in GROWS:
            out.append(e.a[2])
    return out


def filtered(p, C, source, conds, enums, entry=lambda el: (("key", el), ("val", el)), arg=lambda el: ("val", el), depth=6):
    """None when container C holds exactly the entries of `source` whose arg satisfies every condition of conds,
    built by a chain of complete loops that copy some entries on; otherwise a complaint."""
    stages = []
    while C != source and depth:
        depth -= 1
        if C[0] == "copyof":
            C = C[1]
            continue
        cand = []
        for e in p.events("loop", True):
            l = e.a[0]
            if l.full and l.complete and any(insertions(i.events, C) for i in l.iters):
                cand.append(l)
        if any(x.k == "mut" and x.a[0] == C and x.a[1] not in GROWS for x in p.events(None, True)):
            raise Unknown("%s is narrowed in place" % show(C))
        if len(cand) != 1:
            return "%s is filled by %d loops" % (show(C), len(cand))
        l = cand[0]
        el = l.el if l.el[0] == "el" else ("el", l.over, l.el[3])
        keep, drop = [], []
        for i in l.iters:
            if i.sig not in (None, "cont"):
                continue
            ins = insertions(i.events, C)
            if not ins:
                if any(x.k == "insert_noop" and x.a[0] == C for x in i.events):
                    continue
                drop.append(i)
            elif len(ins) == 1 and (tuple(ins[0]) == entry(el) or ins[0] == (el,)):
                keep.append(i)
            else:
                return "adds %s to %s" % (show(ins[0][-1]), show(C))
        stages.append((el, keep, drop))
        C = l.over
    if C != source:
        return "filters %s instead of %s" % (show(C), show(source))
    if not stages:
        return "does not filter" if conds else None

    def h(i, c):
        return holds(Ctx(i.facts, i.events, enums), c)
    for w in conds:
        if not any(keep and all(h(i, w(arg(el))) is True for i in keep) for el, keep, drop in stages):
            return "keeps entries although %s is not established" % w(("any",))
    for el, keep, drop in stages:
        for i in drop:
            if not any(h(i, w(arg(el))) is False for w in conds):
                return "drops entries that satisfy the conditions; path: %s" % show_facts(i.facts)
    return None


def running_best(p, M, cand, better):
    """None when the path ends with a local that a complete loop over M moved to cand(el) exactly when better(cand, current);
    returns (complaint, loop, element) - the caller judges where the local started."""
    hits = []
    for e in deep(p.trace):
        if e.k == "loop" and any(i.changed for i in e.a[0].iters):
            hits.append(e.a[0])
    ours = [l for l in hits if l.full and l.complete and (l.over == M or l.over[0] == "range" and l.over[2] == ("size", M))]
    if not ours:
        if any(e.k in ("algo",) for e in deep(p.trace)) or hits and any(l.over == M for l in hits):
            raise Unknown("the best of %s is not taken by a plain loop" % show(M))
        return "does not compare all of %s" % show(M), None, None
    l = ours[-1]
    if l.over == M:
        el = l.el if l.el[0] == "el" else ("el", M, l.el[3])
    elif decide({}, ("==", l.over[1], num(0))) is not False or l.over[1] == num(1):
        el = ("at", M, l.el)
    else:
        return "starts comparing %s at %s" % (show(M), show(l.over[1])), None, None
    c, moved, kept = cand(el), 0, 0
    for i in l.iters:
        if i.sig == "throw":
            continue
        if i.sig not in (None, "cont"):
            raise Unknown("the comparing loop is left early")
        new = {k: v for k, v in (i.changed or {}).items() if isinstance(k, tuple) and v == c}
        others = {k: v for k, v in (i.changed or {}).items() if k not in new}
        curs = {t for f in i.facts for t in find_terms(f, lambda x: x[0] == "hv")}
        verdicts = [holds(Ctx(i.facts, i.events), better(c, h)) for h in curs]
        verdicts = [v for v in verdicts if v is not None]
        if not verdicts and any(holds(Ctx(i.facts, i.events), better(h, c)) is not None for h in curs):
            return "compares the current best with an entry of %s the wrong way round" % show(M), l, el
        if not verdicts:
            raise Unknown("whether an entry of %s is better is not visible in the loop" % show(M))
        if verdicts[0] is True and not new:
            return "a better entry of %s is not taken; path: %s" % (show(M), show_facts(i.facts)), l, el
        if verdicts[0] is False and (new or others):
            return "an entry of %s is taken although it is not better; path: %s" % (show(M), show_facts(i.facts)), l, el
        moved += bool(new)
        kept += not new
    if not moved or not kept:
        return "the loop over %s never %s" % (show(M), "takes an entry" if not moved else "keeps one"), l, el
    return None, l, el
