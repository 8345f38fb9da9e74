"""Three-valued evaluation of specification conditions on the abstract paths of a function.

A condition is built from atoms over terms, the connectives, and bounded quantifiers over containers.  On a path it is
True or False when the facts and completed loops of that path establish it, None when the path does not determine it.
"""
from terms import *  # noqa


class C:
    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


class At(C):
    ints = False

    def __init__(self, atom, pol=True):
        self.atom, self.pol = atom, pol

    def __repr__(self):
        return ("" if self.pol else "!") + (show(self.atom) if self.atom else "true")


class And(C):
    def __init__(self, *cs):
        self.cs = cs

    def __repr__(self):
        return "(" + " & ".join(map(repr, self.cs)) + ")"


class Or(C):
    def __init__(self, *cs):
        self.cs = cs

    def __repr__(self):
        return "(" + " | ".join(map(repr, self.cs)) + ")"


class Not(C):
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "!" + repr(self.c)


class Ex(C):
    """Some element of the container(s) satisfies f(el)."""

    def __init__(self, cont, f, note=""):
        self.cont, self.f, self.note = cont, f, note

    def __repr__(self):
        c = self.cont if isinstance(self.cont, tuple) else ("s", self.note)
        try:
            return "exists x in %s: %r" % (show(c), self.f(("el", c, 0)))
        except Exception:
            return "exists x in %s" % show(c)


class All(C):
    def __init__(self, cont, f, note=""):
        self.cont, self.f, self.note = cont, f, note

    def __repr__(self):
        return "!(" + repr(Ex(self.cont, lambda x: Not(self.f(x)), self.note)) + ")"


class Fn(C):
    """Custom three-valued predicate on a context."""

    def __init__(self, f, note=""):
        self.f, self.note = f, note

    def __repr__(self):
        return self.note


TRUE_C = At(None, True)
FALSE_C = At(None, False)


def Null(t):
    a, p = atom_null(t)
    return At(a, p)


def NotNull(t):
    return Not(Null(t))


def Eq(a, b):
    x, p = atom_eq(a, b)
    return At(x, p)


def EqN(a, b):
    x, p = atom_eq_num(a, b)
    return At(x, p)


def Lt(a, b, ints=False):
    x, p = atom_lt(a, b, ints)
    r = At(x, p)
    r.ints = ints
    return r


def Gt(a, b, ints=False):
    return Lt(b, a, ints)


def Le(a, b, ints=False):
    return Not(Lt(b, a, ints))


def Ge(a, b, ints=False):
    return Not(Lt(a, b, ints))


def Has(m, k):
    return At(("has", m, k))


def Empty(c):
    return At(("empty", c))


def Is(t):
    """The boolean term t is true."""
    if t[0] == "b":
        return At(None, t[1])
    if t[0] == "not":
        return Not(Is(t[1]))
    return At(("t", t))


def In(c, v):
    """v is an element (or key) of c, through a lookup or an explicit search."""
    alts = (Has(c, v), Ex(c, lambda e: Eq(e, v)), Ex(c, lambda e: Eq(("key", e), v)))

    def f(ctx):
        vs = [holds(ctx, x) for x in alts]
        return True if True in vs else False if False in vs else None
    return Fn(f, "%s is in %s" % (show(v), show(c)))


class Ctx:
    """What a path (or a loop iteration) establishes: facts and the events so far."""

    def __init__(self, facts, events, enums=None):
        self.facts, self.events, self.enums = facts, events, enums
        self.raw = facts        # including what the function's own changes establish

    def loops(self):
        return [e.a[0] for e in self.events if e.k == "loop"]


def and3(vals):
    r = True
    for v in vals:
        if v is False:
            return False
        if v is None:
            r = None
    return r


def not3(v):
    return None if v is None else not v


def els_in(facts, cont):
    """Generic elements of cont mentioned by the facts."""
    out = []
    for a in facts:
        for t in find_terms(a, lambda x: (x[0] == "el" and x[1] == cont) or
                            (x[0] == "ix" and cont == ("range", x[1], x[2])) or
                            (x[0] == "ix" and x[1] == num(0) and x[2] == ("size", cont))):
            if t[0] == "ix" and cont[0] != "range":
                t = ("el", cont, t[3])
            if t not in out:
                out.append(t)
    return out


def inside(ctx, cont):
    """Elements of cont whose loop iteration the path left early (or is in)."""
    out = []
    for l in ctx.loops():
        if l.over == cont and not l.complete:
            el = l.el
            if el[0] == "ix" and l.over[0] != "range":
                el = ("el", l.over, el[3])
            out.append(el)
    return out


def matches(cont, over):
    if callable(cont):
        return cont(over)
    return cont == over


def searched(ctx, C, x):
    """has(C, x) as far as comparing the elements of C one by one tells."""
    same = lambda el: ("eq",) + tuple(sorted((el, x), key=skey))
    for el in els_in(ctx.facts, C) + inside(ctx, C):
        if el != x and decide(ctx.facts, same(el), ctx.enums) is True:
            return True
    for l in ctx.loops():
        if l.over == C and l.complete and l.full and all(
                decide(i.all_facts, same(l.el), ctx.enums) is False for i in l.iters if i.sig in (None, "cont")) and l.iters:
            return False
    return None


def holds(ctx, c):
    if isinstance(c, At):
        if c.atom is None:
            return c.pol
        d = decide(ctx.facts, c.atom, ctx.enums)
        if d is None:
            d = lin_decide(ctx.facts, c.atom)
        if d is None and c.ints and c.atom[0] == "lt" and isinstance(c.atom[2], int):
            # between whole numbers: v < k is v < k-1 once v is not k-1, and v < k+1 once v is not k
            v, k = c.atom[1:]
            for step, hole in ((-1, k - 1), (1, k)):
                at = k
                while d is None and decide(ctx.facts, ("eqn", v, hole), ctx.enums) is False and abs(at - k) < 4:
                    at, hole = at + step, hole + step
                    d = decide(ctx.facts, ("lt", v, at), ctx.enums)
        if d is None and c.atom[0] == "has":
            d = searched(ctx, c.atom[1], c.atom[2])
        return None if d is None else (d == c.pol)
    if isinstance(c, And):
        return and3(holds(ctx, x) for x in c.cs)
    if isinstance(c, Or):
        return not3(and3(not3(holds(ctx, x)) for x in c.cs))
    if isinstance(c, Not):
        return not3(holds(ctx, c.c))
    if isinstance(c, All):
        return not3(holds(ctx, Ex(c.cont, lambda x: Not(c.f(x)), c.note)))
    if isinstance(c, Fn):
        return c.f(ctx)
    if isinstance(c, Ex):
        if not callable(c.cont):
            if decide(ctx.facts, ("empty", c.cont)) is True:
                return False
            if c.cont[0] == "list":
                return not3(and3(not3(holds(ctx, c.f(x))) for x in c.cont[1:]))
        conts = [c.cont] if not callable(c.cont) else []
        for l in ctx.loops():
            if l.over not in conts and matches(c.cont, l.over):
                conts.append(l.over)
        for cont in conts + [l.over for l in ctx.loops() if shifted(c.cont, l.over)]:
            d = shifted(c.cont, cont)
            for el in els_in(ctx.facts, cont) + inside(ctx, cont):
                if holds(ctx, c.f(add(el, num(-d)) if d else el)) is True:
                    return True
            if d:
                continue
            # keyed witnesses: a lookup that succeeded names an element
            for a, v in ctx.facts.items():
                if a[0] == "has" and v and a[1] == cont and holds(ctx, c.f(a[2])) is True:
                    return True
        for l in ctx.loops():
            d = shifted(c.cont, l.over)
            if not (d or matches(c.cont, l.over)) or not l.complete or not l.full:
                continue
            el = add(l.el, num(-d)) if d else l.el
            if el[0] == "ix" and l.over[0] != "range":
                el = ("el", l.over, el[3])
            ok = True
            for it in l.iters:
                if it.sig not in (None, "cont"):
                    continue
                if holds(Ctx(it.all_facts, it.events, ctx.enums), c.f(el)) is not False:
                    ok = False
                    break
            if ok:
                return False
        probe = c.f(("el", c.cont if not callable(c.cont) else ("s", ""), 0))
        if isinstance(probe, Or) and len(probe.cs) > 1:
            # different loops may refute different alternatives
            if all(holds(ctx, Ex(c.cont, lambda x, i=i: c.f(x).cs[i], c.note)) is False for i in range(len(probe.cs))):
                return False
        return None
    raise TypeError(c)


def shifted(cont, over):
    """The indices of range cont are visited as over, counted from another start: the distance, else 0."""
    if callable(cont) or cont[0] != "range" or over[0] != "range" or over == cont:
        return 0
    d, e = add(over[1], cont[1], -1), add(over[2], cont[2], -1)
    return d[1] if d == e and d[0] == "n" else 0


def path_ctx(p, enums=None):
    return Ctx(p.facts, p.trace, enums)


def _lin_atoms(c, out):
    if isinstance(c, At):
        if c.atom is not None and c.atom not in out:
            out.append(c.atom)
    elif isinstance(c, (And, Or)):
        for x in c.cs:
            _lin_atoms(x, out)
    elif isinstance(c, Not):
        _lin_atoms(c.c, out)
    return out


def worlds(ctx, c, depth=12):
    """[(context, value)]: the path split on atoms the condition leaves open, until each part decides it (or gives up:
    value None)."""
    h = holds(ctx, c)
    if h is not None:
        return [(ctx, h)]
    if depth:
        for a in _lin_atoms(c, []):
            if holds(ctx, At(a)) is not None:
                continue
            out = []
            for v in (True, False):
                f = dict(ctx.facts)
                f[a] = v
                if consistent(f):
                    c2 = Ctx(f, ctx.events, ctx.enums)
                    c2.raw = ctx.raw
                    out += worlds(c2, c, depth - 1)
            return out
    return [(ctx, None)]


def decided(ctx, c):
    """holds(), splitting the path on atoms of the condition it leaves open: True or False when every consistent
    way to settle them agrees."""
    h = holds(ctx, c)
    if h is not None:
        return h
    res = {v for _, v in worlds(ctx, c)}
    return res.pop() if len(res) == 1 else None


def given(*cs):
    """Facts establishing atomic conditions, for the precondition of an analysis."""
    f = {}
    for c in cs:
        pol = True
        while isinstance(c, Not):
            c, pol = c.c, not pol
        f[c.atom] = c.pol == pol
    return f
