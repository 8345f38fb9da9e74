"""Obligations decided by the polynomial value analysis (sa/algebra.py)."""
from algebra import *
from rules.common import where
import logic
import terms
from logic import And, Or, Not, Eq, Fn, decided

M = "maliput::math::"


class Thrown:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "throws"


def attempt(f):
    """f(), or Thrown when the code throws."""
    try:
        return f()
    except Throw as e:
        return Thrown(e.what)


def show(v):
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, Obj):
        return "{%s}" % ", ".join(show(c) for c in v.f.values())
    if isinstance(v, Arr):
        return "[%s]" % ", ".join(show(x) for x in v.vals())
    if isinstance(v, (list, tuple)):
        return "(%s)" % ", ".join(show(x) for x in v)
    return repr(v)[:300]


def flat(v):
    """The numbers (and other leaves) of a value, in order."""
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, Ref):
        v = v.cell.v
    if isinstance(v, Arr):
        return [x for y in v.vals() for x in flat(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    if isinstance(v, Obj):
        return [x for c in v.f.values() for x in flat(c.v)]
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return [R.c(v)]
    return [v]


class Alg:
    def __init__(self, ck, opaque=None):
        self.ck, self.F = ck, ck.F
        self.A = Algebra(ck.F, opaque)
        self.n = 0

    def done(self):
        self.ck.absorb_algebra(self.A)

    # -- inputs
    def syms(self, name, n):
        return [R.sym("%s%d" % (name, i)) for i in range(n)]

    def vec(self, name, n=3):
        return self.vec_of(self.syms(name, n))

    def vec_of(self, xs):
        n = len(xs)
        if n in (2, 3, 4):
            return self.A.new("%sVector%d" % (M, n), *xs, ptypes=["double"] * n)
        raise ValueError(n)

    def quat(self, name):
        return self.quat_of(self.syms(name, 4))

    def quat_of(self, xs):
        return self.A.new(M + "Quaternion", *xs, ptypes=["double"] * 4)

    def wxyz(self, q):
        return [self.A.call("%sQuaternion::%s" % (M, c), q) for c in "wxyz"]

    def xyz(self, v):
        return flat(v)

    def mat(self, name, n):
        rows = [Obj("%sVector<%d>" % (M, n)) for _ in range(n)]
        o = self.A.default("%sMatrix<%d>" % (M, n))
        cells = [c for c in _leaf_cells(o)]
        if len(cells) != n * n:
            raise AnalysisError("Matrix<%d> has %d numbers" % (n, len(cells)))
        for i, c in enumerate(cells):
            c.v = R.sym("%s%d%d" % (name, i // n, i % n))
        return o

    def mat_of(self, rows):
        n = len(rows)
        o = self.A.default("%sMatrix<%d>" % (M, n))
        for c, x in zip(_leaf_cells(o), [x for r in rows for x in r]):
            c.v = R.c(x)
        return o

    # -- obligations
    def _run(self, name, prog, at, judge, need=1):
        try:
            outs = self.A.explore(lambda a: judge(a, prog(a)))
        except Unsupported as x:
            self.ck.undecided(name, at, x)
            return
        except (AttributeError, KeyError, TypeError, IndexError, ValueError) as x:
            self.ck.undecided(name, at, "not modelled: %s %s" % (type(x).__name__, x))
            return
        bad = None
        for o in outs:
            m = o.val if o.kind == "ret" else "throws %s" % (o.val,)
            if m:
                bad = "%s%s" % (m, _when(o))
                break
        if len(outs) < need:
            bad = "nothing to look at (%d cases)" % len(outs)
        self.ck.cases += len(outs)
        self.ck.ob(name, bad is None, at, bad or "")

    def same(self, name, prog, at, need=1):
        """prog returns (got, want): equal number by number on every path."""
        def judge(a, gw):
            got, want = gw
            if isinstance(got, Thrown) or isinstance(want, Thrown):
                return None if isinstance(got, Thrown) and isinstance(want, Thrown) else "gives %s, not %s" % (show(got), show(want))
            g, w = flat(got), flat(want)
            if len(g) != len(w):
                return "gives %d numbers, not %d" % (len(g), len(w))
            for i, (x, y) in enumerate(zip(g, w)):
                if x != y and not self.equal_here(a, x, y):
                    return "number %d is %s, not %s" % (i, show(x), show(y))
            return None
        self._run(name, prog, at, judge, need)

    def equal_here(self, a, x, y):
        """Equal by linear reasoning over what the path assumed."""
        if not isinstance(x, R) or not isinstance(y, R):
            return False
        f = facts_of(a.known)
        c = logic.EqN(term(x - y), terms.num(0))
        return decided(logic.Ctx(f, []), c) is True

    def iff(self, name, prog, at, need=2):
        """prog returns (bool, condition): the value is the condition's truth on every path."""
        def judge(a, gw):
            got, cond = gw
            got = got.v if isinstance(got, Cell) else got
            if isinstance(got, Thrown):
                got = True if got.what == "__expected__" else got
            if not isinstance(got, bool):
                return "gives %s, not a truth value" % show(got)
            ds = {decided(logic.Ctx(f, []), cond) for f in abs_cases(facts_of(a.known))}
            d = ds.pop() if len(ds) == 1 else None
            return None if d is got else "gives %s where the condition %s" % (got, "is %s" % d if d is not None else "may differ")
        self._run(name, prog, at, judge, need)

    def throws_iff(self, name, prog, at, need=2):
        """prog returns (attempt(..), condition)."""
        def p(a):
            got, cond = prog(a)
            return isinstance(got, Thrown), cond
        self.iff(name, p, at, need)

    def holds(self, name, prog, at, need=1):
        """prog returns None or what is wrong."""
        self._run(name, prog, at, lambda a, m: m, need)


def abs_cases(facts, depth=3):
    """The facts split by the sign of the arguments of the absolute values they mention."""
    if depth == 0:
        return [facts]
    for t in sorted({v for a in facts if a[0] in ("lt", "gt", "eqn") for v in terms._vars(a)}, key=repr):
        if t[0] != "p" or not isinstance(t[1], tuple) or len(t[1]) != 1 or t[1][0][0][0] != "abs" or t[1][0][1] != 1:
            continue
        x = t[1][0][0][1]
        if ("abs", t) in facts:
            continue
        out = []
        for sign in (1, -1):
            f = dict(facts)
            f[("abs", t)] = sign
            for c, pol in ((logic.EqN(term(R({t[1]: 1}) - x * sign), terms.num(0)), True), (logic.Lt(term(x * sign), terms.num(0)), False)):
                if c.atom is not None:
                    f[c.atom] = pol == c.pol
            if terms.consistent(f):
                out += abs_cases(f, depth - 1)
        return out or [facts]
    return [facts]


def _leaf_cells(o):
    if isinstance(o, Obj):
        return [x for c in o.f.values() for x in (_leaf_cells(c.v) if isinstance(c.v, (Obj, Arr)) else [c])]
    return [x for c in o.cells for x in (_leaf_cells(c.v) if isinstance(c.v, (Obj, Arr)) else [c])]


def _when(o):
    f = [("%r %s" % (a[1], {"<0": "< 0", ">0": "> 0", "=0": "= 0"}.get(a[0], a[0]))) + ("" if v else " is false") for a, v in o.facts.items()
         if a[0] != "lin"]
    return " when " + "; ".join(f)[:600] if f else ""
