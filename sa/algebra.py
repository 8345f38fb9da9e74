"""Polynomial value analysis: what fixed-shape numeric code computes, as exact rational functions of its inputs.

Values are rational functions over input symbols and uninterpreted applications (sqrt, cos, ...), kept in a normal form in
which algebraic identity is equality; arrays and objects have a fixed shape, so loops with constant bounds are exact.
Comparisons of symbolic values split the analysis; each outcome carries the comparisons it assumed.
"""
from fractions import Fraction
import math

import logic
import terms
from facts import AnalysisError


class Unsupported(AnalysisError):
    pass


# ------------------------------------------------------------------------------------------------ rational functions

def _pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in _mono(m1, m2).items():
                v = out.get(m, 0) + c * c1 * c2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
    return out


def _mono(m1, m2):
    """Product of two monomials with sqrt^2 and sin^2 rewritten: a polynomial."""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a, e in list(d.items()):
        if e >= 2 and a[0] == "sqrt" and a[1].den == {(): 1}:
            d2 = dict(d)
            d2[a] = e - 2
            if not d2[a]:
                del d2[a]
            return _pmul(a[1].num, _mono((), tuple(sorted(d2.items(), key=repr))) if not _reducible(d2) else _red(d2))
        if e >= 2 and a[0] == "sin":
            d2 = dict(d)
            d2[a] = e - 2
            if not d2[a]:
                del d2[a]
            c = ("cos", a[1])
            base = _red(d2)
            return _padd(base, _pmul(base, {((c, 2),): -1}))
    return {tuple(sorted(d.items(), key=repr)): 1}


def _reducible(d):
    return any(e >= 2 and (a[0] == "sin" or a[0] == "sqrt" and a[1].den == {(): 1}) for a, e in d.items())


def _red(d):
    out = {(): 1}
    for a, e in d.items():
        for _ in range(e):
            out = _pmul(out, {((a, 1),): 1})
    return out


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


class R:
    """num / den with polynomial numerator and denominator."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        den = den or {(): 1}
        if len(den) == 1:
            (m, c), = den.items()
            if not m:
                if c != 1:
                    num = {k: Fraction(v) / c for k, v in num.items()}
                den = {(): 1}
            elif num:
                # cancel a monomial denominator
                dm = dict(m)
                common = {a: min([e] + [dict(k).get(a, 0) for k in num]) for a, e in dm.items()}
                if any(common.values()):
                    def red(k):
                        d = dict(k)
                        for a, e in common.items():
                            if e:
                                d[a] -= e
                                if not d[a]:
                                    del d[a]
                        return tuple(sorted(d.items(), key=repr))
                    num = {red(k): v for k, v in num.items()}
                    den = {red(m): c}
                    if not list(den)[0]:
                        self.__init__(num, den)
                        return
        if not num:
            den = {(): 1}
        self.num, self.den, self._h = num, den, None

    @staticmethod
    def c(v):
        if isinstance(v, R):
            return v
        v = Fraction(str(v)) if isinstance(v, float) else Fraction(v)
        return R({(): v} if v else {})

    @staticmethod
    def sym(name):
        return R({((("v", name), 1),): 1})

    @staticmethod
    def app(f, *args):
        return R({(((f,) + args, 1),): 1})

    def const(self):
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and () in self.num and self.den == {(): 1}:
            return Fraction(self.num[()])
        return None

    def __add__(self, o):
        o = R.c(o)
        if self.den == o.den:
            return R(_padd(self.num, o.num), self.den)
        return R(_padd(_pmul(self.num, o.den), _pmul(o.num, self.den)), _pmul(self.den, o.den))

    __radd__ = __add__

    def __neg__(self):
        return R({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-R.c(o))

    def __rsub__(self, o):
        return R.c(o) - self

    def __mul__(self, o):
        o = R.c(o)
        return R(_pmul(self.num, o.num), _pmul(self.den, o.den))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = R.c(o)
        if not o.num:
            raise Unsupported("division by zero")
        return R(_pmul(self.num, o.den), _pmul(self.den, o.num))

    def __rtruediv__(self, o):
        return R.c(o) / self

    def key(self):
        return (frozenset(self.num.items()), frozenset(self.den.items()))

    def __eq__(self, o):
        if not isinstance(o, R):
            try:
                o = R.c(o)
            except (TypeError, ValueError):
                return False
        if self.num == o.num and self.den == o.den:
            return True
        return _pmul(self.num, o.den) == _pmul(o.num, self.den)

    def __hash__(self):
        # equal functions may have different representations: hash only what is invariant
        if self._h is None:
            self._h = hash(self.key()) if self.den == {(): 1} else 7
        return self._h

    def __repr__(self):
        def pol(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items(), key=repr):
                t = "*".join((a[1] if a[0] == "v" else "%s(%s)" % (a[0], ", ".join(map(repr, a[1:])))) +
                             ("^%d" % e if e > 1 else "") for a, e in m)
                out.append(t if c == 1 and t else "%s*%s" % (c, t) if t else str(c))
            return " + ".join(out)
        return pol(self.num) if self.den == {(): 1} else "(%s) / (%s)" % (pol(self.num), pol(self.den))


def sqrt(x):
    x = R.c(x)
    c = x.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return R.c(Fraction(n, d))
    if x.den != {(): 1}:
        return R.app("sqrt", R(x.num)) / R.app("sqrt", R(x.den)) if len(x.den) else x
    return R.app("sqrt", x)


def trig(x):
    """(cos, sin) of x: expanded over sums and small integer multiples of its terms."""
    x = R.c(x)
    if x.den != {(): 1}:
        return R.app("cos", x), R.app("sin", x)
    c, s = R.c(1), R.c(0)
    for m, k in sorted(x.num.items(), key=repr):
        k = Fraction(k)
        if not m:
            quarter = k / Fraction(math.pi / 2)
            if abs(quarter - round(quarter)) < Fraction(1, 10**12):
                # a multiple of a right angle, up to the rounding of pi
                j = round(quarter) % 4
                c1, s1 = R.c((1, 0, -1, 0)[j]), R.c((0, 1, 0, -1)[j])
            else:
                c1, s1 = R.app("cos", R.c(k)), R.app("sin", R.c(k))
        else:
            n = k if k.denominator == 1 and abs(k) <= 8 else Fraction(1)
            base = R({m: k / n})
            bc, bs = R.app("cos", base), R.app("sin", base)
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "atan2" and (k / n) == 1:
                y, x_ = m[0][0][1:]
                h = sqrt(x_ * x_ + y * y)
                bc, bs = x_ / h, y / h
            c1, s1 = R.c(1), R.c(0)
            for _ in range(abs(int(n))):
                c1, s1 = c1 * bc - s1 * bs, s1 * bc + c1 * bs
            if n < 0:
                s1 = -s1
        c, s = c * c1 - s * s1, s * c1 + c * s1
    return c, s


# ------------------------------------------------------------------------------------------------ shaped values

class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Arr:
    def __init__(self, vals):
        self.cells = [Cell(v) for v in vals]

    def vals(self):
        return [c.v for c in self.cells]


class Obj:
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.f = {k: Cell(v) for k, v in (fields or {}).items()}

    def __getitem__(self, k):
        return self.f[k].v


class It:
    def __init__(self, arr, i):
        self.arr, self.i = arr, i


class Ref:
    """A pointer to a cell."""

    def __init__(self, cell):
        self.cell = cell


class Lam:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


class Fun:
    def __init__(self, f):
        self.f = f


class Opaque:
    """A value outside the analysis (streams, ids...), named by how it was obtained."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return str(self.name)


class Raw:
    """Unevaluated double-precision symbol kept out of R (infinity, epsilon)."""


def copyv(v):
    if isinstance(v, Arr):
        return Arr([copyv(x) for x in v.vals()])
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.f = {k: Cell(copyv(c.v)) for k, c in v.f.items()}
        return o
    return v


class Throw(Exception):
    def __init__(self, what, ub=False):
        self.what = what
        self.ub = ub


class Skip(Exception):
    """The path does not satisfy a precondition."""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Outcome:
    def __init__(self, facts, kind, val, this=None, args=None):
        self.facts, self.kind, self.val, self.this, self.args = facts, kind, val, this, args

    def __repr__(self):
        return "[%s] %s %s" % (", ".join("%s%s" % ("" if b else "!", a) for a, b in self.facts.items()), self.kind, self.val)


# ------------------------------------------------------------------------------------------------ linear view

def term(r):
    """A rational function as a linear form over its monomials, for the linear reasoning of logic.py."""
    r = R.c(r)
    if r.den != {(): 1}:
        return ("p", r)
    return terms.mk_lin({("p", m): Fraction(c) for m, c in r.num.items() if m}, Fraction(r.num.get((), 0)))


_FACTS = {}


def _fact(atom):
    k = (atom[0], id(atom[1]))
    hit = _FACTS.get(k)
    if hit is None:
        if len(_FACTS) > 20000:
            _FACTS.clear()
        hit = _FACTS[k] = (_fact_of(atom), atom)    # keeps the atom alive, so that its id stays valid
    return hit[0]


def _fact_of(atom):
    """The linear atom behind a comparison made on a path, with its polarity (None: not a comparison)."""
    if atom[0] == "<0":
        c = logic.Lt(term(atom[1]), terms.num(0))
    elif atom[0] == ">0":
        c = logic.Gt(term(atom[1]), terms.num(0))
    elif atom[0] == "=0":
        c = logic.EqN(term(atom[1]), terms.num(0))
    else:
        return None
    return (c.atom, c.pol) if isinstance(c, logic.At) and c.atom is not None else None


def _positive(m):
    return m and all(e % 2 == 0 or a[0] in ("sqrt", "abs") for a, e in m)


def facts_of(known, extra=()):
    out, vs = {}, set()
    for a, v in known.items():
        if a[0] == "lin":
            out[a[1]] = v
            vs |= terms._vars(a[1])
            continue
        f = _fact(a)
        if f:
            out[f[0]] = v == f[1]
            vs |= terms._vars(f[0])
        else:
            out[a] = v
    for a in extra:
        vs |= terms._vars(a)
    for t in vs:
        if t[0] == "p" and isinstance(t[1], tuple) and _positive(t[1]):
            out.setdefault(("lt", t, 0), False)
    return out


def entailed(known, atom):
    f = _fact(atom)
    if not f or not known:
        return None
    d = terms.lin_decide(facts_of(known, [f[0]]), f[0])
    return None if d is None else d == f[1]


def ctx_of(outcome):
    return logic.Ctx(facts_of(outcome.facts), [])


def less(a, b):
    return logic.Lt(term(a), term(b))


def at_most(a, b):
    return logic.Not(less(b, a))


INTS = ("int", "unsigned int", "long", "unsigned long", "unsigned", "std::size_t", "size_t", "long long", "unsigned char", "std::uint8_t",
        "uint8_t", "uint32_t", "std::uint32_t")


def equal(a, b):
    return logic.EqN(term(R.c(a) - R.c(b)), terms.num(0))


class Algebra:
    def __init__(self, F, opaque=None, max_outcomes=4000):
        self.F = F
        self.opaque = opaque or {}     # qualified name -> python function(self, this, args)
        self.max = max_outcomes
        self.functions = set()
        self.consts = {}

    # -- driver
    def run(self, fn, this=None, args=(), assume=None):
        """All outcomes of fn; this/args are factories (called anew for each outcome)."""
        def prog(a):
            a.this = this() if this else None
            a.args = list(args()) if callable(args) else list(args)
            return a.invoke(fn, a.this, a.args)
        return self.explore(prog, assume)

    def explore(self, prog, assume=None):
        """All outcomes of prog(self), which builds objects and calls functions with new() and call()."""
        todo, out = [[]], []
        while todo:
            self.script = todo.pop()
            self.pos, self.taken = 0, []
            self.known = dict(assume() if callable(assume) else assume or {})
            self.this, self.args = None, []
            self.depth = 0
            try:
                v = prog(self)
                out.append(Outcome(dict(self.known), "ret", v, self.this, self.args))
            except Throw as e:
                out.append(Outcome(dict(self.known), "throw", e.what, self.this, self.args))
            except Skip:
                pass
            for i in range(len(self.script), len(self.taken)):
                todo.append(self.taken[:i] + [not self.taken[i]])
            if len(out) > self.max:
                raise Unsupported("too many outcomes")
        return out

    def assume(self, *conds):
        """Atomic linear conditions of logic.py taken to hold from here on."""
        for c in conds:
            pol = True
            while isinstance(c, logic.Not):
                c, pol = c.c, not pol
            if c.atom is not None:
                self.known[("lin", c.atom)] = c.pol == pol

    def new(self, cls, *args, ptypes=None, valid=True):
        """An object built by the class's constructor; with valid, paths on which it throws are dropped."""
        fns = [f for f in self.F.fns_of(cls + "::" + cls.rpartition("::")[2])
               if f.get("ctor") and not f.get("dep") and len(f["params"]) == len(args) and
               (ptypes is None or all(t in p["t"] for t, p in zip(ptypes, f["params"]))) and not f.get("copy") and
               not (len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == cls)]
        if not fns and not args:
            return self.default(cls)
        if len(fns) != 1:
            raise AnalysisError("%d constructors of %s take %d arguments" % (len(fns), cls, len(args)))
        o = Obj(cls)
        try:
            self.invoke(fns[0], o, [copyv(a) for a in args])
        except Throw:
            if valid:
                raise Skip()
            raise
        return o

    def call(self, q, o, *args, ptypes=None, key=None):
        """The value of calling method (o not None) or function q."""
        fns = [f for f in self.F.fns_of(q) if not f.get("dep") and len(f["params"]) == len(args) and
               (key is None or key in f["key"]) and
               (ptypes is None or all(t in p["t"] for t, p in zip(ptypes, f["params"])))]
        if len(fns) > 1:
            c = [f for f in fns if f["key"].endswith("#1")]
            fns = c if len(c) == 1 else fns
        if not fns:
            raise AnalysisError("no function %s with %d parameters" % (q, len(args)))
        if len(fns) > 1:
            raise AnalysisError("several functions %s with %d parameters" % (q, len(args)))
        fn = fns[0]
        if fn.get("virt") and isinstance(o, Obj):
            best = self.F.override(o.cls.split("<")[0], fn["key"])
            fn = best if isinstance(best, dict) else self.F.fns.get(best, fn)
        v = self.invoke(fn, o, list(args))
        return v.v if isinstance(v, Cell) else v

    def on(self, o, name, *args, ptypes=None, const=None):
        """Calls the member function of the object's own class instance (static ones too, with o a class name)."""
        cls = o if isinstance(o, str) else o.cls
        short = cls.rpartition("::")[2] if "<" not in cls else cls.split("<")[0].rpartition("::")[2] + "<" + cls.split("<")[1]
        tag = short.replace("<", ">#Vl").rstrip(">") + "@F@" + name + "#"
        fns = [f for k, f in self.F.fns.items() if tag in k and not f.get("dep") and len(f["params"]) == len(args) and
               f["q"].rpartition("::")[2] == name and (ptypes is None or all(t in p["t"] for t, p in zip(ptypes, f["params"])))]
        if len(fns) > 1:
            c = [f for f in fns if f["key"].endswith("#1") == (const is not False)]
            fns = c or fns
        if len(fns) != 1:
            raise AnalysisError("%d functions %s::%s with %d parameters" % (len(fns), cls, name, len(args)))
        v = self.invoke(fns[0], None if isinstance(o, str) else o, list(args))
        return v

    def choose(self, atom):
        """The truth of a symbolic comparison, split when not settled."""
        if atom in self.known:
            return self.known[atom]
        d = entailed(self.known, atom)
        if d is not None:
            self.known[atom] = d
            return d
        if self.pos < len(self.script):
            b = self.script[self.pos]
        else:
            b = True
        self.pos += 1
        self.taken.append(b)
        self.known[atom] = b
        return b

    def less(self, a, b):
        d = R.c(a) - R.c(b)
        c = d.const()
        if c is not None:
            return c < 0
        num, den = d.num, d.den
        lead = sorted(num.items(), key=repr)[0][1]
        k = abs(Fraction(lead))
        n = R({m: Fraction(x) / k for m, x in num.items()}, den)
        # canonical sign: store as "n < 0" with positive leading coefficient, or "-n > 0"
        if lead > 0:
            return self.choose(("<0", n))
        return self.choose((">0", -n))

    def equal(self, a, b):
        if isinstance(a, (int, bool, str)) and isinstance(b, (int, bool, str)):
            return a == b
        if isinstance(a, (R, int, Fraction)) and isinstance(b, (R, int, Fraction)):
            d = R.c(a) - R.c(b)
            c = d.const()
            if c is not None:
                return c == 0
            lead = Fraction(sorted(d.num.items(), key=repr)[0][1])
            return self.choose(("=0", R({m: Fraction(x) / lead for m, x in d.num.items()}, d.den)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.cell is b.cell
        if isinstance(a, Ref) or isinstance(b, Ref):
            x = b if isinstance(a, Ref) else a
            if x is None:
                return False
        if isinstance(a, It) and isinstance(b, It):
            return a.arr is b.arr and a.i == b.i
        if a is None or b is None:
            return a is b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.cells) != len(b.cells):
                return False
            for x, y in zip(a.cells, b.cells):
                if not (self.unc(self.opcall("==", x.v, y.v)) if isinstance(x.v, Obj) else self.equal(x.v, y.v)):
                    return False
            return True
        raise Unsupported("comparison of %r and %r" % (a, b))

    # -- calls
    def invoke(self, fn, this, args, env=None):
        if fn.get("body") is None and not fn.get("ctor"):
            raise Unsupported("no body for %s" % fn["q"])
        self.functions.add(fn["q"])
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in %s" % fn["q"])
        e = dict(env or {})
        fr = (e, this, fn["tu"])
        try:
            for i, p in enumerate(fn["params"]):
                if i < len(args):
                    a = args[i]
                elif p.get("d") is not None:
                    a = self.ev(p["d"], fr)
                else:
                    raise Unsupported("missing argument of %s" % fn["q"])
                t = p["t"]
                if t.rstrip().endswith("&"):
                    e[p["id"]] = a if isinstance(a, Cell) else Cell(a)
                else:
                    e[p["id"]] = Cell(copyv(a.v if isinstance(a, Cell) else a))
            if fn.get("ctor"):
                self.ctor_inits(fn, fr)
            try:
                if fn.get("body") is not None:
                    self.exec(fn["body"], fr)
            except _Ret as r:
                v = r.v
                if fn["ret"].rstrip().endswith("&"):
                    return v
                return copyv(v.v if isinstance(v, Cell) else v)
            return None
        finally:
            self.depth -= 1

    def ctor_inits(self, fn, fr):
        this = fr[1]
        c = self.F.classes.get(fn["cls"])
        done = set()
        for i in fn.get("inits", []):
            if i.get("f") and i.get("e") is not None:
                self.field(this, i["f"]).v = copyv(self.val(i["e"], fr))
                done.add(i["f"])
            elif i.get("e") is not None:
                # base or delegated constructor
                b = i["e"]
                if b.get("k") == "ctor":
                    self.construct_into(this, b, fr)
                    done |= set(this.f)
                else:
                    v = self.val(b, fr)
                    if isinstance(v, Obj):
                        for k, x in v.f.items():
                            this.f[k] = x
                            done.add(k)
        for fd in (c or {}).get("fields", []):
            if fd["q"] not in done and fd["q"] not in {k for k in this.f}:
                if fd.get("i") is not None:
                    self.field(this, fd["q"]).v = copyv(self.val(fd["i"], ({}, this, c["tu"])))
                else:
                    self.field(this, fd["q"]).v = self.default(fd["t"])

    def construct_into(self, this, e, fr):
        fn = self.F.fns.get(e["c"])
        args = [self.ev(a, fr) for a in e["a"]]
        if fn is None or (fn.get("body") is None and not fn.get("inits")):
            if fn is None or not e["a"]:
                return
        self.invoke(fn, this, args)

    def default(self, t):
        t = t.replace("const ", "").strip()
        if t in ("double", "float", "int", "unsigned long", "std::size_t", "size_t", "bool", "unsigned int", "long"):
            return R.c(0) if t in ("double", "float") else 0
        if t.startswith("std::array<"):
            inner = t[len("std::array<"):-1]
            el, n = inner.rsplit(",", 1)
            return Arr([self.default(el.strip()) for _ in range(int(n.strip().rstrip("UL")))])
        if t.startswith("std::vector<"):
            return Arr([])
        q = t.split("<")[0]
        if q.startswith("maliput::"):
            for f in self.F.fns_of(q + "::" + t.rpartition("::")[2]) + self.F.fns_of(q + "::" + q.rpartition("::")[2]):
                if f.get("ctor") and not f["params"] and not f.get("dep") and self.same_class(f, t):
                    o = Obj(t)
                    self.invoke(f, o, [])
                    return o
            c = self.F.classes.get(q)
            if c:
                o = Obj(t)
                for fd in c["fields"]:
                    o.f[fd["q"]] = Cell(copyv(self.val(fd["i"], ({}, o, c["tu"]))) if fd.get("i") is not None else self.default(fd["t"]))
                return o
        return Opaque("default " + t)

    def same_class(self, f, t):
        """Constructor f builds class t (including its template argument)."""
        if "<" not in t:
            return "<" not in f["q"] or True
        n = t[t.index("<") + 1:].rstrip(">").split(",")[0].strip()
        return ("#Vl" + n) in f["key"] or ("#" + n) in f["key"]

    def field(self, o, f):
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, Ref):
            o = o.cell.v
        if not isinstance(o, Obj):
            if f in ("std::pair::first", "std::pair::second") and isinstance(o, Arr):
                return o.cells[0 if f.endswith("first") else 1]
            raise Unsupported("field %s of %r" % (f, o))
        if f not in o.f:
            o.f[f] = Cell(None)
        return o.f[f]

    # -- statements
    def exec(self, n, fr):
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement %s" % k)
        return m(n, fr)

    def s_blk(self, n, fr):
        for s in n["s"]:
            self.exec(s, fr)

    def s_nop(self, n, fr):
        pass

    def s_x(self, n, fr):
        self.ev(n["e"], fr)

    def s_decl(self, n, fr):
        for d in n["d"]:
            self.declare(d, fr)

    def declare(self, d, fr):
        if "id" not in d:
            return
        if d.get("r"):
            v = self.ev(d["i"], fr)
            fr[0][d["id"]] = v if isinstance(v, Cell) else Cell(v)
        elif d.get("i") is not None:
            v = self.val(d["i"], fr)
            fr[0][d["id"]] = Cell(self.coerce(copyv(v), d["t"]))
        else:
            fr[0][d["id"]] = Cell(self.default(d["t"]))
        if d.get("bind"):
            o = fr[0][d["id"]].v
            for b in d["bind"]:
                fr[0][b["id"]] = o.cells[b["x"]] if isinstance(o, Arr) else self.field(o, b["f"])

    def coerce(self, v, t):
        t = t.replace("const ", "").strip()
        if t in ("double", "float") and isinstance(v, (int, bool)):
            return R.c(int(v))
        return v

    def s_if(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        if n.get("cv"):
            self.declare(n["cv"], fr)
        if self.truth(n["c"], fr):
            self.exec(n["t"], fr)
        elif n.get("e"):
            self.exec(n["e"], fr)

    def s_do(self, n, fr):
        for _ in range(200):
            try:
                self.exec(n["b"], fr)
            except _Brk:
                return
            except _Cont:
                pass
            if not self.truth(n["c"], fr):
                return
        raise Unsupported("loop without constant bound")

    def s_for(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        for _ in range(400):
            if n.get("c") and not self.truth(n["c"], fr):
                return
            try:
                self.exec(n["b"], fr)
            except _Brk:
                return
            except _Cont:
                pass
            if n.get("inc"):
                self.ev(n["inc"], fr)
        raise Unsupported("loop without constant bound")

    def s_while(self, n, fr):
        self.s_for({"c": n["c"], "b": n["b"]}, fr)

    def s_rfor(self, n, fr):
        a = self.val(n["r"], fr)
        if not isinstance(a, Arr):
            raise Unsupported("range for over %r" % a)
        v = n["v"]
        for c in list(a.cells):
            fr[0][v["id"]] = c if v.get("r") else Cell(copyv(c.v))
            try:
                self.exec(n["b"], fr)
            except _Brk:
                return
            except _Cont:
                continue

    def s_ret(self, n, fr):
        raise _Ret(self.ev(n["e"], fr) if n.get("e") else None)

    def s_brk(self, n, fr):
        raise _Brk()

    def s_cont(self, n, fr):
        raise _Cont()

    def truth(self, e, fr):
        v = self.val(e, fr)
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, R):
            return not self.equal(v, R.c(0))
        if isinstance(v, Ref):
            return True
        if v is None:
            return False
        if isinstance(v, Opaque):
            return self.choose(("is", v.name))
        raise Unsupported("truth of %r" % (v,))

    # -- expressions: ev yields a Cell for lvalues or a value
    def val(self, e, fr):
        v = self.ev(e, fr)
        return v.v if isinstance(v, Cell) else v

    def ev(self, e, fr):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s" % e["k"])
        return m(e, fr)

    def e_int(self, e, fr):
        return int(e["v"])

    def e_flt(self, e, fr):
        return R.c(Fraction(e["v"])) if e["v"] not in ("inf", "nan") else Opaque(e["v"])

    def e_bool(self, e, fr):
        return bool(e["v"])

    def e_nullptr(self, e, fr):
        return None

    def e_str(self, e, fr):
        return e.get("v", "")

    def e_chr(self, e, fr):
        return e["v"]

    def e_enum(self, e, fr):
        return e["q"]

    def e_this(self, e, fr):
        return Ref(fr[1]) if isinstance(fr[1], Cell) else Ref(Cell(fr[1]))

    def e_ref(self, e, fr):
        c = fr[0].get(e["id"])
        if c is None:
            g = e.get("g")
            if g:
                v = self.global_value(g, fr)
                return Cell(v)
            raise Unsupported("variable %s" % e["n"])
        return c

    def global_value(self, g, fr):
        if g == "std::nullopt":
            return None
        if g in self.consts:
            return self.consts[g]
        gl = self.F.globals.get(g) if hasattr(self.F, "globals") else None
        if gl is not None and gl.get("i") is not None:
            v = self.val(gl["i"], ({}, None, gl.get("tu")))
            self.consts[g] = v
            return v
        return R.sym(g.rpartition("::")[2])

    def e_mem(self, e, fr):
        if e["b"].get("k") == "null":
            raise Unsupported("member")
        b = self.ev(e["b"], fr)
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, Ref):
            b = b.cell.v
        return self.field(b, e["f"])

    def e_idx(self, e, fr):
        a, i = self.val(e["b"], fr), self.val(e["i"], fr)
        return self.at(a, i)

    def at(self, a, i):
        if isinstance(i, R):
            c = i.const()
            if c is None:
                raise Unsupported("symbolic index")
            i = int(c)
        if isinstance(a, It):
            a, i = a.arr, a.i + i
        if not isinstance(a, Arr):
            raise Unsupported("index of %r" % a)
        if i < 0 or i >= len(a.cells):
            raise Throw("index out of bounds", True)
        return a.cells[i]

    def e_cast(self, e, fr):
        v = self.ev(e["e"], fr)
        t = e["t"].replace("const ", "").strip()
        if e.get("ck") == "dynamic":
            x = v.v if isinstance(v, Cell) else v
            want = t.rstrip("*& ")
            o = x.cell.v if isinstance(x, Ref) else x
            if isinstance(o, Obj):
                if o.cls.split("<")[0] == want.split("<")[0] or self.derives(o.cls, want):
                    return v
                return None
            raise Unsupported("dynamic_cast")
        x = v.v if isinstance(v, Cell) else v
        if isinstance(x, str) and t in INTS:
            en = self.F.enums.get(x.rpartition("::")[0])
            if en and x in en["consts"]:
                return en["vals"][en["consts"].index(x)]
        if isinstance(x, int) and not isinstance(x, bool) and t in self.F.enums:
            en = self.F.enums[t]
            if x in en["vals"]:
                return en["consts"][en["vals"].index(x)]
            return Opaque(("enum", t, x))
        if t in ("double", "float"):
            return self.coerce(v.v if isinstance(v, Cell) else v, t)
        return v

    def derives(self, a, b):
        return any(x.split("<")[0] == b.split("<")[0] for x in self.F.bases_of(a.split("<")[0]))

    def e_copy(self, e, fr):
        return copyv(self.val(e["e"], fr))

    e_move = e_copy

    def e_zero(self, e, fr):
        return self.default(e["t"])

    def e_null(self, e, fr):
        return None

    def e_init(self, e, fr):
        vals = [copyv(self.val(a, fr)) for a in e["a"]]
        t = e["t"].replace("const ", "").strip()
        if len(vals) == 1 and isinstance(vals[0], Obj) and vals[0].cls.split("<")[0] == t.split("<")[0]:
            return vals[0]
        if e.get("fs") and not t.startswith("std::"):
            o = self.default(t)
            if isinstance(o, Opaque):
                o = Obj(t)
            for f, v in zip(e["fs"], vals):
                o.f[f if isinstance(f, str) else f.get("q")] = Cell(v)
            return o
        if t.startswith(("std::array", "double[", "std::initializer_list")) or t.endswith("]"):
            if len(vals) == 1 and isinstance(vals[0], Arr) and t.startswith("std::array") and "[" not in t:
                return vals[0]
            base = self.default(t) if t.startswith("std::array") else None
            dbl = "double" in t and "Vector" not in t
            vals = [self.coerce(v, "double") if dbl else v for v in vals]
            if t.endswith("]") and "[" in t:
                n = int(t[t.rindex("[") + 1:-1] or len(vals))
                vals += [R.c(0)] * (n - len(vals))
            if isinstance(base, Arr) and len(vals) < len(base.cells):
                vals += base.vals()[len(vals):]
            return Arr(vals)
        if len(vals) == 1:
            return self.coerce(vals[0], t)
        if not vals:
            return self.default(t)
        return Arr(vals)

    def e_ctor(self, e, fr):
        q = e["q"]
        if q.startswith("std::"):
            if q in ("std::plus", "std::minus", "std::multiplies", "std::divides"):
                return Fun({"plus": self.add2, "minus": self.sub2, "multiplies": self.mul2, "divides": self.div2}[q[5:]])
            args = [self.val(a, fr) for a in e["a"]]
            args = [a for a in args if not (isinstance(a, Opaque) and str(a.name).startswith("default std::allocator"))]
            if q in ("std::initializer_list", "std::vector", "std::array"):
                if args and isinstance(args[0], Arr):
                    return copyv(args[0])
                if not args:
                    return self.default(e["t"])
                if args and isinstance(args[0], int) and q == "std::vector":
                    return Arr([copyv(args[1]) if len(args) > 1 else self.default(e["t"][12:-1]) for _ in range(args[0])])
            if q == "std::optional":
                return args[0] if args else None
            if q == "std::pair" and len(args) == 2:
                return Arr(args)
            if q == "std::nullopt_t":
                return None
            return Opaque(("ctor", q) + tuple(str(a) for a in args))
        fn = self.F.fns.get(e["c"])
        o = Obj(e.get("t", q).replace("const ", "").strip() or q)
        if fn is None:
            if not e["a"]:
                d = self.default(o.cls)
                return d
            raise Unsupported("constructor of %s" % q)
        args = [self.ev(a, fr) for a in e["a"]]
        self.invoke(fn, o, args)
        return o

    def e_uctor(self, e, fr):
        raise Unsupported("unresolved construction")

    def e_lam(self, e, fr):
        env = {}
        for c in e["cap"]:
            if c["k"] == "var":
                src = fr[0].get(c["id"])
                if src is not None:
                    env[c["id"]] = src if c.get("ref") else Cell(copyv(src.v))
        env.update({k: v for k, v in fr[0].items() if k not in env})
        return Lam(e["f"], env, fr[1])

    def e_cond(self, e, fr):
        return self.ev(e["a"] if self.truth(e["c"], fr) else e["b"], fr)

    def e_throw(self, e, fr):
        raise Throw(e.get("t", ""))

    def e_fn(self, e, fr):
        return Opaque(("fn", e.get("q") or e.get("n")))

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, R)):
            return v
        raise Unsupported("number expected, got %r" % (v,))

    def arith(self, op, a, b, t=""):
        if isinstance(a, It):
            return It(a.arr, a.i + b) if op == "+" else (a.i - b.i if isinstance(b, It) else It(a.arr, a.i - b))
        a, b = self.num(a), self.num(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == "/":
                if "double" in t or "float" in t:
                    return R.c(Fraction(a, b))
                return int(a / b) if b else 0
            return {"+": a + b, "-": a - b, "*": a * b, "%": a % b if b else 0, "&": a & b, "|": a | b, "^": a ^ b,
                    "<<": a << b if 0 <= b < 64 else 0, ">>": a >> b if 0 <= b < 64 else 0}[op]
        a, b = R.c(a), R.c(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        raise Unsupported("operator %s" % op)

    def add2(self, a, b):
        return self.opcall("+", a, b)

    def sub2(self, a, b):
        return self.opcall("-", a, b)

    def mul2(self, a, b):
        return self.opcall("*", a, b)

    def div2(self, a, b):
        return self.opcall("/", a, b)

    def opcall(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            for q in ("maliput::math::VectorBase::operator" + op,):
                for f in self.F.fns_of(q):
                    if not f.get("dep") and len(f["params"]) == 1 and self.same_shape(f, a):
                        return self.invoke(f, a, [b])
            raise Unsupported("operator %s on objects" % op)
        return self.arith(op, a, b)

    def same_shape(self, f, o):
        n = len(o.f["maliput::math::VectorBase::values_"].v.cells)
        return "VectorBase>#Vl%d" % n in f["key"] and o.cls.split("::")[-1].split("<")[0] in f["key"]

    def cmp(self, op, a, b):
        if op == "==":
            return self.equal(a, b)
        if op == "!=":
            return not self.equal(a, b)
        if isinstance(a, It) and isinstance(b, It):
            a, b = a.i, b.i
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op == "<":
            return self.less(a, b)
        if op == ">":
            return self.less(b, a)
        if op == "<=":
            return not self.less(b, a)
        return not self.less(a, b)

    def e_bin(self, e, fr):
        op = e["op"]
        if op == "&&":
            return self.truth(e["a"], fr) and self.truth(e["b"], fr)
        if op == "||":
            return self.truth(e["a"], fr) or self.truth(e["b"], fr)
        if op == ",":
            self.ev(e["a"], fr)
            return self.ev(e["b"], fr)
        a, b = self.val(e["a"], fr), self.val(e["b"], fr)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b)
        return self.arith(op, a, b, e.get("t", ""))

    def e_un(self, e, fr):
        op = e["op"]
        if op in ("++", "--"):
            c = self.ev(e["e"], fr)
            old = c.v
            c.v = self.arith("+" if op == "++" else "-", old, 1)
            return old if e.get("post") else c
        if op == "!":
            return not self.truth(e["e"], fr)
        if op == "&":
            c = self.ev(e["e"], fr)
            return Ref(c if isinstance(c, Cell) else Cell(c))
        if op == "*":
            v = self.val(e["e"], fr)
            if isinstance(v, Ref):
                return v.cell
            if isinstance(v, It):
                return self.at(v.arr, v.i)
            if isinstance(v, (Obj, Arr, R)):
                return Cell(v)
            raise Unsupported("dereference of %r" % (v,))
        v = self.val(e["e"], fr)
        if op == "-":
            return -v if isinstance(v, (int, R)) else self.arith("-", 0, v)
        if op == "+":
            return v
        raise Unsupported("unary %s" % op)

    def assign(self, c, v):
        if not isinstance(c, Cell):
            raise Unsupported("assignment to a temporary")
        v = copyv(v)
        if isinstance(c.v, Obj) and isinstance(v, Obj):
            for k, x in v.f.items():
                self.field(c.v, k).v = x.v
        elif isinstance(c.v, Arr) and isinstance(v, Arr):
            if len(c.v.cells) == len(v.cells):
                for a, b in zip(c.v.cells, v.cells):
                    a.v = b.v
            else:
                c.v.cells = v.cells
        else:
            c.v = R.c(v) if isinstance(c.v, R) and isinstance(v, int) else v
        return c

    def e_asg(self, e, fr):
        v = self.val(e["b"], fr)
        c = self.ev(e["a"], fr)
        if e["op"] != "=":
            v = self.arith(e["op"][:-1], c.v, v, e.get("t", ""))
        return self.assign(c, v)

    def e_op(self, e, fr):
        op, n = e["op"], e.get("n", "")
        fn = self.F.fns.get(e.get("c") or "")
        if fn is not None and (fn.get("body") is not None):
            meth = bool(fn.get("cls")) and not fn.get("static")
            if meth:
                o = self.ev(e["a"][0], fr)
                if isinstance(o, Cell):
                    o = o.v
                if isinstance(o, Ref):
                    o = o.cell.v
                return self.invoke(fn, o, [self.ev(a, fr) for a in e["a"][1:]])
            return self.invoke(fn, None, [self.ev(a, fr) for a in e["a"]])
        a = [self.ev(x, fr) for x in e["a"]]
        v = [x.v if isinstance(x, Cell) else x for x in a]
        if op == "[]":
            return self.at(v[0], v[1])
        if op == "=":
            return self.assign(a[0], v[1])
        if op == "()":
            return self.apply(v[0], v[1:])
        if op == "<<" and (isinstance(v[0], Opaque)):
            return v[0]
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(v) == 2:
            return self.cmp(op, v[0], v[1])
        if op == "*" and len(v) == 1:
            return self.e_deref(v[0])
        if op in ("++", "--"):
            a[0].v = self.arith("+" if op == "++" else "-", v[0], 1)
            return a[0]
        if op in ("+", "-") and len(v) == 2:
            return self.arith(op, v[0], v[1])
        raise Unsupported("operator %s (%s)" % (op, n))

    def e_deref(self, v):
        if isinstance(v, It):
            return self.at(v.arr, v.i)
        if isinstance(v, Ref):
            return v.cell
        return Cell(v)

    def e_icall(self, e, fr):
        f = self.val(e["f"], fr)
        return self.apply(f, [self.ev(a, fr) for a in e["a"]])

    def apply(self, f, args):
        if isinstance(f, Fun):
            return f.f(*[a.v if isinstance(a, Cell) else a for a in args])
        if isinstance(f, Lam):
            fn = dict(f.fn)
            fn.setdefault("tu", None)
            fn.setdefault("q", "lambda")
            fn.setdefault("ret", fn.get("ret") or "auto")
            return self.invoke(fn, f.this, args, env=f.env)
        raise Unsupported("call of %r" % (f,))

    def e_call(self, e, fr):
        n = e["n"]
        short = n.rpartition("::")[2]
        if n in self.opaque or short in self.opaque and n.startswith("maliput"):
            h = self.opaque.get(n) or self.opaque[short]
            o = None
            if e.get("o") is not None:
                o = self.val(e["o"], fr)
            return h(self, o, [self.val(a, fr) for a in e["a"]])
        if n == "maliput::common::internal::Throw" or e.get("nr"):
            raise Throw(n)
        fn = self.F.fns.get(e.get("c") or "")
        if e.get("o") is not None and not n.startswith("std::"):
            o = self.ev(e["o"], fr)
            if isinstance(o, Cell):
                o = o.v
            if isinstance(o, Ref):
                o = o.cell.v
            if fn is not None and fn.get("virt") and isinstance(o, Obj):
                # dynamic dispatch on the object's class
                best = self.F.override(o.cls.split("<")[0], fn.get("usr") or fn["key"]) if hasattr(self.F, "override") else None
                if best is not None:
                    fn = best if isinstance(best, dict) else self.F.fns.get(best, fn)
            elif fn is None and isinstance(o, Obj):
                best = self.F.override(o.cls.split("<")[0], e["c"])
                fn = best if isinstance(best, dict) else self.F.fns.get(best or "")
            if fn is None:
                raise Unsupported("method %s" % n)
            return self.invoke(fn, o, [self.ev(a, fr) for a in e["a"]])
        if fn is not None and fn.get("body") is not None:
            this = fr[1] if fn.get("cls") and not fn.get("static") else None
            return self.invoke(fn, this, [self.ev(a, fr) for a in e["a"]])
        if e.get("o") is not None:
            return self.std_method(short, self.ev(e["o"], fr), [self.ev(a, fr) for a in e["a"]], e)
        return self.std_free(short, [self.ev(a, fr) for a in e["a"]], e)

    def std_method(self, short, o, args, e):
        c = o
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, Ref):
            o = o.cell.v
        args = [a.v if isinstance(a, Cell) else a for a in args]
        if isinstance(o, Arr):
            if short in ("begin", "cbegin", "data"):
                return It(o, 0)
            if short in ("end", "cend"):
                return It(o, len(o.cells))
            if short == "size":
                return len(o.cells)
            if short == "empty":
                return not o.cells
            if short in ("at", "operator[]"):
                try:
                    return self.at(o, args[0])
                except Throw as x:
                    raise Throw(x.what, x.ub and short != "at")
            if short in ("push_back", "emplace_back"):
                o.cells.append(Cell(copyv(args[0])))
                return None
            if short == "fill":
                for x in o.cells:
                    x.v = R.c(args[0]) if isinstance(x.v, R) else copyv(args[0])
                return None
            if short in ("front", "back"):
                return o.cells[0 if short == "front" else -1]
            if short in ("reserve",):
                return None
        if short in ("value", "get") and o is not None:
            return o if not isinstance(c, Cell) else c
        if short == "has_value":
            return o is not None
        if isinstance(o, Opaque):
            return Opaque((short, o.name) + tuple(str(a) for a in args))
        raise Unsupported("method %s of %r" % (short, o))

    def std_free(self, short, args, e):
        v = [a.v if isinstance(a, Cell) else a for a in args]
        if short in ("sqrt",):
            return sqrt(v[0])
        if short in ("cos", "sin"):
            return trig(v[0])[short == "sin"]
        if short in ("abs", "fabs"):
            x = v[0]
            if isinstance(x, int):
                return abs(x)
            c = x.const()
            if c is not None:
                return R.c(abs(c))
            # |x| is canonical up to sign
            lead = sorted(x.num.items(), key=repr)[0][1]
            return R.app("abs", -x if lead < 0 else x)
        if short in ("acos", "asin", "atan2", "atan", "tan", "pow", "exp", "hypot", "floor", "ceil", "fmod"):
            return R.app(short, *[R.c(x) for x in v])
        if short in ("min", "max", "clamp") and all(isinstance(x, int) for x in v):
            return {"min": min, "max": max}[short](*v) if short != "clamp" else max(v[1], min(v[0], v[2]))
        if short in ("min", "max") and len(v) == 2:
            lt = self.less(v[0], v[1]) if short == "max" else self.less(v[1], v[0])
            return R.c(v[1] if lt else v[0])
        if short in ("min", "max") and len(v) == 1 and isinstance(v[0], Arr):
            best = v[0].vals()[0]
            for x in v[0].vals()[1:]:
                if self.less(best, x) if short == "max" else self.less(x, best):
                    best = x
            return R.c(best)
        if short == "clamp":
            return R.c(v[1] if self.less(v[0], v[1]) else v[2] if self.less(v[2], v[0]) else v[0])
        if short in ("begin", "cbegin"):
            return It(v[0], 0)
        if short in ("end", "cend"):
            return It(v[0], len(v[0].cells))
        if short in ("next", "prev"):
            k = v[1] if len(v) > 1 else 1
            return It(v[0].arr, v[0].i + (k if short == "next" else -k))
        if short == "inner_product":
            acc, n = R.c(v[3]), v[1].i - v[0].i
            for i in range(n):
                acc = acc + R.c(self.at(v[0].arr, v[0].i + i).v) * R.c(self.at(v[2].arr, v[2].i + i).v)
            return acc
        if short == "accumulate":
            acc = v[2]
            for i in range(v[0].i, v[1].i):
                acc = self.unc(self.apply(v[3], [acc, v[0].arr.cells[i].v])) if len(v) > 3 else self.opcall("+", acc, v[0].arr.cells[i].v)
            return acc
        if short in ("copy_n",):
            for i in range(v[1]):
                self.at(v[2].arr, v[2].i + i).v = copyv(self.at(v[0].arr, v[0].i + i).v)
            return v[2]
        if short in ("copy", "move") and len(v) == 3:
            for i in range(v[1].i - v[0].i):
                self.put(v[2], i, copyv(self.at(v[0].arr, v[0].i + i).v))
            return v[2]
        if short in ("move", "forward") and len(v) == 1:
            return args[0]
        if short == "transform":
            n = v[1].i - v[0].i
            for i in range(n):
                src = [self.at(v[0].arr, v[0].i + i).v]
                if len(v) == 5:
                    src.append(self.at(v[2].arr, v[2].i + i).v)
                self.put(v[-2], i, copyv(self.unc(self.apply(v[-1], src))))
            return v[-2]
        if short in ("back_inserter", "inserter"):
            return It(v[0], None)
        if short == "for_each":
            for i in range(v[0].i, v[1].i):
                self.apply(v[2], [v[0].arr.cells[i]])
            return v[2]
        if short == "copy_if":
            k = 0
            for i in range(v[0].i, v[1].i):
                r = self.unc(self.apply(v[3], [v[0].arr.cells[i]]))
                if bool(r) if isinstance(r, (bool, int)) else self.truth_v(r):
                    self.put(v[2], k, copyv(v[0].arr.cells[i].v))
                    k += 1
            return v[2]
        if short == "make_optional":
            c = e.get("t", "").replace("const ", "").strip()
            c = c[len("std::optional<"):-1] if c.startswith("std::optional<") else ""
            if len(v) == 1 and (isinstance(v[0], (R, int)) or isinstance(v[0], Obj) and v[0].cls.split("<")[0] == c.split("<")[0]):
                return copyv(v[0])
            if c in self.F.classes:
                return self.new(c, *v, valid=False)
            raise Unsupported("make_optional of %s" % c)
        if short == "equal" and len(v) in (3, 4):
            for i in range(v[1].i - v[0].i):
                a, b = v[0].arr.cells[v[0].i + i].v, v[2].arr.cells[v[2].i + i].v
                if isinstance(a, Obj):
                    fs = [f for f in self.F.fns_of("maliput::math::VectorBase::operator==") if not f.get("dep") and self.same_shape(f, a)]
                    if not fs or not self.invoke(fs[0], a, [b]):
                        return False
                elif not self.equal(a, b):
                    return False
            return True
        if short in ("all_of", "any_of", "none_of"):
            for i in range(v[0].i, v[1].i):
                r = self.unc(self.apply(v[2], [v[0].arr.cells[i]]))
                r = bool(r) if isinstance(r, (bool, int)) else self.truth_v(r)
                if r != (short == "all_of"):
                    return short == "none_of" and False if short != "any_of" else True
            return short != "any_of"
        if short == "infinity":
            return R.sym("infinity")
        if short == "epsilon":
            return R.c(Fraction(1, 2 ** 52))
        if short in ("max", "min", "lowest") and not v:
            return R.sym("limit_" + short)
        if short == "isnan":
            return False
        if short == "make_unique":
            raise Unsupported("make_unique")
        return Opaque((short,) + tuple(str(x) for x in v))

    def put(self, out, i, v):
        """Writes through an output iterator; a back inserter appends."""
        if out.i is None:
            out.arr.cells.append(Cell(v))
        else:
            self.at(out.arr, out.i + i).v = v

    def truth_v(self, v):
        if isinstance(v, Opaque):
            return self.choose(("is", v.name))
        raise Unsupported("truth of %r" % (v,))

    @staticmethod
    def unc(v):
        return v.v if isinstance(v, Cell) else v
