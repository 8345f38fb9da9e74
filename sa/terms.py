"""Symbolic terms, atoms and the fact domain (intervals over linear forms, nullness, membership, equality)."""
from fractions import Fraction
import math


def T(x):
    return x


NULL = ("null",)
TRUE = ("b", True)
FALSE = ("b", False)
THIS = ("this",)
VOID = ("void",)


def num(v):
    if isinstance(v, float) and not math.isinf(v) and not math.isnan(v) and v == int(v):
        v = int(v)
    return ("n", v)


def is_num(t):
    return t[0] == "n"


def skey(t):
    return repr(t)


def lin_parts(t):
    """(dict term->coef, const) of a term read as a linear form."""
    if t[0] == "n":
        return {}, t[1]
    if t[0] == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", tuple(sorted(d.items(), key=lambda kv: skey(kv[0]))), c)


def add(a, b, sign=1):
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    try:
        c = ca + sign * cb
    except Exception:
        return ("add" if sign > 0 else "sub", a, b)
    return mk_lin(d, c)


def sub(a, b):
    if a == b and not (a[0] == "n" and math.isinf(a[1])):
        return num(0)
    return add(a, b, -1)


def mul(a, b):
    if is_num(a) and is_num(b):
        return num(a[1] * b[1])
    if is_num(b):
        a, b = b, a
    if is_num(a):
        if math.isinf(a[1]) or math.isnan(a[1]):
            return ("mul", a, b)
        d, c = lin_parts(b)
        return mk_lin({k: v * a[1] for k, v in d.items()}, c * a[1])
    return ("mul",) + tuple(sorted((a, b), key=skey))


def div(a, b):
    if is_num(b) and b[1] not in (0,) and not math.isinf(b[1]):
        if is_num(a):
            return num(a[1] / b[1])
        return mul(num(1.0 / b[1]), a)
    if a == b:
        return num(1)
    return ("div", a, b)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms_any(x)


def subterms_any(x):
    if x and isinstance(x[0], str):
        yield x
    for y in x:
        if isinstance(y, tuple):
            yield from subterms_any(y)


def mentions(t, needle):
    if t == needle:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and mentions(x, needle):
                return True
    return False


_PARTS = {}


def parts(t):
    """Every tuple inside t, itself included."""
    r = _PARTS.get(t)
    if r is None:
        acc = {t}
        for x in t:
            if isinstance(x, tuple):
                acc |= parts(x)
        r = _PARTS[t] = frozenset(acc)
    return r


def find_terms(t, pred):
    out = []
    seen = set()

    def go(x):
        if not isinstance(x, tuple):
            return
        if x in seen:
            return
        seen.add(x)
        if x and isinstance(x[0], str) and pred(x):
            out.append(x)
        for y in x:
            go(y)
    go(t)
    return out


def subst(t, m):
    """Replaces whole subterms of t by the mapping m."""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


# --- atoms ---------------------------------------------------------------------------------------------------------
# ('null', t) ('t', t) ('eq', a, b) ('lt', v, k) ('gt', v, k) ('eqn', v, k) ('has', M, K) ('empty', C)

def _norm_diff(a, b):
    """a - b as (v, k, flip): sign-normalised linear form v with a-b = s*(v - k), s=+1 or -1."""
    if a[0] == "n" and math.isinf(a[1]) or b[0] == "n" and math.isinf(b[1]):
        # keep infinities on the constant side
        if b[0] == "n":
            d, c = lin_parts(a)
            if not d:
                return None
            if len(d) == 1:
                (k, v), = d.items()
                if v > 0:
                    return k, b[1], 1
                return k, -b[1], -1
            return a, b[1], 1
        d, c = lin_parts(b)
        if not d:
            return None
        if len(d) == 1:
            (k, v), = d.items()
            if v > 0:
                return k, a[1], -1
            return k, -a[1], 1
        return b, a[1], -1
    d = sub(a, b)
    if d[0] in ("sub", "add"):
        return None
    p, c = lin_parts(d)
    if not p:
        return ("n", 0), -c, 1
    lead = sorted(p.items(), key=lambda kv: skey(kv[0]))[0][1]
    # prefer dividing by the lead coefficient so 2x < 4 and x < 2 agree
    s = 1 if lead > 0 else -1
    m = abs(lead)
    v = mk_lin({k: (x * s) / m if (x * s) % m else (x * s) // m for k, x in p.items()}, 0)
    k = -c * s / m
    if isinstance(k, float) and k == int(k):
        k = int(k)
    return v, k, s


def atom_lt(a, b, ints=False):
    """(atom, polarity) or (None, bool) for a < b."""
    if a == b:
        return None, False
    r = _norm_diff(a, b)
    if r is None:
        if a[0] == "n" and b[0] == "n":
            return None, a[1] < b[1]
        return ("t", ("ltt", a, b)), True
    v, k, s = r
    if v[0] == "n":
        return None, (0 < k) if s > 0 else (0 > k)
    if s > 0:
        return _int_norm("lt", v, k, ints)
    return _int_norm("gt", v, k, ints)


def _int_norm(op, v, k, ints):
    if ints and isinstance(k, float) and not math.isinf(k):
        k = math.ceil(k) if op == "lt" else math.floor(k)
    if ints and not math.isinf(k):
        if op == "gt":
            return _size_norm(("lt", v, k + 1), False)
        return _size_norm(("lt", v, k), True)
    return (op, v, k), True


def _size_norm(atom, pol):
    op, v, k = atom
    if v[0] == "size" and op == "lt" and k == 1:
        return ("empty", v[1]), pol
    if op == "lt" and k <= 0 and (v[0] == "size" or _is_count(v)):
        return None, not pol
    if op == "lt" and k == 1 and _is_count(v):
        return ("eqn", v, 0), pol
    return atom, pol


def _is_count(v):
    """Calls of size() / num_...(): never negative (integer comparisons only reach here)."""
    if v[0] != "c":
        return False
    n = v[1].rpartition("::")[2]
    return n in ("size", "do_size", "DoSize") or n.startswith(("num_", "do_num_"))


def atom_eq_num(a, b):
    if a == b:
        return None, True
    r = _norm_diff(a, b)
    if r is None:
        if a[0] == "n" and b[0] == "n":
            return None, a[1] == b[1]
        return ("eq",) + tuple(sorted((a, b), key=skey)), True
    v, k, s = r
    if v[0] == "n":
        return None, k == 0
    if v[0] == "size" and k == 0:
        return ("empty", v[1]), True
    return ("eqn", v, k), True


LITS = ("n", "b", "s", "enum", "chr")
NONNULL = ("loc", "k", "agg", "this", "lam", "list", "n", "s", "b", "enum", "addr", "pair", "tuple", "size", "cat", "new",
           "lin", "itm", "fnref")


def atom_eq(a, b):
    if a == b:
        return None, True
    if a == NULL:
        return atom_null(b)
    if b == NULL:
        return atom_null(a)
    if a[0] in LITS and b[0] in LITS:
        return None, a == b
    for x, y in ((a, b), (b, a)):
        if x == ("s", ""):
            return ("empty", y), True
        if x[0] == "end" and y[0] in ("itm", "itw"):
            return None, False
        if x[0] == "b":
            return ("t", y), x[1]
    if a[0] == "pair" and b[0] == "pair":
        pass
    return ("eq",) + tuple(sorted((a, b), key=skey)), True


def renorm(a):
    """An equality atom in canonical argument order."""
    return atom_eq(a[1], a[2])[0] if a[0] == "eq" and len(a) == 3 else a


def atom_null(t):
    if t == NULL:
        return None, True
    if t[0] in NONNULL:
        return None, False
    return ("null", t), True


def bounds(facts, v):
    lo, los, hi, his = -math.inf, False, math.inf, False
    eq = None
    ne = []
    if v[0] in ("size",):
        lo, los = 0, False
        e = facts.get(("empty", v[1]))
        if e is False:
            lo = 1
        elif e is True:
            eq = 0
    elif v[0] == "sizep":
        lo = v[2]
    for a, val in facts.items():
        if a[0] not in ("lt", "gt", "eqn") or a[1] != v:
            continue
        k = a[2]
        if a[0] == "lt":
            if val:
                if k < hi or (k == hi and not his):
                    hi, his = k, True
            elif k > lo:
                lo, los = k, False
        elif a[0] == "gt":
            if val:
                if k > lo or (k == lo and not los):
                    lo, los = k, True
            elif k < hi:
                hi, his = k, False
        else:
            if val:
                eq = k
            else:
                ne.append(k)
    if eq is not None:
        lo = hi = eq
        los = his = False
    return lo, los, hi, his, ne


def decide(facts, atom, enums=None):
    """True / False / None: what the facts already say about the atom."""
    v = facts.get(atom)
    if v is not None:
        return v
    op = atom[0]
    if op in ("lt", "gt", "eqn"):
        lo, los, hi, his, ne = bounds(facts, atom[1])
        k = atom[2]
        if op == "lt":
            if hi < k or (hi == k and his):
                return True
            if lo >= k:
                return False
        elif op == "gt":
            if lo > k or (lo == k and los):
                return True
            if hi <= k:
                return False
        else:
            if lo == hi == k and not los and not his:
                return True
            if k in ne or k < lo or k > hi or (k == lo and los) or (k == hi and his):
                return False
        return None
    if op == "eq":
        a, b = atom[1], atom[2]
        for x, y in ((a, b), (b, a)):
            if x[0] in LITS:
                others = []
                for f, val in facts.items():
                    if f[0] == "eq" and y in f[1:] and f[1] != f[2]:
                        o = f[2] if f[1] == y else f[1]
                        if o[0] in LITS:
                            if val and o != x:
                                return False
                            if not val:
                                others.append(o)
                if x[0] == "enum" and enums and x[1].rpartition("::")[0] in enums:
                    allc = enums[x[1].rpartition("::")[0]]["consts"]
                    rest = [c for c in allc if ("enum", c) not in others]
                    if rest == [x[1]]:
                        return True
        return None
    if op == "empty":
        c = atom[1]
        for f, val in facts.items():
            if f[0] == "has" and f[1] == c and val:
                return False
        lo, los, hi, his, ne = bounds({k: v for k, v in facts.items() if k[0] != "empty"}, ("size", c))
        if lo >= 1 or (lo == 0 and los):
            return False
        if hi < 1:
            return True
        if c[0] == "s":
            return c[1] == ""
        for f, val in facts.items():
            if f[0] == "eq" and val and c in f[1:]:
                o = f[2] if f[1] == c else f[1]
                if o[0] == "s":
                    return o[1] == ""
        return None
    if op == "has":
        m, k = atom[1], atom[2]
        if facts.get(("empty", m)):
            return False
        if k[0] == "key" and k[1][0] == "el" and k[1][1] == m:
            return True
        if k[0] == "el" and k[1] == m:
            return True
        if m[0] == "list" and k[0] in LITS:
            if k in m[1:]:
                return True
            if all(x[0] in LITS for x in m[1:]):
                return False
        return None
    if op == "null":
        if atom[1][0] in NONNULL:
            return False
        return None
    if op == "t":
        t = atom[1]
        if t[0] == "b":
            return t[1]
    return None


def show(t):
    """Readable rendering of a term or atom."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == "n":
        return str(t[1])
    if h == "b":
        return "true" if t[1] else "false"
    if h == "s":
        return '"%s"' % t[1]
    if h == "p":
        return t[2]
    if h == "this":
        return "this"
    if h == "null":
        return "null" if len(t) == 1 else "null(%s)" % show(t[1])
    if h == "f":
        return "%s.%s" % (show(t[1]), t[2].rpartition("::")[2])
    if h == "c":
        n = t[1].rpartition("::")[2]
        if t[2] is None:
            return "%s(%s)" % (n, ", ".join(show(x) for x in t[3:]))
        return "%s.%s(%s)" % (show(t[2]), n, ", ".join(show(x) for x in t[3:]))
    if h == "enum":
        return "::".join(t[1].split("::")[-2:])
    if h == "loc":
        return "%s" % t[1]
    if h == "el":
        return "each(%s)" % show(t[1])
    if h in ("key", "val"):
        return "%s(%s)" % (h, show(t[1]))
    if h == "at":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if h == "lin":
        s = " + ".join(("%s*%s" % (c, show(k)) if c != 1 else show(k)) for k, c in t[1])
        return "(%s%s)" % (s, " + %s" % t[2] if t[2] else "")
    if h == "k":
        return "%s{%s}" % (t[1].rpartition("::")[2], ", ".join(show(x) for x in t[3:]))
    if h == "agg":
        return "%s{%s}" % (t[1].rpartition("::")[2], ", ".join("%s=%s" % (f.rpartition("::")[2], show(x)) for f, x in t[2]))
    if h == "sizep":
        return "size(%s)+%d appended" % (show(t[1]), t[2])
    if h == "ix":
        return "i[%s..%s)" % (show(t[1]), show(t[2]))
    if h == "lt":
        return "%s < %s" % (show(t[1]), t[2])
    if h == "gt":
        return "%s > %s" % (show(t[1]), t[2])
    if h in ("eq", "eqn"):
        return "%s == %s" % (show(t[1]), show(t[2]) if isinstance(t[2], tuple) else t[2])
    if h == "t":
        return show(t[1])
    if h == "lam":
        return "<lambda>"
    return "%s(%s)" % (h, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def show_facts(facts):
    return " & ".join(("" if v else "!") + "(" + show(a) + ")" for a, v in facts.items() if a[0] != "done")


# --- linear entailment (exact Fourier-Motzkin over the rationals) ---------------------------------------------------
def _lin_cons(atom, val):
    """Constraints of a fact as lists of (dict, bound, strict) meaning sum <= bound (or < when strict)."""
    op, v, k = atom
    try:
        if isinstance(k, float) and (math.isinf(k) or math.isnan(k)):
            return []
        p, c = lin_parts(v)
        b = Fraction(k) - Fraction(c)
        pos = {t: Fraction(x) for t, x in p.items()}
        neg = {t: -x for t, x in pos.items()}
    except (TypeError, ValueError, OverflowError):
        return []
    if op == "lt":
        return [(pos, b, True)] if val else [(neg, -b, False)]
    if op == "gt":
        return [(neg, -b, True)] if val else [(pos, b, False)]
    return [(pos, b, False), (neg, -b, False)] if val else []


def _infeasible(cons, limit=400):
    """True when the constraints have no rational solution (None: gave up)."""
    cons = [c for c in cons]
    while True:
        rest = []
        for d, b, s in cons:
            if not d:
                if b < 0 or (s and b == 0):
                    return True
            else:
                rest.append((d, b, s))
        cons = rest
        if not cons:
            return False
        vs = {}
        for d, b, s in cons:
            for t, x in d.items():
                u = vs.setdefault(t, [0, 0])
                u[x < 0] += 1
        t = min(vs, key=lambda z: vs[z][0] * vs[z][1])
        up = [c for c in cons if c[0].get(t, 0) > 0]
        lo = [c for c in cons if c[0].get(t, 0) < 0]
        new = {}
        for c in cons:
            if t not in c[0]:
                new[(frozenset(c[0].items()), c[1], c[2])] = c
        if len(up) * len(lo) + len(new) > limit:
            return None
        for d1, b1, s1 in up:
            for d2, b2, s2 in lo:
                f1, f2 = -d2[t], d1[t]
                d = {}
                for x in set(d1) | set(d2):
                    if x != t:
                        y = f1 * d1.get(x, 0) + f2 * d2.get(x, 0)
                        if y:
                            d[x] = y
                c = (d, f1 * b1 + f2 * b2, s1 or s2)
                new[(frozenset(d.items()), c[1], c[2])] = c
        cons = list(new.values())


def _vars(atom):
    return set(lin_parts(atom[1])[0])


lin_vars = _vars


def _related(facts, vs):
    """Linear facts connected to the variables vs."""
    pool = [(a, v, _vars(a)) for a, v in facts.items() if a[0] in ("lt", "gt", "eqn")]
    out, vs, grown, told = [], set(vs), True, set()
    while grown:
        grown = False
        for x in list(pool):
            if x[2] & vs:
                out.append(x)
                pool.remove(x)
                if not x[2] <= vs:
                    vs |= x[2]
                    grown = True
        for t in list(vs):
            if t not in told:
                told.add(t)
                for atom, val in _axioms(t):
                    ws = _vars(atom)
                    out.append((atom, val, ws))
                    if not ws <= vs:
                        vs |= ws
                        grown = True
    return out


def _axioms(t):
    """What always holds for a variable: sizes are not negative, an index lies in its range, a minimum is a lower bound."""
    if t[0] in ("size", "cnt", "countif"):
        return [(("lt", t, 0), False)]
    out = []
    try:
        if t[0] == "ix":
            lo, hi = t[1], t[2]
            his = hi[1:] if hi[0] == "min" and len(hi) == 3 else (hi,)
            for h in his:
                out.append((("lt", sub(t, h), 0), True))
            out.append((("lt", sub(t, lo), 0), False))
        elif t[0] in ("min", "max") and len(t) == 3:
            for x in t[1:]:
                out.append((("gt" if t[0] == "min" else "lt", sub(t, x), 0), False))
    except (TypeError, ValueError, IndexError):
        return []
    return [(a, v) for a, v in out if a[1][0] != "n"]


def lin_decide(facts, atom):
    """What linear arithmetic over the facts says about a linear atom."""
    if atom[0] not in ("lt", "gt", "eqn"):
        return None
    vs = _vars(atom)
    if len(vs) > 12:
        return None
    base = []
    for a, v, _ in _related(facts, vs):
        base += _lin_cons(a, v)
    if not base or len(base) > 60:
        return None
    for val in (True, False):
        if atom[0] == "eqn" and val is False:
            op, v, k = atom
            if _infeasible(base + _lin_cons(("lt", v, k), True)) is True and \
                    _infeasible(base + _lin_cons(("gt", v, k), True)) is True:
                return True
            continue
        if _infeasible(base + _lin_cons(atom, val)) is True:
            return not val
    return None


def consistent(facts):
    """False when the linear facts contradict each other."""
    lin = [a for a in facts if a[0] in ("lt", "gt", "eqn")]
    if len(lin) < 2 or not any(len(_vars(a)) > 1 for a in lin):
        return True
    base = []
    allv = set()
    for a in lin:
        base += _lin_cons(a, facts[a])
        allv |= _vars(a)
        if facts[a] is False and a[0] == "eqn":
            pass
    for t in allv:
        if t[0] in ("size", "cnt", "countif"):
            base += _lin_cons(("lt", t, 0), False)
    return _infeasible(base) is not True
