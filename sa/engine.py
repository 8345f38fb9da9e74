"""Path-sensitive abstract interpreter over the extracted program (a forward dataflow analysis on symbolic terms).

Each analysed function is turned into the finite set of its abstract paths.  A path carries the branch facts it assumes
(an abstract domain of nullness, membership, equality and interval facts, see terms.py; no solver is involved), the
returned term or the thrown exception type, and the trace of effects (container mutations, field writes, opaque calls,
completed loops, lock scopes).  Loops are summarised once with the loop-carried variables forgotten.
"""
import itertools
import re

from terms import *  # noqa
import terms as TM


class Budget(Exception):
    pass


class LoopRec:
    """Summary of one loop: what it iterates, whether all elements are visited, and its iteration paths."""
    __slots__ = ("id", "over", "el", "full", "iters", "line", "kind", "complete", "rev", "base_facts", "pos", "entry")

    def __init__(self, id, over, el, full, iters, line, kind):
        self.pos = el  # what stands for the position: the index of an index loop
        if el[0] == "ix" and over[0] != "range":
            el = ("el", over, el[3])
        self.id, self.over, self.el, self.full, self.iters, self.line, self.kind = id, over, el, full, iters, line, kind
        self.complete = True
        self.entry = {}  # what the variables the loop changes hold before it


class Iter:
    """One abstract path of a loop body."""
    __slots__ = ("facts", "all_facts", "events", "sig", "val", "changed", "env", "inits")

    def __init__(self, facts, all_facts, events, sig, val, changed, env, inits):
        self.facts, self.all_facts, self.events, self.sig, self.val, self.changed, self.env = \
            facts, all_facts, events, sig, val, changed, env
        self.inits = inits


class Ev:
    """Trace event."""
    __slots__ = ("k", "a", "line", "facts", "fn")

    def __init__(self, k, a, line, facts, fn):
        self.k, self.a, self.line, self.facts, self.fn = k, a, line, facts, fn

    def __repr__(self):
        def sh(x):
            if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)):
                return "(" + ", ".join(sh(y) for y in x) + ")"
            return show(x) if isinstance(x, tuple) else str(x)
        return "%s(%s)@%s" % (self.k, ", ".join(sh(x) for x in self.a), self.line)


def node_at(n, k):
    """The child k of a document node."""
    if k[0] == "ix" and k[1] == num(0) and k[2] == ("size", n):
        return ("el", n, k[3])
    return ("y", n, k)


class Path:
    """One abstract path of an analysed function."""
    __slots__ = ("sig", "val", "facts", "trace", "st", "line")

    def __init__(self, sig, val, facts, trace, st, line):
        self.sig, self.val, self.facts, self.trace, self.st, self.line = sig, val, facts, trace, st, line

    def events(self, kind=None, deep=False):
        out = []

        def go(evs):
            for e in evs:
                if kind is None or e.k == kind:
                    out.append(e)
                if deep and e.k == "loop":
                    for it in e.a[0].iters:
                        go(it.events)
        go(self.trace)
        return out

    def __repr__(self):
        return "[%s] -> %s %s" % (show_facts(self.facts), self.sig, show(self.val) if self.val else "")


class St:
    __slots__ = ("env", "store", "facts", "trace", "sig", "val", "cnt", "inits", "dirty", "line", "moved")

    def __init__(self):
        self.env, self.store, self.facts, self.trace = {}, {}, {}, None
        self.sig = self.val = None
        self.cnt = {}
        self.inits = {}
        self.dirty = frozenset()
        self.moved = frozenset()
        self.line = 0

    def fork(self):
        n = St.__new__(St)
        n.env = dict(self.env)
        n.store = dict(self.store)
        n.facts = self.facts
        n.trace = self.trace
        n.sig, n.val = self.sig, self.val
        n.cnt = dict(self.cnt)
        n.inits = dict(self.inits)
        n.dirty = self.dirty
        n.moved = self.moved
        n.line = self.line
        return n

    def trace_list(self, since=None):
        out = []
        t = self.trace
        while t is not None and t is not since:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ("fn", "tu", "this", "cls", "depth", "stack", "raii", "in_try", "name")

    def __init__(self, fn, tu, this, cls, depth, stack, in_try=0):
        self.fn, self.tu, self.this, self.cls, self.depth, self.stack, self.in_try = fn, tu, this, cls, depth, stack, in_try
        self.raii = []
        self.name = fn["q"] if fn and "q" in fn else "(lambda)"


ASSOC = ("std::map<", "std::unordered_map<", "std::multimap<", "std::set<", "std::unordered_set<", "std::multiset<",
         "std::unordered_multimap<")
SEQ = ("std::vector<", "std::deque<", "std::array<", "std::list<", "std::initializer_list<", "std::queue<", "std::stack<",
       "std::priority_queue<", "std::basic_string<")
INTS = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "long long",
        "unsigned long long", "signed char")
UNSIGNED = ("unsigned int", "unsigned long", "unsigned short", "unsigned char", "unsigned long long")
FLOATS = ("double", "float", "long double")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
TRANSPARENT_CTORS = ("std::optional", "std::unique_ptr", "std::shared_ptr", "std::basic_string", "std::function",
                     "std::reference_wrapper", "std::weak_ptr", "std::basic_string_view", "std::variant", "std::allocator",
                     "std::atomic")
CONTAINER_T = re.compile(r"std::(unordered_)?(multi)?(map|set)<|std::(vector|deque|list)<")
READ_METHODS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "find", "at", "operator[]", "size",
                "empty", "count", "get", "operator*", "operator->", "value", "has_value", "front", "back", "c_str", "data",
                "length", "top", "contains", "str", "equal_range", "lower_bound", "upper_bound", "operator bool", "max_size",
                "capacity", "value_or", "first", "second"}


def strip_t(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.endswith(" const"):
            t = t[:-6]
        else:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_const_ref(t):
    return t.rstrip().endswith("&") and t.startswith("const ")


def pure_ref(e):
    """Evaluating e again has no effect: a variable, or append() on one (which only names it)."""
    while e["k"] == "mem":
        e = e["b"]
    return e["k"] in ("ref", "this")


def simple_place(e):
    """A variable or a member of one."""
    return pure_ref(e)


def is_std(n):
    return n.startswith(("std::", "__gnu_cxx::", "YAML::"))


def kind_of(t):
    t = strip_t(t)
    if t.startswith(ASSOC):
        return "set" if "set<" in t.split("<")[0] + "<" else "map"
    if t.startswith(SEQ):
        return "seq"
    if t.startswith("std::optional<"):
        return "opt"
    if t.startswith(("std::unique_ptr<", "std::shared_ptr<")):
        return "ptr"
    return "other"


# Functions that are never inlined (text producing, logging, or math kernels): they stay opaque, pure terms.
OPAQUE_PREFIX = ("maliput::math::", "maliput::common::logger", "maliput::common::Logger", "maliput::log",
                 "maliput::common::SerializeArguments", "maliput::drake::")


def base_of(t):
    while isinstance(t, tuple) and t and t[0] in ("f", "at", "val", "key", "el", "deref", "fst", "snd"):
        t = t[1]
    return t


def fun_params(t):
    """Parameter types of a std::function type."""
    i = t.find("(")
    if "std::function<" not in t or i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch in "(<[":
            d += 1
        elif ch in ")>]":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


# how deep calls are followed, and how many paths a function may have (raised by the thorough tier)
DEPTH = 7
MAX_PATHS = 30000
# calls whose results depend on what happened before
STATEFUL = {"dlerror"}
VALUE_EQ = {"maliput::api::rules::%s::operator==" % c for c in ("Rule::State", "DiscreteValueRule::DiscreteValue", "RangeValueRule::Range")}


class Engine:
    def __init__(self, F, opaque=(), inline=None, max_depth=None, fork_minmax=False, max_paths=None, watch=(), id_opaque=True,
                 open_math=False, no_inline=None, field_alias=None, mute_text=False, fold_pure=False, inline_eq=False):
        self.F = F
        self.inline_eq = inline_eq
        self.opaque = set(opaque)
        self.inline = inline
        self.max_depth = max_depth or DEPTH
        self.fork_minmax = fork_minmax
        self.max_paths = max_paths or MAX_PATHS
        self.open_math = open_math
        self.id_opaque = id_opaque
        self.watch = frozenset(watch)
        self.no_inline = no_inline
        self.mute_text = mute_text
        self.fold_pure = fold_pure
        self.lams = {}
        self.lam_refs = {}  # what the variables captured by reference stood for when the lambda was made
        self.mutcache = {}
        self.loopn = 0
        self.work = 0
        self.stats = {"functions": set(), "paths": 0, "loops": 0, "callsites": 0}
        self.gcache = {}

    # ---------------------------------------------------------------------------------------------- entry points
    def paths(self, fn, this=THIS, args=None, cls=None, facts=None, bool_result=True):
        """All abstract paths of fn."""
        st = St()
        if facts:
            st.facts = dict(facts)
        self.work = 0
        self.loopn = 0
        fr = Frame(fn, fn["tu"], this, cls or fn.get("cls"), 0, (fn["key"],))
        self.stats["functions"].add(fn["q"])
        for i, p in enumerate(fn["params"]):
            t = args[i] if args and i < len(args) and args[i] is not None else ("p", i, p["n"] or "arg%d" % i)
            self.bind_param(st, fn["tu"], p, t)
        if fn.get("ctor"):
            sts = self.run_ctor(fn, st, fr)
        else:
            sts = self.exec(fn["body"], st, fr)
        out = []
        for s in sts:
            sig = s.sig
            if sig is None:
                out.append(Path("ret", VOID, s.facts, s.trace_list(), s, s.line))
            elif sig == "ret":
                s.sig = None
                v = s.val
                if bool_result and strip_t(fn["ret"]) == "bool" and v is not None and v[0] != "b":
                    for s2, b in self.truth(s, v):
                        out.append(Path("ret", ("b", b), s2.facts, s2.trace_list(), s2, s2.line))
                else:
                    out.append(Path("ret", v if v is not None else VOID, s.facts, s.trace_list(), s, s.line))
            else:
                out.append(Path(sig, s.val, s.facts, s.trace_list(), s, s.line))
        self.stats["paths"] += len(out)
        return out

    def paths_of(self, fn, f, *args):
        """Paths of the function value f that a path of fn produced, applied to args."""
        fr = Frame(fn, fn["tu"], THIS, fn.get("cls"), 0, (fn["key"],))
        return [Path(s.sig or "ret", v, s.facts, s.trace_list(), s, s.line) for s, v in self.call_value(f, tuple(args), St(), fr)]

    def predicate(self, fn, f, *args):
        """[(facts, truth)] of the boolean function value f that a path of fn produced, applied to args."""
        fr, out = Frame(fn, fn["tu"], THIS, fn.get("cls"), 0, (fn["key"],)), []
        for s, v in self.call_value(f, tuple(args), St(), fr):
            if s.sig:
                out.append((s.facts, None))
            else:
                out += [(s2.facts, b) for s2, b in self.truth(s, v)]
        return out

    def eval_fn(self, fn, this, *args):
        """Value terms returned by the normal paths of fn (used to name a getter's state)."""
        ps = [p for p in self.paths(fn, this=this, args=list(args)) if p.sig == "ret"]
        return ps

    def getter(self, q, this, *args):
        fn = self.F.fn(q, nparams=len(args))
        vals = {p.val for p in self.eval_fn(fn, this, *args)}
        if len(vals) != 1:
            raise Budget("getter %s is not single valued" % q)
        return next(iter(vals))

    def bind_param(self, st, tu, p, t):
        st.env[(tu, p["id"])] = t

    def ev_event(self, st, k, a, line, fr):
        st.trace = (st.trace, Ev(k, a, line, st.facts, fr.name))

    # ---------------------------------------------------------------------------------------------- facts
    def assume(self, st, atom, val):
        d = decide(st.facts, atom, self.F.enums)
        if d is None:
            f = dict(st.facts)
            f[atom] = val
            st.facts = f
            return self.enum_ok(st, atom, val)
        return d == val

    def enum_ok(self, st, atom, val):
        if atom[0] == "eq" and val is False:
            for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                if a[0] == "enum" and b[0] != "enum":
                    e = self.F.enums.get(a[1].rpartition("::")[0])
                    if e:
                        if all(st.facts.get(("eq",) + tuple(sorted((("enum", c), b), key=skey))) is False
                               for c in e["consts"]):
                            return False
        return True

    def branch(self, st, atom, pol=True):
        """[(state, bool)]: forks on an atom unless the facts decide it."""
        if atom is None:
            return [(st, pol)]
        d = decide(st.facts, atom, self.F.enums)
        if d is None and atom[0] in ("lt", "gt", "eqn") and (self.fork_minmax or any(v[0] == "ix" for v in lin_vars(atom))):
            d = lin_decide(st.facts, atom)
        if d is not None:
            return [(st, d == pol)]
        s2 = st.fork()
        out = []
        if self.assume(st, atom, True):
            out.append((st, pol))
        if self.assume(s2, atom, False):
            out.append((s2, not pol))
        self.tick()
        return out

    def tick(self):
        self.work += 1
        if self.work > self.max_paths * 20:
            raise Budget("path budget exceeded")

    def truth(self, st, t):
        """[(state, bool)] for a boolean term."""
        if t is None:
            return [(st, True)]
        if t[0] == "b":
            return [(st, t[1])]
        if t[0] == "n":
            return [(st, t[1] != 0)]
        if t[0] == "not":
            return [(s, not b) for s, b in self.truth(st, t[1])]
        if t[0] == "atom":
            return self.branch(st, t[1], t[2])
        if t == NULL:
            return [(st, False)]
        if t[0] == "size":
            return [(s, not b) for s, b in self.branch(st, ("empty", t[1]))]
        if t[0] == "lin":
            a, pol = atom_eq_num(t, num(0))
            return self.branch(st, a, not pol)
        return self.branch(st, ("t", t))

    def nullness(self, st, t):
        """[(state, is_null)]"""
        a, pol = atom_null(t)
        return self.branch(st, a, pol)

    # ---------------------------------------------------------------------------------------------- statements
    def exec_list(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y in self.exec(s, x, fr):
                    (nxt if y.sig is None else done).append(y)
            cur = self.merge(nxt)
            if len(cur) + len(done) > self.max_paths:
                raise Budget("path budget exceeded in %s" % fr.name)
            if not cur:
                break
        return cur + done

    def merge(self, sts):
        """Drops duplicate states."""
        if len(sts) < 2:
            return sts
        seen = {}
        for s in sts:
            k = (id(s.trace) if s.trace is not None else 0, frozenset(s.facts.items()), frozenset(s.env.items()),
                 frozenset(s.store.items()))
            seen.setdefault(k, s)
        return list(seen.values())

    def exec(self, n, st, fr):
        if n is None:
            return [st]
        k = n["k"]
        st.line = n.get("l", st.line)
        if k == "blk":
            mark = len(fr.raii)
            out = self.exec_list(n["s"], st, fr)
            if len(fr.raii) > mark:
                locks = fr.raii[mark:]
                del fr.raii[mark:]
                for s in out:
                    for v, m in reversed(locks):
                        if s.store.get(("lockstate", v)) == TRUE:
                            s.store[("lockstate", v)] = FALSE
                            self.ev_event(s, "unlock", (m, v), n.get("el", 0), fr)
            return out
        if k == "x":
            out = []
            for s, t in self.ev(n["e"], st, fr):
                out.append(s)
            return out
        if k == "decl":
            cur = [st]
            done = []
            for d in n["d"]:
                nxt = []
                for s in cur:
                    for y in self.declare(d, s, fr):
                        (nxt if y.sig is None else done).append(y)
                cur = nxt
            return cur + done
        if k == "if":
            return self.exec_if(n, st, fr)
        if k == "ret":
            if not n.get("e"):
                st.sig, st.val = "ret", VOID
                return [st]
            out = []
            for s, t in self.ev_copy(n["e"], st, fr):
                if s.sig is None:
                    s.sig, s.val = "ret", t
                    s.line = n["l"]
                out.append(s)
            return out
        if k == "rfor":
            return self.exec_rfor(n, st, fr)
        if k in ("for", "while", "do"):
            return self.exec_loop(n, st, fr)
        if k == "brk":
            st.sig = "brk"
            return [st]
        if k == "cont":
            st.sig = "cont"
            return [st]
        if k == "sw":
            return self.exec_switch(n, st, fr)
        if k in ("case", "dflt"):
            return self.exec(n["s"], st, fr)
        if k == "try":
            return self.exec_try(n, st, fr)
        if k == "nop":
            return [st]
        self.ev_event(st, "unknown", (n.get("cls", k),), n.get("l", 0), fr)
        return [st]

    def exec_if(self, n, st, fr):
        out = []
        cur = [st]
        if n.get("init"):
            cur = self.exec(n["init"], st, fr)
        if n.get("cv"):
            nx = []
            for s in cur:
                if s.sig:
                    out.append(s)
                else:
                    nx += self.declare(n["cv"], s, fr)
            cur = nx
        for s in cur:
            if s.sig:
                out.append(s)
                continue
            for s2, b in self.cond(n["c"], s, fr):
                if s2.sig:
                    out.append(s2)
                elif b:
                    out += self.exec(n["t"], s2, fr)
                elif n.get("e"):
                    out += self.exec(n["e"], s2, fr)
                else:
                    out.append(s2)
        return out

    def exec_switch(self, n, st, fr):
        out = []
        cur = [st]
        if n.get("init"):
            cur = self.exec(n["init"], st, fr)
        body = n["b"]
        items = body["s"] if body["k"] == "blk" else [body]
        # flatten: list of (labels, stmt)
        flat = []

        def unwrap(s):
            labels = []
            while s and s["k"] in ("case", "dflt"):
                labels.append(s.get("v") if s["k"] == "case" else "default")
                s = s["s"]
            return labels, s
        for s in items:
            flat.append(unwrap(s))
        for s in cur:
            if s.sig:
                out.append(s)
                continue
            if n.get("cv"):
                ss = self.declare(n["cv"], s, fr)
            else:
                ss = [s]
            for s1 in ss:
                for s2, t in self.ev(n["c"], s1, fr):
                    if s2.sig:
                        out.append(s2)
                        continue
                    cases = []
                    dflt = None
                    for i, (ls, _) in enumerate(flat):
                        for l in ls:
                            if l == "default":
                                dflt = i
                            else:
                                cases.append((i, l))
                    rest = s2
                    for i, l in cases:
                        if rest is None:
                            break
                        (rs, lv), = self.ev(l, rest, fr)
                        a, pol = self.eq_atom(t, lv, n.get("t", ""))
                        nxt = None
                        for s3, b in self.branch(rs, a, pol):
                            if b:
                                out += self.run_from(flat, i, s3, fr)
                            else:
                                nxt = s3
                        rest = nxt
                    if rest is not None:
                        if dflt is not None:
                            out += self.run_from(flat, dflt, rest, fr)
                        else:
                            out.append(rest)
        return out

    def run_from(self, flat, i, st, fr):
        res = self.exec_list([s for _, s in flat[i:] if s], st, fr)
        for r in res:
            if r.sig == "brk":
                r.sig = None
        return res

    def exec_try(self, n, st, fr):
        fr.in_try += 1
        res = self.exec(n["b"], st, fr)
        fr.in_try -= 1
        out = []
        for s in res:
            if s.sig != "throw":
                out.append(s)
                continue
            handled = False
            for h in n["h"]:
                if self.catches(h.get("t"), s.val):
                    s.sig = None
                    exc = s.val
                    s.val = None
                    if h.get("v"):
                        s.env[(fr.tu, h["v"]["id"])] = exc
                    self.ev_event(s, "catch", (h.get("t") or "...", exc), n["l"], fr)
                    out += self.exec(h["b"], s, fr)
                    handled = True
                    break
            if not handled:
                out.append(s)
        return out

    def catches(self, ht, exc):
        if ht is None:
            return True
        ht = strip_t(ht)
        et = exc[1] if exc and exc[0] == "exc" else ""
        if ht in ("std::exception",) or ht == et:
            return True
        if et == "?":
            return True
        hier = {"std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
                "std::domain_error": ["std::logic_error"], "std::length_error": ["std::logic_error"],
                "std::bad_optional_access": []}
        if ht in hier.get(et, []):
            return True
        return ht in self.F.bases_of(et)

    def mutated_ids(self, fn):
        """Ids of variables with a use that may modify the object (other than moving out of it)."""
        key = id(fn)
        r = self.mutcache.get(key)
        if r is not None:
            return r
        out = set()

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "ref":
                if not n.get("ro"):
                    out.add(n["id"])
                return
            if k == "move" and n["e"].get("k") == "ref":
                return
            if k == "call" and n.get("n") in ("std::move", "std::forward") and n["a"] and n["a"][0].get("k") == "ref":
                return
            if k == "rfor" and n["r"].get("k") == "ref":
                if is_const_ref(n["v"]["t"]) or not is_ref(n["v"]["t"]):
                    walk(n["b"])
                    return
            if k == "call" and n.get("o", {}).get("k") == "ref" and n["n"].rpartition("::")[2] in READ_METHODS:
                walk(n["a"])
                return
            if k == "op" and is_std(n.get("n", "")) and n["a"] and n["a"][0].get("k") == "ref" and \
                    n["op"] in ("*", "->", "==", "!=", "<"):
                walk(n["a"][1:])
                return
            for kk, v in n.items():
                if kk in ("t", "n", "c", "q") and not isinstance(v, (dict, list)):
                    continue
                walk(v)
        walk(fn["body"])
        walk(fn.get("inits", []))
        self.mutcache[key] = out
        return out

    def is_obj_type(self, t):
        """Declared non-reference object type whose identity matters when mutated."""
        t0 = strip_t(t)
        if t0.endswith("*") or t0 in INTS + FLOATS + ("bool", "void"):
            return False
        if t0.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<", "std::function<", "std::atomic<",
                          "__gnu_cxx::", "std::__detail::", "std::_Rb_tree", "std::_Deque_iterator", "std::pair<", "YAML::detail::iterator_base<",
                          "std::reference_wrapper<", "std::basic_string<", "std::tuple<", "std::variant<")):
            return False
        if t0 in self.F.enums:
            return False
        return True

    def declare(self, d, st, fr):
        key = (fr.tu, d["id"])
        st.line = d.get("l", st.line)
        t = d["t"]
        if d.get("sl") and not d.get("cq") and not is_ref(t):
            st.env[key] = ("g", fr.name + "::" + d["n"])
            return [st]
        base = strip_t(t)
        if base.split("<")[0] in LOCKS and d.get("i"):
            out = []
            init = d["i"]
            args = init.get("a", []) if init["k"] == "ctor" else [init]
            for s, ts in self.ev_args(args, st, fr):
                if s.sig:
                    out.append(s)
                    continue
                m = ts[0] if ts else VOID
                v = ("lockvar", d["n"], d["id"])
                s.env[key] = v
                s.store[("lockmutex", v)] = m
                deferred = any(x[0] == "g" and "defer" in x[1] for x in ts[1:] if isinstance(x, tuple))
                s.store[("lockstate", v)] = FALSE if deferred else TRUE
                if not deferred:
                    self.ev_event(s, "lock", (m, v), d["l"], fr)
                out.append(s)
            fr.raii.append((("lockvar", d["n"], d["id"]), out[0].store.get(("lockmutex", ("lockvar", d["n"], d["id"])), VOID)
                            if out else VOID))
            return out
        if "bind" in d:
            out = []
            for s, v in self.ev(d["i"], st, fr):
                if s.sig is None:
                    self.bind_structured(d["bind"], v, s, fr)
                out.append(s)
            return out
        if not d.get("i"):
            st.env[key] = self.new_loc(st, d, fr, None) if self.is_obj_type(t) else ("uninit", d["n"])
            return [st]
        init = d["i"]
        if d.get("r"):
            if is_const_ref(t):
                out = []
                for s, v in self.ev(init, st, fr):
                    if s.sig is None:
                        s.env[key] = v
                    out.append(s)
                return out
            out = []
            for s, L in self.lval(init, st, fr):
                if s.sig is None:
                    s.env[key] = L[1] if L[0] == "obj" else ("&", L)
                out.append(s)
            return out
        mutated = d["id"] in self.mutated_ids(fr.fn) and not d.get("cq")
        out = []
        for s, v in self.ev_copy(init, st, fr):
            if s.sig is None:
                if mutated and self.is_obj_type(t) and not (v[0] == "loc" and init["k"] in ("call",)):
                    s.env[key] = self.new_loc(s, d, fr, v)
                else:
                    s.env[key] = v
                s.moved = s.moved - {key}
            out.append(s)
        return out

    def new_loc(self, st, d, fr, init):
        base = ("loc", d["n"], d["id"], fr.tu)
        c = st.cnt.get(base, 0)
        st.cnt[base] = c + 1
        L = base + (c,)
        if init is None or (init[0] == "k" and is_std(init[1]) and len(init) <= 3) or init == ("list",):
            st.facts = {**st.facts, ("empty", L): True}
            st.dirty = st.dirty | {L}
            if init is not None:
                st.inits[L] = init
        else:
            st.inits[L] = init
            if init[0] in ("k", "agg", "list"):
                if init[0] == "agg":
                    for f, v in init[2]:
                        st.store[(L, f)] = v
                st.dirty = st.dirty | {L}
        return L

    def bind_structured(self, binds, v, st, fr):
        for b in binds:
            if v[0] in ("pair", "tuple"):
                val = v[1 + b["x"]]
            elif b.get("f"):
                val = self.read_field(st, v, b["f"])
            elif v[0] == "el":
                val = ("key", v) if b["x"] == 0 else ("val", v)
            else:
                val = ("get", v, b["x"])
            st.env[(fr.tu, b["id"])] = val
            if "hid" in b:
                st.env[(fr.tu, b["hid"])] = val

    # ---------------------------------------------------------------------------------------------- loops
    def exec_rfor(self, n, st, fr):
        out = []
        cur = [st]
        if n.get("init"):
            cur = self.exec(n["init"], st, fr)
        for s in cur:
            if s.sig:
                out.append(s)
                continue
            for s2, C in self.ev(n["r"], s, fr):
                if s2.sig:
                    out.append(s2)
                    continue

                def bind(x, el):
                    v = n["v"]
                    if "bind" in v:
                        self.bind_structured(v["bind"], el, x, fr)
                    else:
                        x.env[(fr.tu, v["id"])] = el
                items = self.concrete_items(s2, C)
                if items is not None:
                    out += self.unroll(items, bind, n["b"], s2, fr)
                else:
                    out += self.loop(C, bind, lambda x: self.exec(n["b"], x, fr), s2, fr, n["l"])
        return out

    def concrete_items(self, st, C):
        if C[0] == "loc":
            C = st.inits.get(C) if C not in st.dirty else C
            if C is None:
                return None
        if C[0] == "g":
            C = self.global_value(C[1]) or C
        if C[0] == "k" and is_std(C[1]) and len(C) == 4 and C[3][0] == "list":
            C = C[3]
        if C[0] == "list" and len(C) - 1 <= 16:
            return list(C[1:])
        return None

    def unroll(self, items, bind, body, st, fr, over=None):
        cur = [st]
        out = []
        for it in items:
            nxt = []
            for s in cur:
                bind(s, it)
                for y in self.exec(body, s, fr):
                    if y.sig == "brk":
                        y.sig = None
                        out.append(y)
                    elif y.sig in (None, "cont"):
                        y.sig = None
                        nxt.append(y)
                    else:
                        out.append(y)
            cur = self.merge(nxt)
        for s in cur if over else ():
            over(s)
        return cur + out

    def unroll_steps(self, items, key, at, end, body, st, fr):
        """unroll() for an induction variable: at(item) while inside, end after the last one."""
        def bind(x, t):
            x.env[key] = at(t)
        def over(x):
            x.env[key] = end
        return self.unroll(items, bind, body, st, fr, over)

    def loop(self, C, bind, body, st, fr, line, full=True, el=None, pre_cond=None, kind="range"):
        """Summarises a loop over container C; body(state) -> states."""
        self.loopn += 1
        self.stats["loops"] += 1
        lid = self.loopn
        if el is None:
            el = ("el", C, lid)
        return self.summarise(lid, C, el, full, bind, body, st, fr, line, kind)

    def summarise(self, lid, over, el, full, bind, body, st, fr, line, kind, post=None, counters=()):
        none = False
        if counters:
            plain_bind, plain_post = bind, post

            def bind(h, e):
                plain_bind(h, e)
                for k in counters:
                    h.env[k] = ("ix", num(0), ("size", over), lid)

            def post(x):
                if x.trace and x.sig is None and x.trace[1].k == "loop" and x.trace[1].a[0].id == lid and x.trace[1].a[0].complete:
                    for k in counters:
                        x.env[k] = ("size", over)
                return plain_post(x) if plain_post else [x]
        if over[0] == "range":
            a, pol = atom_lt(over[1], over[2], True)
            none = (pol if a is None else decide(st.facts, a, self.F.enums) is not None and
                    decide(st.facts, a, self.F.enums) == pol) is False and (
                        a is None or decide(st.facts, a, self.F.enums) is not None)
        if none or over[0] not in ("range", "general", "rng") and decide(st.facts, ("empty", over), self.F.enums) is True:
            # nothing to iterate: the loop completes at once
            rec = LoopRec(lid, over, el, full, [], line, kind)
            rec.base_facts = st.facts
            self.ev_event(st, "loop", (rec,), line, fr)
            st.facts = {**st.facts, ("done", lid): True}
            return post(st) if post else [st]
        # 1. find what the body changes
        havoc_env, havoc_store, mutated = set(), set(), set()
        saved = (self.loopn,)
        for _ in range(4):
            h = self.havoc(st, lid, havoc_env, havoc_store, mutated)
            start, base_facts = h.trace, h.facts
            bind(h, el)
            base_facts = h.facts
            base_env, base_store = dict(h.env), dict(h.store)
            self.loopn = saved[0]
            ends = body(h)
            ne, ns, nm = set(), set(), set()
            for e in ends:
                if e.sig not in (None, "cont"):
                    continue        # what an iteration that leaves the loop changes is not seen by other iterations
                for k, v in e.env.items():
                    if k in st.env and base_env.get(k) != v and k not in havoc_env and st.env[k] != v and k not in counters:
                        ne.add(k)
                for k, v in e.store.items():
                    if base_store.get(k) != v and k not in havoc_store and k[0] != "at":
                        ns.add(k)
                for ev in self.flat_events(e.trace_list(start)):
                    if (ev.k == "mut" or ev.k == "out" and ev.a[0][0] == "loc") and ev.a[0] not in mutated:
                        nm.add(ev.a[0])
            if not ne and not ns and not nm:
                break
            havoc_env |= ne
            havoc_store |= ns
            mutated |= nm
        else:
            h = self.havoc(st, lid, havoc_env, havoc_store, mutated)
            start, base_facts = h.trace, h.facts
            bind(h, el)
            base_env, base_store = dict(h.env), dict(h.store)
            self.loopn = saved[0]
            ends = body(h)
        if not counters and full and over[0] not in ("range", "general", "rng", "list"):
            found = tuple(k for k in havoc_env if st.env[k] == num(0) and any(e.sig in (None, "cont") for e in ends) and all(
                e.env.get(k) == add(("hv", lid, k[1]), num(1)) for e in ends if e.sig in (None, "cont")) and all(
                    e.env.get(k) in (("hv", lid, k[1]), add(("hv", lid, k[1]), num(1))) for e in ends))
            if found:
                # variables that count the elements visited so far
                self.loopn = saved[0]
                return self.summarise(lid, over, el, full, bind, body, st, fr, line, kind, post, found)
        # 2. iteration paths: those of the last run
        iters = []
        conts, exits = [], []
        for e in ends:
            evs = e.trace_list(start)
            delta = {k: v for k, v in e.facts.items() if base_facts.get(k) != v or k not in base_facts}
            changed = {}
            for k in (havoc_env if e.sig in (None, "cont") else [k for k in e.env if k in st.env]):
                if e.env.get(k) != base_env.get(k):
                    changed[k] = e.env.get(k)
            for k in havoc_store:
                if e.store.get(k) != base_store.get(k):
                    changed[k] = e.store.get(k)
            it = Iter(delta, e.facts, evs, e.sig, e.val, changed, e.env, e.inits)
            iters.append(it)
            if e.sig in (None, "cont"):
                conts.append((e, it))
            else:
                exits.append((e, it))
        out = []
        # 3. early exits
        for e, it in exits:
            rec = LoopRec(lid, over, el, full, iters, line, kind)
            rec.entry = {k: st.env.get(k) for k in havoc_env}
            rec.complete = False
            rec.base_facts = base_facts
            x = e
            evs = e.trace_list(start)
            x.trace = start
            self.ev_event(x, "loop", (rec,), line, fr)
            for v in evs:
                x.trace = (x.trace, v)
            if x.sig == "brk":
                x.sig = None
            out.append(x)
        # 4. completions
        def complete(x):
            rec = LoopRec(lid, over, el, full, iters, line, kind)
            rec.entry = {k: st.env.get(k) for k in havoc_env}
            rec.base_facts = base_facts
            x.trace = start
            self.ev_event(x, "loop", (rec,), line, fr)
            x.facts = {**x.facts, ("done", lid): True}
            x.sig = None
            return x
        # never assigned
        z = self.havoc(st, lid, set(), set(), mutated)
        if conts or not ends or not exits:
            out.append(complete(z))
        else:
            # every iteration leaves the loop: completion only when there is no element
            out.append(complete(z))
        grown = {}
        for e, it in conts:
            for k, v in it.changed.items():
                grown.setdefault(k, []).append(v)
        some = [it for e, it in conts if it.changed]
        if len(some) > 1 and all(v and v[0] == "cat" and mentions(v, ("hv", lid, k[1])) for k, vs in grown.items() for v in vs
                                 if k in havoc_env) and all(k in havoc_env for k in grown):
            # the iterations only append to local lists: one completion stands for all of them
            x = self.havoc(st, lid, set(), set(), mutated)
            for k in grown:
                x.env[k] = ("cat", ("hv", lid, k[1]), ("some", lid))
            out.append(complete(x))
        else:
            for e, it in conts:
                if not it.changed:
                    continue
                x = e.fork()
                x.sig = None
                out.append(complete(x))
        for x in out:
            x.env = {k: v for k, v in x.env.items() if k in st.env}
        if post:
            out = [y for x in out for y in post(x)]
        return out

    def flat_events(self, evs):
        for e in evs:
            if e.k == "loop":
                for it in e.a[0].iters:
                    yield from self.flat_events(it.events)
            else:
                yield e

    def havoc(self, st, lid, envk, storek, mutated):
        h = st.fork()
        for k in envk:
            v = h.env.get(k)
            if v is not None and v[0] == "&":
                continue
            h.env[k] = ("hv", lid, k[1], v if v is not None and not mentions(v, ("hv",)) else None) if False else \
                ("hv", lid, k[1])
        for k in storek:
            h.store[k] = ("hv", lid, k)
        for m in mutated:
            self.forget(h, m)
            if m[0] == "loc":
                h.dirty = h.dirty | {m}
        return h

    def forget(self, st, m):
        f = {}
        for a, v in st.facts.items():
            if a[0] in ("has", "empty") and a[1] == m:
                continue
            if a[0] in ("lt", "gt", "eqn") and mentions(a[1], ("size", m)):
                continue
            f[a] = v
        st.facts = f
        for k in [k for k in st.store if isinstance(k[0], str) and k[0] == "at" and k[1] == m]:
            del st.store[k]
        st.cnt.pop(("grow", m), None)

    def assigned_in(self, node, ids):
        """True when any variable in ids may be modified inside node."""
        found = []

        def value(n):
            """The operand of a built-in assignment: the arms of a conditional are only read."""
            if n.get("k") == "cond":
                walk(n["c"])
                value(n["a"])
                value(n["b"])
            elif n.get("k") != "ref":
                walk(n)

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                k = n.get("k")
                if k == "ref":
                    if n["id"] in ids and not n.get("ro"):
                        found.append(n)
                    return
                if k == "asg" and "b" in n:
                    walk(n["a"])
                    value(n["b"])
                    return
                if k == "call" and n.get("o", {}).get("k") == "ref" and n["n"].rpartition("::")[2] in READ_METHODS:
                    walk(n["a"])
                    return
                if k == "op" and n.get("op") in ("*", "->", "==", "!=", "[]", "<", "-", "+") and is_std(n.get("n", "")):
                    for a in n["a"]:
                        if a.get("k") != "ref":
                            walk(a)
                    return
                if k == "call" and n.get("n") in ("std::next", "std::prev", "std::distance"):
                    for a in n["a"]:
                        if a.get("k") != "ref":
                            walk(a)
                    return
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
        walk(node)
        return bool(found)

    def inc_of(self, e, vid):
        """Step (+1/-1/None) when expression e advances variable vid by one."""
        if not e:
            return None
        if e["k"] == "un" and e["op"] in ("++", "--") and e["e"].get("k") == "ref" and e["e"]["id"] == vid:
            return 1 if e["op"] == "++" else -1
        if e["k"] == "op" and e["op"] in ("++", "--") and e["a"][0].get("k") == "ref" and e["a"][0]["id"] == vid:
            return 1 if e["op"] == "++" else -1
        if e["k"] == "asg" and e["op"] in ("+=", "-=") and e["a"].get("k") == "ref" and e["a"]["id"] == vid and \
                e["b"].get("k") == "int" and e["b"]["v"] == "1":
            return 1 if e["op"] == "+=" else -1
        if e["k"] == "asg" and e["op"] == "=" and e["a"].get("k") == "ref" and e["a"]["id"] == vid:
            b = e["b"]
            if b["k"] == "bin" and b["op"] in ("+", "-"):
                x, y = b["a"], b["b"]
                if x.get("k") == "ref" and x["id"] == vid and y.get("k") == "int" and y["v"] == "1":
                    return 1 if b["op"] == "+" else -1
            if b["k"] == "call" and b["n"] == "std::next" and b["a"][0].get("k") == "ref" and b["a"][0]["id"] == vid:
                return 1
        return None

    def exec_loop(self, n, st, fr):
        k = n["k"]
        out = []
        cur = [st]
        if k == "do" and n["c"].get("k") in ("int", "bool") and n["c"]["v"] in ("0", False):
            out = self.exec(n["b"], st, fr)
            for s in out:
                if s.sig in ("brk", "cont"):
                    s.sig = None
            return out
        if n.get("init"):
            cur = self.exec(n["init"], st, fr)
        for s in cur:
            if s.sig:
                out.append(s)
                continue
            r = self.counted(n, s, fr)
            if r is None:
                r = self.general_loop(n, s, fr)
            out += r
        return out

    def counted(self, n, st, fr):
        """Recognises loops that step a variable by one over a range (index or iterator); None otherwise."""
        k = n["k"]
        if k == "do":
            return None
        c = n.get("c")
        if not c:
            return None
        body = n["b"]
        inc = n.get("inc")
        inc_stmt = None
        extra = pre = None
        if c["k"] == "bin" and c["op"] == "&&":
            whole = c
            # `i < n && go`: with go true at first, the loop is left at the end of the iteration that falsifies it
            for a, b in ((c["a"], c["b"]), (c["b"], c["a"])):
                if b["k"] == "bin" and b["op"] in ("<", "!=") or b["k"] == "op" and b["op"] == "!=":
                    a, b = b, a
                if not (a["k"] in ("bin", "op") and a["op"] in ("<", "!=", "<=", ">")):
                    continue
                now = self.cond(b, st.fork(), fr)
                if len(now) == 1 and now[0][0].sig is None and now[0][1]:
                    c, extra = a, b
                    break
            if extra is None:
                # `i < n && go(i)`: left at the start of the iteration that falsifies go
                conj = []

                def flat(x):
                    if x["k"] == "bin" and x["op"] == "&&":
                        flat(x["a"])
                        flat(x["b"])
                    else:
                        conj.append(x)
                flat(whole)
                if conj[0]["k"] in ("bin", "op") and conj[0]["op"] in ("<", "!=", "<=", ">"):
                    c, pre = conj[0], conj[1:]
        # candidate induction variables
        cands = []
        if c["k"] == "bin" and c["op"] in ("<", "!=", ">", "<="):
            for side, other in ((c["a"], c["b"]), (c["b"], c["a"])):
                if side.get("k") == "ref" and "g" not in side:
                    cands.append((side, other, 0))
                elif side.get("k") == "bin" and side.get("op") in ("+", "-"):
                    # i + 1 < n
                    x, y = side["a"], side["b"]
                    if side["op"] == "+" and x.get("k") == "int":
                        x, y = y, x
                    if x.get("k") == "ref" and "g" not in x and y.get("k") == "int":
                        cands.append((x, other, int(y["v"]) if side["op"] == "+" else -int(y["v"])))
        elif c["k"] == "op" and c["op"] in ("!=", "<") and len(c["a"]) == 2:
            for side, other in ((c["a"][0], c["a"][1]), (c["a"][1], c["a"][0])):
                if side.get("k") == "ref":
                    cands.append((side, other, 0))
        for var, bound, off in cands:
            vid = var["id"]
            step = self.inc_of(inc, vid)
            inner = body
            if step is None and not inc and body["k"] == "blk" and body["s"]:
                last = body["s"][-1]
                if last["k"] == "x":
                    step = self.inc_of(last["e"], vid)
                    if step is not None:
                        if self.has_continue(body):
                            step = None
                        else:
                            inner = dict(body)
                            inner["s"] = body["s"][:-1]
            floating = False
            if step is None and not inc and body["k"] == "blk" and self.steps_once(body["s"], vid) and not self.has_continue(body):
                step, floating = 1, True
            if step != 1:
                continue
            if not floating and self.assigned_in(inner, {vid}) or extra and self.refers_to(extra, vid):
                continue
            key = (fr.tu, vid)
            lo = st.env.get(key)
            if lo is None or lo[0] == "&" or floating and lo[0] in ("it", "itx", "itm", "itw"):
                continue
            res = self.ev(bound, st.fork(), fr)
            if len(res) != 1 or res[0][0].sig:
                continue
            hi = res[0][1]
            op = c["op"]
            inside = lambda n: n is var or n.get("k") == "bin" and (n["a"] is var or n["b"] is var)
            if c["k"] == "bin" and op == ">" and not inside(c["b"]):
                continue
            if c["k"] == "bin" and op == "<" and not inside(c["a"]):
                continue
            if op == "<=":
                if not inside(c["a"]):
                    continue
                hi = add(hi, num(1))
            if off:
                if hi[0] in ("end", "it") or lo[0] in ("it", "itx"):
                    continue
                hi = add(hi, num(off), -1)
            if lo[0] == "it":
                C = lo[1]
                if hi not in (("end", C),):
                    full = False
                    if hi[0] == "itx":
                        pass
                else:
                    full = lo[2] == "b"
                items = self.concrete_items(st, C) if full and extra is None and not pre else None
                if items is not None:
                    return self.unroll_steps(items, key, lambda t: ("itw", C, t), ("end", C), inner, st, fr)
                self.loopn += 1
                lid = self.loopn
                el = ("el", C, lid)

                def bind(x, e, key=key, C=C, lid=lid):
                    x.env[key] = ("itw", C, e)

                def after(x, key=key, C=C):
                    if x.trace and x.sig is None and x.trace[1].k == "loop" and x.trace[1].a[0].complete:
                        x.env[key] = ("end", C)
                    return [x]
                self.stats["loops"] += 1
                return self.summarise(lid, C, el, full, bind, self.body_of(inner, extra, fr, pre), st, fr,
                                      n["l"], "iter", post=after)
            if hi[0] in ("end",) or lo[0] in ("itm", "itw", "end", "itx"):
                continue
            # index loop
            if hi[0] == "size" and lo == num(0) and extra is None and not pre and not floating:
                items = self.concrete_items(st, hi[1])
                if items is not None:
                    return self.unroll_steps([num(k) for k in range(len(items))], key, lambda t: t, num(len(items)), inner, st, fr)
            # index loop
            self.loopn += 1
            lid = self.loopn
            ix = ("ix", lo, hi, lid)
            C = None
            full = True
            over = ("range", lo, hi)

            def bind(x, e, key=key, ix=ix, hi=hi, lo=lo):
                x.env[key] = ix
                f = dict(x.facts)
                if hi[0] == "size":
                    f.pop(("empty", hi[1]), None)
                    f[("empty", hi[1])] = False
                x.facts = f

            def after(x, key=key, hi=hi):
                if x.trace and x.sig is None and x.trace[1].k == "loop" and x.trace[1].a[0].complete:
                    x.env[key] = hi
                return [x]
            if hi[0] == "size" and lo == num(0):
                over = hi[1]
            self.stats["loops"] += 1
            run = self.body_of(inner, extra, fr, pre)
            if floating:
                def run(x, run=run, key=key, ix=ix):
                    res = run(x)
                    for e in res:
                        if e.sig in (None, "cont"):
                            e.env[key] = ix
                    return res
            return self.summarise(lid, over, ix, full, bind, run, st, fr, n["l"], "index", post=after)
        return None

    def steps_once(self, stmts, vid):
        """True when one statement of the list advances the variable by one, once and unconditionally, and none writes it otherwise."""
        def steps(n):
            if isinstance(n, list):
                return [y for x in n for y in steps(x)]
            if not isinstance(n, dict):
                return []
            if self.inc_of(n, vid) == 1 if "k" in n and n["k"] in ("un", "op", "asg") and "op" in n else False:
                return [n]
            return [y for v in n.values() if isinstance(v, (dict, list)) for y in steps(v)]
        mine = [x for x in stmts if isinstance(x, dict) and self.assigned_in(x, {vid})]
        if len(mine) != 1 or mine[0]["k"] not in ("x", "decl", "var", "vars"):
            return False
        at = steps(mine[0])
        if len(at) != 1:
            return False
        text = repr(mine[0])
        return not any(("'k': '%s'" % k) in text for k in ("cond", "lambda")) and "'op': '&&'" not in text and "'op': '||'" not in text

    def refers_to(self, n, vid):
        if isinstance(n, list):
            return any(self.refers_to(x, vid) for x in n)
        if isinstance(n, dict):
            return n.get("k") == "ref" and n.get("id") == vid or any(self.refers_to(v, vid) for v in n.values() if isinstance(v, (dict, list)))
        return False

    def body_of(self, inner, extra, fr, pre=None):
        """The body of a loop, leaving it at its end when the additional loop condition no longer holds,
        or before its first statement when a further condition does not hold."""
        def run(x):
            if pre:
                live, res = [x], []
                for c in pre:
                    nxt = []
                    for s in live:
                        for s2, b in self.cond(c, s, fr):
                            if s2.sig is None and not b:
                                s2.sig = "brk"
                            (res if s2.sig else nxt).append(s2)
                    live = nxt
                return res + [e for s in live for e in self.exec(inner, s, fr)]
            if extra is None:
                return self.exec(inner, x, fr)
            res = []
            for e in self.exec(inner, x, fr):
                if e.sig not in (None, "cont"):
                    res.append(e)
                    continue
                e.sig = None
                for s, b in self.cond(extra, e, fr):
                    if s.sig is None and not b:
                        s.sig = "brk"
                    res.append(s)
            return res
        return run

    def has_continue(self, n):
        if isinstance(n, list):
            return any(self.has_continue(x) for x in n)
        if isinstance(n, dict):
            if n.get("k") == "cont":
                return True
            if n.get("k") in ("for", "while", "do", "rfor", "lam"):
                return False
            return any(self.has_continue(v) for v in n.values() if isinstance(v, (dict, list)))
        return False

    def general_loop(self, n, st, fr):
        self.loopn += 1
        lid = self.loopn
        self.stats["loops"] += 1
        k = n["k"]

        def body(x):
            res = []
            if k == "do":
                ends = self.exec(n["b"], x, fr)
                for e in ends:
                    if e.sig in (None, "cont"):
                        e.sig = None
                        for s2, b in self.cond(n["c"], e, fr):
                            if s2.sig is None and not b:
                                s2.sig = "brk"
                            res.append(s2)
                    else:
                        res.append(e)
                return res
            xs = [x]
            if n.get("cv"):
                xs = self.declare(n["cv"], x, fr)
            for x1 in xs:
                if x1.sig:
                    res.append(x1)
                    continue
                conds = self.cond(n["c"], x1, fr) if n.get("c") else [(x1, True)]
                for s2, b in conds:
                    if s2.sig:
                        res.append(s2)
                        continue
                    if not b:
                        s2.sig = "brk"
                        self.ev_event(s2, "loopend", (lid,), n["l"], fr)
                        res.append(s2)
                        continue
                    for e in self.exec(n["b"], s2, fr):
                        if e.sig in (None, "cont") and n.get("inc"):
                            e.sig = None
                            for s3, _ in self.ev(n["inc"], e, fr):
                                res.append(s3)
                        else:
                            res.append(e)
            return res
        out = self.summarise(lid, ("general",), ("general", lid), False, lambda x, e: None, body, st, fr, n["l"], "general")
        # A general loop is only left through its condition, a break, a return or a throw: drop the artificial completion.
        return [x for x in out if not (x.trace and x.trace[1].k == "loop" and x.trace[1].a[0].id == lid and
                                       x.trace[1].a[0].complete and ("done", lid) in x.facts and x.sig is None)]

    # ---------------------------------------------------------------------------------------------- expressions
    def ev_args(self, args, st, fr):
        cur = [(st, ())]
        for a in args:
            nxt = []
            for s, ts in cur:
                if s.sig:
                    nxt.append((s, ts))
                    continue
                for s2, t in self.ev_copy(a, s, fr):
                    nxt.append((s2, ts + (t,)))
            cur = nxt
        return cur

    def cond(self, e, st, fr):
        """[(state, bool)] (state may carry a signal)."""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(s, (not b)) for s, b in self.cond(e["e"], st, fr)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["a"], st, fr):
                if s.sig:
                    out.append((s, b))
                elif b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["b"], s, fr)
            return out
        if k == "bool":
            return [(st, e["v"])]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st, fr):
                if s.sig:
                    out.append((s, b))
                else:
                    out += self.cond(e["a"] if b else e["b"], s, fr)
            return out
        out = []
        ptr = self.is_ptr_expr(e)
        for s, t in self.ev(e, st, fr):
            if s.sig:
                out.append((s, False))
            elif ptr:
                out += [(s2, not b) for s2, b in self.nullness(s, t)]
            else:
                out += self.truth(s, t)
        return out

    def is_ptr_expr(self, e):
        k = e["k"]
        t = e.get("t", "")
        if k in ("ref", "mem", "call", "cast", "asg"):
            if k == "call" and e.get("conv"):
                return False
            t = strip_t(e.get("rt", t) if k == "call" else t)
            return t.endswith("*") or kind_of(t) in ("opt", "ptr")
        return False

    def ev_copy(self, e, st, fr):
        """Evaluates e as a value that is copied or moved elsewhere: structs known field by field become aggregates."""
        out = []
        for s, t in self.ev(e, st, fr):
            if s.sig is None:
                t = self.snapshot(s, t)
            out.append((s, t))
        return out

    def snapshot(self, st, t):
        if t is not None and t[0] == "loc":
            fs = [(k[1], v) for k, v in st.store.items() if k[0] == t and isinstance(k[1], str)]
            if fs:
                init = st.inits.get(t)
                if init is not None and init[0] == "agg":
                    d = dict(init[2])
                    d.update(dict(fs))
                    fs = list(d.items())
                return ("agg",) + self.fields_of(init, dict(fs))
        return t

    def fields_of(self, init, fs):
        """(class, fields in declaration order) of a struct known by its fields."""
        qs = {f.rpartition("::")[0] for f in fs}
        if init is not None and init[0] in ("k", "agg") and init[1] in self.F.classes:
            qs.add(init[1])

        def chain(q):
            c = self.F.classes.get(q)
            if not c:
                return [q]
            return [x for b in c["bases"] for x in chain(b["q"])] + [q]
        chains = {q: chain(q) for q in qs}
        cls = max(sorted(qs), key=lambda q: (len(qs & set(chains[q])), len(chains[q])))
        order = [fd["q"] for q in chains[cls] if q in self.F.classes for fd in self.F.classes[q]["fields"]]
        rank = {f: k for k, f in enumerate(order)}
        return cls, tuple(sorted(fs.items(), key=lambda kv: (rank.get(kv[0], len(rank)), kv[0])))

    def ev(self, e, st, fr):
        """[(state, term)]"""
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.e_unknown(e, st, fr)
        return m(e, st, fr)

    def e_unknown(self, e, st, fr):
        if e["k"] == "other":
            cls = e.get("cls")
            if cls in ("CXXNoexceptExpr", "CXXTypeidExpr", "TypeTraitExpr"):
                return [(st, ("o", cls))]
            out = []
            for s, ts in self.ev_args(e.get("ch", []), st, fr):
                out.append((s, ("o", cls) + ts))
            return out
        return [(st, ("o", e["k"]))]

    def e_null(self, e, st, fr):
        return [(st, VOID)]

    def e_int(self, e, st, fr):
        return [(st, ("n", int(e["v"])))]

    def e_flt(self, e, st, fr):
        return [(st, num(float(e["v"])))]

    def e_bool(self, e, st, fr):
        return [(st, ("b", e["v"]))]

    def e_nullptr(self, e, st, fr):
        return [(st, NULL)]

    def e_str(self, e, st, fr):
        return [(st, ("s", e["v"]))]

    def e_chr(self, e, st, fr):
        return [(st, ("n", e["v"]))]

    def e_this(self, e, st, fr):
        return [(st, fr.this)]

    def e_enum(self, e, st, fr):
        return [(st, ("enum", e["q"]))]

    def e_fn(self, e, st, fr):
        return [(st, ("fnref", e["n"], e["c"]))]

    def e_mfn(self, e, st, fr):
        return [(st, ("fnref", e["n"], e["c"]))]

    def e_zero(self, e, st, fr):
        t = strip_t(e.get("t", ""))
        if t == "bool":
            return [(st, FALSE)]
        if t in INTS + FLOATS:
            return [(st, num(0))]
        if t.endswith("*"):
            return [(st, NULL)]
        return [(st, ("k", t, "", ))]

    def e_sizeof(self, e, st, fr):
        return [(st, ("o", "sizeof"))]

    def e_ref(self, e, st, fr):
        key = (fr.tu, e["id"])
        v = st.env.get(key)
        if v is None:
            if "g" in e:
                if e["g"] == "std::nullopt":
                    return [(st, NULL)]
                gv = self.global_value(e["g"])
                return [(st, gv if gv is not None else ("g", e["g"]))]
            return [(st, ("u", e["n"], e["id"], fr.tu))]
        if key in st.moved:
            self.ev_event(st, "use_moved", (e["n"],), st.line, fr)
        return [(st, self.rd(st, v))]

    def rd(self, st, v):
        if v[0] == "&":
            return self.read_l(st, v[1])
        if v[0] == "loc" and v not in st.dirty:
            i = st.inits.get(v)
            if i is not None:
                return i
        return v

    def global_value(self, q):
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = None
        v = self.F.vars.get(q)
        r = None
        if v and ("const" in v["t"]) and v["i"]:
            fr = Frame({"q": "global", "body": None}, v["tu"], VOID, None, 3, ())
            try:
                res = self.ev(v["i"], St(), fr)
                if len(res) == 1 and res[0][0].sig is None and res[0][1][0] != "str" and self.closed(res[0][1]):
                    r = res[0][1]
            except Exception:
                r = None
        self.gcache[q] = r
        return r

    def closed(self, t):
        if t[0] in ("n", "s", "b", "enum", "null"):
            return True
        if t[0] in ("list", "pair"):
            return all(self.closed(x) for x in t[1:])
        if t[0] == "str":
            return self.closed(t[1])
        if t[0] == "k":
            return all(self.closed(x) for x in t[3:])
        return False

    def read_l(self, st, L):
        if L[0] == "var":
            return self.rd(st, st.env.get(L[1], ("u", str(L[1]))))
        if L[0] == "fld":
            return self.read_field(st, L[1], L[2])
        if L[0] == "elem":
            return self.read_elem(st, L[1], L[2])
        return L[1]

    def read_elem(self, st, C, K):
        if K == sub(self.size_of(st, C), num(1)):
            K = ("back",)
        v = st.store.get(("at", C, K))
        if v is not None:
            return v
        if K == ("back",):
            if C[0] == "list" and len(C) > 1:
                return C[-1]
            return ("back", C)
        if K[0] == "key" and K[1][0] == "el" and K[1][1] == C:
            return ("val", K[1])
        if K[0] == "ix" and K[2] == ("size", C) and K[1] == num(0):
            return ("el", C, K[3])
        if C[0] == "list" and K[0] == "n" and isinstance(K[1], int) and 0 <= K[1] < len(C) - 1:
            return C[1 + K[1]]
        if C[0] == "list" and C[1:] and C[1][0] == "pair":
            for p in C[1:]:
                if p[0] == "pair" and p[1] == K:
                    return p[2]
        return ("at", C, K)

    def read_field(self, st, b, f):
        v = st.store.get((b, f))
        if v is not None:
            return self.rd(st, v) if v[0] == "&" else v
        if b[0] == "agg":
            for k, x in b[2]:
                if k == f:
                    return x
            if f.startswith(str(b[1]) + "::"):
                d = self.default_field(f)
                if d is not None:
                    return d
            # field of a base sub-object
            return ("f", b, f)
        if b[0] == "loc":
            i = st.inits.get(b)
            if i is not None and i[0] in ("agg", "k"):
                r = self.read_field(st, i, f)
                return ("f", b, f) if r == ("f", i, f) else r
            if i is not None and i[0] != "list" and not (i[0] == "k"):
                return self.read_field(st, i, f)
            d = self.default_field(f)
            if d is not None and i is None:
                return d
        if b[0] == "k":
            r = self.ctor_field(b, f)
            if r is not None:
                return r
        if f == "std::pair::first" or f == "std::pair::second":
            first = f.endswith("first")
            if b[0] == "pair":
                return b[1] if first else b[2]
            if b[0] == "el":
                return ("key", b) if first else ("val", b)
            if b[0] == "mapitem":
                return b[2] if first else self.read_elem(st, b[1], b[2])
            return ("fst" if first else "snd", b)
        return ("f", b, f)

    def default_field(self, f):
        cq = f.rpartition("::")[0]
        c = self.F.classes.get(cq)
        if not c:
            return None
        for fd in c["fields"]:
            if fd["q"] == f and fd.get("i"):
                fr = Frame({"q": "default", "body": None}, c["tu"], VOID, None, 3, ())
                try:
                    res = self.ev(fd["i"], St(), fr)
                    if len(res) == 1 and self.closed(res[0][1]):
                        return res[0][1]
                except Exception:
                    return None
        return None

    def ctor_field(self, b, f):
        """Field f of an object built by a repository constructor with the argument terms in b."""
        usr = b[2]
        if f == "maliput::math::VectorBase::values_" and b[1].startswith("maliput::math::Vector"):
            a = b[3:]
            if len(a) == 1 and a[0][0] == "list":
                return a[0]
            if len(a) in (2, 3) and not b[1].startswith("maliput::math::VectorBase"):
                return ("list",) + a
        fn = self.F.fns.get(usr)
        if fn is None and len(b) == 3 and f.startswith(b[1] + "::"):
            return self.default_field(f)  # implicitly defaulted constructor
        if fn is None or not fn.get("ctor"):
            return None
        for i in fn["inits"]:
            if i.get("f") == f and i.get("e"):
                st = St()
                for n, p in enumerate(fn["params"]):
                    if 3 + n < len(b):
                        st.env[(fn["tu"], p["id"])] = b[3 + n]
                fr = Frame(fn, fn["tu"], b, fn.get("cls"), 2, (fn["key"],))
                res = self.ev(i["e"], st, fr)
                res = [r for r in res if r[0].sig is None]
                vals = {r[1] for r in res}
                if len(vals) == 1:
                    return next(iter(vals))
                return None
        return None

    def e_mem(self, e, st, fr):
        out = []
        for s, b in self.ev(e["b"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            if e.get("ar") and e["b"]["k"] != "this" and not (e["b"]["k"] == "op"):
                self.deref(s, b, "->", e.get("l", 0), fr)
            if e["f"] in self.watch:
                self.ev_event(s, "access", (("f", b, e["f"]),), e.get("l", 0), fr)
            out.append((s, self.rd(s, self.read_field(s, b, e["f"]))))
        return out

    def deref(self, st, t, kind, line, fr):
        if t[0] in NONNULL or t[0] in ("el", "val", "key", "f0"):
            return
        known = decide(st.facts, ("null", t)) is False
        self.ev_event(st, "deref", (t, known, kind), line, fr)

    # --- lvalues
    def lval(self, e, st, fr):
        k = e["k"]
        if k == "ref":
            key = (fr.tu, e["id"])
            v = st.env.get(key)
            if v is None:
                return [(st, ("obj", ("g", e["g"]) if "g" in e else ("u", e["n"], e["id"], fr.tu)))]
            if v[0] == "&":
                return [(st, v[1])]
            if v[0] == "loc":
                if v not in st.dirty:
                    st.dirty = st.dirty | {v}
                return [(st, ("objv", v, key))]
            return [(st, ("var", key))]
        if k == "mem":
            out = []
            for s, b in self.lval_base(e["b"], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                cur = s.store.get((b, e["f"]))
                if cur is not None and cur[0] == "&":
                    out.append((s, cur[1]))
                elif e["f"] == "std::pair::second" and b[0] == "mapitem":
                    out.append((s, ("elem", b[1], b[2])))
                elif e["f"].startswith("std::pair::"):
                    out.append((s, ("obj", self.read_field(s, b, e["f"]))))
                else:
                    if e["f"] in self.watch:
                        self.ev_event(s, "access", (("f", b, e["f"]),), e.get("l", 0), fr)
                    out.append((s, ("fld", b, e["f"])))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, t in self.ev(e["e"], st, fr):
                if s.sig:
                    out.append((s, None))
                else:
                    self.deref(s, t, "*", e.get("l", 0), fr)
                    out.append((s, t[1] if t[0] == "addr" else ("obj", t)))
            return out
        if k == "idx":
            out = []
            for s, (b, i) in self.ev2(e["b"], e["i"], st, fr):
                out.append((s, ("elem", b, i) if s.sig is None else None))
            return out
        if k == "op" and e["op"] == "[]" and is_std(e.get("n", "")) and not e["n"].startswith("YAML"):
            out = []
            for s, b in self.lval_base(e["a"][0], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, i in self.ev(e["a"][1], s, fr):
                    out.append((s2, ("elem", b, i) if s2.sig is None else None))
            return out
        if k == "call" and e.get("o") and e["n"].startswith("std::") and e["n"].rpartition("::")[2] == "at":
            out = []
            for s, t in self.ev(e, st, fr):
                if s.sig:
                    out.append((s, None))
                elif t[0] == "at":
                    out.append((s, ("elem", t[1], t[2])))
                else:
                    out.append((s, ("obj", t)))
            return out
        if k == "call" and e.get("o") and e["n"].endswith("basic_string::append"):
            # text.append(x) is text itself, changed
            return [(s2, L) for s, t in self.ev(e, st, fr) for s2, L in (self.lval(e["o"], s, fr) if s.sig is None and pure_ref(e["o"]) else
                                                                         [(s, ("obj", t) if s.sig is None else None)])]
        out = []
        for s, t in self.ev(e, st, fr):
            out.append((s, ("obj", t) if s.sig is None else None))
        return out

    def lval_base(self, e, st, fr):
        """Term naming the object e designates (identity of locals kept)."""
        out = []
        for s, L in self.lval(e, st, fr):
            if s.sig:
                out.append((s, None))
            else:
                out.append((s, self.l_object(s, L)))
        return out

    def l_object(self, st, L):
        if L[0] == "objv":
            return L[1]
        if L[0] == "obj":
            return L[1]
        return self.read_l(st, L)

    def write(self, st, L, v, line, fr):
        if L[0] == "objv":
            st.env[L[2]] = v
            self.ev_event(st, "assign", (L[1], v), line, fr)
            # keep the identity of a re-assigned local container
            if v[0] in ("list",) or (v[0] == "k" and is_std(v[1])):
                st.env[L[2]] = v
            return
        if L[0] == "var":
            old = st.env.get(L[1])
            if old is not None and old[0] == "&":
                return self.write(st, old[1], v, line, fr)
            st.env[L[1]] = v
            st.moved = st.moved - {L[1]}
            return
        if L[0] == "fld":
            cur = st.store.get((L[1], L[2]))
            if cur is not None and cur[0] == "&":
                return self.write(st, cur[1], v, line, fr)
            old = self.read_field(st, L[1], L[2])
            if old == ("f", L[1], L[2]):
                self.forget(st, old)
            st.store[(L[1], L[2])] = v
            self.ev_event(st, "write", (L[1], L[2], v), line, fr)
            return
        if L[0] == "elem":
            self.mut(st, L[1], "set", (L[2], v), line, fr)
            st.store[("at", L[1], L[2])] = v
            return
        self.ev_event(st, "assign", (L[1], v), line, fr)

    def mut(self, st, target, op, args, line, fr):
        self.ev_event(st, "mut", (target, op, args), line, fr)
        f = {}
        keep_pos = op in ("insert", "set", "push_back", "push_front", "append", "default_insert")
        for a, v in st.facts.items():
            if a[0] == "has" and a[1] == target:
                if keep_pos and v or op in ("insert", "set", "default_insert") and a[2] != args[0] or \
                        op == "erase" and not v:
                    f[a] = v
                continue
            if a[0] == "empty" and a[1] == target:
                continue
            if a[0] in ("lt", "gt", "eqn") and mentions(a[1], ("size", target)):
                continue
            if a[0] == "eq" and target in a[1:]:
                continue
            f[a] = v
        if op in ("insert", "set", "default_insert"):
            f[("has", target, args[0])] = True
            f[("empty", target)] = False
        elif op in ("push_back", "push_front", "append"):
            f[("empty", target)] = False
        elif op == "erase":
            f[("has", target, args[0])] = False
        elif op == "clear":
            f[("empty", target)] = True
        st.facts = f
        if op in ("insert",) and len(args) > 1:
            st.store[("at", target, args[0])] = args[1]
        elif op == "push_back":
            st.store[("at", target, ("back",))] = args[0]
        elif op == "default_insert":
            pass
        elif op not in ("set", "push_back"):
            for k in [k for k in st.store if isinstance(k[0], str) and k[0] == "at" and k[1] == target]:
                del st.store[k]
        if target[0] == "loc":
            st.dirty = st.dirty | {target}
        elif op in ("push_back", "push_front"):
            st.cnt[("grow", target)] = st.cnt.get(("grow", target), 0) + 1
        elif op not in ("set",):
            st.cnt.pop(("grow", target), None)

    def size_of(self, st, C):
        """size(C), or size(C) after n appends of this path to a container that outlives the call."""
        n = st.cnt.get(("grow", C))
        return ("sizep", C, n) if n else ("size", C)

    # --- operators
    def ev2(self, a, b, st, fr):
        out = []
        for s, x in self.ev_copy(a, st, fr):
            if s.sig:
                out.append((s, (None, None)))
                continue
            for s2, y in self.ev_copy(b, s, fr):
                out.append((s2, (x, y)))
        return out

    def e_un(self, e, st, fr):
        op = e["op"]
        if op == "!":
            return [(s, ("b", b) if s.sig is None else None) for s, b in self.cond(e, st, fr)]
        if op == "&":
            sub = e["e"]
            out = []
            if sub["k"] in ("fn", "mfn"):
                return self.ev(sub, st, fr)
            for s, L in self.lval(sub, st, fr):
                if s.sig:
                    out.append((s, None))
                elif L[0] == "var":
                    v = self.rd(s, s.env[L[1]])
                    # address of a scalar local keeps its identity; anything else is transparent
                    out.append((s, ("addr", L) if v[0] in ("n", "b", "uninit", "hv", "lin") else v))
                else:
                    out.append((s, self.l_object(s, L)))
            return out
        if op in ("++", "--"):
            out = []
            for s, L in self.lval(e["e"], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                old = self.read_l(s, L) if L[0] != "objv" else L[1]
                new = add(old, num(1), 1 if op == "++" else -1)
                self.write(s, L, new, e.get("l", 0), fr)
                out.append((s, old if e.get("post") else new))
            return out
        if op == "*":
            out = []
            for s, t in self.ev(e["e"], st, fr):
                if s.sig is None:
                    self.deref(s, t, "*", e.get("l", 0), fr)
                    if t[0] == "addr":
                        t = self.read_l(s, t[1])
                out.append((s, t))
            return out
        out = []
        for s, t in self.ev(e["e"], st, fr):
            if s.sig:
                out.append((s, None))
            elif op == "-":
                out.append((s, mul(num(-1), t)))
            elif op == "+":
                out.append((s, t))
            else:
                out.append((s, ("un" + op, t)))
        return out

    def eq_atom(self, x, y, t):
        t = strip_t(t)
        if NULL in (x, y):
            return atom_eq(x, y)
        if t in INTS or t in FLOATS or (is_num(x) or is_num(y)):
            return atom_eq_num(x, y)
        if t.endswith("*") and x[0] == y[0] == "f" and x[2] != y[2]:
            d = [self.field_decl(v[2]) for v in (x, y)]
            if all(v and not v["t"].rstrip().endswith(("*", "&", "> const")) and kind_of(v["t"]) != "ptr" for v in d):
                return None, False      # addresses of two different member objects
        return atom_eq(x, y)

    def compare(self, st, op, x, y, t):
        """[(state, bool)]"""
        t = strip_t(t)
        ints = t in INTS or all(self.is_int_term(v) for v in (x, y))
        if x[0] == "b" and y[0] == "b" and op in ("==", "!="):
            return [(st, (x == y) == (op == "=="))]
        if t == "bool" and op in ("==", "!="):
            out = []
            for s, a in self.truth(st, x):
                for s2, b in self.truth(s, y):
                    out.append((s2, (a == b) == (op == "==")))
            return out
        if op == "==":
            a, p = self.eq_atom(x, y, t)
            return self.branch(st, a, p)
        if op == "!=":
            a, p = self.eq_atom(x, y, t)
            return [(s, not b) for s, b in self.branch(st, a, p)]
        if op == "<":
            a, p = atom_lt(x, y, ints)
            return self.branch(st, a, p)
        if op == ">":
            a, p = atom_lt(y, x, ints)
            return self.branch(st, a, p)
        if op == "<=":
            a, p = atom_lt(y, x, ints)
            return [(s, not b) for s, b in self.branch(st, a, p)]
        if op == ">=":
            a, p = atom_lt(x, y, ints)
            return [(s, not b) for s, b in self.branch(st, a, p)]
        raise KeyError(op)

    def is_int_term(self, t):
        return t[0] == "n" and isinstance(t[1], int) or t[0] in ("size", "sizep", "ix", "cnt")

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, ("b", b) if s.sig is None else None) for s, b in self.cond(e, st, fr)]
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st, fr):
                if s.sig:
                    out.append((s, None))
                else:
                    out += self.ev(e["b"], s, fr)
            return out
        out = []
        for s, (x, y) in self.ev2(e["a"], e["b"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            if op in ("==", "!=", "<", ">", "<=", ">="):
                lt = e.get("lt", "")
                out += [(s2, ("b", b)) for s2, b in self.compare(s, op, x, y, lt)]
                continue
            out.append((s, self.arith(op, x, y)))
        return out

    def arith(self, op, x, y):
        if op == "+":
            return add(x, y)
        if op == "-":
            return sub(x, y)
        if op == "*":
            return mul(x, y)
        if op == "/":
            return div(x, y)
        if x[0] == "n" and y[0] == "n" and isinstance(x[1], int) and isinstance(y[1], int):
            try:
                return num({"%": lambda a, b: a % b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
                            "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}[op](x[1], y[1]))
            except Exception:
                pass
        return ("bin" + op, x, y)

    def e_asg(self, e, st, fr):
        op = e["op"]
        out = []
        for s, v in self.ev_copy(e["b"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            for s2, L in self.lval(e["a"], s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                nv = v
                if op != "=":
                    old = self.read_l(s2, L) if L[0] != "objv" else L[1]
                    nv = self.arith(op[:-1], old, v)
                self.write(s2, L, nv, e.get("l", 0), fr)
                out.append((s2, nv))
        return out

    def e_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e["c"], st, fr):
            if s.sig:
                out.append((s, None))
            else:
                out += self.ev(e["a"] if b else e["b"], s, fr)
        return out

    def e_idx(self, e, st, fr):
        return [(s, self.read_elem(s, b, i) if s.sig is None else None) for s, (b, i) in self.ev2(e["b"], e["i"], st, fr)]

    def e_throw(self, e, st, fr):
        if not e.get("e"):
            st.sig, st.val = "throw", ("exc", "?")
            return [(st, None)]
        out = []
        x = e["e"]
        for s, t in self.ev(x, st, fr):
            if s.sig is None:
                ty = strip_t(e.get("t", ""))
                self.ev_event(s, "throw", (ty,), e.get("l", 0), fr)
                s.sig, s.val = "throw", ("exc", ty, t)
                s.line = e.get("l", s.line)
            out.append((s, None))
        return out

    def e_lam(self, e, st, fr):
        uid = (fr.tu, e["l"], id(e))
        snap = []
        cur = [(st, ())]
        for c in e["cap"]:
            if c["k"] == "var":
                if c.get("init"):
                    nxt = []
                    for s, ts in cur:
                        for s2, t in self.ev_copy(c["init"], s, fr):
                            nxt.append((s2, ts + (((fr.tu, c["id"]), t),)))
                    cur = nxt
                elif not c.get("ref"):
                    cur = [(s, ts + (((fr.tu, c["id"]), self.snapshot(s, self.rd(s, s.env.get((fr.tu, c["id"]), ("u", c["n"]))))),))
                           for s, ts in cur]
        out = []
        for s, ts in cur:
            name = ("lam", "%s:%d" % (fr.name, e["l"]), ts, fr.this)
            self.lams[name] = (e, fr.tu, fr)
            self.lam_refs[name] = {(fr.tu, c["id"]): s.env[(fr.tu, c["id"])] for c in e["cap"] if c["k"] == "var" and c.get("ref") and (fr.tu, c["id"]) in s.env}
            out.append((s, name))
        return out

    def call_lam(self, lam, args, st, fr, line=0):
        """Runs a lambda body: [(state, value)]."""
        e, tu, dfr = self.lams[lam]
        key = "lam%d" % id(e)
        if key in fr.stack or fr.depth >= self.max_depth + 3:
            return [(st, ("c", "(lambda)", None) + tuple(args))]
        pre_env = tuple(st.env)
        for k, v in lam[2]:
            st.env[k] = v
        for k, v in self.lam_refs.get(lam, {}).items():
            st.env.setdefault(k, v)
        f = e["f"]
        for i, p in enumerate(f["params"]):
            if i < len(args):
                st.env[(tu, p["id"])] = args[i]
        nf = Frame(f, tu, dfr.this, dfr.cls, fr.depth + 1, fr.stack + (key,), fr.in_try)
        nf.name = fr.name
        out = []
        keep = set(pre_env)
        for s in self.exec(f["body"], st, nf):
            s.env = {k: v for k, v in s.env.items() if k in keep}
            if s.sig == "ret":
                s.sig = None
                v = s.val
                s.val = None
                out.append((s, v))
            elif s.sig is None:
                out.append((s, VOID))
            else:
                out.append((s, None))
        return out

    def call_value(self, f, args, st, fr, line=0):
        """Calls a function value (lambda, function reference, or opaque)."""
        if f[0] == "lam" and f in self.lams:
            return self.call_lam(f, args, st, fr, line)
        if f[0] == "fnref":
            fn = self.F.fns.get(f[2])
            if fn:
                this = None
                a = list(args)
                if fn.get("cls") and not fn.get("static") and a:
                    this = a.pop(0)
                if self.can_inline(fn, fr):
                    return self.inline_call(fn, this, a, st, fr)
        if f[0] == "c" and f[1] == "std::bind" and len(f) > 3:
            mapped = []
            for b in f[4:]:
                if b[0] == "g" and b[1].startswith("std::placeholders::_") and int(b[1].rpartition("_")[2]) <= len(args):
                    mapped.append(args[int(b[1].rpartition("_")[2]) - 1])
                else:
                    mapped.append(b)
            return self.call_value(f[3], tuple(mapped), st, fr, line)
        if f[0] == "fnref" and f[2] in self.F.fns and self.F.fns[f[2]].get("cls") and not self.F.fns[f[2]].get("static") and args:
            t = self.opaque_call({"n": f[1], "c": f[2], "o": {}, "l": line, "cst": self.F.fns[f[2]].get("cst", True)},
                                 f[1], args[0], tuple(args[1:]), st, fr)
            return [(st, t)]
        if f[0] == "notfn":
            out = []
            for s, v in self.call_value(f[1], args, st, fr, line):
                if s.sig:
                    out.append((s, None))
                else:
                    out += [(s2, ("b", not b)) for s2, b in self.truth(s, v)]
            return out
        if f[0] == "k" and f[1] in ("std::less", "std::equal_to") and len(args) == 2:
            return [(s, ("b", b)) for s, b in self.compare(st, "<" if f[1] == "std::less" else "==", args[0], args[1], "")]
        self.ev_event(st, "icall", (f, tuple(args)), line, fr)
        for a in args:
            if a[0] == "addr":
                self.havoc_addr(st, a, "function")
        return [(st, ("ic", f) + tuple(args))]

    def escape(self, st, t):
        """A local object whose address an unknown function was given: its contents are unknown from here on."""
        if t[0] == "loc":
            st.dirty = st.dirty | {t}
            for k in [k for k in st.store if k[0] in ("f", "at") and base_of(k) == t]:
                del st.store[k]

    def e_icall(self, e, st, fr):
        out = []
        for s, f in self.ev(e["f"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            for s2, ts in self.ev_args(e["a"], s, fr):
                if s2.sig:
                    out.append((s2, None))
                else:
                    out += self.call_value(f, ts, s2, fr, e.get("l", 0))
        return out

    def e_cast(self, e, st, fr):
        out = []
        for s, t in self.ev(e["e"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            if e["ck"] == "dynamic":
                t = ("dyn", strip_t(e["t"]).rstrip("* ").strip(), t)
            elif strip_t(e["t"]) in INTS and strip_t(e.get("ft", "")) in FLOATS and t[0] != "n":
                t = ("trunc", t)
            out.append((s, t))
        return out

    def e_copy(self, e, st, fr):
        return self.ev_copy(e["e"], st, fr)

    def e_move(self, e, st, fr):
        return self.ev_copy(e["e"], st, fr)

    def e_new(self, e, st, fr):
        if not e.get("e"):
            return [(st, ("new", strip_t(e["t"])))]
        return self.ev(e["e"], st, fr)

    def e_delete(self, e, st, fr):
        out = []
        for s, t in self.ev(e["e"], st, fr):
            if s.sig is None:
                self.ev_event(s, "delete", (t,), e.get("l", 0), fr)
            out.append((s, VOID))
        return out

    def e_init(self, e, st, fr):
        if len(e["a"]) == 1 and not e.get("sem") and e["a"][0].get("t", "").replace("const ", "") == e.get("t", "").replace("const ", "") and \
                e.get("q"):
            # T x{y} with y a T: y itself
            return self.ev_copy(e["a"][0], st, fr)
        out = []
        for s, ts in self.ev_args(e["a"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            if e.get("q") and not is_std(e["q"]):
                fs = [f for f in e.get("fs", [])]
                d = []
                for i, f in enumerate(fs):
                    if i < len(ts):
                        if f.startswith("base:") and ts[i][0] == "agg":
                            d += list(ts[i][2])
                        else:
                            d.append((f, ts[i]))
                out.append((s, ("agg", e["q"], tuple(d))))
            else:
                t = strip_t(e.get("t", ""))
                if len(ts) == 1 and (t in INTS + FLOATS + ("bool",) or t.endswith("*") or t in self.F.enums):
                    out.append((s, ts[0]))
                elif not ts and (t in INTS + FLOATS + ("bool",) or t.endswith("*")):
                    out.append((s, ("b", False) if t == "bool" else NULL if t.endswith("*") else num(0)))
                elif t.startswith("std::array<") and len(ts) == 1 and ts[0][0] == "list":
                    out.append((s, ts[0]))
                else:
                    out.append((s, ("list",) + ts))
        return out

    def e_ctor(self, e, st, fr):
        q = e["q"]
        out = []
        for s, ts in self.ev_args(e["a"], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            out += self.construct(q, e["c"], ts, s, fr, e)
        return out

    def construct(self, q, usr, ts, st, fr, e):
        line = e.get("l", 0) if e else 0
        if q in TRANSPARENT_CTORS:
            real = [t for t in ts if not (t[0] == "k" and t[1] == "std::allocator")]
            if q == "std::basic_string" and len(real) != 1:
                return [(st, ("s", "") if not real else ("str",) + tuple(real))]
            if not real:
                return [(st, NULL if q not in ("std::variant",) else ("k", q, usr))]
            if q == "std::basic_string" and real[0][0] == "list":
                return [(st, ("str",) + tuple(real))]
            if q == "std::optional" and (real[0] == ("g", "std::nullopt") or
                                         real[0][0] == "k" and real[0][1] == "std::nullopt_t"):
                return [(st, NULL)]
            if q == "std::optional" and e and e.get("a"):
                at = strip_t(e["a"][0].get("t") or "")
                if at and not at.startswith(("std::optional<", "std::nullopt", "std::unique_ptr", "std::shared_ptr",
                                             "const std::optional<")) and not at.endswith("*"):
                    self.assume(st, ("null", real[0]), False) if atom_null(real[0])[0] else None
            return [(st, real[0])]
        if q in ("std::nullopt_t",):
            return [(st, NULL)]
        if q == "std::pair":
            if len(ts) == 2:
                return [(st, ("pair",) + tuple(ts))]
            if len(ts) == 1:
                return [(st, ts[0])]
        if q == "std::tuple":
            return [(st, ("tuple",) + tuple(ts))]
        if q in ("std::vector", "std::set", "std::map", "std::unordered_map", "std::unordered_set", "std::deque",
                 "std::initializer_list", "std::list", "std::array", "std::queue", "std::stack"):
            real = [t for t in ts if not (t[0] == "k" and t[1] in ("std::allocator", "std::hash", "std::equal_to", "std::less"))]
            while len(real) > 1 and real[0][0] == "list" and real[-1] == NULL:
                real.pop()  # default allocator / comparator argument
            if not real or (len(real) == 1 and real[0] == num(0)):
                return [(st, ("list",))]
            if len(real) == 1 and real[0][0] == "list":
                return [(st, real[0])]
            if len(real) == 2 and real[0][0] == "it" and real[1] == ("end", real[0][1]) and real[0][2] == "b":
                t = e.get("t", "") if e else ""
                src = real[0][1]
                if q == "std::vector":
                    return [(st, ("copyof", src))]
                return [(st, ("setof", src))]
            if len(real) == 1 and e is not None and strip_t(e.get("t", "")).startswith("std::") and real[0][0] != "n" and \
                    q != "std::vector":
                pass
            if len(real) == 1 and real[0][0] != "n" and q in ("std::queue", "std::stack"):
                return [(st, real[0])]
            # the number/value form keeps the leading size/value arguments
            return [(st, ("k", q, usr) + tuple(real))]
        if q.startswith("__gnu_cxx::__normal_iterator") or q.startswith(("std::_Rb_tree", "std::__detail::_Node", "std::_Deque")):
            if len(ts) == 1:
                return [(st, ts[0])]
        if q == "std::unique_lock" or q.startswith("std::lock_guard"):
            return [(st, ("k", q, usr) + tuple(ts))]
        k = ("k", q, usr) + tuple(ts)
        fn = self.F.fns.get(usr)
        if not is_std(q):
            self.ev_event(st, "construct", (q, ts, usr), line, fr)
            self.stats["callsites"] += 1
            if fn is not None and self.inline is not None and q in self.inline:
                # run the constructor for its effects and preconditions
                out = []
                for s in self.run_ctor_inline(fn, k, ts, st, fr):
                    out.append((s, k if s.sig is None else None))
                return out
            for t in ts:
                if t[0] == "addr":
                    self.havoc_addr(st, t, usr)
        return [(st, k)]

    def run_ctor_inline(self, fn, this, ts, st, fr):
        if fr.depth >= self.max_depth or fn["key"] in fr.stack:
            return [st]
        nf = Frame(fn, fn["tu"], this, fn.get("cls"), fr.depth + 1, fr.stack + (fn["key"],), fr.in_try)
        for i, p in enumerate(fn["params"]):
            if i < len(ts):
                st.env[(fn["tu"], p["id"])] = ts[i]
        out = self.run_ctor(fn, st, nf)
        for s in out:
            if s.sig == "ret":
                s.sig = None
        return out

    def run_ctor(self, fn, st, fr):
        cur = [st]
        done = []
        for i in fn["inits"]:
            nxt = []
            for s in cur:
                e = i.get("e")
                if i.get("f"):
                    fd = self.field_decl(i["f"])
                    isref = fd and is_ref(fd["t"])
                    for s2, t in self.ev_copy(e, s, fr):
                        if s2.sig:
                            done.append(s2)
                            continue
                        if t == ("list",) and fr.this == THIS and CONTAINER_T.match(strip_t((fd or {}).get("t", ""))):
                            self.assume(s2, ("empty", ("f", fr.this, i["f"])), True)
                        else:
                            s2.store[(fr.this, i["f"])] = t
                        self.ev_event(s2, "write", (fr.this, i["f"], t), i["l"], fr)
                        nxt.append(s2)
                elif i.get("base") or i.get("deleg"):
                    if e and e["k"] == "ctor":
                        bfn = self.F.fns.get(e["c"])
                        for s2, ts in self.ev_args(e["a"], s, fr):
                            if s2.sig:
                                done.append(s2)
                                continue
                            self.ev_event(s2, "base", (e["q"], ts), i["l"], fr)
                            if bfn is not None:
                                for s3 in self.run_ctor_inline(bfn, fr.this, ts, s2, fr):
                                    (nxt if s3.sig is None else done).append(s3)
                            else:
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                else:
                    nxt.append(s)
            cur = nxt
        for s in cur:
            done += self.exec(fn["body"], s, fr)
        return done

    def field_decl(self, f):
        c = self.F.classes.get(f.rpartition("::")[0])
        if c:
            for x in c["fields"]:
                if x["q"] == f:
                    return x
        return None

    # --- calls
    def havoc_addr(self, st, t, usr):
        L = t[1]
        if L[0] == "var":
            st.env[L[1]] = ("out", usr, L[1])

    def can_inline(self, fn, fr):
        if fn is None or fn["dep"] or fr.depth >= self.max_depth or fn["key"] in fr.stack or fn.get("body") is None:
            return False
        q = fn["q"]
        if q in self.opaque:
            return False
        if self.no_inline and self.no_inline(fn):
            return False
        if not self.open_math and q.startswith(OPAQUE_PREFIX):
            return False
        if q.startswith(OPAQUE_PREFIX[1:]):
            return False
        if self.id_opaque and q.startswith(("maliput::api::TypeSpecificIdentifier::", "maliput::api::UniqueId::")):
            return False
        return True

    def inline_call(self, fn, this, args, st, fr, cls=None, argnodes=None):
        self.stats["functions"].add(fn["q"])
        if fn["q"] in VALUE_EQ and not self.inline_eq and this is not None and len(args) == 1:
            # equality of rule states is one fact (what it compares is decided where it is defined)
            a, pol = atom_eq(*(x[1] if x[0] == "deref" else x for x in (this, args[0])))
            return [(s, ("b", v)) for s, v in self.branch(st, a, pol)]
        nf = Frame(fn, fn["tu"], this if this is not None else VOID, cls or fn.get("cls"), fr.depth + 1,
                   fr.stack + (fn["key"],), fr.in_try)
        keep = set(st.env)
        for i, p in enumerate(fn["params"]):
            if i < len(args):
                st.env[(fn["tu"], p["id"])] = args[i]
        out = []
        if self.fold_pure and strip_t(fn["ret"]) not in ("bool", "void"):
            pre = st.fork()
            ends = self.exec(fn["body"], st, nf)
            if len(ends) > 1 and all(s.sig == "ret" and s.store == pre.store and all(
                    v.k in ("construct", "deref", "index") or v.k == "call" and not v.a[5] for v in s.trace_list(pre.trace))
                    for s in ends):
                vals = {s.val for s in ends}
                term = vals.pop() if len(vals) == 1 else ("c", fn["q"], this if fn.get("cls") else None) + tuple(args)
                pre.env = {k: v for k, v in pre.env.items() if k in keep}
                self.ev_event(pre, "call", (fn["q"], this, tuple(args), fn["key"], term, False), fn["line"], fr)
                return [(pre, term)]
        else:
            ends = self.exec(fn["body"], st, nf)
        for s in ends:
            s.env = {k: v for k, v in s.env.items() if k in keep}
            if s.sig == "ret":
                s.sig = None
                v = s.val
                s.val = None
                out.append((s, v))
            elif s.sig is None:
                out.append((s, VOID))
            else:
                out.append((s, None))
        return out

    def resolve(self, n, recv, fr):
        """The function definition a call expression node runs, or None."""
        usr = n.get("c")
        if n.get("virt"):
            if recv == fr.this and fr.cls:
                o = self.F.override(fr.cls, usr)
                if o:
                    return self.F.fns.get(o)
            if recv is not None and recv[0] == "k":
                o = self.F.override(recv[1], usr)
                if o:
                    return self.F.fns.get(o)
            return None
        fn = self.F.fns.get(usr)
        if fn is None and usr:
            # internal linkage: keyed by unit
            fn = self.F.fns.get(usr + "#" + self.F.units[fr.tu - 1])
        return fn

    def bind_args(self, n, fn, st, fr):
        """Evaluates call arguments; arguments bound to non-const references keep their lvalue.  [(state, terms)]"""
        cur = [(st, ())]
        params = fn["params"] if fn else None
        for i, a in enumerate(n["a"]):
            nxt = []
            pt = params[i]["t"] if params and i < len(params) else ""
            byref = is_ref(pt) and not is_const_ref(pt) and not pt.rstrip().endswith("&&")
            for s, ts in cur:
                if s.sig:
                    nxt.append((s, ts))
                    continue
                if byref:
                    for s2, L in self.lval(a, s, fr):
                        if s2.sig:
                            nxt.append((s2, ts))
                        elif L[0] in ("obj", "objv"):
                            nxt.append((s2, ts + (L[1],)))
                        else:
                            nxt.append((s2, ts + (("&", L),)))
                else:
                    for s2, t in self.ev_copy(a, s, fr):
                        nxt.append((s2, ts + (t,)))
            cur = nxt
        return cur

    def e_call(self, e, st, fr):
        n = e["n"]
        self.stats["callsites"] += 1
        self.tick()
        line = e.get("l", 0)
        short = n.rpartition("::")[2]
        if e.get("nr"):
            out = []
            ty = "abort" if ("Abort" in n or "abort" in n or "exit" in n or "terminate" in n) else "throw"
            exc = "maliput::common::assertion_error"
            if e.get("ta") and "rror" in "".join(e["ta"]):
                exc = e["ta"][0]
            if "DemandFailed" in n or "Abort" in n:
                ty = "abort"
            self.ev_event(st, "throw", (exc,), line, fr)
            st.sig, st.val = ty, ("exc", exc)
            st.line = line
            return [(st, None)]
        if n in ("std::move", "std::forward"):
            a = e["a"][0]
            out = []
            for s, t in self.ev_copy(a, st, fr):
                if n == "std::move" and s.sig is None and a.get("k") == "ref":
                    key = (fr.tu, a["id"])
                    if key in s.env and s.env[key][0] != "&":
                        s.moved = s.moved | {key}
                out.append((s, t))
            return out
        if is_std(n) or short in ("fabs", "sqrt", "isnan", "abs", "fmod", "sin", "cos", "atan2", "pow", "floor", "ceil",
                                  "strtol", "getenv", "secure_getenv"):
            return self.std_call(e, st, fr)
        # repository (or other) function
        out = []
        if e.get("o") is not None:
            recvs = self.lval_base(e["o"], st, fr) if not e.get("cst") else self.ev(e["o"], st, fr)
        else:
            recvs = [(st, None)]
        for s, recv in recvs:
            if s.sig:
                out.append((s, None))
                continue
            if recv is not None and e["o"]["k"] not in ("this", "op") and strip_t(e.get("ot", "")).endswith("*") and not e.get("st"):
                self.deref(s, recv, "->", line, fr)
            if e.get("st"):
                recv = None
            fn = self.resolve(e, recv, fr)
            if self.id_opaque and n.startswith("maliput::api::TypeSpecificIdentifier::") and short == "string" and \
                    recv is not None and recv[0] == "k":
                out.append((s, recv[3] if len(recv) > 3 else ("s", "")))
                continue
            for s2, ts in self.bind_args(e, fn or self.param_stub(e), s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                ov = self.intercept(e, n, recv, ts, s2, fr)
                if ov is not None:
                    out += ov
                    continue
                if self.can_inline(fn, fr):
                    cls = None
                    if recv == fr.this and fr.cls and fn.get("cls") in self.F.bases_of(fr.cls):
                        cls = fr.cls
                    out += self.inline_call(fn, recv, ts, s2, fr, cls=cls)
                else:
                    out.append((s2, self.opaque_call(e, n, recv, ts, s2, fr)))
        return out

    def intercept(self, e, n, recv, ts, st, fr):
        """Hook for subclasses: model a repository call; None to use the default treatment."""
        return None

    def param_stub(self, e):
        """Parameter types of a declared-only method."""
        d = self.F.decls.get(e.get("c"))
        if d:
            return {"params": [{"t": t} for t in d[1]["params"]]}
        return None

    def opaque_call(self, e, n, recv, ts, st, fr):
        ts2 = []
        d = self.F.decls.get(e.get("c"))
        fn = self.F.fns.get(e.get("c"))
        pts = [x["t"] for x in fn["params"]] if fn else d[1]["params"] if d else []
        for t, pt in zip(ts, pts):
            pt = pt.strip()
            if isinstance(t, tuple) and t and t[0] == "loc" and pt.endswith("*") and not pt.startswith("const "):
                self.escape(st, t)
        for t in ts:
            if isinstance(t, tuple) and t[0] == "&":
                L = t[1]
                v = self.read_l(st, L)
                ts2.append(v)
                self.write_out(st, L, e, fr)
            elif isinstance(t, tuple) and t[0] == "addr":
                ts2.append(t)
                self.havoc_addr(st, t, n)
            else:
                ts2.append(t)
        term = ("c", n, recv) + tuple(ts2)
        if n in STATEFUL:
            # each call has its own result
            term += (num(sum(1 for x in st.trace_list() if x.k == "call" and x.a[0] == n)),)
        mutating = e.get("o") is not None and not e.get("cst") and not e.get("st")
        self.ev_event(st, "call", (n, recv, tuple(ts2), e.get("c"), term, mutating), e.get("l", 0), fr)
        if mutating and recv is not None and recv[0] == "loc":
            st.dirty = st.dirty | {recv}
        if fr.in_try:
            pass
        return term

    def write_out(self, st, L, e, fr):
        if L[0] == "var":
            st.env[L[1]] = ("out", e.get("n", ""), L[1])
        elif L[0] == "fld":
            self.write(st, L, ("out", e.get("n", ""), L[2]), e.get("l", 0), fr)

    # --- standard library
    def e_op(self, e, st, fr):
        n = e.get("n", "")
        op = e["op"]
        self.stats["callsites"] += 1
        self.tick()
        a = e["a"]
        line = e.get("l", 0)
        if op == "()" and a:
            out = []
            for s, f in self.ev(a[0], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, ts in self.ev_lam_args(f, a[1:], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    if f[0] in ("lam", "fnref", "notfn") or f[:2] == ("c", "std::bind"):
                        out += self.call_value(f, ts, s2, fr, line)
                    else:
                        fn = self.resolve(e, f, fr)
                        if fn and self.can_inline(fn, fr) and fn.get("cls"):
                            out += self.inline_call(fn, f, ts, s2, fr)
                        elif n.startswith("std::packaged_task"):
                            self.ev_event(s2, "icall", (f, ts), line, fr)
                            out.append((s2, ("void",)))
                        elif n.startswith("std::function"):
                            self.ev_event(s2, "icall", (f, ts), line, fr)
                            for x, pt in zip(ts, fun_params(a[0].get("t", ""))):
                                if x[0] == "addr":
                                    self.havoc_addr(s2, x, "function")
                                elif pt.endswith(("*", "&")) and not pt.startswith("const ") and not pt.endswith("&&"):
                                    self.escape(s2, x)
                            out.append((s2, ("ic", f) + tuple(ts)))
                        else:
                            out.append((s2, ("ic", f) + tuple(ts)))
            return out
        if op == "<<" and len(a) == 2 and self.mute_text:
            return self.ev(a[0], st, fr)
        if not is_std(n):
            return self.repo_op(e, st, fr)
        return self.std_op(e, st, fr)

    def ev_lam_args(self, f, args, st, fr):
        if f[0] == "lam" and f in self.lams:
            return self.bind_args({"a": args}, self.lams[f][0]["f"], st, fr)
        return self.ev_args(args, st, fr)

    def repo_op(self, e, st, fr):
        op, n, a = e["op"], e.get("n", ""), e["a"]
        line = e.get("l", 0)
        fn = self.resolve(e, None, fr)
        member = fn is not None and fn.get("cls") and not fn.get("static") or (fn is None and len(e["a"]) >= 1 and
                                                                                 n.rpartition("::")[0] in self.F.classes)
        if op == "=" and (fn is None or fn.get("body") is None or fn.get("dflt")):
            out = []
            for s, v in self.ev_copy(a[1], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, L in self.lval(a[0], s, fr):
                    if s2.sig is None:
                        self.write(s2, L, v, line, fr)
                    out.append((s2, v))
            return out
        out = []
        if fn is None or not self.can_inline(fn, fr) or (op in ("==", "!=") and self.id_eq(n, e)):
            for s, ts in self.ev_args(a, st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                ov = self.intercept(e, n, ts[0], ts[1:], s, fr)
                if ov is not None:
                    out += ov
                    continue
                if op in ("==", "!=") and len(ts) == 2:
                    out += [(s2, ("b", b)) for s2, b in self.compare(s, op, ts[0], ts[1], e.get("at", ""))]
                elif op == "<" and len(ts) == 2 and self.id_eq(n, e):
                    out.append((s, ("c", n, None) + ts))
                else:
                    t = ("c", n, None) + ts
                    if e.get("cst") is not True and op in ("+=", "-=", "*=", "/="):
                        for s2, L in self.lval(a[0], s, fr):
                            self.write(s2, L, t, line, fr)
                            out.append((s2, t))
                        continue
                    if op == "<<" and len(ts) == 2:
                        self.ev_event(s, "out", (ts[0], ts[1]), line, fr)
                        if ts[0][0] == "loc":
                            self.forget(s, ts[0])
                        t = ts[0]
                    out.append((s, t))
            return out
        recvs = self.lval_base(a[0], st, fr) if (member and not e.get("cst")) else self.ev(a[0], st, fr)
        for s, r in recvs:
            if s.sig:
                out.append((s, None))
                continue
            rest = a[1:] if member else a[1:]
            for s2, ts in self.bind_args({"a": rest}, {"params": fn["params"] if member else fn["params"][1:]}, s, fr):
                if s2.sig:
                    out.append((s2, None))
                elif member:
                    out += self.inline_call(fn, r, ts, s2, fr)
                else:
                    out += self.inline_call(fn, None, (r,) + ts, s2, fr)
        return out

    def id_eq(self, n, e):
        return self.id_opaque and n.startswith(("maliput::api::TypeSpecificIdentifier::", "maliput::api::UniqueId::"))

    def std_op(self, e, st, fr):
        op, n, a = e["op"], e.get("n", ""), e["a"]
        line = e.get("l", 0)
        at = e.get("at", "")
        out = []
        if n.startswith("YAML::"):
            if op == "=" and len(a) == 2:
                for s, (x, y) in self.ev2(a[0], a[1], st, fr):
                    if s.sig is None:
                        self.ev_event(s, "yset", (x, y), line, fr)
                    out.append((s, y))
                return out
            for s, ts in self.ev_args(a, st, fr):
                if s.sig:
                    out.append((s, None))
                elif op == "[]":
                    out.append((s, node_at(ts[0], ts[1])))
                elif op in ("*", "->"):
                    t = ts[0]
                    out.append((s, t[2] if t[0] == "itw" else t))
                elif op in ("==", "!="):
                    out += [(s2, ("b", b)) for s2, b in self.compare(s, op, ts[0], ts[1], "")]
                elif op == "!" and n.endswith("Node::operator!"):
                    out += [(s2, ("b", not b)) for s2, b in self.branch(s, ("def", ts[0]))]
                else:
                    out.append((s, ("c", n, None) + ts))
            return out
        if op in ("->", "*") and len(a) == 1:
            for s, t in self.ev(a[0], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                out.append((s, self.iter_deref(s, t, at, op, line, fr)))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">="):
            for s, (x, y) in self.ev2(a[0], a[1], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                ta = at
                if op in ("==", "!=") and (x[0] in ("itm", "itw", "end", "it") or y[0] in ("itm", "itw", "end", "it")):
                    r = self.iter_eq(x, y)
                    if r is not None:
                        out.append((s, ("b", r == (op == "=="))))
                        continue
                k = kind_of(at)
                if k in ("opt",) and op in ("==", "!=") and x != NULL and y != NULL:
                    out += [(s2, ("b", b)) for s2, b in self.opt_compare(s, op, x, y, at)]
                    continue
                if op in ("<", ">", "<=", ">=") and not (is_num(x) or is_num(y)) and kind_of(at) != "opt" and \
                        "basic_string" in at:
                    pass
                out += [(s2, ("b", b)) for s2, b in self.compare(s, op, x, y, self.opt_inner(at))]
            return out
        if op == "=":
            for s, v in self.ev_copy(a[1], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, L in self.lval(a[0], s, fr):
                    if s2.sig is None:
                        if L[0] == "obj" and L[1][0] == "tied":
                            for i, l in enumerate(L[1][1]):
                                c = v[1 + i] if v[0] in ("pair", "tuple") else ("get", v, i)
                                self.write(s2, l, c, line, fr)
                        else:
                            self.write(s2, L, v, line, fr)
                    out.append((s2, v))
            return out
        if op == "[]":
            for s, b in (self.lval_base(a[0], st, fr) if not e.get("cst") else self.ev(a[0], st, fr)):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, i in self.ev(a[1], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    if kind_of(at) == "map":
                        for s3, h in self.branch(s2, ("has", b, i)):
                            if not h:
                                self.mut(s3, b, "default_insert", (i,), line, fr)
                            out.append((s3, self.read_elem(s3, b, i)))
                    else:
                        self.ev_event(s2, "index", (b, i), line, fr)
                        out.append((s2, self.read_elem(s2, b, i)))
            return out
        if op in ("++", "--"):
            for s, L in self.lval(a[0], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                old = self.read_l(s, L) if L[0] != "objv" else L[1]
                new = self.iter_add(old, 1 if op == "++" else -1)
                self.write(s, L, new, line, fr)
                out.append((s, old if len(a) == 2 else new))
            return out
        if op in ("+=", "-="):
            for s, v in self.ev_copy(a[1], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, L in self.lval(a[0], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    old = self.read_l(s2, L) if L[0] != "objv" else L[1]
                    nv = ("cat", old, v) if strip_t(at).startswith("std::basic_string<") or strip_t(at) == "std::string" else add(old, v, 1 if op == "+=" else -1)
                    self.write(s2, L, nv, line, fr)
                    out.append((s2, nv))
            return out
        if op == "<<":
            for s, ts in self.ev_args(a, st, fr):
                if s.sig is None:
                    self.ev_event(s, "out", (ts[0], ts[1]), line, fr)
                    if ts[0][0] == "loc":
                        self.forget(s, ts[0])
                out.append((s, ts[0] if ts else None))
            return out
        if op in ("+", "-"):
            for s, ts in self.ev_args(a, st, fr):
                if s.sig:
                    out.append((s, None))
                elif "basic_string" in e.get("t", ""):
                    out.append((s, ("cat",) + ts))
                elif len(ts) == 2 and ts[0][0] == "it" and is_num(ts[1]):
                    out.append((s, self.iter_add(ts[0], ts[1][1] if op == "+" else -ts[1][1])))
                elif op == "-" and len(ts) == 2 and all(t[0] in ("it", "itm", "itw", "itx", "end") for t in ts):
                    out.append((s, ("c", "std::distance", None, ts[1], ts[0])))
                else:
                    out.append((s, ("c", "std::operator" + op, None) + ts))
            return out
        for s, ts in self.ev_args(a, st, fr):
            out.append((s, ("c", n, None) + ts if s.sig is None else None))
        return out

    def opt_inner(self, t):
        t = strip_t(t)
        if t.startswith("std::optional<") and t.endswith(">"):
            return t[len("std::optional<"):-1]
        return t

    def opt_compare(self, st, op, x, y, at):
        """operator== of two optionals: both empty, or both set and equal."""
        out = []
        for s, nx in self.nullness(st, x):
            for s2, ny in self.nullness(s, y):
                if nx or ny:
                    out.append((s2, (nx and ny) == (op == "==")))
                else:
                    out += self.compare(s2, op, x, y, self.opt_inner(at))
        return out

    def iter_add(self, t, k):
        if t[0] == "it" and isinstance(k, int):
            if t[2] == "b":
                return ("it", t[1], k)
            if isinstance(t[2], int):
                return ("it", t[1], t[2] + k) if t[2] + k != 0 else ("it", t[1], "b")
        if t[0] in ("itw", "itm", "it"):
            return ("itnext", t, k)
        if t[0] in ("end", "itx"):
            return ("itx", t, k)
        if t[0] in ("n", "lin", "hv", "p", "f", "c", "size"):
            return add(t, num(k))
        return ("itnext", t, k)

    def iter_eq(self, x, y):
        if x == y:
            return True
        for p, q in ((x, y), (y, x)):
            if p[0] in ("itm", "itw") and q[0] == "end":
                return False
        return None

    def iter_deref(self, st, t, at, op, line, fr):
        if t[0] == "itw":
            return t[2]
        if t[0] == "itm":
            if t[3] == "set":
                return t[2]
            return ("mapitem", t[1], t[2])
        if t[0] == "it":
            i = 0 if t[2] == "b" else t[2]
            return self.read_elem(st, t[1], num(i) if isinstance(i, int) else i)
        if t[0] == "end":
            self.ev_event(st, "deref_end", (t[1],), line, fr)
            return ("enddref", t[1])
        if t[0] == "addr":
            return self.read_l(st, t[1])
        k = kind_of(at)
        if k in ("opt", "ptr"):
            self.deref(st, t, k + op, line, fr)
            return t
        if t[0] in ("hv", "u", "itnext", "itx"):
            return ("star", t)
        return t

    def lam_pred(self, f, args, st, fr, line):
        """[(state, bool)] of calling predicate f."""
        out = []
        for s, v in self.call_value(f, args, st, fr, line):
            if s.sig:
                out.append((s, None))
            else:
                out += self.truth(s, v)
        return out

    def algo_range(self, ts):
        """Container and fullness of an iterator pair."""
        a, b = ts[0], ts[1]
        if a[0] == "it" and b == ("end", a[1]):
            return a[1], a[2] == "b"
        if a[0] == "it":
            return a[1], False
        return ("rng", a, b), False

    def std_call(self, e, st, fr):
        n = e["n"]
        short = n.rpartition("::")[2]
        line = e.get("l", 0)
        out = []
        if n.startswith("YAML::"):
            return self.yaml_call(e, st, fr)
        if e.get("o") is not None and not e.get("st"):
            mut = not e.get("cst") and short not in READ_METHODS
            for s, recv in (self.lval_l(e["o"], st, fr) if mut else [(x, (y, None)) for x, y in self.ev(e["o"], st, fr)]):
                if s.sig:
                    out.append((s, None))
                    continue
                recv, L = recv
                for s2, ts in self.ev_args(e["a"], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                    else:
                        out += self.std_method(e, short, recv, L, ts, s2, fr)
            return out
        # free functions
        if n == "std::getline" and len(e["a"]) >= 2:
            for s, into in self.lval_l(e["a"][1], st, fr):
                for s2, ts in self.ev_args([e["a"][0]] + e["a"][2:], s, fr) if not s.sig else ():
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    t = ("c", n, None, ts[0], ("line",)) + ts[1:]
                    self.ev_event(s2, "call", (n, None, t[3:], e.get("c"), t, False), line, fr)
                    if into[1] is not None:
                        self.write_out(s2, into[1], e, fr)
                    out.append((s2, t))
            return out
        if n == "std::swap" and len(e["a"]) == 2:
            got = [(s2, L1[1], L2[1]) for s, L1 in self.lval_l(e["a"][0], st.fork() if hasattr(st, "fork") else st, fr) if s.sig is None
                   for s2, L2 in self.lval_l(e["a"][1], s, fr)] if simple_place(e["a"][0]) and simple_place(e["a"][1]) else []
            if len(got) == 1 and got[0][0].sig is None and all(L is not None and L[0] in ("var", "fld") for L in got[0][1:]):
                s, L1, L2 = got[0]
                x, y = self.read_l(s, L1), self.read_l(s, L2)
                self.write(s, L1, y, line, fr)
                self.write(s, L2, x, line, fr)
                return [(s, VOID)]
        if short == "tie":
            Ls = [[]]
            cur = [(st, ())]
            for a in e["a"]:
                nxt = []
                for s, ls in cur:
                    for s2, L in self.lval(a, s, fr):
                        nxt.append((s2, ls + (L,)))
                cur = nxt
            for s, ls in cur:
                # comparison use: tuple of values; assignment use: tied lvalues
                if all(l[0] in ("obj", "fld") for l in ls):
                    out.append((s, ("tuple",) + tuple(self.read_l(s, l) for l in ls)))
                else:
                    out.append((s, ("tied", ls)))
            return out
        for s, ts in self.ev_args(e["a"], st, fr):
            if s.sig:
                out.append((s, None))
            else:
                out += self.std_free(e, n, short, ts, s, fr)
        return out

    def lval_l(self, e, st, fr):
        out = []
        for s, L in self.lval(e, st, fr):
            if s.sig:
                out.append((s, None))
            else:
                out.append((s, (self.l_object(s, L), L)))
        return out

    def yaml_call(self, e, st, fr):
        n = e["n"]
        short = n.rpartition("::")[2]
        out = []
        if e.get("o") is not None and not e.get("st"):
            for s, r in self.ev(e["o"], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, ts in self.ev_args(e["a"], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    if short in ("IsDefined", "operator bool"):
                        out += [(s3, ("b", b)) for s3, b in self.branch(s2, ("def", r))]
                    elif short == "operator!":
                        out += [(s3, ("b", not b)) for s3, b in self.branch(s2, ("def", r))]
                    elif short in ("IsMap", "IsSequence", "IsScalar", "IsNull"):
                        out += [(s3, ("b", b)) for s3, b in self.branch(s2, ("ykind", short, r))]
                    elif short == "as":
                        ty = strip_t(e.get("rt", e.get("t", "")))
                        self.ev_event(s2, "yas", (r, ty), e.get("l", 0), fr)
                        out.append((s2, ("yas", r, ty)))
                    elif short in ("begin", "end"):
                        out.append((s2, ("it", r, "b") if short == "begin" else ("end", r)))
                    elif short == "size":
                        out.append((s2, ("size", r)))
                    elif short == "push_back":
                        self.ev_event(s2, "ypush", (r,) + ts, e.get("l", 0), fr)
                        out.append((s2, VOID))
                    elif short == "operator[]":
                        out.append((s2, node_at(r, ts[0])))
                    else:
                        out.append((s2, ("c", n, r) + ts))
            return out
        for s, ts in self.ev_args(e["a"], st, fr):
            out.append((s, ("c", n, None) + ts if s.sig is None else None))
        return out

    def std_method(self, e, m, C, L, ts, st, fr):
        """Member call m on standard library object term C."""
        ot = e.get("ot", "")
        k = kind_of(ot)
        line = e.get("l", 0)
        cls = e["n"].split("::")[1] if "::" in e["n"] else ""
        R = [(st, None)]
        if m in ("begin", "cbegin"):
            return [(st, ("it", C, "b"))]
        if m in ("end", "cend"):
            return [(st, ("end", C))]
        if m in ("rbegin", "rend", "crbegin", "crend"):
            return [(st, (m.lstrip("c"), C))]
        if m in ("size", "length"):
            if C[0] == "list":
                return [(st, num(len(C) - 1))]
            return [(st, self.size_of(st, C))]
        if m == "empty":
            if C[0] == "list":
                return [(st, ("b", len(C) == 1))]
            return [(s, ("b", b)) for s, b in self.branch(st, ("empty", C))]
        if cls in ("function",):
            if m == "operator bool":
                return [(s, ("b", not b)) for s, b in self.nullness(st, C)]
        if k == "opt" or cls in ("optional", "_Optional_base_impl"):
            if m == "has_value" or m == "operator bool":
                return [(s, ("b", not b)) for s, b in self.nullness(st, C)]
            if m == "value":
                out = []
                for s, b in self.nullness(st, C):
                    if b:
                        s.sig, s.val = "throw", ("exc", "std::bad_optional_access")
                        s.line = line
                        self.ev_event(s, "throw", ("std::bad_optional_access",), line, fr)
                        out.append((s, None))
                    else:
                        out.append((s, C))
                return out
            if m == "value_or":
                return [(s, ts[0] if b else C) for s, b in self.nullness(st, C)]
            if m == "reset":
                self.write(st, L, NULL, line, fr)
                return [(st, VOID)]
            if m == "emplace":
                self.write(st, L, ts[0] if len(ts) == 1 else ("k", "std::optional::emplace", "") + ts, line, fr)
                return [(st, C)]
        if k == "ptr" or cls in ("unique_ptr", "shared_ptr", "__shared_ptr", "reference_wrapper", "atomic"):
            if m in ("get", "load"):
                return [(st, C)]
            if m == "operator bool":
                if "atomic" in ot:
                    return [(s, ("b", b)) for s, b in self.truth(st, C)]
                return [(s, ("b", not b)) for s, b in self.nullness(st, C)]
            if m in ("reset", "store"):
                self.write(st, L, ts[0] if ts else NULL, line, fr)
                return [(st, VOID)]
            if m == "release":
                self.write(st, L, NULL, line, fr)
                return [(st, C)]
            if m == "operator&":
                return [(st, C)]
        if self.watch and cls in ("condition_variable", "condition_variable_any") and m in ("wait", "wait_for", "wait_until"):
            # other threads run meanwhile: what was observed of the shared fields is gone
            pred = next((t for t in ts[1:] if t[0] in ("lam", "fnref")), None)
            self.ev_event(st, "cvwait", (C, st.store.get(("lockmutex", ts[0]), VOID), pred, dict(st.facts)), line, fr)
            st.facts = {a: v for a, v in st.facts.items() if not any(t[2] in self.watch for t in find_terms(a, lambda t: t[0] == "f" and len(t) == 3))}
            if pred is None:
                return [(st, VOID)]
            out = []
            for s, v in self.call_value(pred, (), st, fr, line):
                out += [(s2, VOID) for s2, b in self.truth(s, v) if b]
            return out
        if cls in ("unique_lock", "lock_guard", "scoped_lock", "shared_lock"):
            if m in ("unlock", "lock"):
                v = C
                st.store[("lockstate", v)] = TRUE if m == "lock" else FALSE
                self.ev_event(st, m, (st.store.get(("lockmutex", v), VOID), v), line, fr)
                return [(st, VOID)]
        if k in ("map", "set"):
            if m in ("find", "count", "contains"):
                K = ts[0]
                out = []
                for s, h in self.branch(st, ("has", C, K)):
                    if m == "find":
                        out.append((s, ("itm", C, K, k) if h else ("end", C)))
                    elif m == "contains":
                        out.append((s, ("b", h)))
                    else:
                        out.append((s, num(1 if h else 0)))
                return out
            if m == "at":
                K = ts[0]
                out = []
                for s, h in self.branch(st, ("has", C, K)):
                    if h:
                        out.append((s, self.read_elem(s, C, K)))
                    else:
                        self.ev_event(s, "throw", ("std::out_of_range",), line, fr)
                        s.sig, s.val, s.line = "throw", ("exc", "std::out_of_range"), line
                        out.append((s, None))
                return out
            if m in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
                if m == "emplace_hint":
                    ts = ts[1:]
                return self.assoc_insert(m, C, k, ts, st, fr, line)
            if m == "erase":
                K = ts[0]
                if K[0] in ("itm", "itw"):
                    key = K[2] if K[0] == "itm" else ("key", K[2])
                    self.mut(st, C, "erase", (key,), line, fr)
                    return [(st, ("itnext", K, 1))]
                out = []
                for s, h in self.branch(st, ("has", C, K)):
                    if h:
                        self.mut(s, C, "erase", (K,), line, fr)
                    out.append((s, num(1 if h else 0)))
                return out
        if m == "clear":
            self.mut(st, C, "clear", (), line, fr)
            return [(st, VOID)]
        if m in ("push_back", "emplace_back", "push", "emplace", "push_front") and (k == "seq" or cls in (
                "queue", "stack", "priority_queue", "deque", "list", "vector")):
            v = ts[0] if len(ts) == 1 else self.elem_construct(e, ot, ts)
            if cls == "basic_string":
                self.write(st, L, ("cat", C, v), line, fr)
                return [(st, VOID)]
            self.mut(st, C, "push_front" if m == "push_front" else "push_back", (v,), line, fr)
            return [(st, v)]
        if cls in ("basic_string",) and L is not None and m == "pop_back" and not ts:
            self.write(st, L, ("c", "std::basic_string::substr", C, num(0), add(("size", C), num(1), -1)), line, fr)
            return [(st, VOID)]
        if m in ("pop", "pop_back", "pop_front"):
            self.mut(st, C, m, (), line, fr)
            return [(st, VOID)]
        if m == "at" and k == "seq":
            a, p = atom_lt(ts[0], ("size", C), True)
            out = []
            if ts[0][0] == "ix" and ts[0][2] == ("size", C):
                return [(st, self.read_elem(st, C, ts[0]))]
            for s, b in self.branch(st, a, p):
                if b:
                    out.append((s, self.read_elem(s, C, ts[0])))
                else:
                    self.ev_event(s, "throw", ("std::out_of_range",), line, fr)
                    s.sig, s.val, s.line = "throw", ("exc", "std::out_of_range"), line
                    out.append((s, None))
            return out
        if m in ("front", "top"):
            self.ev_event(st, "index", (C, num(0)), line, fr)
            return [(st, self.read_elem(st, C, num(0)))]
        if m == "back":
            self.ev_event(st, "index", (C, ("back",)), line, fr)
            return [(st, self.read_elem(st, C, ("back",)))]
        if m == "insert" and k == "seq":
            if len(ts) == 3 and ts[1][0] == "it" and ts[2] == ("end", ts[1][1]):
                self.mut(st, C, "append", (ts[1][1],), line, fr)
            else:
                self.mut(st, C, "seq_insert", ts, line, fr)
            return [(st, ("c", e["n"], C) + ts)]
        if m in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if m == "swap":
            out = []
            self.ev_event(st, "mut", (C, "swap", ts), line, fr)
            return [(st, VOID)]
        if m == "assign" and k == "seq" and len(ts) == 2 and L is not None:
            self.mut(st, C, "assign", ts, line, fr)
            return [(st, VOID)]
        if m in ("c_str", "str", "data") and not ts:
            return [(st, C)]
        if cls in ("basic_string",) and L is not None and m in ("append",):
            self.write(st, L, ("cat", C) + ts, line, fr)
            return [(st, ("cat", C) + ts)]
        t = ("c", e["n"], C) + ts
        if L is not None:
            self.ev_event(st, "mut", (C, m, ts), line, fr)
            self.forget(st, C)
            if L[0] in ("var",) and C[0] not in ("loc", "p", "f"):
                pass
        else:
            self.ev_event(st, "call", (e["n"], C, ts, e.get("c"), t, False), line, fr)
        if strip_t(e.get("rt", "")) == "bool":
            return [(st, t)]
        return [(st, t)]

    def elem_construct(self, e, ot, ts):
        t = strip_t(ot)
        i = t.find("<")
        inner = t[i + 1:-1] if i > 0 else ""
        cls = re.split("[<,]", inner)[0].strip()
        ctors = [f for f in self.F.fns_of(cls + "::" + cls.rpartition("::")[2]) if len(f["params"]) == len(ts)]
        return ("k", cls, ctors[0].get("c", "") if len(ctors) == 1 else "") + tuple(ts)

    def assoc_insert(self, m, C, k, ts, st, fr, line):
        if len(ts) == 2 and ts[0][0] == "it" and ts[1] == ("end", ts[0][1]):
            self.mut(st, C, "insert_all", (ts[0][1],), line, fr)
            return [(st, VOID)]
        if len(ts) == 1 and ts[0][0] == "pair" and k == "map":
            K, V = ts[0][1], ts[0][2]
        elif k == "map" and len(ts) == 1 and ts[0][0] == "list" and len(ts[0]) == 3:
            K, V = ts[0][1], ts[0][2]
        elif k == "map" and len(ts) == 2:
            K, V = ts
        elif k == "map" and len(ts) > 2:
            K, V = ts[0], ("k", "emplaced", "") + tuple(ts[1:])
        elif k == "map" and len(ts) == 1:
            if ts[0][0] == "el":
                K, V = ("key", ts[0]), ("val", ts[0])
            else:
                K, V = ("fst", ts[0]), ("snd", ts[0])
        else:
            K, V = ts[0], None
        out = []
        for s, h in self.branch(st, ("has", C, K)):
            if h and m == "insert_or_assign":
                self.mut(s, C, "set", (K, V), line, fr)
                s.store[("at", C, K)] = V
            elif not h:
                self.mut(s, C, "insert", (K, V) if V is not None else (K,), line, fr)
            else:
                self.ev_event(s, "insert_noop", (C, K, V if V is not None else K), line, fr)
            out.append((s, ("pair", ("itm", C, K, k), ("b", not h))))
        return out

    def std_free(self, e, n, short, ts, st, fr):
        line = e.get("l", 0)
        t = ("c", n, None) + ts
        if short in ("make_unique", "make_shared"):
            q = (e.get("ta") or ["?"])[0]
            qn = q.split("<")[0]
            usr = self.ctor_for(qn, ts)
            if not is_std(qn):
                return self.construct(qn, usr, ts, st, fr, {"l": line, "t": q})
            return [(st, ("k", qn, usr) + ts)]
        if short == "make_pair":
            return [(st, ("pair",) + ts)]
        if short == "make_tuple":
            return [(st, ("tuple",) + ts)]
        if short == "make_optional" and len(ts) == 1:
            return [(st, ts[0])]
        if short in ("begin", "cbegin"):
            return [(st, ("it", ts[0], "b"))]
        if short in ("end", "cend"):
            return [(st, ("end", ts[0]))]
        if short in ("ref", "cref", "addressof", "as_const", "to_address"):
            return [(st, ts[0])]
        if short == "size":
            return [(st, ("size", ts[0]))]
        if short == "empty":
            return [(s, ("b", b)) for s, b in self.branch(st, ("empty", ts[0]))]
        if short == "not_fn":
            return [(st, ("notfn", ts[0]))]
        if short == "back_inserter":
            return [(st, ("backins", ts[0]))]
        if short == "inserter":
            return [(st, ("ins", ts[0]))]
        if short in ("infinity",):
            return [(st, ("n", float("inf")))]
        if short == "epsilon" and not ts and "double" in str(e.get("t", "")):
            return [(st, ("n", 2.0 ** -52))]
        if short in ("abs", "fabs"):
            a = ts[0]
            if is_num(a):
                return [(st, num(abs(a[1])))]
            d, c = lin_parts(a)
            if d:
                lead = sorted(d.items(), key=lambda kv: skey(kv[0]))[0][1]
                if lead < 0:
                    a = mul(num(-1), a)
            if self.fork_minmax:
                return [(s, mul(num(-1), a) if neg else a) for s, neg in self.compare(st, "<", a, num(0), "double")]
            return [(st, ("abs", a))]
        if short in ("min", "max") and len(ts) >= 2:
            a, b = ts[0], ts[1]
            if len(ts) == 2:
                if a == b:
                    return [(st, a)]
                if self.fork_minmax:
                    out = []
                    for s, lt in self.compare(st, "<", a, b, e.get("t", "")):
                        out.append((s, a if lt == (short == "min") else b))
                    return out
                return [(st, (short,) + tuple(sorted((a, b), key=skey)))]
        if short == "minmax" and len(ts) == 2 and self.fork_minmax:
            return [(s, ("pair", ts[1], ts[0]) if gt else ("pair", ts[0], ts[1]))
                    for s, gt in self.compare(st, ">", ts[0], ts[1], "double")]
        if short == "clamp" and len(ts) == 3:
            if self.fork_minmax:
                out = []
                for s, lt in self.compare(st, "<", ts[0], ts[1], "double"):
                    if lt:
                        out.append((s, ts[1]))
                    else:
                        for s2, gt in self.compare(s, ">", ts[0], ts[2], "double"):
                            out.append((s2, ts[2] if gt else ts[0]))
                return out
            return [(st, ("clamp",) + ts)]
        if short == "get" and len(ts) == 1:
            ta = (e.get("ta") or ["?"])[0]
            return [(st, ("getas", ta, ts[0]))]
        if short in ("get_if", "holds_alternative"):
            return [(st, (short, (e.get("ta") or ["?"])[0], ts[0]))]
        if short in ("next", "prev") and ts:
            k = ts[1][1] if len(ts) > 1 and is_num(ts[1]) else 1
            return [(st, self.iter_add(ts[0], k if short == "next" else -k))]
        if short == "advance":
            return [(st, VOID)]
        if short == "distance" and len(ts) == 2:
            if ts[0][0] == "it" and ts[1] == ("end", ts[0][1]) and ts[0][2] == "b":
                return [(st, ("size", ts[0][1]))]
            return [(st, t)]
        if short == "to_string":
            return [(st, ("tostr", ts[0]))]
        if short in ("swap",):
            self.ev_event(st, "swap", ts, line, fr)
            return [(st, VOID)]
        if short in ("find",) and len(ts) == 3:
            C, full = self.algo_range(ts)
            if not full:
                C = ("rng", ts[0], ts[1])
            out = []
            items = C[1:] if C[0] == "list" else None
            for s, h in self.branch(st, ("has", C, ts[2])):
                out.append((s, ("itm", C, ts[2], "set") if h else ("end", C)))
            return out
        if short == "count" and len(ts) == 3:
            C, full = self.algo_range(ts)
            return [(st, ("cnt", C if full else ("rng", ts[0], ts[1]), ts[2]))]
        if short == "is_permutation" and len(ts) == 4:
            (A, fa), (B, fb) = self.algo_range(ts[:2]), self.algo_range(ts[2:])
            if fa and fb:
                return [(st, ("perm",) + tuple(sorted((A, B), key=skey)))]
        if short in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each", "count_if", "remove_if",
                     "adjacent_find", "partition"):
            if short in ("adjacent_find", "partition", "remove_if"):
                self.ev_event(st, "algo", (short, ts), line, fr)
                return [(st, ("algo", short) + ts)]
            return self.algo(short, e, ts, st, fr)
        if short in ("transform", "copy", "copy_if", "accumulate", "move") and len(ts) >= 3:
            return self.algo2(short, e, ts, st, fr)
        if short in ("max_element", "min_element", "minmax_element"):
            C, full = self.algo_range(ts)
            self.ev_event(st, "algo", (short, ts), line, fr)
            return [(st, ("itw", C, ("opt" + short, C, full) + ts[2:]))]
        if short in ("sort", "stable_sort", "unique", "reverse", "iota", "fill", "partial_sort", "nth_element", "rotate"):
            self.ev_event(st, "algo", (short, ts), line, fr)
            return [(st, ("algo", short) + ts)]
        self.ev_event(st, "call", (n, None, ts, e.get("c"), t, False), line, fr)
        for i, x in enumerate(ts):
            if x and x[0] == "addr":
                self.havoc_addr(st, x, n)
        return [(st, t)]

    def ctor_for(self, q, ts):
        """USR of the constructor of class q taking len(ts) arguments."""
        c = self.F.classes.get(q)
        if not c:
            return ""
        cand = [m for m in c["methods"] if m.get("ctor") and not m.get("copy") and not m.get("move") and not m["del"]]
        exact = [m for m in cand if len(m["params"]) == len(ts)]
        if len(exact) == 1:
            return exact[0]["c"]
        more = [m for m in cand if len(m["params"]) >= len(ts)]
        if not exact and len(more) == 1:
            return more[0]["c"]
        return ""

    def algo(self, short, e, ts, st, fr):
        line = e.get("l", 0)
        C, full = self.algo_range(ts)
        f = ts[2]
        self.loopn += 1
        lid = self.loopn
        el = ("el", C, lid)
        self.stats["loops"] += 1
        want = {"any_of": True, "find_if": True, "all_of": False, "none_of": True, "find_if_not": False}.get(short)
        hits = set()

        def body(x):
            out = []
            if short in ("for_each",):
                for s, v in self.call_value(f, (el,), x, fr, line):
                    out.append(s)
                return out
            known = x.facts
            for s, b in self.lam_pred(f, (el,), x, fr, line):
                if s.sig:
                    out.append(s)
                elif short == "count_if":
                    self.ev_event(s, "counted", (lid, ("b", b)), line, fr)
                    if b:
                        hits.add(frozenset((renorm(subst(a, {el: ("el", C, 0)})), v) for a, v in s.facts.items()
                                           if known.get(a) is None))
                    out.append(s)
                elif b == want:
                    s.sig = "brk"
                    s.store[("algo", lid)] = TRUE
                    out.append(s)
                else:
                    out.append(s)
            return out
        items = self.concrete_items(st, C)
        if items is not None and short not in ("count_if",):
            return self.algo_unrolled(short, C, items, f, st, fr, line, want)
        res = self.summarise(lid, C, el, full, lambda x, el: None, body, st, fr, line, short)
        out = []
        for s in res:
            if s.sig:
                out.append((s, None))
                continue
            hit = s.store.pop(("algo", lid), None) == TRUE
            if short in ("find_if", "find_if_not"):
                out.append((s, ("itw", C, el) if hit else ("end", C)))
            elif short == "for_each":
                out.append((s, VOID))
            elif short == "count_if":
                out.append((s, ("countif", C if full else ("rng", ts[0], ts[1]), tuple(sorted((tuple(sorted(h, key=str)) for h in hits), key=str)))))
            elif short == "any_of":
                out.append((s, ("b", hit)))
            else:
                out.append((s, ("b", not hit)))
        return out

    def algo_unrolled(self, short, C, items, f, st, fr, line, want):
        cur = [st]
        out = []
        for it in items:
            nxt = []
            for s in cur:
                if short == "for_each":
                    for s2, v in self.call_value(f, (it,), s, fr, line):
                        (nxt.append(s2) if s2.sig is None else out.append((s2, None)))
                    continue
                for s2, b in self.lam_pred(f, (it,), s, fr, line):
                    if s2.sig:
                        out.append((s2, None))
                    elif b == want:
                        out.append((s2, ("itw", C, it) if short.startswith("find") else ("b", short == "any_of")))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.append((s, VOID if short == "for_each" else ("end", C) if short.startswith("find") else
                        ("b", short != "any_of")))
        return out

    def algo2(self, short, e, ts, st, fr):
        line = e.get("l", 0)
        C, full = self.algo_range(ts)
        self.loopn += 1
        lid = self.loopn
        el = ("el", C, lid)
        self.stats["loops"] += 1
        if short == "transform" and len(ts) == 5:
            self.ev_event(st, "algo", (short, ts), line, fr)
            return [(st, ("algo", short) + ts)]
        if short == "accumulate":
            f = ts[3] if len(ts) > 3 else None
            acc = ("accvar", lid)
            st.store[("acc", lid)] = ts[2]

            def body(x):
                cur = x.store.get(("acc", lid))
                out = []
                if f is None:
                    x.store[("acc", lid)] = add(cur, el)
                    return [x]
                for s, v in self.call_value(f, (cur, el), x, fr, line):
                    if s.sig is None:
                        s.store[("acc", lid)] = v
                    out.append(s)
                return out
            res = self.summarise(lid, C, el, full, lambda x, el: None, body, st, fr, line, short)
            return [(s, s.store.pop(("acc", lid), None) if s.sig is None else None) for s in res]
        dst = ts[2]
        f = ts[3] if len(ts) > 3 else None
        if dst[0] == "it" and dst[2] == "b" and short in ("transform", "copy") and full and dst[1][0] == "k" and \
                dst[1][3:] and dst[1][3] == ("size", C):
            # a local container made with as many entries as the source: every entry is assigned, in order
            keys = [k for k, v in st.env.items() if v == dst[1]]
            if len(keys) == 1:
                L = self.new_loc(st, {"n": "presized", "id": keys[0][1]}, fr, None)
                st.env[keys[0]] = L
                dst = ("backins", L)

        def emit(s, v):
            if dst[0] == "backins":
                self.mut(s, dst[1], "push_back", (v,), line, fr)
            elif dst[0] == "ins":
                self.mut(s, dst[1], "insert", (v,), line, fr)
            elif dst[0] == "it":
                self.mut(s, dst[1], "fill_from", (dst, v), line, fr)
            else:
                self.ev_event(s, "emit", (dst, v), line, fr)

        def body(x):
            out = []
            if short in ("copy", "move"):
                emit(x, el)
                return [x]
            if short == "copy_if":
                for s, b in self.lam_pred(f, (el,), x, fr, line):
                    if s.sig is None and b:
                        emit(s, el)
                    out.append(s)
                return out
            for s, v in self.call_value(f, (el,), x, fr, line):
                if s.sig is None:
                    emit(s, self.snapshot(s, v))
                out.append(s)
            return out
        res = self.summarise(lid, C, el, full, lambda x, el: None, body, st, fr, line, short)
        return [(s, dst if s.sig is None else None) for s in res]
