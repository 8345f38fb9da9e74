"""P32: a log message reaches the sink exactly when its level is enabled, once and in full."""
from engine import Engine
from rules.common import *

FLOOR = 30
EXPLANATION = ("Every instantiation of the logger's level functions and of its common log function that the library uses is analysed: the level function "
               "hands over its own level and all arguments in order, and the common one calls the sink exactly when that level is not below the "
               "logger's, with the level's prefix, every argument streamed in order and the end of line. The tables of levels are compared entry "
               "by entry, and the paths of the functions that set level and sink are enumerated.")
ASSUMPTIONS = ["std streams and strings behave as specified", "instantiations outside the library behave as those inside (same template)"]
N = "maliput::common::"
L = N + "Logger::"
LEVELS = ("trace", "debug", "info", "warn", "error", "critical", "off", "unchanged")
PREFIX = {"trace": "[TRACE] ", "debug": "[DEBUG] ", "info": "[INFO] ", "warn": "[WARNING] ", "error": "[ERROR] ", "critical": "[CRITICAL] "}


def text(t):
    if t and t[0] == "str":
        t = t[1]
    return t[1] if t and t[0] == "s" else None


def flat(t):
    if t[0] == "cat":
        return flat(t[1]) + flat(t[2])
    return [] if t == ("s", "") or text(t) == "" else [t]


def table(E, name):
    v = E.global_value(N + "logger::" + name)
    if v is None:
        raise Unknown("the table is not a constant")
    return v


def entries(v):
    return [(a[1], a[2]) for a in find_terms(v, lambda t: t[0] == "pair")]


def level(t):
    return t[1].rpartition("::")[2] if t[0] == "enum" else LEVELS[t[1]] if t[0] == "n" and t[1] < len(LEVELS) else None


def run(ck):
    ck.rule("R1", "a message reaches the sink exactly when its level is not below the logger's")
    ck.rule("R2", "what reaches the sink is the level's prefix, every argument in order and the end of line, once")
    ck.rule("R3", "levels are set and named one to one; a null sink is rejected")
    F = ck.F
    opq = {L + "log", L + "set_level", "maliput::log"}
    S = Spec(ck, opaque=opq)
    lv = F.enums[N + "logger::level"]
    vals = dict(zip([c.rpartition("::")[2] for c in lv["consts"]], lv["vals"]))
    ck.ob("levels are ordered from trace to off", all(vals.get(a, 9) < vals.get(b, -1) for a, b in zip(LEVELS, LEVELS[1:-1])), "%s:%s" % (lv["file"], lv["line"]),
          "values are %s" % vals)
    E = S.E
    try:
        a, b, m = ({k: v for k, v in entries(table(E, n))} for n in ("kStringToLevel", "kLevelToString", "kLevelToMessage"))
        ck.ob("names: one level per name", {text(k): level(v) for k, v in a.items()} == {x: x for x in LEVELS}, "", "names are %s" % {text(k): level(v) for k, v in a.items()})
        ck.ob("names: one name per level", {level(k): text(v) for k, v in b.items()} == {x: x for x in LEVELS}, "", "names are %s" % {level(k): text(v) for k, v in b.items()})
        ck.ob("prefixes: each level has its own", {level(k): text(v) for k, v in m.items()} == PREFIX, "", "prefixes are %s" % {level(k): text(v) for k, v in m.items()})
    except Unknown as u:
        ck.undecided("names: tables", "", str(u))

    for short in LEVELS[:6]:
        for fn in [f for f in F.by_q.get(L + short, []) if not f["dep"]]:
            def handed(p, fn=fn, short=short):
                cs = [e for e in p.trace if e.k == "call" and e.a[0] == L + "log"]
                if len(cs) != 1 or cs[0].a[1] != THIS:
                    return "logs %d times" % len(cs)
                want = tuple(P(fn, k) for k in range(len(fn["params"])))
                got = cs[0].a[2]
                if level(got[0]) != short:
                    return "logs at %s" % show(got[0])
                return None if tuple(got[1:]) == want else "logs %s" % [show(x)[:40] for x in got[1:]]
            S.each_path("%s: hands over its level and arguments (%d arguments, %s)" % (short, len(fn["params"]), tag(F, fn)), fn, handed)
    D = Engine(F, opaque={"maliput::log", L + "format"})
    lev_of = ("f", THIS, L + "level_")
    sink = ("f", THIS, L + "sink_")
    fns = [f for f in F.by_q.get(L + "log", []) if not f["dep"]]
    for fn in fns:
        lev = P(fn, 0)
        args = [P(fn, k) for k in range(1, len(fn["params"]))]
        low = Lt(lev, lev_of, ints=True)

        def reaches(p, args=args, lev=lev, low=low):
            cs = [e for e in p.trace if e.k == "call" and e.a[0].endswith("SinkBase::log")]
            d = decided(S.ctx(p), low)
            if d is None:
                return "the level is not looked at"
            if d:
                return "a message below the level reaches the sink" if cs else None
            if len(cs) != 1:
                return "reaches the sink %d times" % len(cs)
            if cs[0].a[1] not in (sink, ("c", L + "get_sink", THIS)):
                return "goes to %s" % show(cs[0].a[1])
            parts = flat(cs[0].a[2][0])
            if len(parts) < 1 or not (parts[0][0] == "at" and parts[0][2] == lev and {level(k): text(v) for k, v in entries(parts[0][1])} == PREFIX):
                return "starts with %s" % [show(x)[-60:] for x in parts[:1]]
            if text(parts[-1]) != "\n":
                return "does not end the line"
            mid = parts[1:-1]
            if len(mid) == 1 and mid[0][0] == "c" and mid[0][1] == L + "format":
                mid = list(mid[0][3][1:]) if mid[0][3][0] == "list" else None
            if mid is None:
                raise Unknown("arguments are joined in some other way")
            got = []
            for x in mid:
                outs = [e.a[1] for e in p.trace if e.k == "out" and e.a[0] == x]
                got += outs if x[0] == "loc" else [x]
            return None if got == args else "arguments are %s" % [show(x)[:40] for x in got]
        S.each_path("log: exactly the enabled messages, once and in full (%d arguments, %s)" % (len(args), tag(F, fn)), fn, reaches, E=D)
    fn = F.fn(L + "format", 1)

    def joined(p):
        ls = [e.a[0] for e in p.trace if e.k == "loop"]
        v = p.val
        if len(ls) != 1 or ls[0].over != P(fn, 0):
            raise Unknown("joined in some other way")
        if not (ls[0].full and ls[0].complete):
            return "stops early"
        if v == ("s", "") or text(v) == "":
            return None
        fl = flat(v)
        if len(fl) == 2 and fl[0][0] == "hv" and fl[1] == ls[0].el:
            return None
        return "becomes %s" % show(v)[:100]
    S.each_path("format: every part, in order", fn, joined, E=Engine(F))
    fn = F.fn(L + "set_level", 1)
    SE = Engine(F)
    new = P(fn, 0)

    def set_(p):
        ws = [e.a[2] for e in p.trace if e.k == "write" and e.a[1] == L + "level_"]
        same_ = decided(S.ctx(p), Eq(new, ("enum", N + "logger::level::unchanged")))
        if same_ is None:
            return "unchanged is not looked at"
        if ws and ws != [new] and ws != [lev_of] or len(ws) > 1 or (not ws and not same_) or (same_ and ws == [new]):
            return "the level becomes %s" % [show(x) for x in ws]
        v = p.val
        if not (v[0] == "at" and v[2] == lev_of):
            return "answers %s" % show(v)[:100]
        return None if {level(k): text(x) for k, x in entries(v[1])} in ({x: x for x in LEVELS}, {}) else "answers out of another table"
    S.each_path("set_level: the new level, unless unchanged; answers the former one", fn, set_, E=SE)
    fn = F.fn(L + "set_sink", 1)
    S.throws_iff("set_sink: a null sink is rejected", fn, Null(P(fn, 0)), E=SE)
    S.each_path("set_sink: the given sink", fn, lambda p: None if [e.a[2] for e in p.trace if e.k == "write" and e.a[1] == L + "sink_"] == [P(fn, 0)] else
                "the sink is another one", E=SE)
    fn = F.fn("maliput::common::set_log_level", 1)

    def named(p):
        v = [e for e in p.trace if e.k == "call" and e.a[0] == L + "set_level"]
        if len(v) != 1 or v[0].a[1] != ("c", "maliput::log", None):
            return "the level of the logger is set %d times" % len(v)
        a = v[0].a[2][0]
        if not (a[0] == "at" and a[2] == P(fn, 0)):
            raise Unknown("looked up in some other way")
        if {text(k): level(x) for k, x in entries(a[1])} not in ({x: x for x in LEVELS}, {}):
            return "looked up in another table"
        return None if p.val == v[0].a[4] else "answers %s" % show(p.val)[:80]
    S.each_path("set_log_level: the level of that name", fn, named)
    S.done()


def tag(F, fn):
    import hashlib
    k = next((k for k, f in F.fns.items() if f is fn), "")
    return hashlib.sha1(str(k).encode()).hexdigest()[:6]
