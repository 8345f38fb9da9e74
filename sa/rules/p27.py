"""P27: plugins, the paths they are found by, and the files."""
from rules.common import *
from terms import add

FLOOR = 28
EXPLANATION = ("Every path of the plugin manager, of the library wrapper (each instance of its symbol lookup included), of the road network loader "
               "and of the path and file utilities is walked; what reaches dlopen, dlsym, mkdir, rmdir and remove, and what is returned, is checked on each.")
ASSUMPTIONS = ["dlopen, dlsym, dlerror, stat, mkdir, rmdir, remove, getenv and directory_iterator behave as documented",
               "plugins give their id and type through the entry points of maliput_plugin.h"]
PG = "maliput::plugin::"
UT = "maliput::utility::"
FS = "maliput::common::"
PP = FS + "Path::"
MP = PG + "MaliputPlugin"
MM = PG + "MaliputPluginManager"
PATHS = {PP + n for n in ("Path", "is_directory", "is_file", "exists", "get_path")}
OPAQUE = PATHS | {MP + "::MaliputPlugin", MP + "::GetId", MP + "::GetType", UT + "GetAllPathsFromEnvironment", UT + "GetAllFilePathsFromDirectory"}
NPOS = ("g", "std::basic_string::npos")


def run(ck):
    ck.rule("R1", "every library below the listed directories becomes a plugin, registered under its own id")
    ck.rule("R2", "a plugin without a library, an id or a symbol is refused; symbols come from its own library")
    ck.rule("R3", "road networks come from the named plugin's loader and the given properties")
    ck.rule("R4", "files below a directory and paths in a variable are all listed, in order")
    ck.rule("R5", "paths and the file system tell and change what they say")
    S = Spec(ck, opaque=OPAQUE)
    manager(S)
    library(S)
    loader(S)
    walks(S)
    paths(S)
    filesystem(S)
    S.done()


def bare(t):
    """A path term without its wrapping in Path objects."""
    while t:
        if t[0] == "c" and t[1] == PP + "get_path":
            t = t[2]
        elif t[0] == "k" and t[1] in (FS + "Path", "std::experimental::filesystem::path", "std::experimental::filesystem::v1::__cxx11::path") and len(t) > 3:
            t = t[3]
        elif t[0] in ("copyof", "deref"):
            t = t[1]
        elif t[0] == "k" and t[1].endswith("::path") and len(t) > 3:
            t = t[3]
        elif t[0] == "str" or t[0] == "k" and t[1].startswith("std::basic_string") and len(t) > 3:
            t = t[-2] if t[0] == "str" and len(t) > 2 else t[3] if t[0] == "k" else t[1]
        elif t[0] == "c" and (t[1].endswith("::path") or "::operator " in t[1]) and t[2] is not None and len(t) == 3:
            t = t[2]
        else:
            break
    return t


def calls(evs, q):
    return [e for e in evs if e.k == "call" and e.a[0] == q]


# ---------------------------------------------------------------- the manager
def manager(S):
    F = S.ck.F
    ctor = next(f for f in F.fns_of(MM + "::MaliputPluginManager") if not f["params"])
    addp = F.fn(MM + "::AddPlugin", 1)
    get = F.fn(MM + "::GetPlugin", 1)
    ls = F.fn(MM + "::ListPlugins", 0)
    reg = S.registry_of(get)
    if len(reg) != 1:
        raise AnalysisError("the manager's plugins are not one container")
    M = reg[0]
    ENV = "GetAllPathsFromEnvironment"
    FILES = "GetAllFilePathsFromDirectory"

    def loaded(p):
        env = {e.a[4] for e in deep(p.trace) if e.k == "call" and e.a[0] == UT + ENV}
        if len(env) != 1:
            return "reads %d lists of directories" % len(env)
        env = env.pop()
        name = bare(env[3])
        if find_terms(env, lambda x: x == ("s", "MALIPUT_PLUGIN_PATH")) == [] and name != ("s", "MALIPUT_PLUGIN_PATH"):
            return "reads the directories of %s" % show(name)
        ls = loops_over(p.trace, env)
        if decide(pre_facts(p), ("empty", env)) is True:
            return None
        if len(ls) != 1:
            return "no complete loop over the directories"
        l, el, its = ls[0]
        if any(i.sig not in (None, "cont") for i in l.iters if i.sig != "throw"):
            return "leaves the directories early"
        C, used = None, False
        for i in its:
            isdir = [v for a, v in i.facts.items() if a[0] == "t" and find_terms(a, lambda x: x[0] == "c" and "is_directory" in x[1] and bare(x[2] or x[-1]) == el)]
            if len(isdir) != 1:
                if any(e.k == "call" and e.a[0] == UT + FILES for e in deep(i.events)):
                    return "lists the files of what may be no directory"
                if any("is_directory" in e.a[0] for e in deep(p.trace) if e.k == "call"):
                    raise Unknown("what is a directory is told in some other way")
                return "a directory may be left out; facts: %s" % show_facts(i.facts)
            fs = [e for e in deep(i.events) if e.k == "call" and e.a[0] == UT + FILES]
            if not isdir[0]:
                if fs:
                    return "lists the files of what is no directory"
                continue
            if len(fs) != 1:
                return "a directory's files are not listed"
            t = fs[0].a[4]
            if bare(t[3]) != el:
                return "lists the files of %s" % show(t[3])
            if not find_terms(t[4], lambda x: x == ("s", "so")):
                return "lists the files ending in %s" % show(t[4])
            direct = [e for e in i.events if e.k == "loop"]
            got = [e for e in i.events if e.k == "mut" and e.a[1] in GROWS and any(t in (x, ("copyof", x)) or bare(x) == t for x in e.a[2])]
            if got:
                if C not in (None, got[0].a[0]):
                    raise Unknown("files are gathered in two lists")
                C, used = got[0].a[0], True
            elif direct and for_all(i.events, t, lambda x, evs: adds(evs, x)):
                used = True
            elif direct and gathers(i.events, t):
                C, used = gathers(i.events, t), True
            else:
                return "a directory's files are not added"
        if not used:
            return "no directory's files are added"
        if C is not None:
            if any(e.k == "mut" and e.a[0] == C and e.a[1] not in GROWS for e in deep(p.trace)):
                raise Unknown("the list of files is changed afterwards")
            if not for_all(p, C, lambda x, evs: adds(evs, x)):
                # through a copy of the list
                if not any(for_all(p, R, lambda x, evs: adds(evs, x)) for R in (("copyof", C),)):
                    return "the listed files are not all added"
        return None

    def gathers(evs, t):
        for l, x, its in loops_over(evs, t):
            tg = {e.a[0] for i in its for e in i.events if e.k == "mut" and e.a[1] in GROWS and e.a[2] == (x,)}
            if len(tg) == 1 and all(any(e.k == "mut" and e.a[0] in tg and e.a[2] == (x,) for e in i.events) for i in its):
                return tg.pop()
        return None

    def adds(evs, x):
        return any(e.k == "call" and e.a[0] == MM + "::AddPlugin" and e.a[2] == (x,) for e in evs)
    S.each_path("R1: the manager loads every .so below every directory of MALIPUT_PLUGIN_PATH", ctor, loaded,
                E=S.engine(opaque=OPAQUE | {MM + "::AddPlugin"}))
    S.throws_iff("R1: AddPlugin refuses an empty path", addp, Empty(P(addp, 0)), may=Is(("b", True)))

    def registered(p):
        ms = [m for m in muts(p) if m[1] == M]
        if len(ms) != 1 or len(muts(p)) != 1:
            return "changes the plugins %d times" % len(ms)
        _, _, op, a = ms[0]
        if op not in ("set", "insert", "emplace", "insert_or_assign") or len(a) != 2:
            raise Unknown("registers by %s" % op)
        if op in ("insert", "emplace"):
            c = S.ctx(p)
            if decided(c, Has(M, a[0])) is not False:
                return "an earlier plugin of the same id prevails"
        v = a[1]
        if v[0] != "k" or v[1] != MP or v[3:] != (P(addp, 0),):
            return "registers %s" % show(v)
        k = a[0]
        if not find_terms(k, lambda x: x == ("c", MP + "::GetId", v)):
            return "registers under %s" % show(k)
        return None
    S.each_path("R1: AddPlugin registers the library under its own id, the newest prevailing", addp, registered)
    lookup(S, "R1: GetPlugin", get, M, "null")

    def listed(p):
        R = p.val
        for l, el, its in loops_over(p.trace, M):
            ok = all(any(e.k == "insert_noop" and e.a[0] == R or e.k == "mut" and e.a[0] == R and e.a[1] in GROWS and
                         e.a[2] == (("key", el), ("c", MP + "::GetType", ("val", el))) for e in i.events) for i in its)
            if ok:
                return None
        return None if decide(pre_facts(p), ("empty", M)) is True else "does not list each plugin's id with its type"
    S.each_path("R1: ListPlugins", ls, listed)
    only = {f["q"] for q in F.by_q if q.startswith(MM + "::") for f in F.fns_of(q) if not f.get("dtor")} - {MM + "::MaliputPluginManager", MM + "::AddPlugin"}
    for q in sorted(only):
        for f in F.fns_of(q):
            if f["acc"] == "public" and f.get("body"):
                S.each_path("R1: %s leaves the plugins alone" % q.rpartition("::")[2], f,
                            lambda p: "changes the plugins" if any(m[1] == M for m in muts(p)) else None, sigs=("ret", "throw"))


# ---------------------------------------------------------------- one library
def dl(evs):
    return [e for e in evs if e.k == "call" and e.a[0] in ("dlopen", "dlsym", "dlerror", "dlclose")]


def symbols(S, p, handle):
    """None, or what is wrong with the symbol lookups of a path."""
    ds = dl(p.trace)
    c = S.ctx(p, pre=False)
    for n, e in enumerate(ds):
        if e.a[0] != "dlsym":
            continue
        if handle(e.a[2][0]) is False:
            return "looks for a symbol in %s" % show(e.a[2][0])
        before = ds[n - 1] if n else None
        if before is None or before.a[0] != "dlerror":
            return "an earlier failure is taken for a missing symbol"
        after = next((x for x in ds[n + 1:] if x.a[0] != "dlsym"), None)
        sym = e.a[4]
        missing = decided(c, NotNull(after.a[4])) if after is not None and after.a[0] == "dlerror" else None
        nul = decided(c, Null(sym))
        if nul is None and decided(c, Is(sym)) is not None:
            nul = not decided(c, Is(sym))
        runs = [x for x in deep(p.trace) if x.k == "icall" and x.a[0] == sym]
        if runs and missing is not False and nul is not False:
            return "runs a symbol that may be missing"
        if p.sig == "throw" and missing is False and nul is not True and x_last(ds, n):
            # the throw comes after a found symbol: some other reason must exist
            if not runs:
                return "refuses a symbol that is there"
        if p.sig == "ret" and not runs:
            return "does not run the symbol it looked for"
    return None


def x_last(ds, n):
    return not any(e.a[0] in ("dlsym", "dlopen") for e in ds[n + 1:])


def library(S):
    F = S.ck.F
    ctor = next(f for f in F.fns_of(MP + "::MaliputPlugin") if len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"])
    S.E, keep = S.engine(opaque=()), S.E
    strings = lambda t: [x[1] for x in find_terms(t, lambda x: x[0] == "s")]
    idf = strip_addr(S.E.getter(MP + "::GetId", THIS))
    tyf = strip_addr(S.E.getter(MP + "::GetType", THIS))
    lib = P(ctor, 0)

    def opened(p):
        os = [e for e in dl(p.trace) if e.a[0] == "dlopen"]
        if p.sig == "throw":
            return None
        if len(os) != 1 or bare(os[0].a[2][0]) != lib:
            return "does not open the library it is given"
        if decided(S.ctx(p, pre=False), Null(os[0].a[4])) is not False:
            return "goes on without a library"
        if decided(S.ctx(p), Empty(lib)) is not False:
            return "accepts an empty path"
        kept = [e for e in p.events("write") if e.a[2] == os[0].a[4]]
        if not kept:
            return "does not keep the library open"
        return symbols(S, p, lambda h: h == os[0].a[4] or h == ("f", THIS, kept[0].a[1]))
    S.each_path("R2: a plugin opens the library at its path and keeps it, with the symbols it names", ctor, opened, sigs=("ret", "throw"), need=4)

    def refused(p):
        """Every refusal has a reason: empty, unloadable, or a missing symbol."""
        c = S.ctx(p, pre=False)
        if decided(S.ctx(p), Empty(lib)) is True:
            return None
        for e in dl(p.trace):
            if e.a[0] == "dlopen" and decided(c, Null(e.a[4])) is True:
                return None
            if e.a[0] == "dlsym" and decided(c, Null(e.a[4])) is True:
                return None
            if e.a[0] == "dlerror" and decided(c, NotNull(e.a[4])) is True:
                return None
        return "refuses a usable library"
    S.each_path("R2: a plugin is refused only for an empty path, an unloadable library or a missing symbol", ctor, refused, sigs=("throw",), need=3)

    def named(p):
        for fld, sym, what in ((idf, "GetMaliputPluginId", "id"), (tyf, "GetMaliputPluginType", "type")):
            r = find_terms(fld, lambda x: x[0] == "f")
            f = r[-1] if r else fld
            v = final(p, f) if f[1] == THIS else None
            g = f
            while v is None and g[0] == "f" and g[1] != THIS:
                g = g[1]
                v = final(p, g)
            if v is None:
                return "the %s is not set" % what
            ic = find_terms(v, lambda x: x[0] == "ic")
            if len(ic) != 1 or strings(ic[0]) != [sym]:
                return "the %s is %s" % (what, show(v))
        return None
    S.each_path("R2: a plugin's id and type are what its library tells", ctor, named)
    S.E = keep
    # every other use of ExecuteSymbol is an instance in a caller
    hdr = [f for q in F.by_q if q.startswith(MP + "::") for f in F.fns_of(q) if any("dlclose" == c for c in callees(f))]
    fields = {f["n"]: f["t"] for f in F.classes[MP]["fields"]}
    S.ck.ob("R2: the library is closed only with its plugin", any("unique_ptr<void" in t or "shared_ptr<void" in t for t in fields.values()) or
            all(f.get("dtor") for f in hdr) and bool(hdr), where(ctor), "fields %s" % sorted(fields))


def strip_addr(t):
    return t[1] if t[0] == "addr" else t


def callees(f):
    out = set()

    def go(n):
        if isinstance(n, dict):
            if n.get("n"):
                out.add(n["n"])
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for v in n:
                go(v)
    go(f.get("body"))
    return out


# ---------------------------------------------------------------- the loader
def loader(S):
    F = S.ck.F
    mk = F.fn(PG + "MakeRoadNetworkLoader", 1)
    cr = F.fn(PG + "CreateRoadNetwork", 2)
    E = S.engine(opaque=OPAQUE | {MM + "::GetPlugin"})

    def plug(p):
        ts = {e.a[4]: e for e in p.trace if e.k == "call" and e.a[0] == MM + "::GetPlugin"}
        return list(ts.values())

    def made(p):
        g = plug(p)
        if len(g) != 1:
            return "looks for %d plugins" % len(g)
        pl = g[0].a[4]
        if not find_terms(g[0].a[2][0], lambda x: x == P(mk, 0)):
            return "takes plugin %s" % show(g[0].a[2][0])
        nul = decided(S.ctx(p, pre=False), Null(pl))
        if nul is not False:
            return None if p.sig == "throw" and nul is True else "goes on without a plugin"
        c = symbols(S, p, lambda h: True if find_terms(h, lambda x: x == pl) else False)
        if c:
            return c
        if p.sig == "ret":
            ds = [e for e in dl(p.trace) if e.a[0] == "dlsym"]
            if len(ds) != 1 or not find_terms(ds[0].a[2][1], lambda x: x == ("s", "MakeRoadNetworkLoader")):
                return "the entry point is %s" % (show(ds[0].a[2][1]) if ds else "not looked for")
            if not find_terms(p.val, lambda x: x[0] == "ic" and x[1] == ds[0].a[4]):
                return "returns %s" % show(p.val)
            if not calls(p.trace, MP + "::GetType"):
                return "the plugin's type is not looked at"
        return None
    S.each_path("R3: the loader comes from the named plugin's entry point", mk, made, E=E, sigs=("ret", "throw"), need=3)
    E2 = S.engine(opaque=OPAQUE | {PG + "MakeRoadNetworkLoader"})

    def created(p):
        v = p.val
        mks = [e.a[4] for e in calls(p.trace, PG + "MakeRoadNetworkLoader")]
        if len(mks) != 1 or mks[0][3:] != (P(cr, 0),):
            return "makes %d loaders" % len(mks)
        if v == ("ic", mks[0], P(cr, 1)) or v[0] == "c" and v[1].endswith("::operator()") and v[2:] == (mks[0], P(cr, 1)):
            return None
        return "returns %s" % show(v)
    S.each_path("R3: CreateRoadNetwork runs that loader with the properties and returns its road network", cr, created, E=E2)


# ---------------------------------------------------------------- listing
def walks(S):
    F = S.ck.F
    al = F.fn(UT + "GetAllFilePathsFromDirectory", 2)
    en = F.fn(UT + "GetAllPathsFromEnvironment", 1)
    sf = F.fn(UT + "GetSuffixFromPath", 1)
    d, suf = P(al, 0), P(al, 1)
    E = S.engine(opaque=(UT + "GetSuffixFromPath",) + tuple(PATHS))

    def listed(p):
        R = p.val
        ls = [e.a[0] for e in p.trace if e.k == "loop" and e.a[0].over[0] == "k" and "directory_iterator" in e.a[0].over[1]]
        if len(ls) != 1 or not (ls[0].full and ls[0].complete):
            raise Bad("leaves the directory early") if ls else Unknown("the directory is walked in some other way")
        l = ls[0]
        if "recursive" in l.over[1]:
            raise Unknown("the directory is walked by the library")
        if bare(l.over[3]) != d:
            return "walks %s" % show(l.over)
        el = l.el if l.el[0] == "el" else ("el", l.over, l.el[3])
        for i in l.iters:
            if i.sig not in (None, "cont"):
                if i.sig != "throw":
                    return "leaves the directory early"
                continue
            c = Ctx(i.all_facts, i.events, F.enums)
            isdir = [v for a, v in i.facts.items() if a[0] == "t" and find_terms(a, lambda x: x[0] == "c" and "is_directory" in x[1]) and find_terms(a, lambda x: x == el)]
            if len(isdir) != 1:
                raise Unknown("directories are told in some other way")
            ins = [e for e in i.events if e.k == "mut" and e.a[0] == R and e.a[1] in GROWS]
            rec = [e.a[4] for e in i.events if e.k == "call" and e.a[0] == al["q"]]
            if isdir[0]:
                if len(rec) != 1 or bare(rec[0][3]) != el or rec[0][4] != suf:
                    return "a directory is listed by %s" % (show(rec[0]) if rec else "nothing")
                whole_ = any(rec[0] in e.a[2] or any(bare(x) == rec[0] for x in e.a[2]) for e in ins) or \
                    for_all(i.events, rec[0], lambda x, evs: any(e.k == "mut" and e.a[0] == R and e.a[2] == (x,) for e in evs))
                if not whole_:
                    return "the files of a directory inside are left out"
                continue
            n = [e for e in ins if bare(e.a[2][-1]) == el]
            if len(n) != len(ins) or len(n) > 1:
                return "adds %s" % show(ins[0].a[2][-1])
            any_ = decided(c, Or(Null(suf), Either(Empty(suf), Empty(("val", suf)))))
            eq = [v for a, v in i.all_facts.items() if find_terms(a, lambda x: x[0] == "c" and x[1] == UT + "GetSuffixFromPath") and
                  find_terms(a, lambda x: x == suf) and find_terms(a, lambda x: x == el)]
            match = eq[0] if len(eq) == 1 else None
            if n and not (any_ is True or match is True):
                return "a file is listed whatever its suffix; facts: %s" % show_facts(i.facts)
            if not n and not (any_ is False and match is False):
                return "a file is left out although its suffix matches; facts: %s" % show_facts(i.facts)
        return None
    S.each_path("R4: all files below a directory with the suffix are listed", al, listed, E=E)

    def suffix(p):
        f = P(sf, 0)
        last = [e.a[4] for e in p.trace if e.k == "call" and e.a[0] in ("std::basic_string::find_last_of", "std::basic_string::rfind")]
        other = [e.a[4] for e in p.trace if e.k == "call" and e.a[0].startswith("std::basic_string::find") and e.a[4] not in last]
        if other:
            return "looks for %s" % show(other[0])
        if len({*last}) != 1:
            raise Unknown("the last dot is looked for in some other way")
        if last[0][2] != f or last[0][3] not in (num(46), ("s", ".")) or len(last[0]) > 4 and last[0][4] != NPOS:
            return "looks for %s" % show(last[0])
        none = decided(S.ctx(p, pre=False), EqN(last[0], NPOS))
        if none is None:
            return "does not tell names without a dot"
        if none:
            return None if bare(p.val) == f else "a name without a dot has suffix %s" % show(p.val)
        v = p.val
        if v[0] == "c" and v[1] == "std::basic_string::substr" and v[2] == f and v[3] == add(last[0], num(1)) and (len(v) < 5 or v[4] == NPOS):
            return None
        return "the suffix is %s" % show(v)
    S.each_path("R4: a suffix is what follows the last dot", sf, suffix, need=2)

    def split(p):
        var = [e.a[4] for e in p.trace if e.k == "call" and e.a[0] == "getenv"]
        if not var or any(bare(v[3]) != P(en, 0) for v in var):
            return "reads another variable"
        nul = decided(S.ctx(p, pre=False), Null(var[0]))
        if nul is None:
            return "does not tell variables that are not set"
        if nul:
            return None if p.val == ("list",) or decide(p.facts, ("empty", p.val)) is True or \
                not any(e.k == "mut" and e.a[0] == p.val for e in deep(p.trace)) and p.val[0] == "loc" else "an unset variable has paths"
        ls = [e.a[0] for e in p.trace if e.k == "loop"]
        if len(ls) != 1:
            raise Unknown("the paths are split in some other way")
        n = 0
        for i in ls[0].iters:
            g = [e.a for e in i.events if e.k == "call" and e.a[0] == "std::getline"]
            if len(g) != 1:
                raise Unknown("the paths are split in some other way")
            if g[0][2][2:] != (num(58),):
                return "paths are split at %s" % show(g[0][2][-1])
            ins = [e for e in i.events if e.k == "mut" and e.a[0] == p.val and e.a[1] in GROWS]
            if i.sig == "brk":
                if ins:
                    return "adds a path that was not read"
                continue
            if i.sig not in (None, "cont"):
                return "leaves the paths early"
            n += 1
            if len(ins) != 1:
                return "a path is left out; facts: %s" % show_facts(i.facts)
            if ins[0].a[2][-1][0] != "out" or ins[0].a[2][-1][1] != "std::getline":
                return "adds %s" % show(ins[0].a[2][-1])
            if ins[0].a[1] == "insert":
                raise Unknown("paths are inserted")
        return None if n else "no path is added"
    S.each_path("R4: a variable's paths are its parts between colons, none when it is not set", en, split, need=2)


# ---------------------------------------------------------------- paths
def paths(S):
    F = S.ck.F
    E = S.engine(opaque=())
    fld = strip_addr(E.getter(PP + "get_path", THIS))
    if fld[0] != "f" or fld[1] != THIS:
        raise AnalysisError("a path's text is not one field")
    stat = ("c", "stat", None, fld)

    def stats(p):
        return [e.a[4] for e in p.trace if e.k == "call" and e.a[0] in ("stat", "lstat")]

    def kind(want):
        def ok(p):
            ss = stats(p)
            if not ss or any(bare(t[3]) != fld for t in ss):
                raise Unknown("asks the system in some other way") if not ss else Bad("asks about %s" % show(ss[0]))
            there = decided(S.ctx(p, pre=False), EqN(ss[0], num(0)))
            if p.val not in (("b", True), ("b", False)):
                raise Unknown("returns %s" % show(p.val))
            r = p.val[1]
            if there is not True:
                return "true for a path that is not there" if r else None if there is False else "false for a path that is there"
            if want is None:
                return None if r else "false for a path that is there"
            vals = {(a[2], v) for a, v in p.facts.items() if a[0] == "eqn" and a[1][0] == "bin&" and num(0o170000) in a[1]}
            if not vals:
                return "%s whatever it is" % str(r).lower()
            if (want, True) in vals:
                return None if r else "false for what it asks about"
            return "true for something else" if r else None if (want, False) in vals else "false for what it asks about"
        return ok
    for n, w in (("exists", None), ("is_file", 0o100000), ("is_directory", 0o040000)):
        f = F.fn(PP + n, 0)
        S.each_path("R5: Path::%s asks the file system" % n, f, kind(w), E=E, need=2)

    def normal(p, base, what):
        """None when the path's text becomes base without a closing slash."""
        v = final(p, fld)
        ms = [e for e in p.trace if e.k == "mut" and e.a[0] == fld]
        c = S.ctx(p, pre=False)
        back = ("back", base)
        slash = decided(c, EqN(back, num(47))) if any(find_terms(a, lambda x: x == back) for a in p.facts) else None
        short = decided(c, Lt(("size", base), num(2), ints=True))
        safe = base[0] == "cat" or decided(c, Gt(("size", base), num(0))) is True or decided(c, Empty(base)) is False or short is False
        if slash is not None and not safe:
            return "reads the last character of an empty path"
        cutoff = (ms and [m.a[1] for m in ms] == ["pop_back"]) or v is not None and v[0] == "c" and v[1].endswith("::substr") and v[2] == base and \
            v[3] == num(0) and same(v[4], add(("size", base), num(1), -1), c)
        if cutoff:
            if slash is True and short is False:
                return None
            return "drops the last character of %s" % what
        if ms or v != base and bare(v or ("null",)) != bare(base):
            return "%s becomes %s" % (what, show(v) if v else "nothing in particular")
        return None if slash is False or short is True or decided(c, Empty(base)) is True else "a closing slash stays"
    sp = F.fn(PP + "set_path", 1)
    S.each_path("R5: set_path stores the path without its closing slash", sp, lambda p: normal(p, P(sp, 0), "the path"), E=E, need=2)
    ap = F.fn(PP + "append", 1)

    def appended(p):
        a = P(ap, 0)
        c = S.ctx(p)
        first = [v for k, v in p.facts.items() if find_terms(k, lambda x: x[0] in ("ix", "at", "front") and x[1] == a)]
        absolute = False if decided(c, Empty(a)) is True else any(v is True for v in first) if first else None
        ws = [e.a[2] for e in p.events("write") if ("f", e.a[0], e.a[1]) == fld]
        if absolute is None:
            raise Unknown("absolute paths are told in some other way")
        if absolute:
            if not ws or ws[0] != a:
                return "an absolute path becomes %s" % (show(ws[0]) if ws else "nothing in particular")
            return normal(p, a, "the path")
        joined = ("cat", fld, ("cat", num(47), a))
        base = next((w for w in ws if w == joined or flat(w) == flat(joined)), None)
        if base is None:
            if not ws:
                raise Unknown("paths are joined in some other way")
            return "the path becomes %s" % show(ws[0])
        return normal(p, base, "the path")
    S.each_path("R5: append joins a relative path by a slash, an absolute path replaces", ap, appended, E=E, need=3)
    tm = F.fn(PP + "set_as_temp", 0)
    E3 = S.engine(opaque=(PP + "set_path",))

    def temp(p):
        cs = calls(p.trace, PP + "set_path")
        if len(cs) != 1:
            raise Unknown("sets the path in some other way")
        c = S.ctx(p, pre=False)
        v = bare(cs[0].a[2][0])
        for n in ("TMPDIR", "TEMPDIR", "TMP", "TEMP"):
            t = next((e.a[4] for e in p.trace if e.k == "call" and e.a[0] == "getenv" and find_terms(e.a[4], lambda x: x == ("s", n))), None)
            if t is None:
                return "%s is not looked at" % n
            nul = decided(c, Null(t))
            if nul is None:
                return "%s may be unset" % n
            if not nul:
                return None if v == t else "%s is set but the path is %s" % (n, show(v))
        return None if v == ("s", "/tmp") else "the path is %s" % show(v)
    S.each_path("R5: the temporary path is the first of TMPDIR, TEMPDIR, TMP, TEMP that is set, or /tmp", tm, temp, E=E3, need=5)


def flat(t):
    if t and t[0] == "cat":
        return flat(t[1]) + flat(t[2])
    return ((("n", 47) if t == ("s", "/") else t),)


# ---------------------------------------------------------------- the file system
def filesystem(S):
    F = S.ck.F
    Q = FS + "Filesystem::"
    E = S.engine(opaque=PATHS)
    DESTROY = ("remove", "std::remove", "rmdir", "unlink", "mkdir", "rename", "std::rename")

    def acts(evs):
        return [e for e in deep(evs) if e.k == "call" and e.a[0] in DESTROY]
    for n, guard, by in (("remove_file", "is_file", ("remove", "std::remove", "unlink")), ("remove_directory", "is_directory", ("rmdir",)),
                         ("create_directory", None, ("mkdir",))):
        f = F.fn(Q + n, 1)
        x = P(f, 0)

        def ok(p, guard=guard, by=by, x=x):
            c = S.ctx(p, pre=False)
            g = guard and decided(c, Is(("c", PP + guard, x)))
            did = acts(p.trace)
            if any(e.a[0] not in by for e in did):
                return "calls %s" % did[0].a[0]
            if any(bare(e.a[2][0]) != x for e in did):
                return "changes %s" % show(did[0].a[2][0])
            if guard and did and g is not True:
                return "removes without %s" % guard
            if not did and g is not False:
                return "does nothing"
            if p.val not in (("b", True), ("b", False)):
                raise Unknown("returns %s" % show(p.val))
            worked = bool(did) and decided(c, EqN(did[0].a[4], num(0)))
            return None if worked is p.val[1] else "returns %s when that %s" % (p.val[1], "worked" if worked else "failed or is not established")
        S.each_path("R5: %s does it to the given path only, and tells" % n, f, ok, E=E, need=2)
    for q in sorted(q for q in F.by_q if q.startswith(Q)):
        short = q.rpartition("::")[2]
        if short in ("remove_file", "remove_directory", "create_directory", "create_directory_recursive"):
            continue
        for f in F.fns_of(q):
            if f.get("body"):
                S.each_path("R5: %s changes no file" % short, f, lambda p: "calls %s" % acts(p.trace)[0].a[0] if acts(p.trace) else None, E=E, sigs=("ret", "throw"))
    ge = F.fn(Q + "get_env_path", 1)

    def env(p):
        t = next((e.a[4] for e in p.trace if e.k == "call" and e.a[0] == "getenv"), None)
        if t is None or bare(t[3]) != P(ge, 0):
            return "reads another variable"
        nul = decided(S.ctx(p, pre=False), Null(t))
        if nul is None:
            return "does not tell variables that are not set"
        return None if (not nul and bare(p.val) == t or nul and p.val in (("s", ""), ("str", ("s", ""), NULL))) else "returns %s" % show(p.val)
    S.each_path("R5: get_env_path", ge, env, E=E, need=2)
    recursive(S, F.fn(Q + "create_directory_recursive", 1), E, acts)
    reading(S, F.fn(Q + "read_as_string", 2), E)


def recursive(S, f, E, acts):
    x = P(f, 0)
    FIND = ("std::basic_string::find", "std::basic_string::find_first_of")

    def prefix(t):
        """The length of the prefix of the path that t is; None for the whole path, False for something else."""
        t = bare(t)
        if t == x:
            return None
        if t[0] == "c" and t[1] == "std::basic_string::substr" and bare(t[2]) == x and t[3] == num(0):
            return t[4]
        return False

    def made(facts, evs, t):
        """Whether the directory t is there: created or found."""
        c = Ctx(facts, evs, S.ck.F.enums)
        for e in evs:
            if e.k == "call" and e.a[0] == "mkdir" and prefix(e.a[2][0]) == t and decided(c, EqN(e.a[4], num(0))) is True:
                return True
            if e.k == "call" and e.a[0] in (PP + "exists", PP + "is_directory") and prefix(e.a[1]) == t and decided(c, Is(e.a[4])) is True:
                return True
        return False

    def failed(facts, evs):
        c = Ctx(facts, evs, S.ck.F.enums)
        return any(e.k == "call" and e.a[0] == "mkdir" and decided(c, EqN(e.a[4], num(0))) is False for e in evs)

    def ok(p):
        did = acts(p.trace)
        if any(e.a[0] != "mkdir" for e in did):
            return "calls %s" % did[0].a[0]
        if any(prefix(e.a[2][0]) is False for e in did):
            w = next(bare(e.a[2][0]) for e in did if prefix(e.a[2][0]) is False)
            if w[0] == "c" and w[1] == "std::basic_string::substr":
                return "creates %s, which is no leading part of the path" % show(w)
            raise Unknown("creates %s" % next(show(e.a[2][0]) for e in did if prefix(e.a[2][0]) is False))
        if decided(S.ctx(p, pre=False), Empty(("c", PP + "get_path", x))) is True:
            return None if p.val == ("b", False) and not did else "an empty path is created"
        top = [e for e in p.trace if e.k != "loop"]
        loops = [e.a[0] for e in p.trace if e.k == "loop"]
        if len(loops) != 1:
            return "creates no directory on the way" if not loops else None
        l = loops[0]
        for i in l.iters:
            fs = {e.a[4] for e in i.events if e.k == "call" and e.a[0] in FIND}
            other = [e.a[4] for e in i.events if e.k == "call" and "find" in e.a[0] and e.a[4] not in fs]
            if other:
                return "looks for %s" % show(other[0])
            if len(fs) != 1:
                raise Unknown("the directories on the way are found in some other way")
            pos = fs.pop()
            if bare(pos[2]) != x or pos[3] not in (num(47), ("s", "/")):
                return "looks for %s" % show(pos)
            hv = find_terms(pos[4], lambda t: t[0] == "hv")
            if len(hv) != 1:
                raise Unknown("the directories on the way are found in some other way")
            d = add(pos[4], hv[0], -1)
            init = [v for k, v in l.entry.items() if k[-1] == hv[0][2]]
            step = [v for k, v in i.changed.items() if k[-1] == hv[0][2]]
            if d[0] != "n" or len(init) != 1 or init[0][0] != "n":
                raise Unknown("the search starts at %s" % show(pos[4]))
            if init[0][1] + d[1] > 1:
                return "the search starts at index %s" % (init[0][1] + d[1])
            if i.sig in (None, "cont"):
                if len(step) != 1 or add(add(step[0], pos, -1), num(d[1])) != num(1) and add(step[0], pos, -1) not in (num(0), num(1)):
                    return "the search goes on from %s" % (show(step[0]) if step else "the same place")
                if not made(i.all_facts, i.events, pos):
                    return "goes on without the directory on the way; facts: %s" % show_facts(i.facts)
            elif i.sig == "ret":
                if not failed(i.all_facts, i.events):
                    return "gives up although the directory on the way is there"
        if p.val == ("b", True):
            return None if made(p.facts, top, None) else "true although the directory is not there"
        if p.val == ("b", False):
            evs = list(deep(p.trace))
            if not failed(p.facts, evs):
                return "false although nothing failed"
            c = Ctx(p.facts, evs, S.ck.F.enums)
            if any(e.k == "call" and e.a[0] == "mkdir" and prefix(e.a[2][0]) is None for e in top) and \
                    not any(e.k == "call" and e.a[0] in (PP + "exists", PP + "is_directory") and prefix(e.a[1]) is None and decided(c, Is(e.a[4])) is False for e in top):
                return "false for a directory that is there already"
            return None
        raise Unknown("returns %s" % show(p.val))
    S.each_path("R5: create_directory_recursive creates every directory on the way, then the last one", f, ok, E=E, need=3)


def reading(S, f, E):
    def opened(p):
        ms = [e for e in p.trace if e.k == "mut" and e.a[1] in ("is_open", "open")] + [e for e in p.trace if e.k == "call" and e.a[0].endswith("is_open")]
        fs = [v for a, v in p.facts.items() if a[0] == "t" and "is_open" in repr(a)]
        return fs[0] if len(fs) == 1 else None

    def ok(p):
        o = opened(p)
        if o is None:
            raise Unknown("opening is told in some other way")
        if p.val not in (("b", True), ("b", False)):
            raise Unknown("returns %s" % show(p.val))
        if not o:
            return "a file that cannot be opened was read" if p.val[1] else None
        v = out_value(p, f, 1)
        wrote = v is not None or any(m[1] == P(f, 1) for m in muts(p))
        if p.val[1] and not wrote:
            return "nothing is read"
        for e in p.trace:
            if e.k != "loop":
                continue
            for i in e.a[0].iters:
                if i.sig not in (None, "cont"):
                    if i.sig == "brk" and not any(n in repr(a) and v is (n not in ("operator bool", "good")) for a, v in i.facts.items()
                                                  for n in ("eof", "operator!", "fail", "bad", "operator bool", "good")):
                        return "stops before the end; facts: %s" % show_facts(i.facts)
                    continue
                if not any("operator!" in repr(a) and v is False or ("operator bool" in repr(a) or "good" in repr(a)) and v is True or
                           "fail" in repr(a) and v is False for a, v in i.facts.items()):
                    return "goes on reading from a stream that failed; facts: %s" % show_facts(i.facts)
                if not any(x.k in ("out", "mut") and "get" in repr(x.a) for x in i.events):
                    return "a character is left out"
        return None
    S.each_path("R5: read_as_string ends, with what was read", f, ok, E=E, need=2)
