"""P25: the thread pool's lock discipline, wake-ups and task hand-over."""
from rules.common import *
from terms import add

FLOOR = 26
EXPLANATION = ("Every path of the pool's public functions and of the thread body is walked with the set of mutexes held: shared accesses, waits, "
               "notifications and task invocations are checked against it, in every interleaving at once.")
ASSUMPTIONS = ["unique_lock, mutex, condition_variable, atomic and packaged_task behave as the standard says",
               "Queue is instantiated for one callable type"]
POOL = "maliput::utility::ThreadPool"
Q = POOL + "::"


def run(ck):
    ck.rule("R1", "the task list is only touched under one and the same mutex")
    ck.rule("R2", "no waiting thread misses a wake-up")
    ck.rule("R3", "each task is taken and run once, outside the lock")
    ck.rule("R4", "threads end only after finish and with no task left; finish waits for all of them")
    F = ck.F
    c = F.classes[POOL]
    typ = {f["n"]: f["t"] for f in c["fields"]}
    of = lambda *ts: [n for n, t in typ.items() if any(x in t for x in ts)]
    names = lambda ns: tuple(n if n.startswith(POOL) else Q + n for n in ns)
    tasks = names(n for n in of("packaged_task", "std::function<") if "future" not in typ[n])
    flags = names(of("bool"))
    if len(tasks) != 1:
        raise AnalysisError("the pool's task list is not one field")
    tasks = ("f", THIS, tasks[0])
    S = Spec(ck, watch=(tasks[2],) + flags)
    fns = [f for f in F.by_q_prefix(Q)] if hasattr(F, "by_q_prefix") else [f for q in F.by_q if q.startswith(Q) for f in F.fns_of(q)]
    ctor = next(f for f in fns if f.get("ctor"))
    public = [f for f in fns if not f.get("ctor") and f["acc"] != "private" and f["acc"] != "protected"]
    body = thread_body(S, ctor)
    runs = {}
    for f in public:
        ps = S.run(f)
        if ps is not None:
            runs[f["q"].rpartition("::")[2]] = (f, ps)
    runs["(thread)"] = (ctor, body)
    construction(S, ctor)
    walks = {n: [walk(p.trace, p.facts) for p in ps] for n, (f, ps) in runs.items()}
    S.ck.ob("the functions of the pool are known", {"Queue", "Start", "Finish", "cancel_pending"} <= set(runs), where(ctor), "found %s" % sorted(runs))
    guarded(S, runs, walks, tasks)
    order(S, runs, walks)
    wakeups(S, runs, walks, tasks, flags)
    taking(S, runs, walks, tasks)
    ending(S, F, runs, walks, tasks, flags)
    entry(S, F, runs, tasks)
    S.done()


def thread_body(S, ctor):
    for p in S.E.paths(ctor):
        for e in deep(p.trace):
            if e.k == "call" and e.a[0] in ("std::async", "std::thread"):
                for t in e.a[2]:
                    if t[0] in ("lam", "fnref"):
                        return S.E.paths_of(ctor, t)
            for x in e.a if e.k == "mut" else ():
                for t in x if isinstance(x, tuple) else ():
                    if isinstance(t, tuple) and t and t[0] == "lam":
                        return S.E.paths_of(ctor, t)
    raise AnalysisError("the thread body was not found")


class At:
    """One event with the locks held, the facts around it, and what happened on the path before."""

    def __init__(self, e, held, facts, loops, seq):
        self.e, self.held, self.facts, self.loops, self.seq = e, held, facts, loops, seq


def walk(trace, facts):
    """Linear views of a path: the path itself with each loop represented by each of its iterations in turn."""
    out = []

    def go(evs, held, fx, loops):
        for e in evs:
            if e.k == "lock":
                out.append(At(e, held, fx, loops, len(out)))
                held = held + (e.a[0],)
            elif e.k == "unlock":
                out.append(At(e, held, fx, loops, len(out)))
                h = list(held)
                if e.a[0] in h:
                    h.remove(e.a[0])
                held = tuple(h)
            elif e.k == "loop":
                for i in e.a[0].iters:
                    f2 = dict(fx)
                    f2.update(i.facts)
                    go(i.events, held, f2, loops + ((e.a[0], i),))
            else:
                out.append(At(e, held, fx, loops, len(out)))
        return held
    go(trace, (), facts, ())
    return out


def construction(S, ctor):
    n = P(ctor, 0)
    S.throws_iff("construction: rejects exactly zero threads", ctor, EqN(n, num(0)))

    def threads(p):
        l = over_indices(p.events("loop", True), n, "the threads")[0]
        for i in l.iters:
            kept = [e for e in i.events if e.k == "mut" and e.a[1] in GROWS and any(
                t[1] in ("std::async", "std::thread") for t in find_terms(e.a[2], lambda t: t[0] in ("c", "k")))]
            if len(kept) != 1:
                return "keeps %d threads per step" % len(kept)
            a = [t for t in find_terms(kept[0].a[2], lambda t: t[0] == "c" and t[1] == "std::async")]
            if a and a[0][3] not in (("enum", "std::launch::async"),):
                return "the thread may never start: %s" % show(a[0])[:200]
        return None
    S.each_path("construction: as many threads as asked for", ctor, threads)


def guarded(S, runs, walks, tasks):
    common, where_ = None, {}
    for n, ws in walks.items():
        if n.startswith("~"):
            pass
        for w in ws:
            for a in w:
                e = a.e
                if e.k == "access" and e.a[0] == tasks or e.k == "mut" and e.a[0] == tasks:
                    where_.setdefault(n, []).append((frozenset(a.held), e.line))
                    common = frozenset(a.held) if common is None else common & frozenset(a.held)
    bad = ""
    if not common:
        bad = "no common mutex: " + "; ".join("%s line %d holds {%s}" % (n, l, ", ".join(show(x) for x in h)) for n, v in where_.items() for h, l in v if True)[:600]
    S.ck.ob("the task list: one mutex protects every access", bool(common), where(runs["(thread)"][0], next((l for v in where_.values() for h, l in v if not h), None)), bad)
    for n in ("Queue", "cancel_pending", "(thread)"):
        S.ck.ob("the task list: %s reaches it" % n, n in where_, where(runs[n][0]) if n in runs else "src/maliput/utility/thread_pool.cc", "no access to the task list")
    S.mutex = common


def order(S, runs, walks):
    pairs, bad = {}, []
    for n, ws in walks.items():
        for w in ws:
            for a in w:
                if a.e.k == "lock":
                    if a.e.a[0] in a.held:
                        bad.append("%s locks %s again at line %d" % (n, show(a.e.a[0]), a.e.line))
                    for h in a.held:
                        pairs[(h, a.e.a[0])] = (n, a.e.line)
                if a.e.k == "cvwait" and len(set(a.held)) > 1:
                    bad.append("%s waits at line %d with %s held" % (n, a.e.line, ", ".join(show(x) for x in a.held)))
    bad += ["%s and %s take %s and %s in opposite order" % (pairs[(x, y)][0], pairs[(y, x)][0], show(x), show(y)) for x, y in pairs if (y, x) in pairs and x != y]
    S.ck.ob("locks are taken in one order, and never twice", not bad, where(runs["(thread)"][0]), "; ".join(sorted(set(bad))[:3]))


WAITS = ("wait", "wait_for", "wait_until", "get", "join")


def wakeups(S, runs, walks, tasks, flags):
    E, body = S.E, runs["(thread)"][0]
    waits = {}
    for n, ws in walks.items():
        for w in ws:
            for a in w:
                if a.e.k == "cvwait":
                    waits.setdefault((a.e.a[0], a.e.a[1], n, a.e.line), []).append(a)
    S.ck.ob("threads wait for work", bool(waits), where(body), "no wait on a condition variable")
    for (cv, mx, n, line), as_ in sorted(waits.items(), key=lambda x: x[0][3]):
        tag = cv[2].rpartition("::")[2] if cv[0] == "f" else show(cv)
        at = where(body, line)
        S.ck.ob("wait on %s: holds the mutex it gives away" % tag, all(mx in a.held for a in as_), at, "waits without the lock")
        wake, bad = set(), []       # (field, value or "grows") that must wake the thread
        for a in as_:
            pred = a.e.a[2]
            if pred is None:
                if not a.loops:
                    bad.append("a wait without a predicate is not repeated")
                # observations made since the mutex was taken
                since = [k for k in a.e.a[3]]
                got = False
                for k, v in a.e.a[3].items():
                    if k == ("empty", tasks) and v:
                        wake.add((tasks, "grows"))
                        got = True
                    if k[0] == "t" and k[1][0] == "f" and k[1][2] in flags:
                        wake.add((k[1], not v))
                        got = True
                if not got:
                    bad.append("waits whatever the state")
                for l, i in a.loops[-1:]:
                    after = False
                    for e in i.events:
                        after |= e is a.e
                        if after and e.k == "icall" and tasks in set(find_terms(e.a[0], lambda t: t == tasks)):
                            bad.append("takes a task after a wake-up without looking")
            else:
                res = E.predicate(body, pred)
                for fx, b in res:
                    if b is None:
                        bad.append("the predicate may throw")
                for f in flags:
                    t = ("f", THIS, f)
                    for v in (True, False):
                        sub = [b for fx, b in res if fx.get(("t", t)) is v]
                        if sub and all(sub):
                            wake.add((t, v))
                sub = [b for fx, b in res if fx.get(("empty", tasks)) is False]
                if sub and all(sub):
                    wake.add((tasks, "grows"))
                if not wake:
                    raise AnalysisError("the predicate of the wait on %s is not understood" % tag)
        S.ck.ob("wait on %s: looks again after a wake-up" % tag, not bad, at, "; ".join(sorted(set(bad))))
        must = {(t, v) for t, v in wake if v == "grows" or v is True}
        fin = [(t, v) for t, v in must if v is True]
        for t, v in sorted(must, key=repr):
            label = "wait on %s: %s wakes %s" % (tag, "a new task" if v == "grows" else t[2].rpartition("::")[2].strip("_"), "a thread" if v == "grows" else "every thread")
            det, cnt = [], 0
            for m, ws in walks.items():
                if m == "(thread)":
                    continue
                for p, w in zip(runs[m][1], ws):
                    if p.sig != "ret":
                        continue
                    for a in w:
                        e = a.e
                        hit = e.k == "mut" and e.a[0] == tasks and e.a[1] in GROWS if v == "grows" else \
                            e.k == "write" and ("f", e.a[0], e.a[1]) == t and e.a[2] == ("b", True)
                        if not hit:
                            continue
                        cnt += 1
                        ok = False
                        held = mx in a.held
                        for b in w[a.seq + 1:]:
                            if b.e.k == "lock" and b.e.a[0] == mx:
                                held = True
                            if b.e.k == "mut" and b.e.a[0] == cv and (b.e.a[1] == "notify_all" or v == "grows" and b.e.a[1] == "notify_one") and held:
                                ok = True
                        if not ok:
                            ops = [b.e.a[1] for b in w[a.seq + 1:] if b.e.k == "mut" and b.e.a[0] == cv]
                            det.append("%s at line %d: %s" % (m, e.line, "notifies only one thread" if ops == ["notify_one"] else "never notifies" if not ops else
                                                             "the change and the notification are not separated by the mutex, so a thread about to wait misses both"))
            if not cnt:
                det.append("nothing ever does")
            S.ck.ob(label, not det, at, "; ".join(sorted(set(det))[:3]))
        finishing = [f for f in flags if any(e.k == "write" and e.a[1] == f and e.a[2] == ("b", True) for p in runs.get("Finish", (0, []))[1] for e in deep(p.trace))]
        S.ck.ob("wait on %s: ends when the pool is finished" % tag, any(t[2] in finishing for t, v in fin), at,
                "a finished pool leaves the thread waiting; it wakes for %s" % sorted("%s=%s" % (t[2], v) for t, v in must))


def taking(S, runs, walks, tasks):
    fn, ps = runs["(thread)"]
    under, twice, lost = [], [], []
    n = 0
    for w in walks["(thread)"]:
        groups = {}
        for a in w:
            groups.setdefault(id(a.loops[-1][1]) if a.loops else None, []).append(a)
        for g in groups.values():
            calls = [a for a in g if a.e.k == "icall" and find_terms(a.e.a[0], lambda t: t == tasks)]
            other = [a for a in g if a.e.k == "icall" and not find_terms(a.e.a[0], lambda t: t == tasks)]
            pops = [a for a in g if a.e.k == "mut" and a.e.a[0] == tasks and a.e.a[1] in ("pop_front", "pop_back", "erase", "clear", "pop", "swap")]
            n += len(calls)
            for a in calls + other:
                if a.held:
                    under.append("line %d runs a task with %s held" % (a.e.line, ", ".join(show(x) for x in a.held)))
            if len(calls) > 1:
                twice.append("a task is run %d times" % len(calls))
            if calls and len(pops) != 1:
                twice.append("a task is run but stays in the list" if not pops else "one run, %d removals" % len(pops))
            for a in calls:
                el = find_terms(a.e.a[0], lambda t: t[0] in ("at", "front", "back") and t[1] == tasks)
                want = {"pop_front": (("at", tasks, num(0)), ("front", tasks)), "pop_back": (("back", tasks), ("at", tasks, add(("size", tasks), num(1), -1)))}
                for b in pops:
                    if b.e.a[1] in want and el and not any(x in want[b.e.a[1]] for x in el):
                        twice.append("runs one task and removes another")
            valid = None
            for a in g:
                for k, v in a.facts.items():
                    if k[0] == "t" and k[1][0] == "c" and k[1][1].endswith("packaged_task::valid") and find_terms(k[1], lambda t: t == tasks):
                        valid = v
            if pops and not calls and not other and valid is not False:
                lost.append("a task is removed without being run")
    S.ck.ob("tasks run outside the lock", n and not under, where(fn), "; ".join(sorted(set(under))[:2]) or "no task is run")
    S.ck.ob("a task that is taken is removed and run once", not twice, where(fn), "; ".join(sorted(set(twice))[:2]))
    S.ck.ob("no task is lost", not lost, where(fn), "; ".join(sorted(set(lost))[:2]))


def ending(S, F, runs, walks, tasks, flags):
    fn, ps = runs["(thread)"]
    fin_flags = {e.a[1] for p in runs["Finish"][1] for e in deep(p.trace) if e.k == "write" and e.a[2] == ("b", True)} if "Finish" in runs else set()
    bad, unk = [], None
    for p in ps:
        if p.sig != "ret":
            bad.append("the thread may end with an exception")
            continue
        loops = [e.a[0] for e in p.trace if e.k == "loop"]
        exits = [(l, i) for l in loops for i in l.iters if i.sig == "ret"] or [(l, i) for l in loops[-1:] for i in l.iters if i.sig == "brk"]
        for l, i in exits or [(None, None)]:
            fx = dict(p.facts)
            if i is not None:
                fx.update(i.facts)
            empty = fx.get(("empty", tasks))
            done = [fx.get(("t", ("f", THIS, f))) for f in fin_flags]
            if empty is not True:
                bad.append("a thread may end with tasks left" if empty is None or empty is False else "")
            if True not in done:
                bad.append("a thread may end before the pool is finished")
    S.ck.ob("threads end only when finished with no task left", ps and not bad, where(fn), "; ".join(sorted(set(bad))))
    for name in ("Finish",) + tuple(n for n in runs if n.startswith("~")):
        f, fps = runs[name]

        def ok(p):
            w = walk(p.trace, p.facts)
            sets = [a.seq for a in w if a.e.k == "write" and a.e.a[1] in fin_flags and a.e.a[2] == ("b", True)]
            if not sets:
                return "does not mark the pool as finished"
            joined = None
            for e in p.events("loop", True):
                l = e.a[0]
                if l.over[0] == "f" and any(x.k in ("call", "mut") and (x.a[0] if x.k == "call" else x.a[1]).rpartition("::")[2] in WAITS and
                                            (x.a[1] if x.k == "call" else x.a[0])[0] in ("el", "at") for i in l.iters for x in i.events):
                    if not (l.full and l.complete):
                        return "does not wait for every thread"
                    for i in l.iters:
                        if i.sig in (None, "cont") and not any(x.k in ("call", "mut") and (x.a[0] if x.k == "call" else x.a[1]).rpartition("::")[2] in WAITS for x in i.events):
                            return "does not wait for every thread"
                    joined = e
            if joined is None:
                if any(e.k == "mut" and e.a[1] == "clear" for e in p.trace) and False:
                    return None
                return "does not wait for the threads"
            for a in w:
                if a.loops and a.loops[0][0] is joined.a[0] and a.held:
                    return "waits for the threads with %s held" % ", ".join(show(x) for x in a.held)
                if a.loops and a.loops[0][0] is joined.a[0] and a.seq < sets[0]:
                    return "waits before marking the pool as finished"
            for a in w:
                if a.e.k == "mut" and a.e.a[0] == joined.a[0].over and a.e.a[1] == "clear" and not any(
                        b.loops and b.loops[0][0] is joined.a[0] for b in w[:a.seq]):
                    return "forgets the threads before waiting for them"
            return None
        S.each_path("%s: marks the pool as finished and waits for every thread" % name, f, ok)


def entry(S, F, runs, tasks):
    fin = {e.a[1] for p in runs["Finish"][1] for e in deep(p.trace) if e.k == "write" and e.a[2] == ("b", True)} if "Finish" in runs else set()
    if len(fin) != 1:
        S.ck.undecided("Queue and Start: rejected after finish", where(runs["Finish"][0]), "what marks a finished pool is not one flag")
        return
    done = Is(("f", THIS, fin.pop()))
    if "Queue" in runs:
        f = runs["Queue"][0]
        S.throws_iff("Queue: rejects exactly a finished pool", f, done)
        task = P(f, 0)

        def queued(p):
            ins = [e for e in p.events("mut", True) if e.a[0] == tasks and e.a[1] in GROWS]
            if len(ins) != 1:
                return "adds %d tasks" % len(ins)
            futs = [e for e in p.events("mut", True) if e.a[1] == "get_future"]
            if len(futs) != 1:
                raise Unknown("the future comes from somewhere else")
            made = futs[0].a[0]
            if made not in set(find_terms(ins[0].a[2], lambda t: t == made)):
                return "queues something else than the task whose future it returns"
            if futs[0].a[0] not in set(find_terms(p.val, lambda t: t == made)):
                return "returns another future: %s" % show(p.val)[:200]
            return None
        S.each_path("Queue: one task, whose future is returned", f, queued)
    f = runs["Start"][0]
    running = {e.a[1] for p in runs["Start"][1] for e in deep(p.trace) if e.k == "write" and e.a[2] == ("b", True)}
    if len(running) == 1:
        r = ("f", THIS, next(iter(running)))
        S.throws_iff("Start: rejects exactly a running or finished pool", f, Or(Is(r), done))
        if "is_running" in runs:
            S.bool_iff("is_running: what Start sets", runs["is_running"][0], Is(r))
            S.each_path("Finish: the pool is not running afterwards", runs["Finish"][0],
                        lambda p: None if final(p, r) == ("b", False) else "leaves %s" % show(final(p, r) or NULL))
    else:
        S.ck.ob("Start: marks the pool as running", False, where(f), "sets %s" % sorted(running))
    S.each_path("cancel_pending: drops every task that was not taken", runs["cancel_pending"][0],
                lambda p: None if any(e.k == "mut" and e.a[0] == tasks and e.a[1] == "clear" for e in p.trace) or
                any(e.k == "assign" and e.a[0] == tasks for e in p.trace) else "keeps tasks")
