"""The worker pool's shutdown.  The pool's constructor, the bodies of the threads it starts and its
destructor are interpreted abstractly with models of threads, locks and condition variables.  Decided:
a worker waits for a condition on the pool's state (a predicate, or a loop re-testing it), so a signal
given before it waits is not lost; the shutdown makes that very condition true while holding the mutex
the worker waits with, signals all waiters of the same condition variable afterwards, leaves the
condition true, does not hold that mutex while joining, and joins every thread that was started; each
pool starts from scheduler state of its own (what earlier pools left is overwritten before the first
thread starts, for the same number of participants that then register); starting and stopping through
the Python binding keeps exactly one pool alive."""
from ..cxev import Interp, St, TooHard, Ref
from ..terms import *
from ..facts import Facts
from .e11 import nodes

RW = "a waiting thread re-tests a condition, so a signal given before it waits is not missed"
RS = "the shutdown makes the awaited condition true under the waiters' mutex and signals all of them afterwards"
RJ = "the shutdown returns only after joining every started thread"
RH = "the shutdown does not hold the workers' mutex while joining them"
RP = "a pool starts from its own scheduler state"
RB = "one pool at a time: started once, stopped once"
THREADS = ("std::thread", "std::jthread", "boost::fibers::fiber")


def callee(n):
    f = n.get("f")
    return f if isinstance(f, dict) else None


def lvs(lv):
    root, path = lv
    return (root[1] if root[0] in ("h", "g") else root, tuple(p[1] for p in path))


def wh(f):
    return f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['qn']}"


def flag_terms(it, lv):
    return it.read(St(), lv)


def sub1(t, old, new):
    return subst(t, lambda x: new if x is old else None)


def evalp(it, P, vals):
    """three-valued value of a boolean term under known values of some reads"""
    F = Facts()
    for t, v in vals:
        if isT(v, "true") or isT(v, "false"):
            F.assume(t, isT(v, "true"))
        else:
            F.assume(beq(t, v), True)
    return F.decide(P)


def condition(log, head=None):
    """(event, P as list of (term, polarity) meaning 'may leave', kind)"""


class Wait:
    def __init__(self, e, preds, locked, where):
        self.e, self.preds, self.locked, self.where = e, preds, locked, where


def held_at(log):
    held = []
    for e in log:
        if e.kind == "lock":
            if e.name == "acquire":
                held.append(lvs(e.x))
            elif lvs(e.x) in held:
                held.remove(lvs(e.x))
        yield e, tuple(held)


def waits_of(it, rs, nl, where):
    out = []
    seen = set()
    for L in it.loops[nl:]:
        for tag, v, s in L.steps:
            start = next((i for i, e in enumerate(s.log) if e.kind == "loop" and e.x is L), 0)
            for i, (e, held) in enumerate(held_at(s.log)):
                if i < start or e.kind != "wait" or id(e.node) in seen:
                    continue
                if e.res is None:
                    seen.add(id(e.node))
                    n0 = len(L.head.facts.order)
                    lits = [(unhv(t), b) for t, b in s.facts.order[n0:]]
                    lits += [(unhv(t), b) for t, b in s.facts.order[:n0] if ("hv(" in show(t))]
                    out.append(Wait(e, [(t, not b) for t, b in lits], held, where))
    for t, v, s in rs:
        for e, held in held_at(s.log):
            if e.kind == "wait" and id(e.node) not in seen:
                seen.add(id(e.node))
                out.append(Wait(e, [(e.res, True)] if e.res is not None else [], held, where))
    for L in it.loops[nl:]:
        for tag, v, s in L.steps:
            for e, held in held_at(s.log):
                if e.kind == "wait" and id(e.node) not in seen:
                    seen.add(id(e.node))
                    out.append(Wait(e, [(e.res, True)] if e.res is not None else [], held, where))
    return out


def unhv(t):
    """a value read in some round of a loop is the value of the variable itself"""
    return subst(t, lambda x: unhv(x.args[1]) if isT(x, "hv") and isinstance(x.args[1], T) else None)


def reads_state(t):
    s = show(t)
    return "deref(" in s or "glob(" in s


def loop_bounds(it, L):
    """('range', container) or ('count', start, end) or None"""
    r = getattr(L, "range", None)
    if r is not None:
        return ("range", r)
    n = L.node
    if n.get("k") != "for":
        return None
    try:
        v = n["init"]["v"][0]
        a = v["init"]
        c, inc = n["c"], n["inc"]
        if c["op"] not in ("<", "!=") or inc.get("op") != "++" or a.get("k") != "int":
            return None
        b = c["b"]
        while b.get("k") == "cast":
            b = b["e"]
        if b.get("k") == "mcall" and b["f"]["name"] == "size":
            m = b["b"]
            return ("count", int(a["v"]), ("size", m.get("n")))
        if b.get("k") == "mem":
            return ("count", int(a["v"]), ("mem", b.get("n")))
        if b.get("k") == "ref":
            return ("count", int(a["v"]), ("var", b.get("n")))
        if b.get("k") == "bin" or b.get("k") == "int":
            return ("count", int(a["v"]), ("expr", repr(sorted((k, str(v)) for k, v in b.items() if k != "l"))))
    except (KeyError, IndexError, TypeError, ValueError):
        pass
    return None


def pool(ctx, U, cls, ctors, dtor):
    key = cls
    it = Interp(U, opaque=lambda fd: False, const_globals=())
    it.no_merge = True
    this = sym("this")
    waits = []
    started = []
    logs = []

    def construct():
        for c in ctors:
            w = wh(c)
            ctx.saw(w)
            n0 = len(it.loops)
            rs = it.run(c, [sym(p["n"]) for p in c["ps"]], this=this)
            allst = [s for t, v, s in rs] + [s for L in it.loops[n0:] for t, v, s in L.steps]
            logs.append((c, rs, it.loops[n0:]))
            for s in allst:
                for e in s.log:
                    if e.kind == "task" and e.name == "start":
                        started.append((e, s))
            ctx.count("paths", len(rs))
        todo, seen = list(started), set()
        for e, s in todo:
            t = e.args[0]
            if id(e.node) in seen:
                continue
            seen.add(id(e.node))
            nl = len(it.loops)
            s2 = St()
            body = it.apply(it.tasks[t], [], s2, e.node)
            w = f"{dtor['file'].split('/repo/')[-1]}:{e.line} {cls} worker"
            ctx.saw(w)
            rs = [("ret", v, s) for s, v in body]
            waits.extend(waits_of(it, rs, nl, w))
        ctx.count("threads started (sites)", len(seen))
    ctx.guard(key, wh(dtor), RW, construct)
    if not started:
        ctx.und(key, wh(dtor), RW, "no thread start was found in the constructor")
        return
    if not waits:
        ctx.und(key, wh(dtor), RW, "the workers do not wait on a condition variable")
    good = []
    for w in waits:
        k = f"{key}:wait"
        ps = [p for p in w.preds if reads_state(p[0])]
        if not w.preds:
            ctx.bad(k, w.where, RW, f"line {w.e.line}: waits without a condition: a signal given before this point is missed and the worker never ends")
            continue
        if not ps:
            ctx.und(k, w.where, RW, f"line {w.e.line}: the condition does not depend on shared state that is visible here: {[show(p[0])[:80] for p in w.preds]}")
            continue
        ctx.ok(k, w.where, RW)
        good.append((w, ps))

    def stop():
        w = wh(dtor)
        ctx.saw(w)
        n0 = len(it.loops)
        rs = it.run(dtor, [], this=this)
        loops = it.loops[n0:]
        if any(t == "abort" for t, v, s in rs) and not any(t != "abort" for t, v, s in rs):
            ctx.und(key, w, RS, "the destructor does not return")
        paths = [(t, v, s) for t, v, s in rs if t != "abort"]
        ctx.count("paths", len(paths))
        joins = [(L, t, s, [e for e in s.log if e.kind == "call" and e.name in ("std::thread::join",)]) for L in loops for t, v, s in L.steps]
        for t, v, s in paths:
            for wt, ps in good:
                signal(ctx, it, key, w, s.log, wt, ps)
        for L, t, s, js in joins:
            if not js:
                continue
            for wt, ps in good:
                m = lvs(mutex_of(wt)) if mutex_of(wt) else None
                for e, held in held_at(s.log):
                    if e.kind == "call" and e.name == "std::thread::join" and m is not None:
                        ctx.check(m not in held, key + ":held", w, RH, f"line {e.line}: joins the workers while holding the mutex they need to leave their wait")
                # the signal comes before the join
                i = next(i for i, e in enumerate(s.log) if e.kind == "call" and e.name == "std::thread::join")
                signal(ctx, it, key, w, s.log[:i], wt, ps, " before the join")
        # every started thread is joined
        jl = [L for L in loops if any(js for L2, t, s, js in joins if L2 is L)]
        every = nodes(dtor["body"])
        names = {callee(n).get("name") for f in reach(U, dtor) for n in nodes(f.get("body") or {}) if n.get("k") in ("mcall", "call") and callee(n)}
        if not jl:
            direct = [e for t, v, s in paths for e in s.log if e.kind == "call" and e.name == "std::thread::join"]
            if direct:
                ctx.und(key + ":join", w, RJ, "threads are joined outside a loop")
            elif "detach" in names:
                ctx.bad(key + ":join", w, RJ, "the destructor detaches the workers instead of waiting for them to end")
            elif any("jthread" in str(e.node.get("t", "")) + str(e.node.get("cls", "")) for e, s in started):
                ctx.und(key + ":join", w, RJ, "threads that join themselves")
            else:
                ctx.bad(key + ":join", w, RJ, "the destructor joins no worker")
        for L in jl:
            for L2, t, s, js in joins:
                if L2 is not L:
                    continue
                if js:
                    ctx.ok(key + ":join", w, RJ)
                    continue
                why = [(c, b) for c, b in s.facts.order if "joinable" in show(c) or "null" in show(c)]
                if any((not b and "joinable" in show(c)) or (b and "eq(" in show(c)) for c, b in why):
                    ctx.ok(key + ":join", w, RJ)
                elif t in ("next", "continue", "break"):
                    ctx.bad(key + ":join", w, RJ, f"line {L.line}: a round of the loop ends without joining its worker: " + "; ".join(f"{show(c)[-80:]}={b}" for c, b in s.facts.order[-2:]))
            jb = loop_bounds(it, L)
            sb = [loop_bounds(it, L3) for c, rs3, ls in logs for L3 in ls if any(e.kind == "task" and e.name == "start" for t, v, s in L3.steps for e in s.log[prelen(s, L3):])]
            compare(ctx, key, w, jb, sb)
    ctx.guard(key, wh(dtor), RS, stop)
    fresh(ctx, U, it, key, logs, started)


def prelen(s, L):
    return next((i for i, e in enumerate(s.log) if e.kind == "loop" and e.x is L), 0)


def compare(ctx, key, w, jb, sb):
    if jb is None or not sb or any(b is None for b in sb):
        ctx.und(key + ":all", w, RJ, f"the loops that start and join the workers are outside the analysis ({jb}, {sb})")
        return
    for b in sb:
        if jb[0] == "range":
            ok = True if b[0] == "range" or b[1] == 0 else False
            ctx.check(ok, key + ":all", w, RJ, f"threads are started from index {b[1] if b[0] != 'range' else 0} on but joined from the first element")
        elif b[0] == "range":
            ctx.check(True if jb[1] == 0 and jb[2][0] == "size" else False if jb[1] != 0 else None, key + ":all", w, RJ, "the join loop does not cover all workers")
        else:
            if jb[1] != b[1]:
                ctx.bad(key + ":all", w, RJ, f"started from index {b[1]}, joined from index {jb[1]}")
            elif jb[2] == b[2] or "size" in (jb[2][0], b[2][0]) and {jb[2][0], b[2][0]} <= {"size", "mem"}:
                ctx.ok(key + ":all", w, RJ)
            elif jb[2][0] == "expr" or b[2][0] == "expr":
                ctx.bad(key + ":all", w, RJ, f"started up to {b[2][:2]}, joined up to {jb[2][:2]}")
            else:
                ctx.und(key + ":all", w, RJ, f"started up to {b[2]}, joined up to {jb[2]}")


def mutex_of(w):
    g = w.e.args[0]
    return (g.args[0], g.args[1]) if isT(g, "lockof") else None


def signal(ctx, it, key, w, log, wt, ps, extra=""):
    k = key + ":signal"
    m = mutex_of(wt)
    C = lvs(wt.e.x)
    state = {}
    true_at = None
    notified = None
    one = None
    unlocked = None
    entered = set()
    for i, (e, held) in enumerate(held_at(log)):
        for h in held:
            entered.add(h)
        if e.kind == "write" and e.x is not None and e.x[0][0] in ("h", "g"):
            v = e.res
            r = flag_terms(it, e.x)
            if not any(r in allterms(p[0]) for p in ps):
                continue
            state[r] = v
            res = value(it, ps, state)
            if res is False and true_at is not None:
                ctx.bad(k, w, RS, f"line {e.line}: the stop condition is made false again{extra}")
                return
            if res is not False and true_at is None:
                if res is None:
                    ctx.und(k, w, RS, f"line {e.line}: cannot tell whether the condition becomes true")
                    return
                true_at, notified = e, None
                if m is not None and lvs(m) not in held:
                    unlocked = e
        elif e.kind == "call" and e.obj is not None and e.name.endswith(("::notify_all", "::notify_one")):
            if lvs(it.canon(St(), e.obj)) == C and true_at is not None:
                if e.name.endswith("notify_one"):
                    one = e
                else:
                    notified = e
        elif e.kind == "lock" and e.name in ("leave", "release") and m is not None and lvs(e.x) == lvs(m) and unlocked is not None and notified is None:
            # taking the mutex after the write and before the signal closes the gap
            unlocked = None
        elif e.kind == "call" and e.name in STORES and e.obj is not None:
            r = flag_terms(it, it.canon(St(), e.obj))
            if any(show(r) in show(p[0]) for p in ps):
                a = next((x for x in e.args[1:] if isinstance(x, T)), None)
                lit = isT(a, "true")
                pos = [b for p, b in ps if "atomic" in show(p) or show(r) in show(p)]
                if a is None or not (isT(a, "true") or isT(a, "false")) or len(pos) != 1:
                    ctx.und(k, w, RS, f"line {e.line}: cannot tell whether the condition becomes true")
                    return
                if lit == pos[0]:
                    true_at, notified = e, None
                    if m is not None and lvs(m) not in held:
                        unlocked = e
                elif true_at is not None:
                    ctx.bad(k, w, RS, f"line {e.line}: the stop condition is made false again{extra}")
                    return
    if true_at is None:
        ctx.bad(k, w, RS, f"the condition the workers wait for ({'; '.join(show(p[0])[:60] for p in ps)}) is not made true{extra}")
    elif unlocked is not None:
        ctx.bad(k, w, RS, f"line {unlocked.line}: the stop condition is set without holding the mutex the workers wait with: a worker between its test and its wait misses the signal")
    elif notified is None:
        ctx.bad(k, w, RS, f"after the condition is set (line {true_at.line}) the waiting workers are not all signalled{extra}" + (f" (line {one.line} wakes only one)" if one else ""))
    else:
        ctx.ok(k, w, RS)


STORES = {"std::atomic<bool>::store", "std::atomic<bool>::operator=", "std::__atomic_base<bool>::store", "std::atomic<bool>::exchange", "std::atomic<int>::store"}


def allterms(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T) and t not in acc:
        acc.add(t)
        if t.op == "poly":
            for a in atoms(t):
                allterms(a, acc)
        for a in t.args:
            if isinstance(a, T):
                allterms(a, acc)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        allterms(b, acc)
    return acc


def value(it, ps, state):
    """may the wait end: any disjunct with the wanted polarity"""
    out = []
    for P, pol in ps:
        r = evalp(it, P, list(state.items()))
        out.append(None if r is None else r == pol)
    if any(r is True for r in out):
        return True
    if all(r is False for r in out):
        return False
    return None


def reach(U, f):
    by = {}
    for g in U["funcs"]:
        if g.get("body") is not None and "/repo" in g["file"] or g["file"].startswith(("src/", "include/")):
            by.setdefault(g["qn"], g)
    out, todo = [f], [f]
    while todo:
        g = todo.pop()
        for n in nodes(g.get("body") or {}):
            c = callee(n)
            if c and c.get("qn") in by and by[c["qn"]] not in out:
                out.append(by[c["qn"]])
                todo.append(by[c["qn"]])
    return out


def fresh(ctx, U, it, key, logs, started):
    """static state of the scheduling algorithm the threads register with"""
    algs = {}
    for f in U["funcs"]:
        if f.get("ctor") and f.get("body") is not None and not f.get("implicit") and "algo::" in f["qn"] and not f["file"].startswith("/usr"):
            algs.setdefault(f["cls"] if f.get("cls") else f["qn"].rsplit("::", 1)[0], []).append(f)
    for a, cs in algs.items():
        w = wh(cs[0])
        ctx.saw(w)
        names = set()
        for f in cs + [g for g in U["funcs"] if g.get("cls") == a and g.get("body") is not None and not g.get("ctor") and not g.get("static")]:
            for n in nodes({"b": f["body"], "i": f.get("inits") or []}):
                if n.get("k") == "ref" and n.get("g") and not str(n.get("t", "")).startswith("const "):
                    names.add(n["g"])
        names = {n for n in names if str(n).startswith(a.split("<")[0])}
        ctx.count("static scheduler variables", len(names))
        if not names:
            ctx.und(key + ":state", w, RP, "the scheduler keeps no static state that is visible here")
        for c, rs, ls in logs:
            for L in ls:
                for t, v, s in L.steps:
                    i = next((i for i, e in enumerate(s.log) if e.kind == "task" and e.name == "start"), None)
                    if i is None or i < prelen(s, L):
                        continue
                    set_ = {e.x[0][1] for e in s.log[:i] if e.kind == "write" and e.x and e.x[0][0] == "g" and not e.x[1]}
                    for n in sorted(names):
                        ctx.check(n in set_, key + ":state", wh(c), RP, f"{n} keeps the value an earlier pool left when the first thread of a new pool starts")


def binding(ctx, U):
    """starting and stopping through the binding"""
    fs = {f["name"]: f for f in U["funcs"] if f.get("body") is not None and f["file"].endswith("bindings.cpp")}
    makers = [f for f in fs.values() if any(n.get("k") == "new" and "Scheduler" in str(n.get("t", "")) for n in nodes(f["body"]))]
    killers = [f for f in fs.values() if any(n.get("k") == "delete" and "Scheduler" in str((n.get("e") or {}).get("t", "")) for n in nodes(f["body"]))]
    if not makers or not killers:
        ctx.und("binding", "qdd/bindings.cpp", RB, "no function starts or stops a Scheduler through a plain pointer")
        return
    it = Interp(U, opaque=lambda fd: fd.get("cls") == "Scheduler" or fd["qn"].startswith("Scheduler::"), const_globals=())
    it.no_merge = True
    for f in makers + killers:
        w = wh(f)
        ctx.saw(w)

        def one():
            rs = it.run(f, [sym(p["n"]) for p in f["ps"]])
            for t, v, s in rs:
                if t == "abort":
                    continue
                ctx.count("paths")
                live = None   # unknown whether a pool exists at entry
                dead = False
                ptr = None
                for e in s.log:
                    if e.kind == "delete" and isinstance(e.args[0], T):
                        if dead:
                            ctx.bad("binding", w, RB, f"line {e.line}: the pool is stopped twice on one path")
                        dead, live = True, False
                    if e.kind == "new" and "Scheduler" in str(e.name):
                        live, dead = True, False
                facts = [(show(c), b) for c, b in s.facts.order]
                guard = {"mt": [b for c, b in s.facts.order if isT(c, "glob")]}
                flagw = [e for e in s.log if e.kind == "write" and e.x and e.x[0][0] == "g" and (isT(e.res, "true") or isT(e.res, "false"))]
                if any(e.kind == "delete" for e in s.log):
                    # stopping happens only when the flag says a pool is running, and the flag is cleared
                    on = [c for c, b in s.facts.order if b and isT(c, "glob")]
                    names = {c.args[0] for c in on}
                    ctx.check(bool(on) or any(isT(c, "eq") and not b and "null" in show(c) for c, b in s.facts.order), "binding", w, RB, "the pool is deleted without having tested that one is running")
                    for n in names:
                        last = [e for e in s.log if e.kind == "write" and e.x and e.x[0][0] == "g" and e.x[0][1] == n]
                        made = any(e.kind == "new" and "Scheduler" in str(e.name) for e in s.log)
                        if last:
                            ctx.check(isT(last[-1].res, "true") == made, "binding", w, RB, f"{n} does not tell afterwards whether a pool is running")
                        else:
                            ctx.bad("binding", w, RB, f"{n} still says that a pool is running after it was deleted")
                elif any(e.kind == "new" and "Scheduler" in str(e.name) for e in s.log):
                    off = [c for c, b in s.facts.order if not b and isT(c, "glob")]
                    nul = any(isT(c, "eq") and b and "null" in show(c) for c, b in s.facts.order)
                    ctx.check(bool(off) or nul, "binding", w, RB, "a new pool is started without having tested that none is running")
                    for c in off:
                        n = c.args[0]
                        last = [e for e in s.log if e.kind == "write" and e.x and e.x[0][0] == "g" and e.x[0][1] == n]
                        ctx.check(bool(last) and isT(last[-1].res, "true"), "binding", w, RB, f"{n} does not say that a pool is running after one was started")
                else:
                    ctx.ok("binding", w, RB)
        ctx.guard("binding", w, RB, one)


def others(ctx, U):
    """every other wait on a condition variable: predicate, and a notifier that sets it under the mutex"""
    it = Interp(U, opaque=lambda fd: False, const_globals=())
    it.no_merge = True
    cand = [f for f in U["funcs"] if f.get("body") is not None and not f["file"].startswith("/usr") and
            any(callee(n) and n.get("k") == "mcall" and callee(n).get("name", "").startswith("wait") and "condition_variable" in str(callee(n).get("cls", "")) for n in nodes(f["body"]))]
    for f in cand:
        w = wh(f)
        ctx.saw(w)

        def one():
            n0 = len(it.loops)
            rs = it.run(f, [sym(p["n"]) for p in f["ps"]], **({"this": sym("this")} if f.get("cls") else {}))
            rs = [r for r in rs if r[0] != "abort"]
            for wt in waits_of(it, rs, n0, w):
                ps = [p for p in wt.preds if reads_state(p[0])]
                ctx.check(bool(wt.preds) or None, f["name"] + ":wait", w, RW, f"line {wt.e.line}: waits without a condition")
                C = lvs(wt.e.x)
                for g in U["funcs"]:
                    if g.get("body") is None or g["file"].startswith("/usr") or g.get("cls") != f.get("cls") or g is f:
                        continue
                    if not any(callee(n) and callee(n).get("name", "").startswith("notify") and "condition_variable" in str(callee(n).get("cls", "")) for n in nodes(g["body"])):
                        continue
                    wg = wh(g)
                    ctx.saw(wg)
                    for t, v, s in it.run(g, [sym(p["n"]) for p in g["ps"]], this=sym("this")):
                        if any(e.kind == "call" and "::notify_" in e.name and lvs(it.canon(St(), e.obj)) == C for e in s.log if e.obj is not None or e.kind != "call"):
                            if ps:
                                signal(ctx, it, f["name"], wg, s.log, wt, ps)
        ctx.guard(f["name"] + ":wait", w, RW, one)


def check(ctx):
    U = ctx.unit("mtt")
    pools = {}
    for f in U["funcs"]:
        if f.get("body") is None or f["file"].startswith("/usr"):
            continue
        if f.get("cls") and any("std::thread" == str(n.get("t", "")) and n.get("k") == "ctor" and n.get("a") or (n.get("k") == "mcall" and callee(n) and callee(n).get("cls") == "std::thread" and callee(n).get("name") == "join") for n in nodes(f["body"])):
            pools.setdefault(f["cls"], []).append(f)
    n = 0
    for c in sorted(pools):
        ctors = [f for f in U["funcs"] if f["qn"] == c + "::" + c.split("::")[-1] and f.get("body") is not None and not f.get("implicit") and f.get("ctor")]
        dt = [f for f in U["funcs"] if f["qn"] == c + "::~" + c.split("::")[-1] and f.get("body") is not None and not f.get("implicit")]
        if ctors and dt:
            n += 1
            pool(ctx, U, c, ctors, dt[0])
    if not n:
        ctx.und("pool", "src/task.cpp", RS, "no class that starts threads in its constructor and ends them in its destructor")
    ctx.guard("others", "src/task.cpp", RW, others, ctx, U)
    ctx.guard("binding", "qdd/bindings.cpp", RB, binding, ctx, ctx.unit("mtb"))
