"""Parallel subtasks in the multi-threaded build.  Every function that hands work to fibers, threads or
asynchronous calls is interpreted abstractly with the task model (a started callable takes effect, and
yields its result, where it is awaited).  Per path: (a) the result denotes the operation's block
recursion, exactly as the sequential code is decided (E02), and what is stored in a memo table denotes
its key; (b) every started task is started once, awaited before the function returns, its result taken
once, and no joinable fiber is destroyed; (c) nothing obtained from a thread-bound container
(.local() of a thread-specific cache) is used after a point where the fiber can have moved to another
thread (an await, or a call of a function that can await, by closure over the call graph); (d) a
variable captured by reference outlives the wait for the task."""
from ..cxev import Interp, St, TooHard
from ..terms import *
from ..den import *
from .e02 import opaque_fd, CONST, path_name, recursion, operands
from .e04 import stored
from .e11 import nodes

RA = "work handed to another worker is started, awaited before the function returns, and its result taken once"
RL = "nothing bound to the starting thread is used after a point where the fiber may continue on another thread"
RS = "what a task refers to lives until the task has been awaited"
TASKT = ("packaged_task<", "boost::fibers::fiber", "std::thread", "std::jthread", "boost::fibers::async", "std::async")
WAITC = ("boost::fibers::future", "boost::fibers::shared_future", "boost::fibers::fiber", "boost::fibers::condition_variable", "boost::fibers::mutex",
         "boost::fibers::barrier", "boost::fibers::buffered_channel", "boost::fibers::unbuffered_channel")
WAITN = {"get", "wait", "wait_for", "wait_until", "join", "lock", "push", "pop", "value_pop", "try_lock"}


def hands_out(f):
    for n in nodes(f.get("body") or {}):
        if n.get("k") in ("ctor", "call") and any(w in str(n.get("t", "")) + str((n.get("f") or {}).get("qn", "") if isinstance(n.get("f"), dict) else "") for w in TASKT):
            g = n.get("f")
            q = (g.get("qn") or "") if isinstance(g, dict) else ""
            t = str(n.get("t", ""))
            if n["k"] == "ctor" and t.startswith(("boost::fibers::packaged_task<", "std::packaged_task<", "boost::fibers::fiber", "std::thread", "std::jthread")) and n.get("a"):
                return True
            if q in ("boost::fibers::async", "std::async"):
                return True
    return False


def callee(n):
    f = n.get("f")
    return f if isinstance(f, dict) else None


def waits_here(f):
    for n in nodes(f.get("body") or {}):
        if n.get("k") in ("mcall", "call"):
            g = callee(n)
            if not g:
                continue
            c = str(g.get("clsT") or g.get("cls") or "")
            if c.startswith(WAITC) and g.get("name") in WAITN:
                return True
            if g.get("qn", "").startswith(("boost::this_fiber::yield", "boost::this_fiber::sleep")):
                return True
    return False


def awaiting(U):
    by = {}
    for f in U["funcs"]:
        if f.get("body") is not None:
            by.setdefault(f["qn"], []).append(f)
    aw = {q for q, fs in by.items() if any(waits_here(f) for f in fs)}
    callsof = {q: {callee(n).get("qn") for f in fs for n in nodes(f["body"]) if n.get("k") in ("call", "mcall", "opcall", "ctor") and callee(n)} for q, fs in by.items()}
    ch = True
    while ch:
        ch = False
        for q, cs in callsof.items():
            if q not in aw and cs & aw:
                aw.add(q)
                ch = True
    return aw, by


def uses_local(f):
    for n in nodes(f.get("body") or {}):
        if n.get("k") == "mcall":
            g = callee(n)
            if g and g.get("name") == "local" and "enumerable_thread_specific" in str(g.get("clsT") or g.get("cls") or "") + g.get("qn", ""):
                return True
    return False


def objterm(e):
    return e.args[0] if e.args and isinstance(e.args[0], T) else None


def bound(t):
    """the .local() term a value is bound to, or None"""
    while isinstance(t, T):
        if isT(t, "call") and str(t.args[0]).endswith("::local") and "thread_specific" in str(t.args[0]):
            return t
        if isT(t, "after") and t.args[1] == "this" and isT(t.args[2], "call"):
            t = t.args[2].args[1]
            continue
        if isT(t, "addr") or isT(t, "deref") or isT(t, "f") or isT(t, "i"):
            t = t.args[0]
            continue
        return None
    return None


def thread_bound(ctx, key, wh, log, aw, moved0=()):
    """moved0: .local() terms obtained before an earlier wait"""
    have, stale = {}, set(moved0)
    n = 0
    for e in log:
        if e.kind == "call":
            for a in e.args:
                b = bound(a) if isinstance(a, T) else None
                if b is not None and b in stale:
                    n += 1
                    ctx.bad(key, wh, RL, f"line {e.line}: {e.name.split('::')[-1]}() works on the thread-bound object obtained at line {have.get(b, '?')} although the fiber has waited since")
            if isinstance(e.res, T) and bound(e.res) is e.res:
                have[e.res] = e.line
                ctx.count("thread-bound objects on paths")
        if (e.kind == "call" and e.name in aw) or (e.kind == "task" and e.name in ("await", "get")):
            stale |= set(have)
        if e.kind == "loop" and any(x.kind == "task" and x.name == "await" or x.kind == "call" and x.name in aw for _, _, st in e.x.steps for x in st.log):
            stale |= set(have)
    return have, stale


def typestate(ctx, it, key, wh, tag, v, s):
    spawned, started, awaited, got, done = {}, {}, set(), {}, set()
    owned = {}
    for e in s.log:
        if e.kind == "dtor" and e.args and isT(e.args[0], "running"):
            owned.setdefault(e.args[0].args[0], e.line)
        if e.kind != "task":
            continue
        t = e.args[0]
        if e.name == "spawn":
            spawned[t] = e.line
        elif e.name == "start":
            started[t] = started.get(t, 0) + 1
            if started[t] > 1:
                ctx.bad(key, wh, RA, f"line {e.line}: a task is started twice")
        elif e.name in ("detach", "join"):
            if t in done:
                ctx.bad(key, wh, RA, f"line {e.line}: a fiber or thread is joined or detached twice")
            done.add(t)
            if e.name == "detach" and t in it.rawtasks:
                awaited.add(t)
                ctx.und(key, wh, RA, f"line {e.line}: a detached callable without a future; how it reports back is outside the analysis")
        elif e.name == "await":
            awaited.add(t)
            if t not in started:
                ctx.bad(key, wh, RA, f"line {e.line}: waits for a task that has not been started")
        elif e.name == "get":
            got[t] = got.get(t, 0) + 1
            if got[t] > 1:
                ctx.bad(key, wh, RA, f"line {e.line}: the result of one task is taken twice")
    ctx.count("tasks on paths", len(spawned))
    for t, ln in owned.items():
        if t not in done and not holds(v, mk("running", t)):
            ctx.bad(key, wh, RA, f"line {ln}: a fiber or thread is destroyed neither joined nor detached")
    for t, ln in spawned.items():
        if holds(v, mk("future", t)) or holds(v, mk("running", t)) or t in awaited and t in started:
            ctx.ok(key, wh, RA)
        elif t not in started:
            ctx.bad(key, wh, RA, f"line {ln}: a task is created and never started")
        else:
            ctx.bad(key, wh, RA, f"line {ln}: the task is still unfinished when the function leaves by {tag}")
    return len(spawned)


def holds(v, x):
    if v is x:
        return True
    if isinstance(v, T):
        return any(holds(a, x) for a in v.args)
    if isinstance(v, tuple):
        return any(holds(a, x) for a in v)
    return False


def blocks(body, out, chain=()):
    """decl id -> chain of enclosing compound statements; await node -> chain"""
    if isinstance(body, list):
        for b in body:
            blocks(b, out, chain)
        return
    if not isinstance(body, dict):
        return
    k = body.get("k")
    if k == "block" or k == "for" or k in ("rfor", "forrange") or k == "while":
        chain = chain + (id(body),)
    if k == "lambda":
        out["lam"].append((body, chain))
    if k == "decl":
        for v in body.get("v") or []:
            if isinstance(v, dict) and v.get("d") is not None:
                out["decl"].setdefault(v["d"], chain)
    if k in ("mcall", "call"):
        g = callee(body)
        c = str((g or {}).get("clsT") or (g or {}).get("cls") or "")
        if g and g.get("name") in ("get", "wait", "join") and c.startswith(("boost::fibers::", "std::future", "std::thread", "std::shared_future")):
            out["await"].append((body.get("l"), chain))
    for x in body.values():
        if isinstance(x, (dict, list)):
            blocks(x, out, chain)


def captures(ctx, f, key, wh):
    out = {"decl": {}, "lam": [], "await": []}
    blocks(f["body"], out)
    n = 0
    for lam, chain in out["lam"]:
        for c in lam.get("caps") or []:
            if not isinstance(c, dict) or not c.get("ref"):
                continue
            d = c.get("d")
            dc = out["decl"].get(d)
            if dc is None:
                continue
            n += 1
            late = [l for l, ac in out["await"] if not (len(ac) >= len(dc) and ac[:len(dc)] == dc)]
            if out["await"] and len(late) == len(out["await"]):
                ctx.bad(key, wh, RS, f"line {lam.get('l')}: a task refers to {c.get('n', 'a local variable')} of an inner block, and is awaited at line {late[0]} outside that block")
            else:
                ctx.ok(key, wh, RS)
    ctx.count("variables captured by reference", n)


KIND = {"mm_add2": ("add", "m", "m"), "vv_add2": ("add", "v", "v"), "mm_multiply2": ("mul", "m", "m"), "mv_multiply2": ("mul", "m", "v"),
        "mm_kronecker2": ("kron", "m", "m"), "vv_kronecker2": ("kron", "v", "v")}


def check(ctx):
    U = ctx.unit("mt")
    aw, by = awaiting(U)
    ctx.count("functions that can wait", len(aw))
    fs = [f for f in U["funcs"] if f.get("body") is not None and not f["file"].startswith(("/usr", "/opt")) and not f["file"].endswith(("task.cpp", "task.h"))
          and (hands_out(f) or uses_local(f) or f["qn"] in KIND)]
    if not any(hands_out(f) for f in fs):
        ctx.und("tasks", "src/dd.cpp", RA, "no function hands work to other workers")
    # a helper that starts tasks for its caller is judged in the caller
    via = set()
    while True:
        hs = {f["qn"] for f in fs if f["qn"] not in KIND and (f["qn"] in via or hands_out(f))}
        cs = {h: [q for q, gs in by.items() if q != h and any(h == callee(n).get("qn") for g in gs for n in nodes(g["body"]) if n.get("k") in ("call", "mcall") and callee(n))] for h in hs}
        up = {h for h in hs if cs[h]}
        if not up:
            break
        have = {f["qn"] for f in fs}
        via |= {q for h in up for q in cs[h]}
        fs = [f for f in fs if f["qn"] not in up] + [g for q in {q for h in up for q in cs[h]} - have for g in by[q]]
    own = {f["qn"] for f in fs if hands_out(f)}
    for f in sorted(fs, key=lambda f: f["l"]):
        name = f["qn"]
        wh = f"{f['file'].split('/repo/')[-1]}:{f['l']} {name} [mt]"
        ctx.saw(wh)
        key = name
        ctx.guard(key, wh, RS, captures, ctx, f, key, wh)

        def one():
            it = Interp(U, opaque=opaque_fd, const_globals=CONST)
            it.axiom = terminal_level
            it.no_merge = True
            if name in KIND:
                args = operands(it, f)
            else:
                args = [sym(f"a{i}") for i in range(len(f["ps"]))]
            rs = it.run(f, args, **({"this": sym("this")} if f.get("cls") else {}))
            nt = 0
            for t, v, s in rs:
                if t == "abort":
                    continue
                ctx.count("paths")
                nt += typestate(ctx, it, key, wh, t, v, s)
                thread_bound(ctx, key, wh, s.log, aw)
                ctx.ok(key + ":local", wh, RL)
            for L in it.loops:
                for t, v, s in L.steps:
                    nt += typestate(ctx, it, key, wh, t, v, s)
                    thread_bound(ctx, key, wh, s.log, aw)
                    # a round that waits makes everything obtained before the loop stale for the next
                    if any(x.kind == "task" and x.name == "await" or x.kind == "call" and x.name in aw for x in s.log):
                        pre = {b for x in L.head.log if x.kind == "call" for b in [bound(x.res) if isinstance(x.res, T) else None] if b is not None}
                        thread_bound(ctx, key, wh, s.log, aw, pre)
            if f['qn'] in own and not nt:
                ctx.und(key, wh, RA, "no path starts a task")
        ctx.guard(key, wh, RA, one)
    it = Interp(U, opaque=opaque_fd, const_globals=CONST)
    it.axiom = terminal_level
    for f in fs:
        n = f["qn"]
        if n in KIND:
            recursion(ctx, it, n, *KIND[n], tag=" [mt]")
            if KIND[n][0] != "kron" and uses_local(f):
                stored(ctx, it, n, *KIND[n])
