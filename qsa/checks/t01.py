"""Lock typestate of the shared node table: on every abstract path of every function that touches a
slot, reads and writes of the slot lie between acquiring that slot's own flag (the path knows that
test_and_set returned false) and clearing it, sessions are balanced at every exit and in every loop
step, and a slot is only written in the session that read it.  Functions without locking must not be
reachable from work that runs on other workers."""
from ..cxev import Interp
from ..terms import *
from .e11 import nodes

RL = "a slot of the node table is read and written only while its own lock is held"
RU = "the lock is given back exactly once on every way out"
RC = "the slot is written only in the session that compared its chain"
RO = "acquiring orders later accesses after it, releasing orders earlier ones before it"
RP = "code that touches the table without its lock is not run by parallel workers"
SLOT = "NodeSlot"


def touches(fd):
    for n in nodes(fd.get("body") or {}):
        if n.get("k") == "mem" and SLOT in str(n.get("b", {}).get("t", "")):
            return True
        if n.get("k") == "mem" and n.get("n") == "_table":
            return True
    return False


def calls(fd):
    for n in nodes(fd.get("body") or {}):
        f = n.get("f")
        if n.get("k") in ("call", "mcall", "opcall", "ctor") and isinstance(f, dict):
            yield f
        if n.get("k") == "fnref":
            yield n.get("f") if isinstance(n.get("f"), dict) else n


def slot_of(lv):
    root, path = lv
    for i in range(len(path) - 1, -1, -1):
        if path[i][0] == "f" and SLOT in str(path[i][2] if len(path) > 2 or len(path[i]) > 2 else ""):
            return (root, path[:i]), path[i][1]
    return None, None


ACQ, REL = {"test_and_set"}, {"clear"}


def replay(ctx, key, wh, tag, s, start=()):
    """-> list of held slots at the end; reports violations"""
    held = list(start)
    seen, since, walked = {}, {}, {}
    n = 0
    lockname = None
    for e in s.log:
        if e.kind == "call" and e.obj is not None and e.name.startswith("std::atomic_flag::"):
            sl, fld = slot_of(e.obj)
            nm = e.name.split("::")[-1]
            order = cint(e.args[1]) if len(e.args) > 1 and isinstance(e.args[1], T) else 5
            if sl is None:
                continue
            if nm == "test_and_set":
                d = s.facts.decide(e.res) if isinstance(e.res, T) else None
                if d is False:
                    if sl in held:
                        ctx.bad(key, wh, RU, f"line {e.line}: the lock is taken while already held")
                    held.append(sl)
                    seen[sl] = False
                    since[sl], walked[sl] = len(e.facts), False
                    ctx.check(order in (1, 2, 4, 5), key, wh, RO, f"line {e.line}: acquired with memory order {order}")
            elif nm == "clear":
                if sl not in held:
                    ctx.bad(key, wh, RU, f"line {e.line}: a lock that is not held is released")
                else:
                    held.remove(sl)
                ctx.check(order in (3, 4, 5), key, wh, RO, f"line {e.line}: released with memory order {order}")
        elif e.kind == "loop":
            if any("equal_to" in show(c) for _, _, x in e.x.steps for c, _ in x.facts.order):
                for sl in held:
                    walked[sl] = True
        elif e.kind in ("read", "write"):
            sl, fld = slot_of(e.x)
            if sl is None or fld != "node":
                continue
            n += 1
            if sl not in held:
                other = " (another slot's lock is held)" if held else ""
                ctx.bad(key, wh, RL, f"{'line %d: ' % e.line if e.line else ''}the slot is {e.kind} without holding its lock{other}")
            elif e.kind == "read":
                seen[sl] = True
            elif not seen.get(sl):
                ctx.bad(key, wh, RC, f"line {e.line}: the slot is written in a session that has not read it")
            elif sl in since and not walked[sl] and not any(b and isT(c, "eq") and any(isT(a, "null") for a in c.args) for c, b in e.facts[since[sl]:]):
                ctx.bad(key, wh, RC, f"line {e.line}: the slot is written in a session that has not compared the nodes of its chain")
    ctx.count("slot accesses on paths", n)
    return held, n


def check(ctx):
    U = ctx.unit("mt")
    byid = {}
    for f in U["funcs"]:
        byid.setdefault(f["qn"], f)
    tf = [f for f in U["funcs"] if f.get("body") is not None and f["file"].endswith("table.hpp") and touches(f) and "CHashTable<" in f["qn"]]
    if not tf:
        ctx.und("table", "include/table.hpp", RL, "no function touches a slot of the node table")
        return
    # work that may run on other workers: whatever is handed to a task
    work, todo = set(), []
    for f in U["funcs"]:
        for n in nodes(f.get("body") or {}):
            if n.get("k") in ("ctor", "call", "other") and any(w in str(n.get("t", "")) + str((n.get("f") or {}).get("qn", "")) for w in ("packaged_task", "fiber", "std::bind", "std::thread", "std::async", "boost::fibers::async")):
                for m in nodes(n):
                    if m.get("k") == "fnref":
                        q = (m.get("f") or {}).get("qn") if isinstance(m.get("f"), dict) else m.get("qn") or m.get("n")
                        if q in byid and q not in work:
                            work.add(q)
                            todo.append(q)
                    if m.get("k") == "lambda":
                        todo.append(m)
    ctx.count("functions handed to tasks", len(work))
    if not work:
        ctx.und("tasks", "src/dd.cpp", RP, "no function handed to a task was found")
    while todo:
        q = todo.pop()
        for g in calls(byid[q] if isinstance(q, str) else {"body": q}):
            n = g.get("qn")
            if n in byid and n not in work:
                work.add(n)
                todo.append(n)
    ctx.count("functions reachable from tasks", len(work))
    for f in sorted(tf, key=lambda f: f["qn"]):
        wh = f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['qn']}"
        ctx.saw(wh)
        key = f["name"]

        def one():
            it = Interp(U, opaque=lambda fd: fd["name"] in ("returnNode", "operator()") and "CHashTable" not in fd["qn"] or fd["name"] == "returnNode", const_globals=())
            it.pure = set(it.pure) | {"std::hash<vNode>::operator()", "std::hash<mNode>::operator()", "std::equal_to<vNode>::operator()", "std::equal_to<mNode>::operator()"}
            it.no_merge = True
            it.watch = lambda root, path: bool(path) and path[-1][0] == "f" and path[-1][1] == "node" and SLOT in str(path[-1][-1])
            ps = [sym(f["name"] + "#" + str(i)) for i in range(len(f["ps"]))]
            rs = it.run(f, ps, this=sym("this"))
            locks = any(e.kind == "call" and e.name.startswith("std::atomic_flag") for r in rs for e in r[2].log)
            if not locks:
                bad = f["qn"] in work
                ctx.check(not bad, key, wh, RP, "reached from " + ", ".join(sorted(q for q in work if any((g.get("qn") == f["qn"]) for g in calls(byid[q])))[:3]))
                return
            acc = 0
            for tag, v, s in rs:
                if tag == "abort":
                    continue
                held, n = replay(ctx, key, wh, tag, s)
                acc += n
                ctx.count("paths")
                ctx.check(not held, key, wh, RU, f"a path leaves by {tag} with the lock held: " + "; ".join(f"{show(c)[-50:]}={b}" for c, b in s.facts.order[-2:]))
            for L in it.loops:
                h0, _ = replay(Quiet(), key, wh, "head", L.head)
                for tag, v, s in L.steps:
                    h1, _ = replay(ctx, key, wh, tag, s)
                    if tag in ("next", "continue"):
                        ctx.check(h1 == h0, key, wh, RU, f"the loop at line {L.line} changes which locks are held from one round to the next")
            ctx.check(True if acc else None, key, wh, RL, "no access was seen")
        ctx.guard(key, wh, RL, one)


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None
