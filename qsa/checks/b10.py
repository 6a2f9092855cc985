"""Worker threads: run() is interpreted with every step able to raise; on each exit after the threads
were started they have been stopped, after the last circuit."""
from ..runjob import RunJob, OPTS, flat
from ..pyev import T, mk, sym, show

WH = "qdd/qdd_backend.py"
R1 = "a run that starts the worker threads stops them after the last circuit, on every exit"
R2 = "while circuits are simulated the worker threads are not stopped"


def can_raise(s):
    return s in ("classified", "evaluated", "qiskit.Result.from_dict", ".assign_parameters") or s.startswith("pyQDD.") and s not in ("pyQDD.initMT", "pyQDD.terminateMT")


def one(ctx, job):
    arg, n, kw = job
    key = "%s, %s threads%s" % (arg, n, ", bound parameters" if kw else "")
    ctx.guard(key, WH, R1, one1, ctx, arg, n, kw, key)


def one1(ctx, arg, n, kw, key):
    R = RunJob()
    it = R.interp(arg, can_raise)
    h = it.heap[R.optobj.o].items
    h["shots"], h["memory"] = 1024, False
    h["n_threads"] = sym("n_threads") if n == "any" else n
    ps = R.run({"parameter_binds": sym("binds")} if kw else {})
    exits = started = 0
    for p in ps:
        exits += 1
        on = False
        sims = 0
        for e in flat(p.snap.log):
            if e.kind != "call":
                continue
            if e.name == "pyQDD.initMT":
                on = True
                started += 1
            elif e.name == "pyQDD.terminateMT":
                on = False
            elif e.name == "evaluated":
                sims += 1
                if started and not on and any(x.kind == "call" and x.name == "pyQDD.initMT" for x in flat(p.snap.log)):
                    ctx.bad(key, WH, R2, "a circuit is simulated after the threads were stopped: " + how(p))
                    return
        if on:
            ctx.bad(key, WH, R1, "the threads keep running when %s" % how(p))
            return
    ctx.count("exits of a run", exits)
    ctx.count("exits after starting threads", started)
    if n != 1 and not started:
        ctx.und(key, WH, R1, "the worker threads are never started")
        return
    ctx.ok(key, WH, R1)


def how(p):
    r = [e for e in flat(p.snap.log) if e.kind == "call" and e.x == "raises"]
    c = "; ".join(show(c)[:50] for c in p.snap.pc if "n_threads" in show(c))
    return ("%s raises" % r[-1].name if r else "nothing fails") + (" (%s)" % c if c else "")


def check(ctx):
    ctx.explanation = "every exit of run() with each call able to raise, for one, two and an arbitrary number of threads"
    ctx.spread(one, [(a, n, kw) for a in ("one", "list") for n in (1, 2, "any") for kw in (False, True)])
    ctx.saw("QddBackend.run")
