"""Failure reporting: run() is interpreted with every step able to raise; whatever is raised, the caller
gets a job whose status is an error and whose result says so; a job that is done holds the complete
result of a run that raised nothing."""
from ..runjob import RunJob, flat
from ..pyback import Backend, MODES, alllogs
from ..pyev import T, Ref, mk, sym, show, Raise
from .b01 import mkpart, seed
from .b10 import how

WH = "qdd/qdd_backend.py"
R1 = "whatever is raised during a run, run() returns a job"
R2 = "the job of a run that raised something has an error status and a result marked unsuccessful"
R3 = "the job of a run that raised nothing is done and holds the result of that run, marked successful"
R4 = "no error raised inside the simulation of a circuit is swallowed"
R5 = "an argument that is no circuit or list of circuits is refused"


def can_raise(s):
    return s in ("classified", "evaluated", "qiskit.Result.from_dict", ".assign_parameters") or s.startswith("pyQDD.")


class Once:
    """each call may raise, the first one that does ends the normal course"""

    def __init__(self, R):
        self.R = R

    def __call__(self, s):
        if not can_raise(s):
            return False
        return not any(e.kind == "caught" for e in self.R.it.log)


def success(it, p, rs):
    """value of the result's success flag"""
    f = it.freeze(rs, p.snap.heap)
    if isinstance(f, T) and f.op == "call" and "Result.from_dict" in str(f.a[0]):
        d = f.a[1][0]
        if isinstance(d, T) and d.op == "dict":
            for k, v in d.a:
                if k == "success":
                    return v, d
        return None, d
    if isinstance(f, T) and f.op in ("call", "obj"):
        for x in f.a:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "success":
                        return y[1], f
    return None, f


def one(ctx, job):
    arg, kw, thr = job
    key = "%s%s, %s" % (arg, ", bound parameters" if kw else "", "threads" if thr else "no threads")
    ctx.guard(key, WH, R1, one1, ctx, arg, kw, thr, key)


def one1(ctx, arg, kw, thr, key):
    R = RunJob()
    it = R.interp(arg)
    R.hooks.raising = Once(R)
    h = it.heap[R.optobj.o].items
    h["memory"] = False
    h["n_threads"] = 4 if thr else 1
    h["shots"] = sym("n_shots")
    ps = R.run({"parameter_binds": sym("binds")} if kw else {})
    good = failed = 0
    for p in ps:
        caught = [e for e in flat(p.snap.log) if e.kind == "caught" or e.kind == "call" and e.x == "raises"]
        if p.kind == "raise":
            ctx.bad(key, WH, R1, "%s escapes from run() when %s" % (p.val.cls, how(p)))
            return
        if p.kind == "jobraise":
            ctx.bad(key, WH, R1, "status() or result() of the job raises %s when %s" % (p.val.cls, how(p)))
            return
        job, st, rs, n = p.val
        s = show(st) if isinstance(st, T) else repr(st)
        ok, d = success(it, p, rs)
        if caught:
            failed += 1
            if not s.endswith("ERROR"):
                ctx.bad(key, WH, R2, "the job's status is %s although %s" % (s.split(":")[-1], how(p) if any(e.x == "raises" for e in caught) else caught[0].name + " was raised"))
                return
            if ok is not False:
                ctx.bad(key, WH, R2, "the result of a failed run is not marked unsuccessful (%s)" % show(ok))
                return
        else:
            good += 1
            if arg == "other":
                ctx.bad(key, WH, R5, "accepted")
                return
            if not s.endswith("DONE"):
                ctx.bad(key, WH, R3, "the job's status is %s although nothing was raised" % s.split(":")[-1])
                return
            if ok is not True:
                ctx.bad(key, WH, R3, "the result of a run that succeeded is marked %s" % show(ok)[:60])
                return
            if not any(e.kind == "call" and e.name == "evaluated" for e in flat(p.snap.log)):
                ctx.bad(key, WH, R3, "the job is done without a circuit having been simulated")
                return
    ctx.count("exits after an error", failed)
    ctx.count("exits without error", good)
    if not failed or not good and arg != "other":
        ctx.und(key, WH, R1, "%d failing and %d succeeding exits" % (failed, good))
        return
    ctx.ok(key, WH, R1)


def swallow(ctx, B, job):
    cls, nq, mode, stable, shots = job
    key = "%s, %s, %s, %s" % (cls, mode, "sampled" if stable else "per shot", "shots" if shots else "no shots")
    ctx.guard(key, WH, R4, swallow1, ctx, B, cls, nq, mode, stable, shots, key)


def swallow1(ctx, B, cls, nq, mode, stable, shots, key):
    part = mkpart(cls, nq)
    orig = B.interp

    def interp(p):
        it = orig(p)
        it.hooks.raises = lambda i, n, a: i.trydepth > 0 and isinstance(n, str) and n.startswith("pyQDD.") and not any(e.kind == "caught" for e in i.log)
        return it
    B.interp = interp
    try:
        run = B.run(part, mode, stable, shots, seeds=True)
    finally:
        B.interp = orig
    for p in run.paths:
        for e in alllogs(p.snap.log):
            if e.kind == "call" and e.x == "raises":
                break
        else:
            continue
        if p.kind == "return" or any(end.kind != "raise" and any(e.kind == "call" and e.x == "raises" for e in alllogs(end.snap.log[len(r.head.log):]))
                                     for r in allrecs(p.snap.log) for end in r.ends):
            ctx.bad(key, WH, R4, "%s raises and the simulation goes on" % e.name)
            return
    ctx.ok(key, WH, R4)


def allrecs(log, seen=None):
    seen = set() if seen is None else seen
    for e in log:
        if e.kind == "loop" and id(e.res) not in seen:
            seen.add(id(e.res))
            yield e.res
            for x in e.res.ends:
                yield from allrecs(x.snap.log[len(e.res.head.log):], seen)


def check(ctx):
    ctx.explanation = "every exit of run() with each call able to raise; the simulation of a circuit with each guarded engine call able to raise"
    ctx.spread(one, [(a, kw, t) for a in ("one", "list", "mixed", "other") for kw in (False, True) for t in (False, True)])
    B = Backend()
    ctx.guard("loop state", WH, R4, seed, ctx, B)
    jobs = [(c, n, m, st, sh) for c, n in (("XGate", 1), ("CXGate", 2), ("SwapGate", 2), ("UnitaryGate", 2), ("Measure", 1), ("Reset", 1), ("qdd", 2))
            for m in ("one process", "distributed, swaps v1", "distributed, broadcast, swaps v2") for st, sh in ((True, True), (False, True), (True, False))]
    ctx.spread(lambda c, j: swallow(c, B, j), jobs)
    ctx.saw("QddBackend.run")
    ctx.saw("QddBackend._evaluate_circuit")
    ctx.saw("QddJob.status")
    ctx.saw("QddFailedJob.status")
