"""Run options: run() is interpreted with options given, absent and falsy; the options that reach the
simulation of a circuit are compared with the given or configured values; the shot range is decided on
its boundaries; in every mode the engine entry points used are those the options ask for."""
from ..runjob import RunJob, OPTS
from ..pyback import MODES, alllogs, main_loops, loops
from ..pyev import T, Ref, mk, sym, show, subterms, isconst, Raise, occurs
from ..shots import result_terms
from .b01 import mkpart, run_part, seed, WH, field

R1 = "an option has the value given to run(), else the backend's configured value, when a circuit is simulated"
R2 = "a shot count outside 1..maximum is refused before anything is simulated; every other one is accepted"
R3 = "the worker threads are started with the number of threads asked for, and only for more than one"
R4 = "the simulation uses the execution mode the options ask for"
R5 = "memory is reported exactly when asked for"
MAX = 10**6


def option(it, p, opts, o):
    """value of option o in what the simulation was given"""
    if isinstance(opts, T) and opts.op == "dict":
        for k, v in opts.a:
            if k == o:
                return True, v
        return False, None
    if isinstance(opts, T) and opts.op == "obj":
        for kv in opts.a[1:]:
            if kv[0] == o:
                return True, kv[1]
        return False, None
    return None, opts


def evals(p):
    for e in alllogs(p.snap.log):
        if e.kind == "call" and e.name == "evaluated":
            yield e


def status(p):
    """'ok' | 'failed' | 'raised'"""
    if p.kind != "return":
        return "raised"
    s = show(p.val[1])
    return "failed" if "ERROR" in s else "ok"


def plumb(ctx, job):
    arg, given, falsy = job
    names = ",".join(sorted(given)) if len(given) < len(OPTS) else "all"
    key = "options %s given%s, %s" % (names or "none", " as %r" % (falsy,) if falsy != "-" else "", arg)
    ctx.guard(key, WH, R1, plumb1, ctx, arg, given, falsy, key)


def plumb1(ctx, arg, given, falsy, key):
    R = RunJob()
    it = R.interp(arg)
    # one shot count and thread number that need no test, so that only the plumbing is left
    dflt = {o: sym("default_" + o) for o in OPTS}
    kw = {o: (sym("given_" + o) if falsy == "-" else falsy) for o in given}
    for o in ("shots",):
        if o in given and falsy == "-":
            kw[o] = 77
        dflt[o] = 99
    it.heap[R.optobj.o].items["shots"] = 99
    ps = R.run(kw)
    n = 0
    for p in ps:
        if status(p) != "ok":
            ctx.bad(key, WH, R1, "the run fails although every option is admissible: %s" % "; ".join(show(c)[:60] for c in p.snap.pc)[:150])
            return
        for e in evals(p):
            n += 1
            opts = e.args[-1]
            for o in OPTS:
                has, v = option(it, p, opts, o)
                if has is None:
                    ctx.und(key, WH, R1, "options of another form: " + show(opts)[:80])
                    return
                want = kw[o] if o in given else dflt[o]
                if not has:
                    ctx.bad(key, WH, R1, "%s does not reach the simulation" % o)
                    return
                if v is not want and not (isconst(v) and isconst(want) and v == want and type(v) is type(want)):
                    ctx.bad(key, WH, R1, "%s is %s, expected %s%s" % (o, show(v)[:60], show(want), when(p)))
                    return
            for x in threads(p):
                pass
    if not n:
        ctx.bad(key, WH, R1, "no circuit is simulated")
        return
    ctx.ok(key, WH, R1)


def when(p):
    c = "; ".join(show(c)[:60] for c in p.snap.pc)
    return " when " + c[:120] if c else ""


def threads(p):
    return [e for e in alllogs(p.snap.log) if e.kind == "call" and e.name == "pyQDD.initMT"]


def shots(ctx, job):
    src, n, binds = job
    key = "shots=%r %s" % (n, src)
    ctx.guard(key, WH, R2, shots1, ctx, src, n, key)


def shots1(ctx, src, n, key):
    R = RunJob()
    it = R.interp("one")
    it.heap[R.optobj.o].items["shots"] = 1024 if src == "given" else n
    it.heap[R.optobj.o].items["n_threads"] = 1
    ps = R.run({"shots": n} if src == "given" else {})
    good = n is None or 0 < n <= MAX
    for p in ps:
        st = status(p)
        if good and st != "ok":
            ctx.bad(key, WH, R2, "an admissible shot count is refused" + when(p))
            return
        if not good and st == "ok":
            ctx.bad(key, WH, R2, "accepted" + when(p))
            return
        if not good and any(True for e in evals(p)):
            ctx.bad(key, WH, R2, "a circuit is simulated before the shot count is refused")
            return
    ctx.ok(key, WH, R2)


def nthreads(ctx, job):
    n, src = job
    key = "%d threads %s" % (n, src)
    ctx.guard(key, WH, R3, nthreads1, ctx, n, src, key)


def nthreads1(ctx, n, src, key):
    R = RunJob()
    it = R.interp("one")
    it.heap[R.optobj.o].items["shots"] = 1024
    it.heap[R.optobj.o].items["n_threads"] = n if src == "configured" else 7
    for p in R.run({"n_threads": n} if src == "given" else {}):
        if status(p) != "ok":
            ctx.bad(key, WH, R3, "the run fails" + when(p))
            return
        ev = [e for e in alllogs(p.snap.log) if e.kind == "call" and e.name in ("pyQDD.initMT", "evaluated")]
        names = [e.name for e in ev]
        if n > 1:
            if names[:1] != ["pyQDD.initMT"]:
                ctx.bad(key, WH, R3, "the circuits are simulated without starting the worker threads")
                return
            if ev[0].args != (n,) or names.count("pyQDD.initMT") != 1:
                ctx.bad(key, WH, R3, "threads are started with %s" % (show(ev[0].args),))
                return
        elif any(e.name == "pyQDD.initMT" and not (e.args == (1,)) for e in ev):
            ctx.bad(key, WH, R3, "worker threads are started for one thread")
            return
    ctx.ok(key, WH, R3)


def mode(ctx, B, m):
    ctx.guard("mode " + m, WH, R4, mode1, ctx, B, m)


def mode1(ctx, B, m):
    mpi, bc, auto, ver = MODES[m]
    runs = [(c, run_part(B, mkpart(c, n), m, c != "Measure", True)) for c, n in (("XGate", 1), ("CXGate", 2), ("UnitaryGate", 2), ("Measure", 1))]
    runs += [("no shots", run_part(B, mkpart("XGate", 1), m, True, False))]
    swaps = set()
    for c, run in runs:
        seen = set()
        for p in run.paths:
            for e in alllogs(p.snap.log):
                if e.kind == "swap":
                    swaps.add(e.name)
                    if not (mpi and auto):
                        ctx.bad("mode " + m, WH, R4, "qubits are relocated although the options do not ask for it")
                        return
                if e.kind != "call" or not isinstance(e.name, str) or not e.name.startswith("pyQDD."):
                    continue
                n = e.name[6:]
                seen.add(n)
                plain = {"makeZeroState", "mv_multiply", "measureAll", "measureOneCollapsing", "measureOne", "getVector", "probabilities"}
                if mpi and n in plain:
                    ctx.bad("mode " + m, WH, R4, "%s: the one-process %s is used in a distributed run" % (c, n))
                    return
                if not mpi and "MPI" in n:
                    ctx.bad("mode " + m, WH, R4, "%s: %s is used without use_mpi" % (c, n))
                    return
                if mpi and n == "mv_multiply_MPI_bcast" and not bc or mpi and bc and n == "mv_multiply_MPI" and c != "Measure":
                    ctx.bad("mode " + m, WH, R4, "%s: %s is used with use_bcast=%s" % (c, n, bc))
                    return
        if not any("makeZeroState" in n for n in seen):
            ctx.und("mode " + m, WH, R4, "no state is made for " + c)
            return
    if mpi and auto and not swaps:
        ctx.bad("mode " + m, WH, R4, "qubits are never relocated although use_auto_swap is set")
        return
    ctx.ok("mode " + m, WH, R4)
    return (m, tuple(sorted(swaps)))


def memory(ctx, B, job):
    stable, mem = job
    key = "memory=%s, %s" % (mem, "sampled" if stable else "per shot")
    ctx.guard(key, WH, R5, memory1, ctx, B, stable, mem, key)


def memory1(ctx, B, stable, mem, key):
    it = B.interp(mkpart("XGate", 1))
    run = B.run(mkpart("XGate", 1), "one process", stable, True, memory=mem)
    n = 0
    for p in run.paths:
        if p.kind != "return":
            continue
        n += 1
        v = field(run.it, p, ("data", "memory"))
        if mem and v is None:
            ctx.bad(key, WH, R5, "no memory in the result although asked for")
            return
        if not mem and v is not None:
            ctx.bad(key, WH, R5, "memory in the result although not asked for")
            return
    ctx.check(True if n else None, key, WH, R5, "no result")


def check(ctx):
    from ..pyback import Backend
    B = Backend()
    ctx.explanation = ("run() interpreted with every option given alone, none, all, and falsy values; shot counts on both sides of every bound; "
                       "the engine entry points reached in every execution mode")
    jobs = [("one", frozenset(), "-"), ("list", frozenset(), "-"), ("one", frozenset(OPTS), "-"), ("list", frozenset(OPTS), "-")]
    for o in OPTS:
        jobs.append(("one", frozenset([o]), "-"))
        jobs.append(("one", frozenset(OPTS) - {o}, "-"))
    for o in OPTS:
        fv = [False, True] if o in ("memory", "use_mpi", "use_bcast", "use_auto_swap", "show_progress") else \
            [None] if o in ("shots",) else [None, 0] if o == "seed_simulator" else [1] if o == "n_threads" else []
        jobs += [("one", frozenset([o]), v) for v in fv]
    ctx.spread(plumb, jobs)
    vals = [None, 1, 2, 1000, 1024, MAX - 1, MAX, MAX + 1, 0, -1, -7, 10**9]
    ctx.spread(shots, [(s, v, None) for s in ("given", "configured") for v in vals])
    ctx.spread(nthreads, [(n, s) for n in (1, 2, 8) for s in ("given", "configured")])
    ctx.guard("loop state", WH, R4, seed, ctx, B)
    res = ctx.spread(lambda c, m: c.guard("mode " + m, WH, R4, mode1, c, B, m), list(MODES))
    used = dict(r for r in res if r)
    v1 = {s for m, s in used.items() if MODES[m][3] == "v1" and MODES[m][0] and MODES[m][2]}
    v2 = {s for m, s in used.items() if MODES[m][3] == "v2" and MODES[m][0] and MODES[m][2]}
    if v1 and v2:
        ctx.check(not (v1 & v2), "swap_ver selects the relocation routine", WH, R4, "both versions use %s" % sorted(v1 & v2))
    ctx.spread(lambda c, j: memory(c, B, j), [(s, m) for s in (True, False) for m in (True, False)])
    ctx.saw("QddBackend.run")
    ctx.saw("QddBackend._evaluate_circuit")
