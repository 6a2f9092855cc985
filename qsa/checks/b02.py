"""Instructions the simulator cannot apply are refused.  The evaluation of a circuit (and merging)
is interpreted abstractly for instruction classes outside the simulator's repertoire, for every
class of the repertoire, and for measurements and resets, in every execution mode: every way
through the step over such an instruction must either raise or change the state."""
from ..pyback import Backend, MODES, ONE, TWO, OTHER, E, main_loops, FOREIGN, NAMES
from ..pyev import T, TooHard, show
from .b01 import mkpart, run_part, seed, merge_run, WH

R1 = "the step over an instruction the simulator cannot apply raises on every path"
R2 = "the step over a gate, measurement or reset changes the state or raises; it is never passed over"
R3 = "merging refuses everything that is no gate it applies"
R4 = "nothing leaves the loop over the instructions early"

# class, qubits, clbits
OUT = [(k, 2 if k in ("ECRGate", "DCXGate", "XXPlusYYGate") else 3 if k in ("RCCXGate", "Permutation") else 1, 0) for k in FOREIGN] + \
      [("Gate", 1, 0), ("Gate", 2, 0), ("ControlledGate", 3, 0), ("Instruction", 2, 1), ("IfElseOp", 2, 1)]


# modes for the simulator's own gates (the others are B01's)
FEW = ["one process", "distributed", "distributed, swaps v1", "distributed, broadcast, swaps v2"]


def strip(t):
    while isinstance(t, T) and t.op == "swapped":
        t = t.a[0]
    return t


def through(ctx, key, ms, rule, what):
    """every end of the step: raises, or the state is another one"""
    kinds = set()
    for m in ms:
        for e in m.rec.ends:
            if e.kind == "raise":
                kinds.add("raise")
                continue
            if e.kind in ("break", "return"):
                ctx.bad(key, WH, R4, "the step over %s leaves the loop" % what)
                return None
            v = strip(m.end_value(e))
            c = strip(m.cur0)
            if v is c or isinstance(v, T) and v.op == "call" and v.a[0] in ("pyQDD.gc", "pyQDD.gc_mat") and v.a[1][0] is c:
                kinds.add("skip")
            else:
                kinds.add("apply")
    ctx.count("steps", sum(len(m.rec.ends) for m in ms))
    return kinds


def one(ctx, B, job):
    k, nq, nc, ctrl = job
    what = k + (" with an open control" if ctrl is not None else "")
    foreign = k not in ONE and k not in TWO and k not in OTHER and k not in ("Measure", "Reset", "QDDGate")
    for mode in MODES:
        for stable in (True, False):
            for shots in (True, False):
                if k == "Measure" and stable:
                    continue
                if not foreign and not ctx.thorough and mode not in (FEW if shots else FEW[::2]):
                    continue
                key = "%s on %d qubits, %s%s%s" % (what, nq, mode, "" if stable else ", per shot", "" if shots else ", no shots")
                ctx.guard(key, WH, R1, one_step, ctx, B, job, key, what, foreign, mode, stable, shots)
    key = "%s on %d qubits, merged" % (what, nq)
    ctx.guard(key, WH, R3, one_merge, ctx, B, job, key, what, foreign)


def one_step(ctx, B, job, key, what, foreign, mode, stable, shots):
    k, nq, nc, ctrl = job
    part = mkpart(k, nq, nc)
    if ctrl is not None:
        part["ctrl"] = ctrl
    run = run_part(B, part, mode, stable, shots)
    ms = main_loops(run)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            ctx.ok(key, WH, R1)
        else:
            ctx.und(key, WH, R1, "the loop over the instructions was not found")
        return
    kinds = through(ctx, key, ms, R1, what)
    if kinds is None:
        return
    if "skip" in kinds:
        ctx.bad(key, WH, R1 if foreign else R2, "%s is passed over without effect" % what)
    elif foreign and kinds != {"raise"}:
        ctx.und(key, WH, R1, "changes the state")
    else:
        ctx.ok(key, WH, R1 if foreign else R2)


def one_merge(ctx, B, job, key, what, foreign):
    k, nq, nc, ctrl = job
    if k == "Measure":
        return          # merging drops measurements: the operator is that of the gates
    for cond in (None, "bit", "reg"):
        kk = key + (", conditional" if cond else "") + (" on a register" if cond == "reg" else "")
        run, ms = merge_run(B, k, nq, nc, cond, ctrl)
        if not ms:
            if all(p.kind == "raise" for p in run.paths):
                ctx.ok(kk, WH, R3)
            else:
                ctx.und(kk, WH, R3, "the loop over the instructions was not found")
            continue
        kinds = through(ctx, kk, ms, R3, what)
        if kinds is None:
            continue
        gate = not foreign and k not in ("Measure", "Reset")
        if "skip" in kinds:
            ctx.bad(kk, WH, R3, "%s is passed over when merging" % what)
        elif cond and kinds != {"raise"}:
            ctx.bad(kk, WH, R3, "a conditional %s is merged as if its condition held" % what)
        elif not gate and kinds != {"raise"}:
            ctx.bad(kk, WH, R3, "%s is merged although it is no gate" % what) if k == "Reset" else ctx.und(kk, WH, R3, "changes the operator")
        else:
            ctx.ok(kk, WH, R3)


def jobs(ctx):
    for k, nq, nc in OUT:
        yield k, nq, nc, None
    for k in ONE:
        for nq in (ONE[k][2] if ctx.thorough else ONE[k][2][:1]):
            yield k, nq, 0, None
            if nq > 1 and k in ("CXGate", "CCXGate", "CUGate", "CPhaseGate"):
                yield k, nq, 0, 0
    for k in TWO:
        yield k, TWO[k][2][0], 0, None
    yield "CSwapGate", 3, 0, 0
    for nq in OTHER["UnitaryGate"][:2]:
        yield "UnitaryGate", nq, 0, None
    yield "QDDGate", 3, 0, None
    yield "Measure", 1, 1, None
    yield "Reset", 1, 0, None


def check(ctx):
    B = Backend()
    ctx.explanation = ("one step of the loop over the instructions for %d instruction classes, in eight execution modes, per shot and not, "
                       "with and without shots, and merged" % (len({j[0] for j in jobs(ctx)})))
    ctx.guard("loop state", WH, R2, seed, ctx, B)
    js = list(jobs(ctx))
    ctx.spread(lambda c, j: one(c, B, j), js)
    for n in ("QddBackend._evaluate_circuit", "QddBackend.merge_circuit"):
        ctx.saw(n)
    for n in B.swap_names:
        ctx.saw(n)
