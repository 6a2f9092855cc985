"""Reset: the qubit named is measured with collapse and flipped exactly when the outcome was 1, in
every execution mode, whatever the relocations; nothing else changes."""
from ..pyback import Backend, MODES
from ..pyval import Unk, Err
from ..shots import part_runs, steps, Mismatch, NC
from .b01 import seed, WH

R1 = "reset leaves the qubit |0> and the others as that qubit's own outcome implies; the qubit map stays right"


def one(ctx, B, job):
    mode, cond, shots = job
    key = "Reset, %s%s%s" % (mode, ", conditional" if cond else "", "" if shots else ", no shots")
    ctx.guard(key, WH, R1, step, ctx, B, mode, cond, shots, key)


def step(ctx, B, mode, cond, shots, key):
    ps = part_runs(B, "Reset", 1, 0, mode, cond, ctx, shots=shots)
    if ps is None:
        ctx.bad(key, WH, R1, "reset is refused although the backend offers it")
        return
    for P in ps:
        n = 0
        try:
            for _ in steps(P, "Reset", 1, 0, [], [({}, tuple("0" * NC))], None, ctx.thorough):
                n += 1
        except Mismatch as x:
            ctx.bad(key, WH, R1, x.args[-1])
            return
        except Unk as x:
            ctx.und(key, WH, R1, "not evaluated: " + str(x)[:150])
            return
        ctx.count("situations evaluated", n)
    ctx.ok(key, WH, R1)


def check(ctx):
    B = Backend()
    ctx.explanation = "one step of the loop over a reset, in every execution mode, evaluated on small registers for both outcomes"
    ctx.guard("loop state", WH, R1, seed, ctx, B)
    ctx.spread(lambda c, j: one(c, B, j), [(m, None, s) for m in MODES for s in (True, False)])
    ctx.saw("QddBackend._evaluate_circuit")
    for n in B.swap_names:
        ctx.saw(n)
