"""Conditions: a conditional instruction acts in a shot exactly when the bit or register named holds
the required value.  Every content the bits can reach is combined with every condition on one bit
and on registers that start anywhere, overlap or list the bits in another order."""
from ..pyback import Backend, MODES, ONE, TWO
from ..pyev import T, TooHard, subterms
from ..pyval import Unk, Err, Model
from ..shots import (part_runs, result_terms, closure, conds_on_bits, steps, Mismatch, hashable, NC, ShotCase)
from .b01 import seed, WH, mkpart, run_part
from .b02 import through
from ..pyback import main_loops
from .b05 import KINDS

R1 = "a conditional instruction acts when its condition holds, and only then"
R2 = "with no shots to keep bits for, a conditional instruction is refused"

GATES = [("XGate", 1, 0), ("CXGate", 2, 0), ("SwapGate", 2, 0), ("UGate", 1, 0), ("RZZGate", 2, 0), ("UnitaryGate", 2, 0), ("CCXGate", 3, 0),
         ("Measure", 1, 1), ("Reset", 1, 0), ("QDDGate", 3, 0)]


def bits_space(ctx, B, mode):
    """the contents of the bits that measurements and resets can reach, from the result's side and the conditions'"""
    M = part_runs(B, "Measure", 1, 1, mode, None, ctx)
    if not M:
        raise TooHard("measurements are refused")
    names = set()
    for a, b, c in result_terms(M[0]):
        names |= M[0].lvs(a) | M[0].lvs(b)
    parts = list(M)
    for cond in ("bit", "reg"):
        P = part_runs(B, "XGate", 1, 0, mode, cond, ctx)
        for p in P or ():
            names |= conds_on_bits(p)
            parts.append(p)
    want = closure(parts, names)
    init = {}
    for k in want:
        if k not in M[0].names:
            raise TooHard("the conditions read %s, which measurements leave alone" % (k,))
        init[k] = M[0].start(k)
        if init[k] is None:
            ctx.bad("bits, " + mode, WH, R1, "the bits a condition reads in a shot start from what the shot before left")
            return None
    bits0 = tuple("0" * NC)
    pairs = {(hashable(init), bits0)}
    frontier, space = [(init, bits0)], []
    while frontier:
        space += frontier
        nxt = []
        for _, (nv, nb), d in steps(M[0], "Measure", 1, 1, want, frontier, None, False):
            h = (hashable(nv), tuple(nb))
            if h not in pairs:
                pairs.add(h)
                if len(pairs) > 64:
                    raise TooHard("the bits' contents do not follow the outcomes (B05)")
                nxt.append((nv, tuple(nb)))
        frontier = nxt
    return want, space


def one(ctx, B, mode):
    key = "bits, " + mode
    r = ctx.guard(key, WH, R1, bits_space, ctx, B, mode)
    if not r:
        return
    want, space = r
    ctx.count("contents of the bits", len(space))
    gates = GATES
    if ctx.thorough:
        gates = [(k, ONE[k][2][0], 0) for k in ONE] + [(k, TWO[k][2][0], 0) for k in TWO] + [g for g in GATES if g[0] not in ONE and g[0] not in TWO]
    for k, nq, nc in gates:
        for cond in ("bit", "reg"):
            kk = "%s conditional on a %s, %s" % (k, "bit" if cond == "bit" else "register", mode)
            ctx.guard(kk, WH, R1, cond_steps, ctx, B, k, nq, nc, mode, cond, want, space, kk)


def cond_steps(ctx, B, k, nq, nc, mode, cond, want, space, kk):
    ps = part_runs(B, k, nq, nc, mode, cond, ctx)
    if ps is None:
        ctx.ok(kk + " (refused)", WH, R1)
        return
    if all(e.kind == "raise" for P in ps for e in P.m.rec.ends):
        ctx.ok(kk + " (refused)", WH, R1)
        return
    for P in ps:
        n = 0
        try:
            sp = space if ctx.thorough or len(P.m.rec.ends) <= 4 else space[::3]
            for (v, b), (nv, nb), d in steps(P, k, nq, nc, want, sp, cond, False):
                n += 1
                if k != "Measure" and hashable(nv) != hashable({x: v[x] for x in want}):
                    ctx.und(kk, WH, R1, "%s changes the bits (B05)" % d)
                    return
                if k == "Measure" and tuple(nb) == tuple(b) and hashable(nv) != hashable({x: v[x] for x in want}):
                    ctx.bad(kk, WH, R1, "%s changes the bits" % d)
                    return
        except Mismatch as x:
            ctx.bad(kk, WH, R1, x.args[-1])
            return
        except Unk as x:
            ctx.und(kk, WH, R1, "not evaluated: " + str(x)[:150])
            return
        ctx.count("situations evaluated", n)
    ctx.ok(kk, WH, R1)


def no_shots(ctx, B, mode):
    for cond in ("bit", "reg"):
        for k, nq, nc in (("XGate", 1, 0), ("Measure", 1, 1)):
            key = "%s conditional on a %s, no shots, %s" % (k, "bit" if cond == "bit" else "register", mode)
            ctx.guard(key, WH, R2, no_shots1, ctx, B, mode, cond, k, nq, nc, key)


def no_shots1(ctx, B, mode, cond, k, nq, nc, key):
    run = run_part(B, mkpart(k, nq, nc, cond), mode, False, False)
    if all(p.kind == "raise" for p in run.paths) and run.paths:
        ctx.ok(key, WH, R2)
        return
    # a path that goes on: it must be one of circuits without such an instruction
    mod = Model(lambda t, pos, m: ["I"] if t.op == "attr" and t.a[1] == "data" else False if t.op == "shots" else NotImplemented)
    ms = main_loops(run)
    if ms and all(e.kind == "raise" for m in ms for e in m.rec.ends):
        ctx.ok(key, WH, R2)
        return
    for p in run.paths:
        if p.kind == "raise":
            continue
        sure = True
        for c in p.snap.pc:
            try:
                if mod.ev(c) is False:
                    break
            except (Unk, Err):
                sure = sure and not any(t.op == "any" for t in subterms(c))
        else:
            if sure:
                ctx.bad(key, WH, R2, "the instruction is applied or skipped by bits that no shot keeps")
            else:
                ctx.und(key, WH, R2, "not all paths are refused")
            return
    ctx.ok(key, WH, R2)


def check(ctx):
    B = Backend()
    ctx.explanation = ("one step of the loop per kind of conditional instruction, for every reachable content of %d bits and every condition "
                       "on one bit and on seven registers" % NC)
    ctx.guard("loop state", WH, R1, seed, ctx, B)
    ctx.spread(lambda c, m: one(c, B, m), list(MODES))
    ctx.spread(lambda c, m: no_shots(c, B, m), list(MODES))
    ctx.saw("QddBackend._evaluate_circuit")
    for n in B.swap_names:
        ctx.saw(n)
