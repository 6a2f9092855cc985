"""Basis states.  makeZeroState and makeOneState are interpreted with makeVEdge kept as a term.
For an arbitrary register the loop over levels is reduced to its step relation: it starts at the
level above what was built before the loop, every step adds one level by the rule and the bound is the
register's width; small registers are unfolded as well.  The distributed builders are decided
for every number of processes and every rank by folding the extracted summary."""
from ..cxev import Interp, St
from ..terms import *
from .e02 import CONST
from ..model import find, Out
from .e08 import loc, path_name
from ..summ import Und as Unk

R1 = "every qubit of the built state has the value asked for, for every register width"
R2 = "the register built has one level per qubit"
NAMES = {"makeZeroState": 0, "makeOneState": 1}


def rec_w_n(t):
    if isT(t, "rec") and t.args[0] == "vEdge":
        d = dict(t.args[1])
        return d.get("w"), d.get("n")
    return None


def leaf(x):
    """1 or 0 for the unit and the zero terminal edge"""
    wn = rec_w_n(x)
    if not wn or "vNode::terminal" not in show(wn[1]):
        return None
    return 1 if wn[0] is ONE else 0 if wn[0] is ZERO else None


def block(v):
    """(level, child 0, child 1)"""
    if isT(v, "call") and v.args[0] == "makeVEdge" and isT(v.args[2], "arr") and len(v.args[2].args[0]) == 2:
        return (v.args[1],) + tuple(v.args[2].args[0])
    return None


def chain(v, val):
    """levels of a fully built basis state, lowest first; or a description of the first place that is wrong"""
    lv = []
    while True:
        b = block(v)
        if b is None:
            k = leaf(v)
            if k == 1:
                return lv[::-1], None
            return None, "the lowest edge is " + show(v)[:120]
        if leaf(b[2 - val]) != 0:
            return None, f"at level {show(b[0])[:40]} the amplitude of value {1 - val} is {show(b[2 - val])[:120]}, expected zero"
        lv.append(b[0])
        v = b[1 + val]


def atomless(t):
    return isT(t) and cint(t) is not None


def known(v):
    """built only from makeVEdge blocks and constant edges"""
    b = block(v)
    if b:
        return atomless(b[0]) and known(b[1]) and known(b[2])
    return leaf(v) is not None


def unfolded(ctx, U, f, val):
    wh = loc(f)
    for n in range(1, 17 if ctx.thorough else 11):
        key = f"{f['name']} {n} qubits"

        def one():
            it = Interp(U, opaque=lambda fd: fd["name"] == "makeVEdge", const_globals=CONST)
            it.no_merge = True
            rs = it.run(f, [num(n)])
            for tag, v, s in rs:
                if tag != "ret":
                    ctx.bad(key, wh, R1, "throws") if not s.facts.order else ctx.und(key, wh, R1, "throws on a condition")
                    continue
                lv, why = chain(v, val)
                if lv is None:
                    ctx.check(False if known(v) else None, key, wh, R1, why)
                    continue
                ctx.check(lv == [num(i) for i in range(n)], key, wh, R2, f"the state of {n} qubits has the levels " + ", ".join(show(x) for x in lv)[:200])
        ctx.guard(key, wh, R1, one)


def general(ctx, U, f, val):
    """the register's width is arbitrary"""
    wh = loc(f)
    key = f["name"] + " any width"
    q = sym(f["ps"][0]["n"])
    it = Interp(U, opaque=lambda fd: fd["name"] == "makeVEdge", const_globals=CONST)
    it.no_merge = True
    st = St()
    for tag, v, s in it.run(f, [q], st=st):
        k = key + f" [{path_name(s)[:100]}]"
        if tag != "ret":
            ctx.bad(k, wh, R1, "throws") if not s.facts.order else ctx.und(k, wh, R1, "throws on a condition")
            continue
        if not any(isT(x, "hv") for x in (v,) + (rec_w_n(v) or ())):
            ctx.und(k, wh, R1, "result is not the value a loop over levels leaves: " + show(v)[:160])
            continue
        Ls = [L for L in it.loops if any(L.head.env.get(x) is v for x in L.head.env)]
        if len(Ls) != 1:
            ctx.und(k, wh, R1, "the loop that leaves the result was not found")
            continue
        L = Ls[0]
        cell = [x for x in L.head.env if L.head.env[x] is v][0]
        zs = [x for x in L.head.env if x in L.entry.env and isT(L.head.env[x], "hv") and
              all(s2.env.get(x) is padd(L.head.env[x], ONE) for _, _, s2 in L.steps)]
        if len(zs) != 1:
            ctx.und(k, wh, R1, "no level counter found in the loop")
            continue
        z, z0 = L.head.env[zs[0]], L.entry.env[zs[0]]
        lv, why = chain(L.entry.env[cell], val)
        if lv is None:
            ctx.und(k, wh, R1, "before the loop: " + why)
            continue
        hf = set(L.head.facts.lits)
        off = None
        for _, _, s2 in L.steps:
            step = s2.env.get(cell)
            b = block(step)
            c = psub(b[0], z) if b is not None else None
            good = b is not None and cint(c) is not None and b[1 + val] is v and leaf(b[2 - val]) == 0
            if not good and step is v and any(mentions(a, z) for a, _ in s2.facts.order if a not in hf):
                ex = example(list(s2.facts.order) + [(blt(z, q), True)], z, q)
                ctx.check(None if ex is None else ex is False, k + ":step", wh, R2, f"at {path_name(s2)[:120]} no level is added")
                continue
            if not good:
                ctx.check(False if b is not None and all(x is v or leaf(x) is not None or block(x) for x in b[1:]) else None, k + ":step", wh, R1,
                          f"at {path_name(s2)[:120]} a level is added as {show(step)[:240]}")
                continue
            ctx.ok(k + ":step", wh, R1)
            if off is not None and off is not c:
                ctx.und(k + ":step", wh, R2, "steps add levels at different distances from the counter")
                continue
            off = c
            top = padd(z, c)
            verdict(ctx, k + ":last level", wh, s2, z, top, q, True)
        if off is None:
            continue
        ctx.check(lv == [num(i) for i in range(len(lv))] and padd(z0, off) is num(len(lv)), k + ":start", wh, R2,
                  f"{len(lv)} levels are built before the loop adds level {show(padd(z0, off))}")
        verdict(ctx, k + ":end", wh, s, z, padd(z, off), q, False)


def mentions(t, x):
    return x in atoms(t)


def example(lits, z, q):
    """small values of counter and width that satisfy the literals; False if there are none, None if they are about something else"""
    try:
        return find(lits, {q: range(1, 72), z: range(0, 72)}) or False
    except Out:
        return None


def verdict(ctx, key, wh, s, z, top, q, inside):
    """inside: a level is added only below the width; otherwise: the loop ends only at the width"""
    lt, eq = s.facts.decide(blt(top, q)), s.facts.decide(beq(top, q))
    if inside and (lt is True or eq is False) or not inside and (lt is False or eq is True):
        return ctx.ok(key, wh, R2)
    ex = example(list(s.facts.order) + [(blt(top, q), not inside)], z, q)
    what = "a level is added at or above the register's width" if inside else "the loop ends below the register's width"
    ctx.check(None if ex is None else ex is False, key, wh, R2, what + ": " + path_name(s)[:200] + (" (" + ", ".join(f"{show(a)} = {n}" for a, n in ex.items()) + ")" if ex else ""))


def check(ctx):
    for unit in ("def", "mpi"):
        U = ctx.unit(unit)
        for nm, val in NAMES.items():
            fs = [f for f in U["funcs"] if f["name"] == nm and f.get("body") and len(f["ps"]) == 1]
            if len(fs) != 1:
                ctx.und(nm, "src/dd.cpp", R1, "not found")
                continue
            ctx.saw(loc(fs[0]))
            ctx.guard(nm, loc(fs[0]), R1, unfolded, ctx, U, fs[0], val)
            ctx.guard(nm + " any width", loc(fs[0]), R1, general, ctx, U, fs[0], val)
    from ..mpicheck import simulate
    simulate(ctx, ("value", "collective", "deadlock", "message"), ("makeZeroStateMPI", "makeOneStateMPI"), R2)
