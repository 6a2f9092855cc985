"""finite models of path conditions: whether some small integers satisfy a list of literals"""
import itertools
from .terms import *


class Out(Exception):
    """a literal outside linear integer arithmetic over the given atoms"""


def ival(t, env):
    if t in env:
        return env[t]
    if isT(t, "poly"):
        r = 0
        for m, c in t.args[0]:
            x = c
            for a, e in m:
                if e < 0:
                    raise Out(show(t))
                x = x * ival(a, env) ** e
            r += x
        return r
    if isT(t, "idiv"):
        a, b = ival(t.args[0], env), ival(t.args[1], env)
        if b == 0:
            raise Out(show(t))
        return int(a / b)
    raise Out(show(t))


def bval(t, env):
    if t in env:
        return bool(env[t])
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "not":
        return not bval(t.args[0], env)
    if t.op in ("and", "or"):
        xs = [bval(x, env) for x in t.args]
        return all(xs) if t.op == "and" else any(xs)
    if t.op == "lt":
        return ival(t.args[0], env) < 0
    if t.op == "le":
        return ival(t.args[0], env) <= 0
    if t.op == "eq0":
        return ival(t.args[0], env) == 0
    if t.op == "eq":
        return ival(t.args[0], env) == ival(t.args[1], env)
    raise Out(show(t))


def find(lits, dom):
    """values of the atoms in dom (atom -> iterable) that satisfy every (literal, truth); None if there are none"""
    lits = list(lits)
    keys = list(dom)
    used = [a for a in keys if any(f is a or a in atoms(f) or depends(f, a) for f, _ in lits)]
    for vs in itertools.product(*[dom[a] for a in used]):
        env = dict(zip(used, vs))
        if all(bval(f, env) is v for f, v in lits):
            return env
    return None


def depends(f, a):
    return a is f or isT(f) and any(isT(x) and depends(x, a) for x in f.args if isT(x))
