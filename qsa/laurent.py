"""Normal form for matrix entries: sums of c * monomial * exp(i * linear form in the parameters)."""
import cmath, math
from fractions import Fraction
from .terms import *
from .cxev import TooHard

EPS = 1e-9


class L:
    """dict: (tuple of (param, power)), (tuple of (param, coef)) -> complex"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if abs(v) > 1e-14}

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return L(d)
    __radd__ = __add__

    def __neg__(self):
        return L({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for (m1, e1), v1 in self.d.items():
            for (m2, e2), v2 in o.d.items():
                k = (_addt(m1, m2), _addt(e1, e2))
                d[k] = d.get(k, 0) + v1 * v2
        return L(d)
    __rmul__ = __mul__

    def close(self, o, eps=EPS):
        return all(abs(v) <= eps for v in (self - lift(o)).d.values())

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for (m, e), v in sorted(self.d.items(), key=repr):
            s = f"({v.real:.6g}{v.imag:+.6g}i)"
            for a, p in m:
                s += f"*{a}^{p}"
            if e:
                s += "*exp(i*(" + "+".join(f"{c}*{a}" for a, c in e) + "))"
            out.append(s)
        return " + ".join(out)


def _addt(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted((k, v) for k, v in d.items() if v != 0))


def lift(x):
    return x if isinstance(x, L) else L({((), ()): complex(x)})


def expi(lin, c=0.0):
    """exp(i*(lin + c)), lin: dict param -> coef"""
    return L({((), tuple(sorted((k, Fraction(v)) for k, v in lin.items() if v))): cmath.exp(1j * c)})


def cosL(lin, c=0.0):
    return 0.5 * (expi(lin, c) + expi({k: -v for k, v in lin.items()}, -c))


def sinL(lin, c=0.0):
    return -0.5j * (expi(lin, c) - expi({k: -v for k, v in lin.items()}, -c))


def pname(a):
    n = a.args[0]
    return n[5:] if n.startswith("real:") else n


def linear(t):
    """real linear form: ({param: coef}, const) or None"""
    lin, c = {}, 0.0
    for m, v in pdict(t).items():
        if not m:
            c = float(v)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] is not I and m[0][0].op in ("sym",):
            lin[pname(m[0][0])] = v
        else:
            x = _constant(mk("poly", ((m, v),)))
            if x is None or abs(x.imag) > 1e-15:
                return None
            c += x.real
    return lin, c


def _constant(t):
    l = to_laurent(t)
    if set(l.d) <= {((), ())}:
        return l.d.get(((), ()), 0j)
    return None


def to_laurent(t):
    r = lift(0)
    for m, v in pdict(t).items():
        x = lift(float(v))
        for a, e in m:
            x = x * _atom(a, e)
        r = r + x
    return r


def _pow(x, e):
    if e < 0:
        if set(x.d) == {((), ())}:
            return _pow(lift(1 / x.d[((), ())]), -e)
        if len(x.d) == 1:
            ((m, ex), v), = x.d.items()
            if not m:
                return _pow(L({((), tuple((k, -c) for k, c in ex)): 1 / v}), -e)
        raise TooHard("division by a non-constant matrix entry")
    r = lift(1)
    for _ in range(int(e)):
        r = r * x
    return r


def _atom(a, e):
    if a is I:
        return _pow(lift(1j), e)
    if a.op == "sym":
        if e < 0:
            raise TooHard("division by a parameter")
        return L({(((pname(a), e),), ()): 1})
    if a.op in ("cos", "sin", "cexp", "sqrt", "tan"):
        x = a.args[0]
        if a.op in ("cos", "sin"):
            li = linear(x)
            if li is None:
                raise TooHard("trigonometric argument " + show(x))
            return _pow((cosL if a.op == "cos" else sinL)(*li), e)
        if a.op == "cexp":
            re, im = real_part(x), imag_part(x)
            lr, li = linear(re), linear(im)
            if lr is None or li is None or lr[0]:
                raise TooHard("exponential argument " + show(x))
            return _pow(math.exp(lr[1]) * expi(*li), e)
        if a.op == "sqrt":
            c = _constant(x)
            if c is None:
                raise TooHard("square root of a parameter")
            return _pow(lift(cmath.sqrt(c)), e)
    if a.op == "poly":
        return _pow(to_laurent(a), e)
    raise TooHard("matrix entry contains " + show(a))
