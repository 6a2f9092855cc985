"""Rational-function normal form over the polynomial terms: equality by cross-multiplication."""
from .terms import *


def rat(t):
    """term -> (N, D), polynomials without inv() atoms, negative exponents or squares of sqrt()"""
    N, D = ZERO, ONE
    for m, c in pdict(t).items():
        n, d = num(c), ONE
        for a, e in m:
            an, ad = _atom(a)
            if e < 0:
                an, ad, e = ad, an, -e
            for _ in range(e):
                n, d = pmul(n, an), pmul(d, ad)
        n, d = _unsq(n, d)
        if d is D:
            N = padd(N, n)
        else:
            N, D = padd(pmul(N, d), pmul(n, D)), pmul(D, d)
    return N, D


def _atom(a):
    if isT(a, "inv"):
        n, d = rat(a.args[0])
        return d, n
    return a, ONE


def _unsq(n, d):
    """replace sqrt(x)^2 by x in a quotient of polynomials"""
    def go(p):
        # one pass; returns (N, D) or None
        hit = None
        for m, c in pdict(p).items():
            for a, e in m:
                if isT(a, "sqrt") and abs(e) >= 2:
                    hit = a
        if hit is None:
            return None
        xn, xd = rat(hit.args[0])
        N, Dn = ZERO, ONE
        mx = max((dict(m).get(hit, 0) // 2 for m in pdict(p)), default=0)
        for m, c in pdict(p).items():
            dd = dict(m)
            k = dd.get(hit, 0)
            h = k // 2
            if k - 2 * h:
                dd[hit] = k - 2 * h
            else:
                dd.pop(hit, None)
            q = num(c)
            for a, e in dd.items():
                q = pmul(q, ppow(a, e) if e > 0 else ppow(pinv(a), -e))
            q = pmul(q, ppow(xn, h))
            q = pmul(q, ppow(xd, mx - h))
            N = padd(N, q)
        return N, ppow(xd, mx)
    for _ in range(8):
        r = go(n)
        if r is None:
            break
        n, d = r[0], pmul(d, r[1])
    for _ in range(8):
        r = go(d)
        if r is None:
            break
        d, n = r[0], pmul(n, r[1])
    return n, d


def req(a, b):
    """a == b as rational functions"""
    n1, d1 = rat(a)
    n2, d2 = rat(b)
    return psub(pmul(n1, d2), pmul(n2, d1)) is ZERO


def lin_in(p, x):
    """p == a*x + b -> (a, b), else None (x an atom)"""
    a, b = ZERO, ZERO
    for m, c in pdict(p).items():
        d = dict(m)
        k = d.pop(x, 0)
        q = num(c)
        for y, e in d.items():
            q = pmul(q, ppow(y, e) if e > 0 else ppow(pinv(y), -e))
        if k == 1:
            a = padd(a, q)
        elif k == 0:
            b = padd(b, q)
        else:
            return None
    for t in (a, b):
        if x in atoms(t):
            return None
    return a, b
