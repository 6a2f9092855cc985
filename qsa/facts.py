"""Path facts: truth of atoms, and an interval domain over linear forms."""
from .terms import *


def linsplit(p):
    """numeric term -> (normalised linear form without constant, scale, const): p == scale*L + const"""
    d = dict(pdict(p))
    c = d.pop((), Fraction(0))
    if not d:
        return None, Fraction(0), c
    items = sorted(d.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    s = items[0][1]
    if s < 0:
        pass
    L = _lin({m: v / s for m, v in d.items()})
    return L, s, c


def _lin(d):
    from .terms import _norm_poly
    return _norm_poly(d)


class Facts:
    __slots__ = ("lits", "iv", "ne", "order")

    def __init__(self):
        self.lits = {}
        self.iv = {}
        self.ne = {}
        self.order = ()

    def copy(self):
        f = Facts()
        f.lits = dict(self.lits)
        f.iv = dict(self.iv)
        f.ne = dict(self.ne)
        f.order = self.order
        return f

    # -- interval helpers: (lo, lo_strict, hi, hi_strict)
    def _get(self, L):
        return self.iv.get(L, (None, False, None, False))

    def decide(self, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "not":
            r = self.decide(t.args[0])
            return None if r is None else (not r)
        if t in self.lits:
            return self.lits[t]
        if t.op in ("lt", "le", "eq0"):
            L, s, c = linsplit(t.args[0])
            if L is None:
                v = c
                return {"lt": v < 0, "le": v <= 0, "eq0": v == 0}[t.op]
            lo, ls, hi, hs = self._get(L)
            # s*L + c  op 0   <=>  L op' -c/s
            b = -c / s
            if t.op == "eq0":
                if b in self.ne.get(L, ()):
                    return False
                if lo is not None and (lo > b or (lo == b and ls)):
                    return False
                if hi is not None and (hi < b or (hi == b and hs)):
                    return False
                if lo is not None and hi is not None and lo == hi == b:
                    return True
                return None
            strict = t.op == "lt"
            if s > 0:  # L < b
                if hi is not None and (hi < b or (hi == b and (not strict or hs))):
                    return True
                if lo is not None and (lo > b or (lo == b and (strict or ls))):
                    return False
            else:  # L > b
                if lo is not None and (lo > b or (lo == b and (not strict or ls))):
                    return True
                if hi is not None and (hi < b or (hi == b and (strict or hs))):
                    return False
            return None
        return None

    def assume(self, t, val):
        """record t == val; returns False if contradictory"""
        if t is TRUE or t is FALSE:
            return (t is TRUE) == val
        if t.op == "not":
            return self.assume(t.args[0], not val)
        r = self.decide(t)
        if r is not None:
            return r == val
        self.lits[t] = val
        self.order = self.order + ((t, val),)
        if t.op in ("lt", "le", "eq0"):
            L, s, c = linsplit(t.args[0])
            b = -c / s
            lo, ls, hi, hs = self._get(L)
            if t.op == "eq0":
                if val:
                    self.iv[L] = (b, False, b, False)
                else:
                    self.ne[L] = self.ne.get(L, frozenset()) | {b}
            else:
                strict = t.op == "lt"
                if not val:
                    strict = not strict
                upper = (s > 0) == val
                if upper:
                    if hi is None or b < hi or (b == hi and strict):
                        hi, hs = b, strict
                else:
                    if lo is None or b > lo or (b == lo and strict):
                        lo, ls = b, strict
                self.iv[L] = (lo, ls, hi, hs)
        return True
