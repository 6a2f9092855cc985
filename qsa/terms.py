"""Hash-consed value terms and commutative polynomial normal forms.

A term is an interned `T(op, args)`; equal values built in different ways become
the same object, so value equality is identity.  Numbers (int, real, complex) are
polynomials over atoms with rational coefficients; `I` is the imaginary unit.
"""
from fractions import Fraction

_tab = {}
_uid = 0


class T:
    __slots__ = ("op", "args", "uid")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args):
    global _uid
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        _uid += 1
        t.uid = _uid
        _tab[k] = t
    return t


def isT(x, op=None):
    return isinstance(x, T) and (op is None or x.op == op)


def sym(name):
    return mk("sym", name)


# ------------------------------------------------------------------ polynomials
I = sym("I")


def _norm_poly(d):
    """dict mono->Fraction (mono: tuple of (atom, exp) sorted) -> term"""
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((a.uid, e) for a, e in mc[0])))
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", items)


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = Fraction(repr(v)) if v == v and abs(v) != float("inf") else None
        if v is None:
            return sym("nonfinite")
    v = Fraction(v)
    return mk("poly", (((), v),)) if v != 0 else mk("poly", ())


ZERO = num(0)
ONE = num(1)


def pdict(t):
    if isT(t, "poly"):
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def const(t):
    """Fraction if t is a constant number, else None"""
    if isT(t, "poly"):
        items = t.args[0]
        if not items:
            return Fraction(0)
        if len(items) == 1 and items[0][0] == ():
            return items[0][1]
    return None


def cint(t):
    c = const(t)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def padd(a, b, s=1):
    d = pdict(a)
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + s * c
    return _norm_poly(d)


def psub(a, b):
    return padd(a, b, -1)


def pneg(a):
    return psub(ZERO, a)


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    sign = 1
    if I in d:
        k = d[I] % 4
        d[I] = k % 2
        if k >= 2:
            sign = -1
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].uid)), sign


def pmul(a, b):
    d = {}
    for m1, c1 in pdict(a).items():
        for m2, c2 in pdict(b).items():
            m, s = _mmul(m1, m2)
            d[m] = d.get(m, 0) + s * c1 * c2
    return _norm_poly(d)


def pinv(a):
    """1/a: exact for single monomials, else an atom"""
    p = pdict(a)
    if len(p) == 1:
        (m, c), = p.items()
        m2, s = _mmul(tuple((x, -e) for x, e in m), ())
        return _norm_poly({m2: s / c})
    # complex constant
    if p and all(all(x is I for x, _ in m) for m in p):
        re = p.get((), Fraction(0))
        im = p.get(((I, 1),), Fraction(0))
        n = re * re + im * im
        return _norm_poly({(): re / n, ((I, 1),): -im / n})
    return mk("inv", a)


def pdiv(a, b):
    if const(b) == 0:
        return mk("div0", a)
    if a is b:
        return ONE
    return pmul(a, pinv(b))


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def is_num(t):
    return const(t) is not None


def re_im(t):
    """split a complex constant polynomial, else None"""
    p = pdict(t)
    if all(all(x is I for x, _ in m) for m in p):
        return p.get((), Fraction(0)), p.get(((I, 1),), Fraction(0))
    return None


def cplx(r, i):
    """complex number with real part r and imaginary part i (real terms)"""
    if isT(r, "re") and isT(i, "im") and r.args[0] is i.args[0]:
        return r.args[0]
    return padd(r, pmul(I, i))


_REAL_OPS = {"cos", "sin", "mag2", "cabs", "re", "im", "sqrt", "abs", "real"}


def _realish(atom):
    if atom.op in _REAL_OPS:
        return True
    if atom.op == "sym" and isinstance(atom.args[0], str) and atom.args[0].startswith("real:"):
        return True
    return False


def real_part(t):
    p = pdict(t)
    if all(all(_realish(x) or x is I for x, _ in m) for m in p):
        return _norm_poly({m: c for m, c in p.items() if not any(x is I for x, _ in m)})
    return mk("re", t)


def imag_part(t):
    p = pdict(t)
    if all(all(_realish(x) or x is I for x, _ in m) for m in p):
        return _norm_poly({tuple((x, e) for x, e in m if x is not I): c for m, c in p.items() if any(x is I for x, _ in m)})
    return mk("im", t)


def atoms(t, acc=None):
    """all sub-terms"""
    if acc is None:
        acc = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in acc:
                continue
            acc.add(x)
            stack.extend(x.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
    return acc


def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term) may return a replacement or None"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            if x.op == "poly":
                r = ZERO
                for m, c in x.args[0]:
                    q = num(c)
                    for a, e in m:
                        b = go(a)
                        q = pmul(q, ppow(b, e) if e > 0 else ppow(pinv(b), -e))
                    r = padd(r, q)
            else:
                r = mk(x.op, *[go(y) for y in x.args])
        memo[x] = r
        return r

    return go(t)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    if t.op == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            s = "*".join(show(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in m)
            if not s:
                s = str(c) if len(str(c)) < 12 else f"{float(c):.6g}"
            elif c != 1:
                s = f"{c if len(str(c)) < 12 else f'{float(c):.6g}'}*{s}"
            out.append(s)
        return "+".join(out) if len(out) == 1 else "(" + "+".join(out) + ")"
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "f":
        return f"{show(t.args[0], d+1)}.{t.args[1]}"
    if t.op == "idx":
        return f"{show(t.args[0], d+1)}[{show(t.args[1], d+1)}]"
    if t.op == "rec":
        return f"{t.args[0]}{{" + ", ".join(f"{n}={show(v, d+1)}" for n, v in t.args[1]) + "}"
    if t.op == "arr":
        return "[" + ", ".join(show(x, d + 1) for x in t.args[0]) + "]"
    return f"{t.op}(" + ", ".join(show(x, d + 1) for x in t.args) + ")"


# ------------------------------------------------------------------ booleans
TRUE = mk("true")
FALSE = mk("false")


def boolc(b):
    return TRUE if b else FALSE


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":  # a<0  ->  -a<=0
        return mk("le", pneg(t.args[0]))
    if t.op == "le":
        return mk("lt", pneg(t.args[0]))
    return mk("not", t)


def _sgn(p):
    """canonical sign for equality"""
    items = p.args[0] if isT(p, "poly") else None
    if items:
        if items[0][1] < 0:
            return pneg(p)
    return p


def beq(a, b):
    if a is b:
        return TRUE
    ca, cb = const(a) if isT(a) else None, const(b) if isT(b) else None
    if ca is not None and cb is not None:
        return boolc(ca == cb)
    if isT(a, "str") and isT(b, "str"):
        return boolc(a is b)
    for x, y in ((a, b), (b, a)):
        if x.op in ("true", "false") and y.op in ("true", "false"):
            return boolc(x is y)
        if x is TRUE:
            return y
        if x is FALSE:
            return bnot(y)
    if a.op == "poly" or b.op == "poly":
        return mk("eq0", _sgn(psub(a, b)))
    if b < a:
        a, b = b, a
    return mk("eq", a, b)


def blt(a, b):
    d = psub(a, b)
    c = const(d)
    if c is not None:
        return boolc(c < 0)
    return mk("lt", d)


def ble(a, b):
    d = psub(a, b)
    c = const(d)
    if c is not None:
        return boolc(c <= 0)
    return mk("le", d)
