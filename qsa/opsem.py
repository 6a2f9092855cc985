"""Numeric meaning of the engine's operations on small registers.

Extracted terms that build and apply gates are evaluated here on registers of a
few qubits, for one fixed generic choice of parameters and amplitudes; the
functions stand for the engine entry points whose own behaviour is the subject
of E01, E02, E08 and M04."""
import cmath, math, random

I2 = [[1, 0], [0, 1]]
_s = 1 / math.sqrt(2)
FIX = {
    "I": I2, "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]],
    "H": [[_s, _s], [_s, -_s]], "S": [[1, 0], [0, 1j]], "Sdag": [[1, 0], [0, -1j]],
    "T": [[1, 0], [0, cmath.exp(0.25j * math.pi)]], "Tdag": [[1, 0], [0, cmath.exp(-0.25j * math.pi)]],
    "SX": [[.5 + .5j, .5 - .5j], [.5 - .5j, .5 + .5j]], "SXdag": [[.5 - .5j, .5 + .5j], [.5 + .5j, .5 - .5j]],
}
FIX["V"], FIX["Vdag"] = FIX["SX"], FIX["SXdag"]


def e(x):
    return cmath.exp(1j * x)


def u3(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[c, -e(l) * s], [e(p) * s, e(p + l) * c]]


def scale(z, m):
    return [[z * x for x in r] for r in m]


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def pexp(th, a, b):
    """exp(-i th/2 a(x)b) for involutions a, b; first factor is the high bit"""
    k = kron(a, b)
    return [[(math.cos(th / 2) if i == j else 0) - 1j * math.sin(th / 2) * k[i][j] for j in range(4)] for i in range(4)]


X, Y, Z = FIX["X"], FIX["Y"], FIX["Z"]
SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
PAR1 = {
    "rxmat": (1, lambda t: [[math.cos(t / 2), -1j * math.sin(t / 2)], [-1j * math.sin(t / 2), math.cos(t / 2)]]),
    "rymat": (1, lambda t: [[math.cos(t / 2), -math.sin(t / 2)], [math.sin(t / 2), math.cos(t / 2)]]),
    "rzmat": (1, lambda t: [[e(-t / 2), 0], [0, e(t / 2)]]),
    "p": (1, lambda l: [[1, 0], [0, e(l)]]), "u1": (1, lambda l: [[1, 0], [0, e(l)]]),
    "r": (2, lambda t, p: [[math.cos(t / 2), -1j * e(-p) * math.sin(t / 2)], [-1j * e(p) * math.sin(t / 2), math.cos(t / 2)]]),
    "u2": (2, lambda p, l: u3(math.pi / 2, p, l)), "u3": (3, u3),
    "u": (4, lambda t, p, l, g: scale(e(g), u3(t, p, l))),
}
# index bit of the first target is the high one
PAR2 = {
    "swapmat": (0, lambda: SWAP),
    "iswapmat": (0, lambda: [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]]),
    "rxxmat": (1, lambda t: pexp(t, X, X)), "ryymat": (1, lambda t: pexp(t, Y, Y)),
    "rzzmat": (1, lambda t: pexp(t, Z, Z)), "rzxmat": (1, lambda t: pexp(t, X, Z)),
}


class Bad(Exception):
    """the term asks for something no register can do (equal qubits, index out of range)"""


class Op:
    """product of gates, first applied first: (matrix, targets low bit first, controls, ctrl value)"""

    def __init__(self, n, steps=(), w=1):
        self.n, self.steps, self.w = n, list(steps), w

    def after(self, o):
        """self . o"""
        if self.n != o.n:
            raise Bad("operators on %s and %s qubits multiplied" % (self.n, o.n))
        return Op(self.n, o.steps + self.steps, self.w * o.w)

    def top(self):
        """highest qubit on which the operator may act, -1 for a multiple of the identity"""
        r = -1
        for m, ts, cs, cv in self.steps:
            if m == I2:
                continue
            for q in list(ts) + list(cs):
                r = max(r, q)
        return r

    def apply(self, v):
        if len(v) != 1 << self.n:
            raise Bad("operator on %s qubits applied to a state of %s amplitudes" % (self.n, len(v)))
        for m, ts, cs, cv in self.steps:
            v = apply(v, m, ts, cs, cv)
        return [self.w * x for x in v]


def gate(n, m, ts, cs, cv=None):
    qs = list(ts) + list(cs)
    for q in qs:
        if not isinstance(q, int) or isinstance(q, bool) or not 0 <= q < n:
            raise Bad("qubit %r of a register of %s" % (q, n))
    if len(set(qs)) != len(qs):
        raise Bad("one qubit named twice")
    if len(m) != 1 << len(ts):
        raise Bad("matrix of %s rows for %s targets" % (len(m), len(ts)))
    return Op(n, [(m, tuple(ts), tuple(cs), (1 << len(cs)) - 1 if cv is None else cv)])


def apply(v, m, ts, cs, cv):
    out = [0] * len(v)
    for i, x in enumerate(v):
        if x == 0:
            continue
        if any((i >> c) & 1 != (cv >> k) & 1 for k, c in enumerate(cs)):
            out[i] += x
            continue
        col = sum(((i >> t) & 1) << k for k, t in enumerate(ts))
        base = i
        for t in ts:
            base &= ~(1 << t)
        for row in range(1 << len(ts)):
            y = m[row][col]
            if y != 0:
                j = base
                for k, t in enumerate(ts):
                    j |= ((row >> k) & 1) << t
                out[j] += y * x
    return out


def place(v, perm):
    """physical amplitudes of logical state v when qubit l is held at perm[l]"""
    out = [0] * len(v)
    for i, x in enumerate(v):
        j = 0
        for l, p in enumerate(perm):
            j |= ((i >> l) & 1) << p
        out[j] = x
    return out


def rnd(seed, n):
    r = random.Random(seed)
    return [complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)]


def rmat(seed, k):
    d = 1 << k
    x = rnd(seed, d * d)
    return [x[i * d:(i + 1) * d] for i in range(d)]


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))


PARAMS = [0.7390851, 1.2020569, -0.5772157, 0.2614972, 0.9159656]


def base_matrix(name):
    """2x2 or 4x4 matrix of an engine matrix name at the fixed parameters"""
    if name in FIX:
        return FIX[name]
    k, f = PAR1.get(name) or PAR2[name]
    return f(*PARAMS[:k])


def project(v, q, o):
    """the (not rescaled) projection of v onto value o of qubit q"""
    return [x if (i >> q) & 1 == o else 0 for i, x in enumerate(v)]
