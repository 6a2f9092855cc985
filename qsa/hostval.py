"""Model of the library values the estimator computes with: arrays, Pauli operators, circuits and
results.  Counts, coefficients and parameter values stay symbols; an arithmetic term over them is
kept as a term together with its value at two generic rational points, which decides identities."""
import random
from fractions import Fraction as F
from .pyev import MV, TooHard

PTS = 2


def gen(name):
    return tuple(F(random.Random("%s|%d" % (name, i)).randrange(10 ** 4, 10 ** 6)) for i in range(PTS))


class Sy(MV):
    """term over symbols"""

    def __init__(self, term, v=None):
        self.v = v if v is not None else gen(term)
        self.t = term if len(term) < 160 else term[:157] + "..."

    def __repr__(self):
        return self.t if len(self.t) < 120 else self.t[:117] + "..."

    def equals(self, o):
        o = sy(o)
        return o is not None and o.v == self.v

    def compare(self, op, o):
        o = sy(o)
        if o is None:
            raise TooHard("comparison of a symbol")
        if op in ("Eq", "NotEq"):
            return (o.v == self.v) == (op == "Eq")
        r = {(a > b) - (a < b) for a, b in zip(self.v, o.v)}
        if len(r) != 1:
            raise TooHard("comparison of symbols")
        r = r.pop()
        return {"Lt": r < 0, "LtE": r <= 0, "Gt": r > 0, "GtE": r >= 0}[op]

    def __bool__(self):
        return any(self.v)

    def __hash__(self):
        return hash(self.v)

    def __pos__(self):
        return self

    def __neg__(self):
        return 0 - self

    def item(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def sy(x):
    if isinstance(x, Sy):
        return x
    if isinstance(x, bool):
        return Sy(str(int(x)), (F(int(x)),) * PTS)
    if isinstance(x, (int, float, F)):
        return Sy(str(x), (F(x),) * PTS)
    if isinstance(x, complex) and x.imag == 0:
        return sy(x.real)
    return None


def arith(op, f):
    def go(a, b):
        x, y = sy(a), sy(b)
        if x is None or y is None:
            return NotImplemented
        return Sy("(%s %s %s)" % (x.t, op, y.t), tuple(f(p, q) for p, q in zip(x.v, y.v)))
    return go


def power(p, q):
    if q.denominator != 1:
        raise TooHard("power")
    return p ** int(q)


for nm, op, f in (("add", "+", lambda p, q: p + q), ("sub", "-", lambda p, q: p - q), ("mul", "*", lambda p, q: p * q),
                  ("truediv", "/", lambda p, q: p / q), ("pow", "**", power)):
    setattr(Sy, "__%s__" % nm, arith(op, f))
    setattr(Sy, "__r%s__" % nm, (lambda g: lambda a, b: g(b, a))(arith(op, f)))


def sroot(x):
    x = sy(x)
    return Sy("sqrt(%s)" % x.t, gen("sqrt%s" % (x.v,)))


# ------------------------------------------------------------ arrays
class Arr(MV):
    """one- or two-dimensional array"""

    def __init__(self, d, nc=0):
        self.d = list(d)
        self.two = bool(self.d) and isinstance(self.d[0], list)
        self.nc = len(self.d[0]) if self.two else nc

    def __repr__(self):
        return "array(%s)" % self.d

    @property
    def shape(self):
        return (len(self.d), self.nc) if self.two else (len(self.d),)

    @property
    def size(self):
        return len(self.d) * (self.nc if self.two else 1)

    @property
    def ndim(self):
        return 2 if self.two else 1

    @property
    def T(self):
        return Arr([list(x) for x in zip(*self.d)]) if self.two else self

    @property
    def real(self):
        return self

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter([Arr(x) if self.two else x for x in self.d])

    def idx(self, k):
        """list of positions along the first axis, or an int"""
        n = len(self.d)
        if isinstance(k, (list, Arr)):
            l = list(k.d if isinstance(k, Arr) else k)
            if l and all(isinstance(x, bool) for x in l):
                if len(l) != n:
                    raise IndexError("mask")
                return [i for i, x in enumerate(l) if x]
            if any(isinstance(x, bool) or not isinstance(x, int) for x in l):
                raise TooHard("index array")
            return [range(n)[i] for i in l]
        if isinstance(k, slice):
            return list(range(n))[k]
        if isinstance(k, int):
            return range(n)[k]
        raise TooHard("array index")

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if not self.two or len(k) != 2:
                raise IndexError("axes")
            r = self.idx(k[0])
            if isinstance(r, int):
                return Arr(self.d[r])[k[1]]
            rows = [Arr(self.d[i]) for i in r]
            c = [x[k[1]] for x in rows]
            if c and isinstance(c[0], Arr):
                a = Arr([list(x.d) for x in c])
                a.two, a.nc = True, len(c[0].d)
                return a
            return Arr(c)
        r = self.idx(k)
        if isinstance(r, int):
            return Arr(self.d[r]) if self.two else self.d[r]
        a = Arr([list(self.d[i]) if self.two else self.d[i] for i in r])
        a.two, a.nc = self.two, self.nc
        return a

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            if len(k) == 2 and all(isinstance(x, int) for x in k) and self.two:
                self.d[range(len(self.d))[k[0]]][range(self.nc)[k[1]]] = v
                return
            raise TooHard("array assignment")
        r = self.idx(k)
        if self.two:
            raise TooHard("row assignment")
        if isinstance(r, int):
            self.d[r] = v
        else:
            vs = list(v.d if isinstance(v, Arr) else v) if isinstance(v, (Arr, list)) else [v] * len(r)
            if len(vs) != len(r):
                raise ValueError("shape")
            for i, x in zip(r, vs):
                self.d[i] = x

    def zip(self, o, f, swap=False):
        if isinstance(o, (list, tuple)):
            o = Arr(list(o))
        g = (lambda a, b: f(b, a)) if swap else f
        if isinstance(o, Arr):
            if self.two and o.two:
                if self.shape != o.shape:
                    raise ValueError("shapes")
                r = Arr([[g(a, b) for a, b in zip(x, y)] for x, y in zip(self.d, o.d)])
            elif self.two or o.two:
                m, v = (self, o) if self.two else (o, self)
                if m.nc != len(v.d):
                    raise ValueError("shapes")
                r = Arr([[g(a, b) if self.two else g(b, a) for a, b in zip(x, v.d)] for x in m.d])
            else:
                if len(self.d) != len(o.d):
                    if len(o.d) == 1:
                        return self.zip(o.d[0], f, swap)
                    if len(self.d) == 1:
                        return Arr([g(self.d[0], y) for y in o.d])
                    raise ValueError("operands could not be broadcast together")
                r = Arr([g(a, b) for a, b in zip(self.d, o.d)])
        elif self.two:
            r = Arr([[g(a, o) for a in x] for x in self.d])
        else:
            r = Arr([g(a, o) for a in self.d])
        r.two, r.nc = self.two or isinstance(o, Arr) and o.two, max(self.nc, o.nc if isinstance(o, Arr) else 0)
        return r

    def map(self, f):
        r = Arr([[f(a) for a in x] for x in self.d] if self.two else [f(a) for a in self.d])
        r.two, r.nc = self.two, self.nc
        return r

    def compare(self, op, o):
        if isinstance(o, Arr) and o.shape != self.shape and 1 not in (len(self), len(o)):
            return op == "NotEq"
        fs = {"Eq": lambda a, b: eqv(a, b), "NotEq": lambda a, b: not eqv(a, b), "Lt": lambda a, b: a < b,
              "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}
        return self.zip(o, fs[op])

    def __bool__(self):
        if self.size == 1:
            return bool(self.d[0][0] if self.two else self.d[0])
        raise ValueError("truth value of an array")

    def __invert__(self):
        return self.map(lambda a: (not a) if isinstance(a, bool) else ~a)

    def __pos__(self):
        return self

    def __neg__(self):
        return self.map(lambda a: -a)

    def flat(self):
        return [a for x in self.d for a in x] if self.two else list(self.d)

    def has(self, x):
        return any(eqv(a, x) for a in self.flat())

    def red(self, f, z, axis):
        def fold(l):
            r = z
            for x in l:
                r = f(r, x)
            return r
        if axis is None or not self.two:
            return fold(self.flat())
        if axis in (0, -2):
            return Arr([fold([x[j] for x in self.d]) for j in range(self.nc)])
        return Arr([fold(x) for x in self.d])

    def any(self, axis=None):
        return self.red(lambda a, b: a or bool(b), False, axis)

    def all(self, axis=None):
        return self.red(lambda a, b: a and bool(b), True, axis)

    def sum(self, axis=None):
        return self.red(lambda a, b: a + b, 0, axis)

    def prod(self, axis=None):
        return self.red(lambda a, b: a * b, 1, axis)

    def nonzero(self):
        if self.two:
            raise TooHard("nonzero")
        return (Arr([i for i, x in enumerate(self.d) if x]),)

    def tolist(self):
        return [list(x) for x in self.d] if self.two else list(self.d)

    def astype(self, *a, **k):
        n = getattr(a[0], "a", ("",))[0] if a else ""
        n = getattr(a[0], "name", n) if a else ""
        if "bool" in str(n):
            return self.map(bool)
        return self.map(lambda x: int(x) if isinstance(x, bool) else x)

    def copy(self):
        return self.map(lambda x: x)

    def ravel(self):
        return Arr(self.flat())

    flatten = ravel

    def item(self, *a):
        if not a and self.size == 1:
            return self.flat()[0]
        raise ValueError("item")

    def conj(self):
        return self

    def dot(self, o):
        o = o if isinstance(o, Arr) else Arr(list(o))
        if o.two:
            raise TooHard("matrix product")
        row = lambda x: sum_([a * b for a, b in strictzip(x, o.d)])
        return Arr([row(x) for x in self.d]) if self.two else row(self.d)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return Arr(list(o)).dot(self)


def strictzip(a, b):
    if len(a) != len(b):
        raise ValueError("shapes not aligned")
    return zip(a, b)


def sum_(l):
    r = 0
    for x in l:
        r = r + x
    return r


def eqv(a, b):
    if isinstance(a, MV):
        return a.equals(b)
    if isinstance(b, MV):
        return b.equals(a)
    return a == b


import operator as _o


def _div(a, b):
    return sy(a) / sy(b)


def _b(f, g):
    return lambda a, b: g(a, b) if isinstance(a, bool) and isinstance(b, bool) else f(a, b)


for nm, f in (("add", _o.add), ("sub", _o.sub), ("mul", _o.mul), ("truediv", _div), ("pow", _o.pow), ("floordiv", _o.floordiv), ("mod", _o.mod),
              ("lshift", _o.lshift), ("rshift", _o.rshift), ("and", _o.and_), ("or", _o.or_), ("xor", _o.xor)):
    setattr(Arr, "__%s__" % nm, (lambda f: lambda a, b: a.zip(b, f))(f))
    setattr(Arr, "__r%s__" % nm, (lambda f: lambda a, b: a.zip(b, f, True))(f))

    def inplace(a, b, f=f):
        r = a.zip(b, f)
        if r.shape != a.shape:
            raise ValueError("in place")
        a.d = r.d
        return a
    setattr(Arr, "__i%s__" % nm, inplace)


# ------------------------------------------------------------ operators
class Pauli(MV):
    def __init__(self, *a):
        x = a[0]
        if isinstance(x, str):
            self.zb = [c in "ZY" for c in x[::-1]]
            self.xb = [c in "XY" for c in x[::-1]]
        elif isinstance(x, Pauli):
            self.zb, self.xb = list(x.zb), list(x.xb)
        elif isinstance(x, tuple) and len(x) in (2, 3):
            self.zb, self.xb = [bool(v) for v in x[0]], [bool(v) for v in x[1]]
            if len(self.zb) != len(self.xb):
                raise ValueError("z and x")
        else:
            raise TooHard("Pauli")

    @property
    def z(self):
        return Arr(self.zb)

    @property
    def x(self):
        return Arr(self.xb)

    @property
    def num_qubits(self):
        return len(self.zb)

    def label(self):
        return "".join("IZXY"[z + 2 * x] for z, x in zip(self.zb, self.xb))[::-1]

    to_label = label

    def __repr__(self):
        return self.label()

    def equals(self, o):
        return isinstance(o, Pauli) and (self.zb, self.xb) == (o.zb, o.xb)

    def compare(self, op, o):
        return self.equals(o) == (op == "Eq")

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.zb)

    def __hash__(self):
        return hash(self.label())


class PauliList(MV):
    def __init__(self, data=()):
        if isinstance(data, Pauli):
            data = [data]
        self.p = [Pauli(x) for x in data]

    @classmethod
    def from_symplectic(cls, z, x, phase=0):
        if not (isinstance(z, Arr) and isinstance(x, Arr) and z.two and x.two):
            raise TooHard("from_symplectic")
        return cls([Pauli((a, b)) for a, b in zip(z.d, x.d)])

    def arr(self, k):
        a = Arr([list(getattr(p, k)) for p in self.p])
        a.two = True
        a.nc = len(self.p[0].zb) if self.p else 0
        return a

    @property
    def z(self):
        return self.arr("zb")

    @property
    def x(self):
        return self.arr("xb")

    @property
    def size(self):
        return len(self.p)

    @property
    def num_qubits(self):
        return len(self.p[0].zb)

    def __len__(self):
        return len(self.p)

    def __iter__(self):
        return iter(self.p)

    def __bool__(self):
        return bool(self.p)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.p[k]
        return PauliList([self.p[i] for i in Arr(self.p).idx(k)])

    def __add__(self, o):
        if isinstance(o, (Pauli, PauliList)):
            return PauliList(self.p + ([o] if isinstance(o, Pauli) else o.p))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, int) and o == 0:
            return PauliList(self.p)
        return NotImplemented

    def has(self, x):
        if isinstance(x, Pauli):
            return any(p.equals(x) for p in self.p)
        raise TooHard("in")

    def equals(self, o):
        return self is o or isinstance(o, PauliList) and len(o.p) == len(self.p) and all(a.equals(b) for a, b in zip(self.p, o.p))

    def compare(self, op, o):
        raise TooHard("comparison of lists")

    def unique(self):
        r = []
        for p in self.p:
            if not any(p.equals(q) for q in r):
                r.append(p)
        return PauliList(r)

    def to_labels(self):
        return [p.label() for p in self.p]

    def copy(self):
        return PauliList(self.p)

    def group_commuting(self, qubit_wise=False):
        def ok(a, b):
            n = 0
            for s, t in zip(a.label(), b.label()):
                if "I" not in (s, t) and s != t:
                    n += 1
            return n == 0 if qubit_wise else n % 2 == 0
        gs = []
        for p in self.p:
            for g in gs:
                if all(ok(p, q) for q in g):
                    g.append(p)
                    break
            else:
                gs.append([p])
        return [PauliList(g) for g in gs]

    def group_qubit_wise_commuting(self):
        return self.group_commuting(True)


class Obs(MV):
    def __init__(self, name, labels):
        self.name, self.labels = name, labels
        self.paulis = PauliList([Pauli(l) for l in labels])
        self.coeffs = Arr([Sy("%s.c%d" % (name, i)) for i in range(len(labels))])

    @property
    def num_qubits(self):
        return len(self.labels[0])

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.labels)

    def __repr__(self):
        return self.name


# ------------------------------------------------------------ circuits
class Bit(MV):
    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


class Inst(MV):
    def __init__(self, name, qs, cs):
        self.name, self.qubits, self.clbits, self.operation, self.params = name, qs, cs, name, []

    def __iter__(self):
        return iter((self.name, list(self.qubits), list(self.clbits)))

    def __getitem__(self, k):
        return list(self)[k]

    def __bool__(self):
        return True


class Reg(MV):
    def __init__(self, n, name="c"):
        self.size, self.name = n, name

    def __len__(self):
        return self.size

    def __bool__(self):
        return True


class Circ(MV):
    """base circuit (a symbol) followed by recorded operations; qmap: where each of the circuit's own qubits lies"""

    def __init__(self, n, c=0, base=None, params=()):
        self.n, self.base, self.params = n, base, list(params)
        self.qmap = list(range(n))
        self.ops, self.cregs, self.metadata = [], [], None
        self.transpiled = False
        self.qubits = [Bit(i) for i in range(n)]
        if isinstance(c, int) and c:
            self.cregs.append(Reg(c))
        self.name = base

    def __bool__(self):
        return True

    def __repr__(self):
        return str(self.base)

    @property
    def num_qubits(self):
        return self.n

    @property
    def num_clbits(self):
        return sum(r.size for r in self.cregs)

    @property
    def parameters(self):
        return tuple(self.params)

    @property
    def num_parameters(self):
        return len(self.params)

    def copy(self, name=None):
        c = Circ(self.n, 0, self.base, self.params)
        c.qmap, c.ops, c.cregs, c.transpiled = list(self.qmap), list(self.ops), list(self.cregs), self.transpiled
        c.metadata = dict(self.metadata) if isinstance(self.metadata, dict) else self.metadata
        c.qubits = self.qubits
        c.name = self.name
        return c

    def q(self, x):
        if isinstance(x, Bit):
            return x.i
        if isinstance(x, (list, tuple)) and len(x) == 1:
            return self.q(x[0])
        if not isinstance(x, int) or isinstance(x, bool):
            raise TooHard("qubit")
        return range(self.n)[x]

    def gate(self, name, x):
        self.ops.append((name, self.q(x), None))

    def measure(self, q, c):
        qs, cs = (q, c) if isinstance(q, (list, tuple, Arr)) else ([q], [c])
        for a, b in strictzip(list(qs), list(cs)):
            if isinstance(b, Bit):
                b = b.i
            if not 0 <= b < self.num_clbits:
                raise IndexError("clbit")
            self.ops.append(("measure", self.q(a), b))

    def measure_all(self):
        k = self.num_clbits
        self.cregs = self.cregs + [Reg(self.n, "meas")]
        self.ops = self.ops + [("measure", i, k + i) for i in range(self.n)]

    def remove_final_measurements(self, inplace=True):
        c = self if inplace else self.copy()
        while c.ops and c.ops[-1][0] == "measure":
            c.ops = c.ops[:-1]
        c.cregs = [r for r in c.cregs if r.name != "meas"]
        return None if inplace else c

    @property
    def data(self):
        # a circuit of its own begins with some operations, here all of them on its first qubit
        own = [Inst("own%d" % i, (self.qubits[self.qmap[0]],), ()) for i in range(self.n + 1)] if self.base is not None else []
        return own + [Inst(n, (self.qubits[q],), (Bit(c),) if c is not None else ()) for n, q, c in self.ops]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __getitem__(self, k):
        return self.data[k]

    def find_bit(self, b):
        class Loc(MV):
            index = b.i
            registers = []
        return Loc()

    def add_register(self, *rs):
        self.cregs = self.cregs + list(rs)

    def compose(self, o, qubits=None, clbits=None, front=False, inplace=False, **k):
        if front or o.base is not None or k:
            raise TooHard("compose")
        qs = list(range(o.n)) if qubits is None else [self.q(x) for x in qubits]
        cs = list(range(o.num_clbits)) if clbits is None else [x.i if isinstance(x, Bit) else x for x in clbits]
        if len(qs) > self.n or len(cs) > self.num_clbits:
            raise ValueError("compose")
        c = self if inplace else self.copy()
        c.ops = c.ops + [(n, qs[q], None if b is None else cs[b]) for n, q, b in o.ops]
        return None if inplace else c


for g in ("h", "s", "sdg", "x", "y", "z", "sx", "sxdg", "id"):
    setattr(Circ, g, (lambda g: lambda self, q: self.gate(g, q))(g))

# image of Z (X, Y) under conjugation of what is measured: G^dagger P G
CONJ = {"h": {"Z": (1, "X"), "X": (1, "Z"), "Y": (-1, "Y")},
        "s": {"Z": (1, "Z"), "X": (-1, "Y"), "Y": (1, "X")},
        "sdg": {"Z": (1, "Z"), "X": (1, "Y"), "Y": (-1, "X")},
        "x": {"Z": (-1, "Z"), "X": (1, "X"), "Y": (-1, "Y")},
        "y": {"Z": (-1, "Z"), "X": (-1, "X"), "Y": (1, "Y")},
        "z": {"Z": (1, "Z"), "X": (-1, "X"), "Y": (-1, "Y")},
        "sx": {"Z": (1, "Y"), "X": (1, "X"), "Y": (-1, "Z")},
        "sxdg": {"Z": (-1, "Y"), "X": (1, "X"), "Y": (1, "Z")},
        "id": {"Z": (1, "Z"), "X": (1, "X"), "Y": (1, "Y")}}


def measured(c):
    """{clbit: (own qubit of the base circuit, sign, basis)}"""
    out, pre = {}, {}
    for n, q, b in c.ops:
        if n == "measure":
            sg, p = 1, "Z"
            for g in reversed(pre.get(q, [])):
                s, p = CONJ[g][p]
                sg *= s
            out[b] = (c.qmap.index(q) if q in c.qmap else None, sg, p)
            pre.setdefault(q, []).append("measured")
        else:
            if "measured" in pre.get(q, []):
                raise TooHard("operation after a measurement")
            pre.setdefault(q, []).append(n)
    return out


class Res(MV):
    """any record"""
    strict = False          # whether reading another field is an error of the program or of the model

    def __init__(self, **k):
        self.__dict__.update(k)

    def __bool__(self):
        return True
