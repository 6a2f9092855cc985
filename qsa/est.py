"""Interprets the Estimator: a fresh estimator is built and calls are made on it with lists of circuits,
observables and values; library values are the models of hostval."""
from .prim import Prim, PrimHooks, last
from .pyev import T, H, Ref, MV, mk, sym, show, isext, Fn, Bound, BM, Cls, Raise, TooHard, BI
from .hostval import Sy, sy, Arr, Pauli, PauliList, Obs, Circ, Bit, Reg, Res, measured, sroot, eqv, gen

GATES = None


class Probs(MV):
    pass


class Backend(MV):
    """records what is run"""

    def __init__(self, E):
        self.E = E
        self._DEFAULT_SHOTS = 1024
        self.coupling_map = Res()
        self.options = Res(shots=1024)
        self.target = Res()

    def __bool__(self):
        return True

    def set_options(self, **k):
        self.E.setopts.append(k)

    def configuration(self):
        return Res()

    def run(self, circuits=None, parameter_binds=None, **opts):
        cs = circuits if isinstance(circuits, list) else [circuits]
        if opts.pop("circuits", None) is not None:
            raise TypeError("circuits")
        for c in cs:
            if not isinstance(c, Circ):
                raise TooHard("run of something else")
        if parameter_binds is not None and len(parameter_binds) != len(cs):
            raise ValueError("bindings for %d of %d circuits" % (len(parameter_binds), len(cs)))
        rs = []
        for i, c in enumerate(cs):
            b = dict(parameter_binds[i]) if parameter_binds is not None else {}
            if set(b) != set(c.params):
                raise ValueError("parameters %s bound, %s needed" % (sorted(b), c.params))
            e = Exp(c, b)
            self.E.exps.append(e)
            rs.append(e.result(opts))
        self.E.runs.append(opts)
        out = Res(results=rs)

        class Job(MV):
            def result(self):
                return out
        return Job()


class Data(Res):
    strict = True


class Exp:
    def __init__(self, c, b):
        self.c, self.b = c, b
        self.meas = measured(c)
        self.nc = c.num_clbits
        if set(self.meas) != set(range(self.nc)):
            raise TooHard("classical bits %s of %d" % (sorted(self.meas), self.nc))
        self.key = "%s(%s)" % (c.base, ",".join("%s=%s" % x for x in sorted(b.items()))) + "".join(
            "%s%s%s" % ("-" if s < 0 else "", p, q) for _, (q, s, p) in sorted(self.meas.items()))

    def outs(self):
        return [format(v, "0%db" % self.nc) for v in range(2 ** self.nc)] if self.nc else [""]

    def freq(self, o, exact):
        return Sy(("P" if exact else "N") + "[%s:%s]" % (self.key, o))

    def result(self, opts):
        exact = opts.get("shots", 1024) is None
        md = self.c.metadata
        h = Res(metadata=dict(md) if isinstance(md, dict) else md)
        h.metadata = dict(md) if isinstance(md, dict) else md
        if exact:
            d = Data(probabilities={int(o, 2) if o else 0: self.freq(o, True) for o in self.outs()})
        else:
            d = Data(counts={o: self.freq(o, False) for o in self.outs()})
        return Res(data=d, header=h, shots=None if exact else sy(0) + sum_([self.freq(o, False) for o in self.outs()]), _metadata={}, metadata={})

    def mean(self, label, exact):
        """expectation of a Pauli from this experiment or None"""
        at = {q: (b, s, p) for b, (q, s, p) in self.meas.items()}
        bits = []
        for q, ch in enumerate(reversed(label)):
            if ch == "I":
                continue
            if q not in at or at[q][2] != ch or at[q][1] != 1:
                return None
            bits.append(at[q][0])
        num, den = sy(0), sy(0)
        for o in self.outs():
            f = self.freq(o, exact)
            sg = sum(o[len(o) - 1 - b] == "1" for b in bits) % 2
            num = num - f if sg else num + f
            den = den + f
        return num if exact else num / den


def sum_(l):
    r = sy(0)
    for x in l:
        r = r + x
    return r


class PM(MV):
    def __init__(self, passes=()):
        self.passes = list(passes) if isinstance(passes, (list, tuple)) else [passes]

    def append(self, p):
        self.passes += p if isinstance(p, list) else [p]

    def __bool__(self):
        return True

    def run(self, c):
        if isinstance(c, list):
            return [self.run(x) for x in c]
        lay, ap = None, False
        for p in self.passes:
            if p.kind == "SetLayout":
                lay = p.layout
            if p.kind == "ApplyLayout":
                ap = True
        r = c.copy()
        if ap:
            if lay is None:
                raise ValueError("no layout")
            if len(lay) < c.n or len(set(lay)) != len(lay):
                raise ValueError("layout")
            r.n = max(c.n, 1 + max(lay))
            r.qubits = [Bit(i) for i in range(r.n)]
            r.ops = [(n, lay[q], b) for n, q, b in c.ops]
        return r


class Np:
    """the array library"""

    @staticmethod
    def array(x, dtype=None, **k):
        if isinstance(x, Arr):
            return x.copy()
        if isinstance(x, (int, float, complex, Sy)):
            return x
        l = list(x)
        if l and isinstance(l[0], Arr):
            l = [list(y.d) for y in l]
        r = Arr([list(y) if isinstance(y, (list, tuple)) else (y.real if isinstance(y, complex) else y) for y in l])
        return r.astype(dtype) if dtype is not None and "bool" in str(getattr(dtype, "name", dtype)) else r

    asarray = array

    @staticmethod
    def arange(*a, dtype=None):
        return Arr(list(range(*a)))

    @staticmethod
    def zeros(n, dtype=None):
        if isinstance(n, (list, tuple)):
            if len(n) == 1:
                n = n[0]
            elif len(n) == 2:
                return Arr([[0] * n[1] for _ in range(n[0])])
        return Arr([0] * n)

    @staticmethod
    def ones(n, dtype=None):
        return Arr([1] * (n[0] if isinstance(n, (list, tuple)) else n))

    @staticmethod
    def where(c):
        return c.nonzero()

    nonzero = where

    @staticmethod
    def flatnonzero(c):
        return c.nonzero()[0]

    @staticmethod
    def packbits(a, axis=None, bitorder="big"):
        def pack(l):
            o = []
            for i in range(0, len(l), 8):
                b = [int(bool(x)) for x in l[i:i + 8]]
                b += [0] * (8 - len(b))
                o.append(sum(x << (j if bitorder == "little" else 7 - j) for j, x in enumerate(b)))
            return o
        if a.two and axis in (1, -1):
            return Arr([pack(x) for x in a.d])
        if not a.two:
            return Arr(pack(a.d))
        raise TooHard("packbits")

    @staticmethod
    def dot(a, b):
        a = a if isinstance(a, Arr) else Arr(list(a))
        return a.dot(b)

    inner = dot

    @staticmethod
    def real_if_close(x, **k):
        return Np.array(x) if isinstance(x, (list, tuple)) else x

    @staticmethod
    def real(x):
        return Np.real_if_close(x)

    @staticmethod
    def sqrt(x):
        return x.map(sroot) if isinstance(x, Arr) else sroot(x)

    @staticmethod
    def sum(x, axis=None):
        return Np.array(x).sum(axis)

    @staticmethod
    def any(x, axis=None):
        return Np.array(x).any(axis)

    @staticmethod
    def all(x, axis=None):
        return Np.array(x).all(axis)

    @staticmethod
    def count_nonzero(x):
        return sum(1 for v in Np.array(x).flat() if v)

    @staticmethod
    def logical_or(a, b):
        return a.zip(b, lambda x, y: bool(x) or bool(y))

    @staticmethod
    def logical_and(a, b):
        return a.zip(b, lambda x, y: bool(x) and bool(y))

    @staticmethod
    def logical_not(a):
        return a.map(lambda x: not x)

    @staticmethod
    def logical_xor(a, b):
        return a.zip(b, lambda x, y: bool(x) != bool(y))

    @staticmethod
    def bitwise_or(a, b):
        return a | b

    @staticmethod
    def bitwise_and(a, b):
        return a & b

    @staticmethod
    def square(a):
        return a ** 2

    @staticmethod
    def argsort(a, **k):
        l = list(a)
        return Arr(sorted(range(len(l)), key=lambda i: l[i]))

    @staticmethod
    def float64(x=0):
        return x

    @staticmethod
    def reduce(f):
        def go(a, axis=0):
            if not a.two:
                axis = None
            return a.any(axis) if f == "or" else a.all(axis)
        return go


class Rng(MV):
    def __init__(self, E, seed):
        self.E, self.seed = E, seed

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            raise TooHard("several draws")
        self.E.draws.append((self.seed, loc, scale))
        return Sy("normal[%s;%s;%s]" % (self.seed if not isinstance(self.seed, T) else show(self.seed), sy(loc).v, sy(scale).v))


class Opts(Res):
    """qiskit.providers.Options: named fields, also a mapping"""

    def update_options(self, **k):
        self.__dict__.update(k)

    def get(self, k, d=None):
        return self.__dict__.get(k, d)

    def items(self):
        return self.__dict__.items()

    def keys(self):
        return self.__dict__.keys()

    def __len__(self):
        return len(self.__dict__)

    def __iter__(self):
        return iter(self.__dict__)

    def __getitem__(self, k):
        return self.__dict__[k]


class EstHooks(PrimHooks):
    def eq(self, it, a, b):
        return NotImplemented

    def isinstance(self, it, v, c):
        n = last(c.a[0]) if isext(c) else getattr(c, "name", "")
        if isinstance(v, MV):
            if isinstance(v, (Pauli, PauliList, Circ)):
                return n in (type(v).__name__, "QuantumCircuit" if isinstance(v, Circ) else "") or n in ("BaseOperator", "BasePauli") and not isinstance(v, Circ)
            if isinstance(v, Obs):
                return n in ("SparsePauliOp", "BaseOperator")
            if isinstance(v, Arr):
                return n == "ndarray"
            return False
        return NotImplemented

    def call(self, it, fn, args, kw, line):
        E = self.P
        if isinstance(fn, T) and isext(fn):
            q = fn.a[0].replace(":", ".").split(".")
            n, o = q[-1], q[-2] if len(q) > 1 else ""

            def host(f):
                return it.tohere(it.native(lambda: f(*[it.tohost(x) for x in args], **{k: it.tohost(x) for k, x in kw.items()})))
            if n == "default_rng":
                return Rng(E, it.tohost(args[0]) if args else it.tohost(kw.get("seed")))
            if n == "reduce" and o in ("logical_or", "bitwise_or"):
                return host(Np.reduce("or"))
            if n == "reduce" and o in ("logical_and", "bitwise_and"):
                return host(Np.reduce("and"))
            if o in ("numpy", "np"):
                f = getattr(Np, n, None)
                if f is None or n == "reduce":
                    raise TooHard("numpy." + n)
                return host(f)
            if n == "from_symplectic":
                return host(PauliList.from_symplectic)
            if n == "Pauli":
                return host(Pauli)
            if n == "PauliList":
                return host(PauliList)
            if n == "QuantumCircuit":
                return host(lambda n, c=0: Circ(n, c))
            if n == "ClassicalRegister":
                return host(lambda n, name="c": Reg(n, name))
            if n == "PassManager":
                return host(PM)
            if n == "SetLayout":
                return host(lambda l: Res(kind="SetLayout", layout=l))
            if n in ("ApplyLayout", "Optimize1qGatesDecomposition", "FullAncillaAllocation", "EnlargeWithAncilla"):
                if n in ("FullAncillaAllocation", "EnlargeWithAncilla"):
                    raise TooHard("coupling map")
                return Res(kind=n)
            if n == "convert_to_target":
                return Res()
            if n == "Options":
                return Opts(**{k: it.tohost(v) for k, v in kw.items()})
            if n == "warn":
                return None
            if n == "QuasiDistribution":
                return host(lambda d, *a, **k: {(int(k0, 2) if isinstance(k0, str) else k0): v for k0, v in d.items()})
            if n == "EstimatorResult":
                def er(values, metadata):
                    return Res(values=values, metadata=metadata)
                return host(er)
            if n in ("init_observable", "init_circuit"):
                return args[0]
            if n == "_circuit_key":
                return "key of %s" % args[0].base
            if n == "_observable_key":
                return "key of %s" % args[0].name
            if n == "transpile":
                if len(args) < 2 and "backend" not in kw or len(args) > 1 and args[1] is not E.backend or "backend" in kw and kw["backend"] is not E.backend:
                    E.untarget = True
                E.topts.append({k: it.freeze(v) for k, v in kw.items()})

                def tr(c):
                    if isinstance(c, list):
                        return [tr(x) for x in c]
                    r = c.copy()
                    p = E.place(c)
                    r.qmap = [p[x] for x in r.qmap]
                    r.ops = [(n, p[q], b) for n, q, b in c.ops]
                    r.qubits = [Bit(i) for i in range(c.n)]
                    r.transpiled = True
                    return r
                return it.tohere(it.native(lambda: tr(it.tohost(args[0]))))
        if isinstance(fn, T) and fn.op == "attr" and isinstance(fn.a[0], T) and fn.a[0] is sym("provider") and fn.a[1] == "get_backend":
            return E.backend
        if isinstance(fn, (Bound, Fn)) and (fn.fn if isinstance(fn, Bound) else fn).name == "get_backend":
            return E.backend
        if isinstance(fn, Cls) and fn.name == "QddBackend":
            return E.backend
        return super().call(it, fn, args, kw, line)


class Est(Prim):
    def __init__(self, world, repo=None):
        super().__init__("qdd.qdd_estimator", "Estimator", repo)
        self.it.hooks = EstHooks(self)
        self.world = world          # name -> function making a fresh model value
        self.fresh()

    def fresh(self):
        self.exps, self.runs, self.draws, self.setopts, self.topts, self.untarget = [], [], [], [], [], False
        self.backend = Backend(self)

    def place(self, c):
        """the transpiler may put the qubits anywhere"""
        n = c.n
        return [(i + 1) % n for i in range(n)]

    def go(self, ctor, calls, late=False):
        """calls: [(circuit names, observable names, values, run options)]"""
        it = self.it
        run, _ = self.cls.find("_run")

        def job(j):
            d = it.heap[j.o].items
            return it.call(d["$fn"], list(d["$args"]), dict(d["$kw"]), None)

        def thunk():
            self.fresh()
            out, marks, a = [], [], (0, 0, 0)
            try:
                p = it.construct(self.cls, [], {k: it.tohere(v) for k, v in ctor.items()}, 0)
                jobs = []
                for cs, os_, vs, kw in calls:
                    a = (len(self.exps), len(self.runs), len(self.draws))
                    j = it.call(Bound(p, run), [it.newlist([self.world[c]() for c in cs]), it.newlist([self.world[o]() for o in os_]),
                                                it.newlist([tuple(v) for v in vs])], dict(kw), None)
                    if not (isinstance(j, Ref) and "$fn" in (it.heap[j.o].items or {})):
                        raise TooHard("_run does not return a job")
                    jobs.append(j)
                    if not late:
                        a = (len(self.exps), len(self.runs), len(self.draws))
                        out.append(job(j))
                        marks.append(a)
                if late:
                    for j in jobs:
                        a = (len(self.exps), len(self.runs), len(self.draws))
                        out.append(job(j))
                        marks.append(a)
            except Raise as r:
                return "raise", (r, len(out), self.exps[a[0]:])
            return "return", (out, marks, list(self.exps), list(self.runs), list(self.draws), list(self.setopts), list(self.topts), self.untarget)
        return it.paths(thunk)
