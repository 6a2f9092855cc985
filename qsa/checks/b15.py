"""Identity and limits of the backends: the package's provider and backends are built from source (the
configuration a backend is given is the one its constructor writes down), and requests on both sides of
every advertised limit are followed to the simulation of a circuit, which stays opaque, or to a refusal."""
import os
from ..pyev import Interp, T, H, Ref, mk, sym, show, isext, ext, Fn, Bound, BM, Cls, Raise, TooHard, MV, BI
from ..hostval import Res
from ..est import Opts

WH = "qdd/qdd_backend.py"
WP = "qdd/qdd_provider.py"
R1 = "a request exceeding what the backend's own configuration advertises is refused before anything is simulated"
R2 = "a request within the advertised limits is simulated, every circuit once"
R3 = "the counts backend refuses circuits without measurements, the state-vector backend accepts them"
R4 = "the provider gives the backend whose name was asked for, the counts backend by default, and refuses unknown names"


class Conf(Res):
    """qiskit's backend configuration"""
    strict = True

    def get(self, k, d=None):
        return self.__dict__.get(k, d)


class Ins(MV):
    """an operation of a circuit"""

    def __init__(self, cls, name):
        self.base_class, self.name, self.condition, self.params = cls, name, None, []
        self.operation = self

    def __bool__(self):
        return True


class QBit(MV):
    def __bool__(self):
        return True


class Row(MV):
    """an instruction: operation, qubits, classical bits"""

    def __init__(self, op, q, c):
        self.operation, self.qubits, self.clbits = op, q, c

    def __iter__(self):
        return iter((self.operation, self.qubits, self.clbits))

    def __getitem__(self, k):
        return (self.operation, self.qubits, self.clbits)[k]

    def __len__(self):
        return 3


class QC(MV):
    def __init__(self, name, n, meas):
        self.name, self.num_qubits, self.global_phase, self.metadata = name, n, 0.0, None
        self.qubits = [QBit() for i in range(n)]
        self.clbits = [QBit()] if meas else []
        self.num_clbits = len(self.clbits)
        self.data = [Row(Ins(ext("qiskit.circuit.library.HGate"), "h"), (self.qubits[0],), ())]
        if meas:
            self.data.append(Row(Ins(ext("qiskit.circuit.Measure"), "measure"), (self.qubits[0],), (self.clbits[0],)))
        self.cregs, self.qregs = [], []

    def __bool__(self):
        return True

    def __iter__(self):
        return iter(self.data)


class Hooks:
    def __init__(self, W):
        self.W = W

    def pure(self, it, n):
        return True

    def isnone(self, it, t):
        if t.op in ("call", "mcall", "evaluated", "new"):
            return False
        return NotImplemented

    def isinstance(self, it, v, c):
        n = c.a[0].split(":")[-1].split(".")[-1] if isext(c) else c.name if hasattr(c, "name") else str(c)
        if isinstance(v, QC):
            return n == "QuantumCircuit"
        if isinstance(v, MV):
            return False
        return NotImplemented

    def isobj(self, it, o):
        return isinstance(o, Ref) and it.heap[o.o].kind == "obj" and it.heap[o.o].cls is not None and self.W.base in it.heap[o.o].cls.mro()

    def attr(self, it, o, n):
        if self.isobj(it, o):
            d = it.heap[o.o].items
            if n in ("configuration", "name", "set_options", "provider", "version") and n not in d and it.heap[o.o].cls.find(n)[1] is None:
                return BM(o, n)
            if n in ("options", "_options", "_configuration", "_provider") and "$conf" in d and n not in d:
                return {"o": d.get("$opts"), "_": None}["o"] if n in ("options", "_options") else d["$conf"] if n == "_configuration" else d["$prov"]
        return NotImplemented

    def super_init(self, it, o, args, kw):
        if self.isobj(it, o.self_):
            d = it.heap[o.self_.o].items
            c = kw.get("configuration", args[0] if args else None)
            if not isinstance(c, Conf):
                raise TooHard("configuration")
            d["$conf"] = c
            d["$prov"] = kw.get("provider", args[1] if len(args) > 1 else None)
            f, _ = it.heap[o.self_.o].cls.find("_default_options")
            d["$opts"] = it.call(it.attr(o.self_, "_default_options"), [], {}, None)
            if not isinstance(d["$opts"], Opts):
                raise TooHard("options")
        return NotImplemented

    def super_call(self, it, o, n, args, kw):
        if n == "get_backend" and isinstance(o.self_, Ref):
            name = args[0] if args else kw.get("name")
            l = it.tolist(it.call(it.attr(o.self_, "backends"), [name], {k: v for k, v in kw.items() if k != "name"}, None))
            if l is None:
                raise TooHard("backends")
            if len(l) != 1:
                raise Raise("QiskitBackendNotFoundError", None)
            return l[0]
        return NotImplemented

    def call(self, it, fn, args, kw, line):
        W = self.W
        f = fn.fn if isinstance(fn, Bound) else fn
        if isinstance(f, Fn) and f.qual == W.evalq:
            al = [a for a in list(args) + list(kw.values()) if isinstance(a, QC)]
            if len(al) != 1:
                raise TooHard("simulation of something else")
            W.ran.append(al[0].name)
            return mk("evaluated", al[0].name)
        if isinstance(fn, BM) and self.isobj(it, fn.obj):
            d = it.heap[fn.obj.o].items
            if fn.name == "configuration":
                return d["$conf"]
            if fn.name == "provider":
                return d["$prov"]
            if fn.name == "name":
                return d["$conf"].backend_name
            if fn.name == "version":
                return d["$conf"].backend_version
            if fn.name == "set_options":
                d["$opts"].update_options(**{k: it.tohost(v) for k, v in kw.items()})
                return None
        if isinstance(fn, T) and isext(fn):
            q = fn.a[0].replace(":", ".").split(".")
            n, o = q[-1], q[-2] if len(q) > 1 else ""
            if o == "BackendConfiguration" and n == "from_dict":
                return Conf(**it.tohost(args[0]))
            if n == "BackendConfiguration":
                return Conf(**{k: it.tohost(v) for k, v in kw.items()})
            if n == "Options":
                return Opts(**{k: it.tohost(v) for k, v in kw.items()})
            if n == "filter_backends":
                if kw or len(args) != 1:
                    raise TooHard("filter_backends")
                return args[0]
            if n == "warn":
                return None
        if isinstance(fn, T) and fn.op == "attr" and isinstance(fn.a[0], T) and show(fn.a[0]).split(":")[-1].split(".")[-1] == "BackendConfiguration" and fn.a[1] == "from_dict":
            return Conf(**it.tohost(args[0]))
        return NotImplemented


class World:
    def __init__(self):
        self.it = it = Interp(os.environ.get("QSA_REPO", "/repo"))
        m = it.module("qdd.qdd_backend")
        self.base = m.frame.vars.get("QddBackend")
        if not isinstance(self.base, Cls):
            raise TooHard("class QddBackend not found")
        self.evalq = self.base.find("_evaluate_circuit")[0].qual
        it.hooks = Hooks(self)
        self.ran = []

    def cls(self, n):
        if n == "QddBackend":
            return self.base
        mod = {"QddSVBackend": "qdd.qdd_sv_backend", "QddProvider": "qdd.qdd_provider"}[n]
        c = self.it.module(mod).frame.vars.get(n)
        if not isinstance(c, Cls):
            raise TooHard("class %s not found" % n)
        return c

    def backend(self, n, conf):
        it = self.it
        if conf is None:
            return it.construct(self.cls(n), [sym("provider")], {}, 0)
        # the configuration a caller hands in: the backend's own with other limits
        o = it.construct(self.cls(n), [sym("provider")], {}, 0)
        c = Conf(**dict(it.heap[o.o].items["$conf"].__dict__, **conf))
        return it.construct(self.cls(n), [sym("provider")], {"configuration": c}, 0)

    def limits(self, n, conf=None):
        def thunk():
            o = self.backend(n, conf)
            c = self.it.heap[o.o].items["$conf"]
            return "return", (c.n_qubits, c.max_shots)
        ps = self.it.paths(thunk)
        if len(ps) != 1 or ps[0].kind != "return":
            raise TooHard("construction of %s" % n)
        return ps[0].val

    def request(self, n, conf, circs, one, opts, early):
        """[(number of circuits simulated, status), ...] per path"""
        it = self.it

        def thunk():
            self.ran = []
            o = self.backend(n, conf)
            if early:
                it.heap[o.o].items["$opts"].update_options(**early)
            l = [QC(*c) for c in circs]
            try:
                job = it.call(it.attr(o, "run"), [l[0] if one else it.newlist(l)], dict(opts), None)
                st = it.call(it.attr(job, "status"), [], {}, None)
            except Raise as r:
                return "raise", (list(self.ran), str(r.cls if isinstance(r.cls, str) else show(r.cls)), r.line)
            return "return", (list(self.ran), show(st).replace(":", ".").split(".")[-1], 0)
        return it.paths(thunk)


def req1(ctx, key, cls, conf, circs, one, opts, early, ok, rule):
    W = World()
    ps = W.request(cls, conf, circs, one, opts, early)
    for q in W.it.reached:
        ctx.saw(q)
    for p in ps:
        ran, st, line = p.val
        if ok:
            if p.kind == "raise" or st == "ERROR":
                ctx.bad(key, WH, rule, "refused (%s)" % st)
                return
            if ran != [c[0] for c in circs]:
                ctx.bad(key, WH, rule, "simulated are %s of %s" % (ran, [c[0] for c in circs]))
                return
        else:
            if ran or not (p.kind == "raise" or st == "ERROR"):
                ctx.bad(key, WH, rule, "accepted" if p.kind != "raise" and st != "ERROR" else "refused only after %d circuits were simulated" % len(ran))
                return
    ctx.check(True if ps else None, key, WH, rule, "no path")


def prov1(ctx, key, arg, want, before=0):
    W = World()
    it = W.it

    def thunk():
        for i in range(before):         # earlier providers and backends in the same process
            it.construct(W.cls("QddProvider"), [], {}, 0)
            it.construct(W.cls("QddSVBackend"), [sym("provider")], {}, 0)
        p = it.construct(W.cls("QddProvider"), [], {}, 0)
        args, kw = arg
        try:
            b = it.call(it.attr(p, "get_backend"), list(args), dict(kw), None)
        except Raise as r:
            return "raise", r
        d = it.heap[b.o].items
        return "return", (it.heap[b.o].cls.name, it.attr(b, "_save_SV"), d["$conf"].backend_name)
    ps = it.paths(thunk)
    for q in it.reached:
        ctx.saw(q)
    for p in ps:
        got = p.val if p.kind == "return" else None
        if want is None:
            if got is not None:
                ctx.bad(key, WP, R4, "an unknown name gives %s" % (got[2],))
                return
        elif got is None:
            ctx.bad(key, WP, R4, "refused (%s)" % (p.val.cls,))
            return
        elif got[2] != want[0] or bool(got[1]) != want[1]:
            ctx.bad(key, WP, R4, "gives backend %s%s" % (got[2], ", which saves the state" if got[1] else ""))
            return
    ctx.check(True if ps else None, key, WP, R4, "no path")


def work(ctx, job):
    kind, key = job[:2]
    rule = job[-1] if kind == "req" else R4
    ctx.guard(key, WH if kind == "req" else WP, rule, req1 if kind == "req" else prov1, ctx, key, *job[2:])


def check(ctx):
    ctx.explanation = ("requests at, just above and just below the limits each backend's configuration advertises (its own and one handed "
                       "in), for one circuit and for lists with one offending circuit at any place; backends asked for by name")
    lim = {}
    L = World()
    for n in ("QddBackend", "QddSVBackend"):
        try:
            for conf in (None, {"n_qubits": 7, "max_shots": 2000}):
                lim[n, conf is None] = L.limits(n, conf)
        except TooHard as x:
            ctx.und("limits of " + n, WH, R1, str(x))
    jobs = []
    for (n, own), (nq, ms) in lim.items():
        conf = None if own else {"n_qubits": 7, "max_shots": 2000}
        tag = "%s%s" % (n, "" if own else " with a given configuration")
        if not isinstance(nq, int) or not isinstance(ms, int):
            ctx.und("limits of " + tag, WH, R1, "%s, %s" % (nq, ms))
            continue
        others = {a for a, b in lim.values()} | {a + 1 for a, b in lim.values()}
        for q in sorted({1, 2, nq - 1, nq, nq + 1, 2 * nq} | others):
            for shots in ({"shots": 10}, {"shots": None}, {}):
                jobs.append(("req", "%s: %d qubits of %d, %s" % (tag, q, nq, shots), n, conf, [("c", q, True)], True, shots, None, q <= nq, R2 if q <= nq else R1))
            for bad in (0, 1, 2):
                cs = [("c%d" % i, q if i == bad else 1, True) for i in range(3)]
                jobs.append(("req", "%s: %d qubits of %d, circuit %d of 3" % (tag, q, nq, bad), n, conf, cs, False, {"shots": 10}, None, q <= nq, R2 if q <= nq else R1))
        for s in sorted({-1, 0, 1, 2, ms - 1, ms, ms + 1, 2 * ms} | {b for a, b in lim.values()} | {b + 1 for a, b in lim.values()}):
            for early in (False, True):
                ok = 0 < s <= ms
                jobs.append(("req", "%s: %d shots of %d%s" % (tag, s, ms, ", set on the backend" if early else ""), n, conf, [("c", 1, True)], True,
                             {} if early else {"shots": s}, {"shots": s} if early else None, ok, R2 if ok else R1))
            if 0 < s <= ms:
                jobs.append(("req", "%s: %d shots of %d over a setting above the limit" % (tag, s, ms), n, conf, [("c", 1, True)], True, {"shots": s}, {"shots": ms + 5}, True, R2))
            else:
                jobs.append(("req", "%s: %d shots of %d over a setting within the limit" % (tag, s, ms), n, conf, [("c", 1, True)], True, {"shots": s}, {"shots": 3}, False, R1))
        sv = n == "QddSVBackend"
        for k in (1, 2, 3):
            for bad in range(k):
                cs = [("c%d" % i, 2, i != bad) for i in range(k)]
                jobs.append(("req", "%s: circuit %d of %d without measurement" % (tag, bad, k), n, conf, cs, k == 1, {"shots": 10}, None, sv, R3))
    for a, w in [(((), {}), ("qasm_simulator", False)), ((("qasm_simulator",), {}), ("qasm_simulator", False)), ((("statevector_simulator",), {}), ("statevector_simulator", True)),
                 (((), {"name": "statevector_simulator"}), ("statevector_simulator", True)), (((), {"name": "qasm_simulator"}), ("qasm_simulator", False)), (((None,), {}), ("qasm_simulator", False)),
                 ((("no_such_backend",), {}), None), ((("qasm",), {}), None), ((("simulator",), {}), None)]:
        for before in (0, 1):
            jobs.append(("prov", "get_backend%s %s%s" % (a[0], a[1] or "", ", in a process with earlier providers" if before else ""), a, w, before))
    ctx.spread(work, jobs)
