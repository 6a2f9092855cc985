"""Interprets the primitives (Sampler, Estimator) of the package: a fresh primitive is built, calls are made
on it one after another with concrete lists of symbolic circuits and values; the backend's run, Qiskit's
transpile and the result object stay opaque terms, which a finite model gives values to."""
import os
from .pyev import Interp, T, H, Ref, mk, sym, show, isext, ext, Fn, Bound, BM, Cls, Raise, TooHard, subterms, eq
from .pyval import Model, Unk, Err


def last(n):
    return n.split(":")[-1].split(".")[-1]


class PrimHooks:
    def __init__(self, P):
        self.P = P

    def pure(self, it, n):
        return isinstance(n, str) and last(n) in ("QuasiDistribution", "SamplerResult", "EstimatorResult")

    def isnone(self, it, t):
        if t.op in ("transpiled",) or t.op == "sym" and t.a[0].startswith(("circ", "val", "obs", "opt")):
            return False
        if t.op == "call" or t.op == "mcall":
            return False
        return NotImplemented

    def attr(self, it, o, n):
        if isinstance(o, T) and o.op in ("sym", "transpiled") and n in ("name", "num_qubits", "num_clbits", "num_parameters", "global_phase"):
            c = o if o.op == "sym" else o.a[0]
            if c.op == "sym" and c.a[0].startswith("circ"):
                return "n" if n == "name" else 2 if n != "num_parameters" else mk("len", mk("attr", c, "parameters"))
        if isinstance(o, T) and o.op == "transpiled" and n == "parameters":
            return mk("attr", o.a[0], "parameters")
        return NotImplemented

    def isdict(self, it, t):
        return t.op == "mcall" and t.a[1] == "get_counts" or t.op == "idx" and t.a[1] == "probabilities"

    def eq(self, it, a, b):
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "sym" and a.a[0][:4] == b.a[0][:4] == "circ":
            return a is b
        return NotImplemented

    def call(self, it, fn, args, kw, line):
        P = self.P
        if isinstance(fn, T) and isext(fn):
            n = last(fn.a[0])
            if n == "_circuit_key":
                c = it.freeze(args[0])
                return "key of " + show(c)
            if n == "_observable_key":
                return "key of " + show(it.freeze(args[0]))
            if n == "init_circuit" or n == "init_observable":
                return args[0]
            if n == "transpile":
                l = it.tolist(args[0])
                kwf = [(k, it.freeze(v)) for k, v in sorted(kw.items())]
                it.event("call", "transpile", (it.freeze(args[0]),) + tuple(it.freeze(a) for a in args[1:]), tuple(kwf), None, line)
                if l is not None:
                    return it.newlist([mk("transpiled", it.freeze(c)) for c in l])
                return mk("transpiled", it.freeze(args[0]))
            if n == "PrimitiveJob":
                return it.new(H("obj", {"$fn": args[0], "$args": list(args[1:]), "$kw": dict(kw)}, mk("job", P.njobs(it)), None))
            if n == "argsort" and len(args) == 1:
                l = it.tolist(args[0])
                if l is not None and all(isinstance(x, int) for x in l):
                    return it.newlist(sorted(range(len(l)), key=lambda i: l[i]))
                raise TooHard("argsort of unknown numbers")
            if n == "get_backend" or n == "QddBackend":
                return sym("backend")
        if isinstance(fn, (Bound, Fn)):
            f = fn.fn if isinstance(fn, Bound) else fn
            if f.name == "get_backend":
                return sym("backend")
        if isinstance(fn, Cls) and fn.name in ("QddProvider", "QddBackend"):
            return sym("provider")
        if isinstance(fn, T) and fn.op == "attr" and isinstance(fn.a[0], T):
            if fn.a[0] is sym("provider") and fn.a[1] == "get_backend":
                return sym("backend")
            if fn.a[0] is sym("backend") and fn.a[1] == "set_options":
                it.event("call", "set_options", tuple(it.freeze(a) for a in args), tuple((k, it.freeze(v)) for k, v in sorted(kw.items())), None, line)
                return None
        if isinstance(fn, BM) and isinstance(fn.obj, Ref):
            h = it.heap[fn.obj.o]
            if fn.name == "tolist" and h.kind == "list":
                return fn.obj
        return NotImplemented


class Prim:
    def __init__(self, module, cls, repo=None):
        self.it = it = Interp(repo or os.environ.get("QSA_REPO", "/repo"))
        it.hooks = PrimHooks(self)
        self.mod = it.module(module)
        self.cls = self.mod.frame.vars.get(cls)
        if not isinstance(self.cls, Cls):
            raise TooHard("class %s not found" % cls)
        self.nj = 0

    def njobs(self, it):
        return it.fresh("job")

    def run(self, ctor, calls, late=False):
        """paths of building the primitive and making the calls [(args, kw)]; each value is the list of what
        the calls' jobs return.  late: every job runs only after all have been submitted"""
        it = self.it
        run, _ = self.cls.find("_run")

        def go(j):
            d = it.heap[j.o].items
            return it.call(d["$fn"], list(d["$args"]), dict(d["$kw"]), None)

        def thunk():
            out = []
            try:
                p = it.construct(self.cls, [], dict(ctor), 0)
                jobs = []
                for a, kw in calls:
                    kw = {k: v for k, v in kw.items()}
                    j = it.call(Bound(p, run), [it.newlist(list(x)) for x in a], kw, None)
                    if not (isinstance(j, Ref) and "$fn" in (it.heap[j.o].items or {})):
                        raise TooHard("_run does not return a job")
                    if not late:
                        out.append(go(j))
                    jobs.append(j)
                if late:
                    out = [go(j) for j in jobs]
            except Raise as r:
                return "raise", (r, len(out))
            return "return", out
        return it.paths(thunk)
