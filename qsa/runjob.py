"""Interprets run() as a whole: options, parameter binding, classification, job and result, with the
simulation of one circuit (decided elsewhere) as an opaque step that returns a result or raises."""
from .pyev import Interp, T, H, Ref, mk, sym, show, isext, ext, Fn, Bound, Cls, Raise, TooHard, subterms, neg
from .pyback import Backend

OPTS = ["shots", "memory", "seed_simulator", "use_mpi", "use_bcast", "use_auto_swap", "swap_ver", "n_threads",
        "show_progress", "show_progress_frequency"]


class RunHooks:
    """circuits: what the argument is -- 'one', 'list', 'other'"""

    def __init__(self, R, arg, raising):
        self.R, self.arg, self.raising = R, arg, raising
        self.evals = []

    def isinstance(self, it, v, c):
        n = c.a[0].split(":")[-1].split(".")[-1] if isext(c) else c.name if hasattr(c, "name") else str(c)
        if isinstance(v, T) and v is sym("circuits"):
            if n == "QuantumCircuit":
                return self.arg == "one"
            if n in ("list", "Sequence", "Iterable", "tuple", "Collection"):
                return self.arg in ("list", "mixed") and n != "tuple"
            return False
        if isinstance(v, T) and v.op == "idx" and v.a[0] is sym("circuits"):
            if n == "QuantumCircuit":
                return True if self.arg == "list" else mk("isinstance", v, "QuantumCircuit")
        return NotImplemented

    def raises(self, it, n, args):
        if not self.raising:
            return False
        s = n if isinstance(n, str) else show(n)
        return self.raising(s)

    def call(self, it, fn, args, kw, line):
        f = fn.fn if isinstance(fn, Bound) else fn
        if isinstance(f, Fn) and f.qual in self.R.opaque:
            what = self.R.opaque[f.qual]
            al = list(args) + [kw[k] for k in kw]
            if isinstance(fn, Bound):
                pass
            elif f.cls is not None and f.kind == "fn" and len(al) > f_arity(f) - 1:
                al = al[1:]
            fa = tuple(it.freeze(a) for a in al)
            if self.raising and self.raising(what) and it.choose(2) == 1:
                it.event("call", what, fa, (), mk("raised", what), line, x="raises")
                raise Raise("Exception", mk("excof", what), line)
            t = mk(what, *fa)
            it.event("call", what, fa, (), t, line)
            return t
        return NotImplemented

    def attr(self, it, o, n):
        if isinstance(o, Ref) and it.heap[o.o].kind == "obj" and it.heap[o.o].cls is self.R.B.B and n in ("options", "_options"):
            return self.R.optobj
        if isinstance(o, T) and o.op == "mcall" and len(o.a) == 2 and o.a[1] == "configuration" or isinstance(o, T) and o.op == "attr" and o.a[1] == "_configuration":
            # the configuration a backend has by default (B15 decides that the limits in force are its own)
            v, _ = self.R.cls.find("_DEFAULT_CONFIG")
            h = it.heap[v.o] if isinstance(v, Ref) else None
            if h is not None and h.kind == "dict" and h.sym is None:
                d = {k: x for k, x in h.items if isinstance(k, str)}
                if n in ("n_qubits", "max_shots") and isinstance(d.get(n), int):
                    return d[n]
        return NotImplemented

    def hasattr(self, it, o, n):
        if o == self.R.optobj and isinstance(n, str):
            return n in OPTS
        return NotImplemented

    def isnone(self, it, t):
        if t.op in ("evaluated", "classified") or t.op == "call" and isinstance(t.a[0], str) and (t.a[0].startswith("qiskit") or t.a[0].startswith("uuid")):
            return False
        return NotImplemented

    def pure(self, it, n):
        return True


def f_arity(f):
    return len(f.node.args.args)


class RunJob:
    def __init__(self, repo=None):
        self.B = Backend() if repo is None else Backend(repo)

    def interp(self, arg, raising=None, save=False):
        it = self.it = self.B.interp({"cls": None, "nq": 0})
        self.cls = self.B.B
        ev, _ = self.cls.find("_evaluate_circuit")
        vp, _ = self.cls.find("_validate_and_get_circuit_property")
        self.opaque = {ev.qual: "evaluated", vp.qual: "classified"}
        it.hooks = self.hooks = RunHooks(self, arg, raising)
        self.so = self.B.self_obj(it)
        self.optobj = it.new(H("obj", {o: sym("default_" + o) for o in OPTS}, sym("backend_options"), None))
        it.heap[self.so.o].items["_save_SV"] = save
        return it

    def run(self, kw):
        """paths of run(circuits, **kw) followed by status() and result() of the job"""
        it = self.it
        f, _ = self.cls.find("run")

        def thunk():
            try:
                job = it.call(Bound(self.so, f), [sym("circuits")], dict(kw), None)
            except Raise as r:
                return "raise", r
            n = len(it.log)
            try:
                st = it.call(it.attr(job, "status"), [], {}, None)
                rs = it.call(it.attr(job, "result"), [], {}, None)
            except Raise as r:
                return "jobraise", r
            return "return", (job, st, rs, n)
        return it.paths(thunk)


def flat(log, seen=None):
    """events in order, those of a loop's steps at the loop"""
    seen = set() if seen is None else seen
    for e in log:
        if e.kind == "loop":
            if id(e.res) not in seen:
                seen.add(id(e.res))
                n = len(e.res.head.log)
                if e.end is not None and e.x != "exit":
                    yield from flat(e.end.snap.log[n:], seen)
                else:
                    for x in e.res.ends:
                        if x.kind == "next":
                            yield from flat(x.snap.log[n:], seen)
                seen.discard(id(e.res))
        yield e
