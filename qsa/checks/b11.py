"""Results: run() is interpreted and its list of results evaluated on concrete lists of circuits and
bindings; the entry of one circuit is decided field by field."""
import itertools
from ..runjob import RunJob, flat
from ..seqrun import SeqModel
from ..pyback import Backend, MODES, CircModel
from ..pyev import T, Ref, mk, sym, show, Bound, subterms
from ..pyval import Unk, Err, Model
from .b01 import mkpart, seed, field

WH = "qdd/qdd_backend.py"
R1 = "the results are one entry per circuit, in order, of that circuit with its own binding and its own properties"
R2 = "bindings that do not match the circuits one to one are refused"
R3 = "the header names the registers, sizes, bits and name of the entry's own circuit"
R4 = "the entry reports the shots used and, for the state-vector backend, the final state; its header is its own circuit's"


def leaf(circs, binds):
    def f(t, pos, m):
        if t is sym("circuits"):
            return circs
        if t is sym("binds"):
            return binds
        if t.op == "evaluated":
            return ("evaluated", m.ev(t.a[0], pos), m.ev(t.a[1], pos))
        if t.op == "classified":
            return ("classified", m.ev(t.a[0], pos))
        if t.op == "mcall" and t.a[1] == "assign_parameters":
            kw = {x.a[0]: x.a[1] for x in t.a[3:] if isinstance(x, T) and x.op == "kw"}
            if any(k != "inplace" for k in kw) or kw.get("inplace", False) is not False or len(t.a) < 3:
                raise Unk("assign_parameters with " + show(t)[:80])
            return ("bound", m.ev(t.a[0], pos), m.ev(t.a[2], pos))
        if t.op == "isinstance":
            return True
        return NotImplemented
    return f


def lists(ctx, job):
    arg, n, k = job
    key = "%s of %d circuits, %s" % (arg, n, "no bindings" if k is None else "%d bindings" % k)
    ctx.guard(key, WH, R1, lists1, ctx, arg, n, k, key)


def lists1(ctx, arg, n, k, key):
    R = RunJob()
    it = R.interp(arg)
    h = it.heap[R.optobj.o].items
    h["shots"], h["n_threads"], h["seed_simulator"] = 1024, 1, None
    ps = R.run({} if k is None else {"parameter_binds": sym("binds")})
    for names in sorted(set(itertools.product("ab", repeat=n))) if n < 3 else [("a", "b", "c"), ("a", "a", "b"), ("b", "a", "b")]:
        cs = [x if n < 3 or True else x for x in names]
        bs = None if k is None else ["B%d" % i for i in range(k)]
        m = SeqModel(it, leaf(cs if arg == "list" else cs[0], bs))
        p = m.run(ps)
        st = show(p.val[1]) if p.kind == "return" else "raised"
        if k is not None and k != n:
            if p.kind == "return" and not st.endswith("ERROR"):
                ctx.bad(key, WH, R2, "accepted")
                return
            continue
        if p.kind != "return" or not st.endswith("DONE"):
            ctx.bad(key, WH, R1, "the run ends with %s" % st)
            return
        rs = entries(it, p)
        if rs is None:
            ctx.und(key, WH, R1, "result of another form")
            return
        got = m.ev(rs, dict(m.depthpos))
        want = []
        for i, c in enumerate(cs):
            c = c if bs is None else ("bound", c, bs[i])
            want.append(("evaluated", c, ("classified", c)))
        if list(got) != want:
            ctx.bad(key, WH, R1, "circuits %s%s give %s" % (cs, " with bindings %s" % bs if bs else "", got))
            return
    ctx.ok(key, WH, R1 if k is None or k == n else R2)


def entries(it, p):
    f = it.freeze(p.val[2], p.snap.heap)
    if isinstance(f, T) and f.op == "call" and "Result" in str(f.a[0]):
        for d in f.a[1]:
            if isinstance(d, T) and d.op == "dict":
                for k, v in d.a:
                    if k == "results":
                        return v
        for k, v in f.a[2]:
            if k == "results":
                return v
    return None


class Reg:
    def __init__(self, name, size):
        self.name, self.size = name, size

    def __len__(self):
        return self.size


def header(ctx, B):
    ctx.guard("header", WH, R3, header1, ctx, B)


def header1(ctx, B):
    it = B.interp({"cls": None, "nq": 0})
    f, _ = B.B.find("_create_experiment_header")
    if f is None:
        ctx.und("header", WH, R3, "routine that makes the header not found")
        return
    fn = f if f.kind == "staticmethod" else Bound(B.B if f.kind == "classmethod" else B.self_obj(it), f)
    ps = it.analyse(fn, [sym("circ")])
    for cr in ([], [("c", 2)], [("m", 1), ("c", 3)], [("c", 3), ("d", 1), ("e", 2)]):
        for qr in ([("q", 1)], [("q", 2), ("anc", 1)], [("a", 1), ("b", 3)]):
            C, Q = [Reg(*x) for x in cr], [Reg(*x) for x in qr]

            def lf(t, pos, m):
                if t.op == "attr":
                    if t.a[0] is sym("circ"):
                        n = t.a[1]
                        d = {"cregs": C, "qregs": Q, "global_phase": 0.5, "metadata": {"k": 1}, "name": "N",
                             "num_clbits": sum(x.size for x in C), "num_qubits": sum(x.size for x in Q)}
                        if n in d:
                            return d[n]
                        return NotImplemented
                    o = m.ev(t.a[0], pos)
                    if isinstance(o, Reg) and t.a[1] in ("name", "size"):
                        return getattr(o, t.a[1])
                return NotImplemented
            m = SeqModel(it, lf)
            p = m.run(ps)
            if p.kind != "return":
                ctx.bad("header", WH, R3, "raises %s" % p.val.cls)
                return
            got = m.ev(it.freeze(p.val, p.snap.heap), dict(m.depthpos))
            want = {"clbit_labels": [[n, i] for n, s in cr for i in range(s)], "creg_sizes": [[n, s] for n, s in cr],
                    "memory_slots": sum(s for n, s in cr), "n_qubits": sum(s for n, s in qr), "name": "N", "metadata": {"k": 1},
                    "qreg_sizes": [[n, s] for n, s in qr], "qubit_labels": [[n, i] for n, s in qr for i in range(s)], "global_phase": 0.5}
            for k, v in want.items():
                g = got.get(k, "absent") if isinstance(got, dict) else None
                if norm(g) != norm(v):
                    ctx.bad("header, " + k, WH, R3, "%s is %r for classical registers %s and quantum registers %s" % (k, g, cr, qr))
                    return
    for k in want:
        ctx.ok("header, " + k, WH, R3)


def norm(x):
    return [norm(y) for y in x] if isinstance(x, (list, tuple)) else x


def entry(ctx, B, job):
    mode, stable, shots, sv = job
    key = "entry, %s, %s, %s%s" % (mode, "sampled" if stable else "per shot", "shots" if shots else "no shots", ", state vector" if sv else "")
    ctx.guard(key, WH, R4, entry1, ctx, B, mode, stable, shots, sv, key)


def entry1(ctx, B, mode, stable, shots, sv, key):
    run = B.run(mkpart("XGate", 1), mode, stable, shots, save=sv)
    it = run.it
    n = 0
    hd = None
    hf, _ = B.B.find("_create_experiment_header")
    for p in run.paths:
        if p.kind != "return":
            continue
        n += 1
        s = field(it, p, ("success",))
        if s is not True:
            ctx.bad(key, WH, R4, "the entry is marked %s" % show(s))
            return
        s = field(it, p, ("shots",))
        if shots and s is not mk("shots") or not shots and s is not None:
            ctx.bad(key, WH, R4, "the entry reports %s shots" % show(s)[:60])
            return
        h = field(it, p, ("header",))
        if h is None or not (isinstance(h, T) and h.op == "dict"):
            ctx.bad(key, WH, R4, "the entry has no header") if h is None else ctx.und(key, WH, R4, "header " + show(h)[:60])
            return
        nm = dict(h.a).get("name")
        if nm is not mk("attr", sym("circ"), "name"):
            ctx.bad(key, WH, R4, "the header's name is %s" % show(nm)[:60])
            return
        v = field(it, p, ("data", "statevector"))
        if sv and v is None:
            ctx.bad(key, WH, R4, "no state vector in the entry")
            return
        if sv and not any(isinstance(x, T) and x.op == "call" and x.a[0] in ("pyQDD.getVector", "pyQDD.getVectorMPI") for x in subterms(v)):
            ctx.bad(key, WH, R4, "the state vector is %s" % show(v)[:80])
            return
        if not sv and v is not None:
            ctx.bad(key, WH, R4, "the counts backend reports a state vector")
            return
        c, pr = field(it, p, ("data", "counts")), field(it, p, ("data", "probabilities"))
        if shots and c is None or not shots and pr is None:
            ctx.bad(key, WH, R4, "the entry holds no %s" % ("counts" if shots else "probabilities"))
            return
    ctx.check(True if n else None, key, WH, R4, "no result is returned")


def svclass(ctx):
    """the state-vector backend is the class that saves the state"""
    ctx.guard("state-vector backend", "qdd/qdd_sv_backend.py", R4, svclass1, ctx)


def svclass1(ctx):
    R = RunJob()
    it = R.interp("one")
    m = it.module("qdd.qdd_sv_backend")
    c = m.frame.vars.get("QddSVBackend") if m else None
    if c is None:
        ctx.und("state-vector backend", "qdd/qdd_sv_backend.py", R4, "class not found")
        return

    def thunk():
        o = it.call(c, [sym("provider")], {}, None)
        return "return", (it.attr(o, "_save_SV"),)
    ps = it.paths(thunk)
    for p in ps:
        ctx.check(p.val[0] is True, "state-vector backend", "qdd/qdd_sv_backend.py", R4, "does not save the state")


def check(ctx):
    B = Backend()
    ctx.explanation = ("lists of up to three circuits, repeated ones included, with matching, missing and surplus bindings; "
                       "headers for several register layouts; the entry's fields in every mode")
    jobs = [("list", n, k) for n in (0, 1, 2, 3) for k in (None, 0, 1, 2, 3, 4)] + [("one", 1, None), ("one", 1, 1), ("one", 1, 2)]
    ctx.spread(lists, jobs)
    header(ctx, B)
    svclass(ctx)
    ctx.guard("loop state", WH, R4, seed, ctx, B)
    ctx.spread(lambda c, j: entry(c, B, j), [(m, st, sh, sv) for m in MODES for st, sh in ((True, True), (False, True), (True, False)) for sv in (False, True)])
    for n in ("run", "_run_experiment", "_create_experiment_header", "_evaluate_circuit"):
        ctx.saw("QddBackend." + n)
