"""Which circuits are sampled from one final state.  The routine that classifies a circuit is
interpreted with symbolic instructions; the extracted step relation is evaluated on every circuit
up to a length over an alphabet of instruction kinds and compared with the definition."""
import itertools
from ..pyback import Backend, Hooks, MODES, main_loops, loops, E
from ..pyev import T, mk, sym, show, isext, Ref, Raise, Fn, Bound, TooHard, subterms, Cls
from ..pyval import Unk, Err, Model
from ..seqrun import SeqModel
from .b01 import seed, WH, mkpart, run_part

R1 = "sampling from one final state is chosen only for circuits without conditional, reset or channel instructions and without operations on measured qubits"
R2 = "for a circuit sampled from one final state, each bit is recorded with the qubit last measured into it"
R3 = "a circuit that is not sampled from one final state is simulated once per requested shot"
R4 = "a measured circuit of admissible size is accepted"


class GenHooks(Hooks):
    """instructions stay symbolic"""

    def __init__(self):
        super().__init__({"cls": None, "nq": 0, "nc": 0})

    def attr(self, it, o, n):
        if isinstance(o, T) and self.isinstr(o):
            if n == "operation":
                return mk("op", o)
            if n in ("qubits", "clbits"):
                return mk("attr", o, n)
            if n in ("name", "params", "base_class", "condition", "label"):
                return mk("attr", mk("op", o), n)
        if isinstance(o, T) and o.op == "op" and n in ("_condition", "__class__"):
            return mk("attr", o, {"_condition": "condition", "__class__": "base_class"}[n])
        return NotImplemented

    def isinstance(self, it, v, c):
        if isinstance(v, T) and v.op == "op" and isext(c):
            return mk("isop", v, c.a[0])
        if isinstance(v, T) and v.op == "op" and isinstance(c, Cls):
            return mk("isop", v, c.name)
        return NotImplemented

    def type(self, it, v):
        if isinstance(v, T) and v.op == "op":
            return mk("attr", v, "base_class")
        return NotImplemented

    def hasattr(self, it, o, n):
        if isinstance(o, T) and o.op == "op" and n in ("condition", "_condition", "base_class", "name", "params"):
            return True
        return NotImplemented

    def isnone(self, *a):
        return NotImplemented

    def truth(self, it, t):
        return None


class Inst:
    def __init__(self, k, name, qs, cs=(), cond=False):
        self.k, self.name, self.qs, self.cs, self.cond = k, name, qs, cs, cond

    def __repr__(self):
        return self.k + "".join(" q%d" % q for q in self.qs) + "".join(" -> c%d" % c for c in self.cs) + (" if" if self.cond else "")


def alphabet(full):
    A = [Inst("XGate", "x", (0,)), Inst("CXGate", "cx", (0, 1)), Inst("Measure", "measure", (0,), (0,)), Inst("Measure", "measure", (1,), (0,)),
         Inst("Measure", "measure", (1,), (1,)), Inst("Barrier", "barrier", (0, 1)), Inst("Reset", "reset", (0,)), Inst("Reset", "reset", (1,)),
         Inst("XGate", "x", (1,), (), True), Inst("Measure", "measure", (0,), (1,), True), Inst("Kraus", "kraus", (0,)),
         Inst("SuperOp", "superop", (1,)), Inst("QDDGate", "qdd", (0, 1)), Inst("Initialize", "initialize", (0, 1)),
         Inst("Reset", "reset", (0,), (), True)]
    if full:
        A += [Inst("XGate", "x", (1,)), Inst("CXGate", "cx", (1, 0)), Inst("Measure", "measure", (0,), (1,)), Inst("UnitaryGate", "unitary", (1,)),
              Inst("Initialize", "initialize", (1,)), Inst("Barrier", "barrier", (0,))]
    return A


def anew(circ):
    """the definition: the state can differ between shots"""
    seen = set()
    for i in circ:
        if i.cond or i.k == "Reset" or i.name in ("kraus", "superop"):
            return True
        if i.k == "Measure":
            seen |= set(i.qs)
        elif i.k not in ("Barrier",) and set(i.qs) & seen:
            return True
    return False


def leafer(circ, nq=2, nc=2):
    Q, C = ["Q%d" % i for i in range(nq)], ["C%d" % i for i in range(nc)]

    def leaf(t, pos, m):
        if t.op == "attr" and t.a[0] is sym("circ"):
            n = t.a[1]
            if n in ("data", "_data"):
                return list(circ)
            if n == "num_qubits":
                return nq
            if n == "num_clbits":
                return nc
            if n == "qubits":
                return Q
            if n == "clbits":
                return C
        if t.op == "op":
            return m.ev(t.a[0], pos)
        if t.op == "isop":
            i = m.ev(t.a[0], pos)
            n = t.a[1].split(":")[-1].split(".")[-1]
            if n == i.k or n in ("Instruction", "Operation"):
                return True
            if n == "Gate":
                return i.k.endswith("Gate")
            if n == "ControlledGate":
                return i.k == "CXGate"
            return False
        if t.op == "attr":
            o = m.ev(t.a[0], pos)
            if isinstance(o, Inst):
                n = t.a[1]
                if n == "qubits":
                    return tuple(Q[q] for q in o.qs)
                if n == "clbits":
                    return tuple(C[c] for c in o.cs)
                if n == "base_class":
                    return ("cls", "QDDGate") if o.k == "QDDGate" else ("ext", "qiskit:" + o.k)
                if n == "name":
                    return o.name
                if n == "condition":
                    return (["C0"], 1) if o.cond else None
                if n == "num_qubits":
                    return len(o.qs)
                if n == "num_clbits":
                    return len(o.cs)
                if n == "params":
                    return []
            raise Unk(show(t)[:100])
        return NotImplemented
    return leaf


def setup(B, req):
    it = B.interp({"cls": None, "nq": 0})
    it.hooks = GenHooks()
    f, _ = B.B.find("_validate_and_get_circuit_property")
    if f is None:
        # by role: the function that builds a CircuitProperty
        import ast
        cands = [v for v in list(B.B.vars.values()) + list(B.mod.frame.vars.values()) if isinstance(v, Fn) and
                 any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "CircuitProperty" for x in ast.walk(v.node))]
        if len(cands) != 1:
            raise TooHard("the routine that classifies circuits was not found")
        f = cands[0]
    return it, it.analyse(f, [sym("circ"), req])


def classify(it, paths, circ):
    """-> ("raise", class) | ("prop", stable, {clbit: qubit})"""
    mod = SeqModel(it, leafer(circ))
    p = mod.run(paths)
    if p.kind == "raise":
        return "raise", str(p.val.cls)
    v = p.val
    if not isinstance(v, Ref) or p.snap.heap[v.o].kind != "obj":
        raise Unk("result of the classification")
    h = p.snap.heap[v.o].items
    pos = dict(mod.depthpos)
    st = mod.ev(it.freeze(h["stable_final_state"], p.snap.heap), pos)
    cf = mod.ev(it.freeze(h["clbit_final_values"], p.snap.heap), pos)
    return "prop", st, cf


def circuits(ctx, B, first, maxlen, req):
    key = "circuits starting with %r%s" % (first, "" if req else ", measurements optional")
    it, paths = setup(B, req)
    A = alphabet(ctx.thorough)
    n = 0
    for ln in range(maxlen):
        for rest in itertools.product(A, repeat=ln):
            circ = (first,) + rest
            n += 1
            r = classify(it, paths, circ)
            txt = "; ".join(map(repr, circ))
            meas = [i for i in circ if i.k == "Measure"]
            if r[0] == "raise":
                if meas or not req:
                    ctx.bad(key, WH, R4, "refused (%s): %s" % (r[1], txt))
                    return
                continue
            if r[1] and anew(circ):
                ctx.bad(key, WH, R1, "sampled from one final state: " + txt)
                return
            if r[1]:
                want = {}
                for i in meas:
                    want["C%d" % i.cs[0]] = "Q%d" % i.qs[0]
                if r[2] != want:
                    ctx.bad(key, WH, R2, "bits recorded as %s: %s" % (r[2], txt))
                    return
    ctx.ok(key, WH, R1)
    ctx.count("circuits classified", n)


def repetition(ctx, B, mode):
    key = "shots, " + mode
    run = run_part(B, mkpart("XGate", 1), mode, False, True)
    ms = main_loops(run)
    if not ms:
        ctx.und(key, WH, R3, "the loop over the instructions was not found")
        return
    for m in ms:
        encl = [r for p in run.paths for r in loops(p.snap.log) if r is not m.rec and r.lid != m.rec.lid and
                any(x.lid == m.rec.lid for e in r.ends for x in loops(e.snap.log[len(r.head.log):]))]
        encl = {(r.lid, r.line): r for r in encl}.values()
        consts = {x for r in encl for t in subterms(r.seq) for x in t.a if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 10**6}
        for ns in sorted({1, 2, 5, 1024, 10**6} | {c + d for c in consts for d in (-1, 0, 1) if c + d > 0}):
            mod = Model(lambda t, pos, mm: ns if t.op == "shots" else NotImplemented)
            tot = 1
            for r in encl:
                if any(e.kind in ("break", "return") for e in r.ends):
                    ctx.bad(key, WH, R3, "the loop over the shots may be left early")
                    return
                tot *= len(mod.seq(r.seq, {}))
            if tot != ns:
                ctx.bad(key, WH, R3, "%d simulations for %d shots" % (tot, ns))
                return
    ctx.ok(key, WH, R3)


def check(ctx):
    B = Backend()
    A = alphabet(ctx.thorough)
    ml = 3
    ctx.explanation = ("the classification of circuits evaluated on every circuit of up to %d instructions over %d kinds of instruction; "
                       "the loops around one simulation counted in every mode" % (ml, len(A)))
    ctx.guard("loop state", WH, R3, seed, ctx, B, ["one process", "distributed, swaps v2"])
    ctx.spread(lambda c, j: c.guard("circuits", WH, R1, circuits, c, B, j[0], ml if j[1] else 2, j[1]), [(a, r) for a in A for r in (True, False)])
    ctx.spread(lambda c, m: c.guard("shots, " + m, WH, R3, repetition, c, B, m), list(MODES))
    ctx.saw("QddBackend._validate_and_get_circuit_property")
    ctx.saw("QddBackend._evaluate_circuit")
