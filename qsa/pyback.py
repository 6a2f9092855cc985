"""Partitions of the backend's circuit evaluation: one abstract run per kind of
instruction, number of qubits, condition and execution mode."""
import itertools
from .pyev import (Interp, T, mk, sym, Bound, H, Ref, Fn, Cls, Snap, show, isext, same, subterms, occurs,
                   TooHard, Raise, BI, isconst, LoopRec, skey, index_term)
from .pyval import Model, Unk, Err
from .dump import REPO


def E(n):
    return mk("ext", "qiskit:" + n)


# Qiskit's own definition of the gates the simulator knows:
# name -> (kind, accepted matrix names, number of parameters, numbers of qubits)
ONE = {
    "HGate": (["H"], 0, [1]), "IGate": (["I"], 0, [1]), "SdgGate": (["Sdag"], 0, [1]), "SGate": (["S"], 0, [1]),
    "SXdgGate": (["SXdag", "Vdag"], 0, [1]), "SXGate": (["SX", "V"], 0, [1]),
    "TdgGate": (["Tdag"], 0, [1]), "TGate": (["T"], 0, [1]), "XGate": (["X"], 0, [1]), "YGate": (["Y"], 0, [1]),
    "ZGate": (["Z"], 0, [1]), "CXGate": (["X"], 0, [2]), "CYGate": (["Y"], 0, [2]), "CZGate": (["Z"], 0, [2]),
    "CSXGate": (["SX", "V"], 0, [2]), "CCXGate": (["X"], 0, [3]), "C3XGate": (["X"], 0, [4]),
    "C4XGate": (["X"], 0, [5]), "MCXGate": (["X"], 0, [2, 3, 4, 6]),
    "CHGate": (["H"], 0, [2]), "CSGate": (["S"], 0, [2]), "CSdgGate": (["Sdag"], 0, [2]), "CCZGate": (["Z"], 0, [3]),
    "C3SXGate": (["SX", "V"], 0, [4]),
    "RXGate": (["rxmat"], 1, [1]), "RYGate": (["rymat"], 1, [1]), "RZGate": (["rzmat"], 1, [1]),
    "PhaseGate": (["p", "u1"], 1, [1]), "CPhaseGate": (["p", "u1"], 1, [2]), "MCPhaseGate": (["p", "u1"], 1, [2, 3, 5]),
    "U1Gate": (["p", "u1"], 1, [1]), "CU1Gate": (["u1", "p"], 1, [2]), "MCU1Gate": (["u1", "p"], 1, [3]),
    "CRXGate": (["rxmat"], 1, [2]), "CRYGate": (["rymat"], 1, [2]), "CRZGate": (["rzmat"], 1, [2]),
    "RGate": (["r"], 2, [1]), "U2Gate": (["u2"], 2, [1]),
    "UGate": (["u3"], 3, [1]), "U3Gate": (["u3"], 3, [1]), "CU3Gate": (["u3"], 3, [2]),
    "CUGate": (["u"], 4, [2]),
}
TWO = {
    "SwapGate": (["swapmat"], 0, [2], True), "iSwapGate": (["iswapmat"], 0, [2], True),
    "CSwapGate": (["swapmat"], 0, [3], True),
    "RXXGate": (["rxxmat"], 1, [2], True), "RYYGate": (["ryymat"], 1, [2], True), "RZZGate": (["rzzmat"], 1, [2], True),
    "RZXGate": (["rzxmat"], 1, [2], False),
}
OTHER = {"UnitaryGate": [1, 2, 3]}
# instruction types no table of the simulator may treat as a gate
FOREIGN = ["ECRGate", "DCXGate", "Delay", "Initialize", "PauliGate", "Snapshot", "IfElseOp", "RCCXGate",
           "XXPlusYYGate", "Kraus", "Permutation"]
NAMES = {"HGate": "h", "IGate": "id", "SdgGate": "sdg", "SGate": "s", "SXdgGate": "sxdg", "SXGate": "sx", "TdgGate": "tdg",
         "TGate": "t", "XGate": "x", "YGate": "y", "ZGate": "z", "CXGate": "cx", "CYGate": "cy", "CZGate": "cz", "CSXGate": "csx",
         "CCXGate": "ccx", "C3XGate": "mcx", "C4XGate": "mcx", "MCXGate": "mcx", "CHGate": "ch", "CSGate": "cs", "CSdgGate": "csdg",
         "CCZGate": "ccz", "C3SXGate": "c3sx", "RXGate": "rx", "RYGate": "ry", "RZGate": "rz", "PhaseGate": "p", "CPhaseGate": "cp",
         "MCPhaseGate": "mcphase", "U1Gate": "u1", "CU1Gate": "cu1", "MCU1Gate": "mcu1", "CRXGate": "crx", "CRYGate": "cry",
         "CRZGate": "crz", "RGate": "r", "U2Gate": "u2", "UGate": "u", "U3Gate": "u3", "CU3Gate": "cu3", "CUGate": "cu",
         "SwapGate": "swap", "iSwapGate": "iswap", "CSwapGate": "cswap", "RXXGate": "rxx", "RYYGate": "ryy", "RZZGate": "rzz",
         "RZXGate": "rzx", "UnitaryGate": "unitary", "Barrier": "barrier", "Measure": "measure", "Reset": "reset",
         "ECRGate": "ecr", "DCXGate": "dcx", "Delay": "delay", "Initialize": "initialize", "PauliGate": "pauli", "Snapshot": "snapshot",
         "IfElseOp": "if_else", "RCCXGate": "rccx", "XXPlusYYGate": "xx_plus_yy", "Kraus": "kraus", "Permutation": "permutation",
         "CECRGate": "cecr", "Gate": "my_gate", "Instruction": "my_instruction", "ControlledGate": "my_controlled_gate"}
QMAT = {"SXGate": "SX", "SXdgGate": "SXdag"}

PUREN = {"makeGate", "makeTwoQubitGate", "unitary", "mv_multiply", "mv_multiply_MPI", "mv_multiply_MPI_bcast",
         "mm_multiply", "makeZeroState", "makeZeroStateMPI", "applyGlobal", "getVector", "getVectorMPI",
         "rxmat", "rymat", "rzmat", "u1", "u2", "u3", "u", "p", "r", "rxxmat", "ryymat", "rzzmat", "rzxmat",
         "swapmat", "iswapmat", "RX", "RY", "RZ", "CX", "SWAP", "ISWAP", "CSWAP", "RXX", "RYY", "RZZ", "RZX",
         "probabilities", "probabilitiesMPI", "get_nNodes",
         "Get_size", "Get_rank", "log2", "Counter", "time", "floor", "ceil", "sqrt", "OrderedDict"}

# (use_mpi, use_bcast, use_auto_swap, swap_ver)
MODES = {
    "one process": (False, False, True, "v1"),
    "one process, v2": (False, False, False, "v2"),
    "distributed": (True, False, False, "v1"),
    "distributed, broadcast": (True, True, False, "v1"),
    "distributed, swaps v1": (True, False, True, "v1"),
    "distributed, swaps v2": (True, False, True, "v2"),
    "distributed, broadcast, swaps v1": (True, True, True, "v1"),
    "distributed, broadcast, swaps v2": (True, True, True, "v2"),
}


class Hooks:
    """what is known about the environment of the backend"""

    def __init__(self, part):
        self.p = part          # dict: cls, nq, nc, cond
        self.swap_fns = {}
        self.swap_info = {}
        self.swap_calls = {}
        self.opaque = {}

    # the instruction under analysis: element of circ.data at the loop position
    def isdata(self, t):
        while isinstance(t, T) and t.op in ("reversed", "slice", "list_of", "copyof"):
            t = t.a[0]
        return isinstance(t, T) and t.op == "attr" and t.a[1] == "data"

    def isinstr(self, t):
        return isinstance(t, T) and t.op == "idx" and self.isdata(t.a[0])

    def main(self, t):
        return isinstance(t.a[1], T) and t.a[1].op == "pos"

    def nctrl(self):
        k = self.p["cls"]
        kn = k.a[0].split(":")[-1] if isext(k) else ""
        if kn in ONE and self.p["nq"] > 1:
            return self.p["nq"] - 1
        if kn == "CSwapGate":
            return self.p["nq"] - 2
        return 0

    def hasattr(self, it, o, n):
        if isinstance(o, T) and o.op == "op" and self.main(o.a[0]):
            if n in ("ctrl_state", "num_ctrl_qubits", "base_gate"):
                return self.nctrl() > 0
            if n in ("condition", "_condition", "base_class", "name", "params", "num_qubits", "num_clbits", "label"):
                return True
        return NotImplemented

    def unpack(self, it, t, n):
        if self.isinstr(t) and n == 3:
            return [self.attr(it, t, x) for x in ("operation", "qubits", "clbits")]
        return None

    def attr(self, it, o, n):
        if not isinstance(o, T):
            return NotImplemented
        if self.isinstr(o):
            if n == "operation":
                return mk("op", o)
            if self.main(o):
                if n == "qubits":
                    return tuple(mk("q", j) for j in range(self.p["nq"]))
                if n == "clbits":
                    return tuple(mk("c", j) for j in range(self.p["nc"]))
            if n in ("name", "params", "base_class", "condition", "label", "matrix", "num_qubits", "num_clbits"):
                return it.attr(mk("op", o), n)
        if o.op == "op" and self.main(o.a[0]):
            if n in ("base_class", "__class__"):
                return self.p["cls"]
            if n == "num_qubits":
                return self.p["nq"]
            if n == "num_clbits":
                return self.p["nc"]
            if n == "condition":
                c = self.p.get("cond")
                return (mk("condbits"), mk("condval")) if c else None
            if n == "_condition":
                c = self.p.get("cond")
                return (mk("condbits"), mk("condval")) if c else None
            if n == "name":
                k = self.p["cls"]
                nm = "qdd" if isinstance(k, Cls) else NAMES.get(k.a[0].split(":")[-1])
                if nm:
                    return nm
            if n in ("ctrl_state", "num_ctrl_qubits"):
                k = self.nctrl()
                if k == 0:
                    return NotImplemented
                if n == "num_ctrl_qubits":
                    return k
                return self.p.get("ctrl", (1 << k) - 1)
            if n == "matrix":
                return mk("mcall", o, "to_matrix")
        if o.op == "condbits" and n == "size":
            return mk("len", o)
        return NotImplemented

    def type(self, it, v):
        if isinstance(v, T) and v.op == "op" and self.main(v.a[0]):
            return self.p["cls"]
        return NotImplemented

    def isinstance(self, it, v, c):
        if isinstance(v, T) and v.op == "op" and self.main(v.a[0]):
            k = self.p["cls"]
            if isinstance(c, Cls):
                return isinstance(k, Cls) and c in k.mro()
            if isext(c):
                n = c.a[0]
                if isext(k) and k.a[0] == n:
                    return True
                base = n.split(":")[-1].split(".")[-1]
                if base == "Instruction" or base == "Operation":
                    return True
                kn = k.a[0].split(":")[-1] if isext(k) else "QDDGate"
                if base == "Gate":
                    return kn.endswith("Gate")
                if base == "ControlledGate":
                    if kn in ONE:
                        return kn[0] == "C" or kn.startswith("MC")
                    return kn == "CSwapGate"
                if base in NAMES:
                    return False
            raise TooHard("isinstance(instruction, %s)" % c)
        if isinstance(v, T) and v.op == "condbits" and isext(c):
            n = c.a[0].split(":")[-1]
            if n in ("Clbit", "ClassicalRegister"):
                return (n == "Clbit") == (self.p.get("cond") == "bit")
        return NotImplemented

    def isnone(self, it, t):
        if t.op in ("shots", "op", "condbits", "condval", "q", "c", "get"):
            return False if t.op != "get" else NotImplemented
        return NotImplemented

    def truth(self, it, t):
        if t.op == "truthy" and isinstance(t.a[0], T) and t.a[0].op in ("shots", "condbits", "op"):
            return True
        if t.op == "lt" and t.a[0] == 0 and isinstance(t.a[1], T) and t.a[1].op == "shots":
            return True
        return None

    def eq(self, it, a, b):
        return NotImplemented

    def int(self, it, v):
        if isinstance(v, T) and v.op == "str" and isinstance(v.a[0], T):
            return v.a[0]
        return NotImplemented

    def pure(self, it, n):
        if isinstance(n, str):
            if n.startswith("pyQDD."):
                return n.split(".")[-1] in PUREN
            if n in (".to_matrix", ".find_bit", ".copy", ".index"):
                return True
            return n.split(".")[-1] in PUREN
        return NotImplemented

    def elements(self, it, v):
        return None

    def call(self, it, fn, args, kw, line):
        if isext(fn):
            n = fn.a[0]
            if n.endswith("COMM_WORLD.bcast") and args:
                it.event("bcast", "bcast", (it.freeze(args[0]),), line=line)
                return args[0]
            if n in ("pyQDD.gc", "pyQDD.gc_mat") and args:
                it.event("gc", n, (it.freeze(args[0]),), line=line)
                return args[0]
        f = fn.fn if isinstance(fn, Bound) else fn
        if isinstance(f, Fn) and f.qual in self.swap_fns:
            return self.swap_call(it, fn, args, kw, line)
        if isinstance(f, Fn) and f.qual in self.opaque:
            return self.opaque[f.qual](it, f, args, kw, line)
        return NotImplemented

    # ---- qubit relocation routines: analysed on their own, used by summary
    def swap_call(self, it, fn, args, kw, line):
        f = fn.fn if isinstance(fn, Bound) else fn
        key = (f.qual, tuple(self.argkind(it, a) for a in args), tuple(sorted((k, self.argkind(it, a)) for k, a in kw.items())))
        info = self.swap_info.get(key)
        if info is None:
            info = analyse_swap(it, self, fn, args, kw)
            self.swap_info[key] = info
        allargs = list(args) + [kw[k] for k in sorted(kw)]
        n = it.fresh("swapcall")
        self.swap_calls[n] = info
        cur = it.freeze(allargs[info["state_arg"]])
        m = allargs[info["map_arg"]]
        old = it.freeze(m)
        st = mk("swapped", cur, n, old)
        nm = mk("swapmap", old, n)
        if info["map_mutated"]:
            it.heap[m.o].sym, it.heap[m.o].items = nm, None
        for i in info["mut"]:
            a = allargs[i]
            it.heap[a.o].sym, it.heap[a.o].items = mk("swaploc", it.freeze(a), n, i), None
        out = []
        for i, r in enumerate(info["ret"]):
            if r == "state":
                out.append(st)
            elif r == "map":
                out.append(m if info["map_mutated"] else it.new(H("dict", None, nm)))
            elif r[0] == "newmap":
                v = subst_syms(r[1], info["syms"], allargs, it)
                out.append(it.new(H("dict", None, mk("swapres", v, n))))
            elif r[0] == "cont":
                out.append(it.new(H(r[1], None, mk("swaploc", n, i))))
            else:
                out.append(mk("swaploc", n, i))
        it.event("swap", f.qual, (cur, old), line=line)
        return tuple(out) if info["tuple"] else out[0]

    def argkind(self, it, a):
        if isinstance(a, Ref):
            return it.heap[a.o].kind
        if isconst(a):
            return a
        return "t"


def subst_syms(v, syms, args, it):
    from .pyev import subst
    m = {}
    for s, i in syms:
        m[id(s)] = it.freeze(args[i])
    return subst(v, m)


def isidmap(it, v):
    """v (a frozen dict) is the identity on the qubits"""
    try:
        return Model(lambda t, pos, m: 3 if t.op == "attr" and t.a[1] == "num_qubits" else NotImplemented).ev(v) == {0: 0, 1: 1, 2: 2}
    except (Unk, Err):
        return False


def iscur(t):
    return isinstance(t, T) and (t.op == "call" and isinstance(t.a[0], str) and
                                 t.a[0] in ("pyQDD.makeZeroState", "pyQDD.makeZeroStateMPI") or t.op == "swapped")


def analyse_swap(it, hooks, fn, args, kw):
    """one routine that relocates qubits: which argument is the state, which the
    map, and whether every step of it keeps the two in agreement"""
    f = fn.fn if isinstance(fn, Bound) else fn
    allargs = list(args) + [kw[k] for k in sorted(kw)]
    map_arg = state_arg = None
    cands = [i for i, a in enumerate(allargs) if isinstance(a, Ref) and it.heap[a.o].kind == "dict"]
    if len(cands) != 1:
        raise TooHard("relocation routine %s: no single map argument" % f.qual)
    map_arg = cands[0]
    new, syms = [], []
    M = it.new(H("dict", None, sym("MAP")))
    for i, a in enumerate(allargs):
        if i == map_arg:
            new.append(M)
        elif isinstance(a, Ref) and it.heap[a.o].kind in ("list", "set"):
            s = mk("sym", "LOC%d" % i)
            new.append(it.new(H(it.heap[a.o].kind, None, s)))
            syms.append((s, i))
        elif isinstance(a, Ref) or isconst(a) or isinstance(a, T) and (a.op in ("ext", "sym")):
            new.append(a)
        elif isinstance(a, T):
            s = mk("sym", "ARG%d" % i)
            new.append(s)
            syms.append((s, i))
        else:
            new.append(a)
    mutbase = {a.o: it.heap[a.o].sym for a in new if isinstance(a, Ref) and it.heap[a.o].kind != "obj"}
    na, nk = new[:len(args)], dict(zip(sorted(kw), new[len(args):]))
    sw = hooks.swap_fns
    hooks.swap_fns = {}
    saved = it.seeds, it.seen_hv
    it.seeds, it.seen_hv = {}, {}
    try:
        paths = it.analyse(fn, na, nk)
    finally:
        hooks.swap_fns = sw
        it.seeds, it.seen_hv = saved
    rets = [p for p in paths if p.kind == "return"]
    if not rets:
        raise TooHard("relocation routine never returns")
    info = {"paths": paths, "args": new, "map_arg": map_arg, "fn": f, "syms": syms, "M": M}
    # the state argument: the one whose value is multiplied
    st = set()
    for p in paths:
        for e in alllogs(p.snap.log):
            if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("pyQDD.mv_multiply"):
                for i, a in enumerate(new):
                    if isinstance(a, T) and a.op == "sym":
                        if e.args[1] is a or isinstance(e.args[1], T) and e.args[1].op == "lv":
                            if e.args[1] is a or lv_entry(it, p, e.args[1]) is a:
                                st.add(i)
    if len(st) != 1:
        raise TooHard("relocation routine %s: state argument not identified" % f.qual)
    info["state_arg"] = st.pop()
    cur = new[info["state_arg"]]
    roles = None
    for p in rets:
        v = p.val
        tup = isinstance(v, tuple)
        vs = list(v) if tup else [v]
        r = []
        for x in vs:
            fx = it.freeze(x, p.snap.heap)
            if x == M:
                r.append("map")
            elif isinstance(x, Ref) and p.snap.heap[x.o].kind == "dict":
                r.append(("newmap", fx))
            elif isinstance(x, Ref):
                r.append(("cont", p.snap.heap[x.o].kind))
            elif isinstance(fx, T) and (fx is cur or derived(it, p, fx, cur)):
                r.append("state")
            else:
                r.append(("other",))
        if roles is None:
            roles, info["tuple"] = r, tup
        elif [x if isinstance(x, str) else x[0] for x in r] != [x if isinstance(x, str) else x[0] for x in roles]:
            raise TooHard("relocation routine %s: results differ in kind" % f.qual)
    info["ret"] = roles
    info["map_mutated"] = any(it_changed(p, M.o, sym("MAP")) for p in rets)
    info["mut"] = [i for i, a in enumerate(new) if isinstance(a, Ref) and i != map_arg and a.o in mutbase
                   and any(it_changed(p, a.o, mutbase[a.o]) for p in rets)]
    return info


def it_changed(p, o, s):
    return p.snap.heap[o].sym is not s


def derived(it, p, t, cur, n=0):
    if t is cur:
        return True
    if n > 8 or not isinstance(t, T):
        return False
    if t.op == "lv":
        e = lv_entry(it, p, t)
        return e is not None and derived(it, p, e, cur, n + 1)
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pyQDD.mv_multiply"):
        return derived(it, p, t.a[1][1], cur, n + 1)
    return False


def loops(log, out=None):
    out = [] if out is None else out
    for e in log:
        if e.kind == "loop":
            if not any(e.res is x for x in out):
                out.append(e.res)
                for x in e.res.ends:
                    loops(x.snap.log[len(e.res.head.log):], out)
    return out


def alllogs(log, seen=None):
    seen = set() if seen is None else seen
    for e in log:
        yield e
        if e.kind == "loop" and id(e.res) not in seen:
            seen.add(id(e.res))
            for x in e.res.ends:
                yield from alllogs(x.snap.log[len(e.res.head.log):], seen)


def lv_entry(it, p, lv):
    """value a loop symbol had on entry to its loop"""
    for r in loops(p.snap.log):
        if r.lid == lv.a[0]:
            for loc, v in it.locs(r.entry).items():
                nm = loc[2] if loc[0] == "v" else "." + loc[2] if loc[0] == "a" else "obj%d" % loc[1]
                if nm == lv.a[1] and loc[0] != "h" and (loc in r.hv):
                    return it.freeze(v, r.entry.heap) if isinstance(v, (Ref, T)) or isconst(v) else None
                if nm == lv.a[1] and loc[0] == "h":
                    return it.freeze_h(v, r.entry.heap)
    return None


class Run:
    def __init__(self, it, hooks, paths, part, mode, kind):
        self.it, self.hooks, self.paths, self.part, self.mode, self.kind = it, hooks, paths, part, mode, kind


def reaches_swap(B, f, seen=None):
    """method (transitively) calls pyQDD.SWAP"""
    import ast
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "SWAP":
                return True
            v, _ = B.find(n.func.attr)
            if isinstance(v, Fn) and reaches_swap(B, v, seen):
                return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            v = f.mod.frame.vars.get(n.func.id)
            if isinstance(v, Fn) and reaches_swap(B, v, seen):
                return True
    return False


def calls_of(f):
    import ast
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
            elif isinstance(n.func, ast.Name):
                out.add(n.func.id)
    return out


class Backend:
    """loads the backend module; interprets its methods per partition"""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.seeds = {}

    def interp(self, part):
        it = Interp(self.repo)
        self.mod = m = it.module("qdd.qdd_backend")
        self.gate_mod = it.module("qdd.qdd_gate")
        B = m.frame.vars.get("QddBackend")
        if not isinstance(B, Cls):
            raise TooHard("class QddBackend not found")
        self.B = B
        hk = Hooks(part)
        it.hooks = hk
        ev, _ = B.find("_evaluate_circuit")
        # relocation routines: methods that reach SWAP, are not on the way from
        # _evaluate_circuit to the dispatch of gates
        cand = {}
        for n, v in list(B.vars.items()) + list(m.frame.vars.items()):
            if isinstance(v, Fn) and v is not ev and reaches_swap(B, v):
                cand[n] = v
        top = {}
        for n, v in cand.items():
            if not reaches_name(B, v, "makeZeroState") and not reaches_name(B, v, "makeTwoQubitGate") and has_map_param(v):
                top[v.qual] = v
        # only the outermost ones, as seen from the evaluation
        outer = {}
        for q, v in top.items():
            if any(reaches_fn(B, w, v) for q2, w in top.items() if w is not v) and not called_outside(B, m, v, top):
                continue
            outer[q] = v
        hk.swap_fns = outer
        self.swap_fns = outer
        return it

    def self_obj(self, it, cls=None):
        return it.new(H("obj", {}, None, cls or self.B))

    def options(self, it, mode, shots, memory):
        mpi, bc, auto, ver = MODES[mode]
        return it.newdict([("shots", mk("shots") if shots else None), ("memory", memory),
                           ("seed_simulator", None),
                           ("use_mpi", mpi), ("use_bcast", bc), ("use_auto_swap", auto), ("swap_ver", ver),
                           ("n_threads", 1), ("show_progress", False), ("show_progress_frequency", 10000)])

    def qdd_cls(self):
        return self.gate_mod.frame.vars.get("QDDGate")

    def run(self, part, mode, stable, shots, memory=True, save=None, seeds=True):
        it = self.interp(part)
        if part["cls"] == "qdd":
            part["cls"] = self.qdd_cls()
        key = (mode, stable, shots)
        if seeds:
            it.seeds = self.seeds.get(key, {})
        so = self.self_obj(it)
        if save is not None:
            it.heap[so.o].items["_save_SV"] = save
        CP = self.mod.frame.vars.get("CircuitProperty")
        prop = it.new(H("obj", {"stable_final_state": stable,
                                "clbit_final_values": it.new(H("dict", None, sym("CFV")))}, None, CP if isinstance(CP, Cls) else None))
        o = self.options(it, mode, shots, memory)
        ps = it.analyse(Bound(so, self.B.find("_evaluate_circuit")[0]), [sym("circ"), prop, o])
        return Run(it, it.hooks, ps, part, mode, key)

    def collect(self, run):
        """loop state changed by this partition, as seeds for the others"""
        tab = self.seeds.setdefault(run.kind, {})
        grew = False
        for k, hs in run.it.seen_hv.items():
            t = tab.setdefault(k, {})
            for h in hs:
                for loc, how in h.items():
                    d = how if how is None or how == ("top",) else None
                    if loc not in t:
                        t[loc] = None
                        grew = True
        return grew

    def merge(self, part):
        it = self.interp(part)
        if part["cls"] == "qdd":
            part["cls"] = self.qdd_cls()
        it.seeds = self.seeds.get(("merge",), {})
        so = self.self_obj(it)
        it.heap[so.o].items["options"] = it.new(H("obj", {"show_progress": False, "show_progress_frequency": 10000}, sym("options"), None))
        ps = it.analyse(Bound(so, self.B.find("merge_circuit")[0]), [sym("circ")])
        return Run(it, it.hooks, ps, part, "merge", ("merge",))


def reaches_name(B, f, name, seen=None):
    import ast
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    cs = calls_of(f)
    if name in cs:
        return True
    for c in cs:
        v, _ = B.find(c)
        v = v or f.mod.frame.vars.get(c)
        if isinstance(v, Fn) and reaches_name(B, v, name, seen):
            return True
    return False


def reaches_fn(B, f, g, seen=None):
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    for c in calls_of(f):
        v, _ = B.find(c)
        v = v or f.mod.frame.vars.get(c)
        if v is g:
            return True
        if isinstance(v, Fn) and reaches_fn(B, v, g, seen):
            return True
    return False


def has_map_param(f):
    return len(f.node.args.args) >= 3


def called_outside(B, m, g, top):
    """some function that is not a relocation routine calls g"""
    for n, v in list(B.vars.items()) + list(m.frame.vars.items()):
        if isinstance(v, Fn) and v.qual not in top:
            for c in calls_of(v):
                w, _ = B.find(c)
                w = w or m.frame.vars.get(c)
                if w is g:
                    return True
    return False


# ------------------------------------------------------------- the main loop
class Main:
    """the loop over the circuit's instructions that carries the state"""

    def __init__(self, run, rec, sloc):
        self.run, self.rec, self.sloc = run, rec, sloc
        it = run.it
        self.cur0 = it.freeze(it.locs(rec.head)[sloc], rec.head.heap)
        self.entry = it.freeze(it.locs(rec.entry)[sloc], rec.entry.heap)
        # locations that hold the position map
        self.maps = []
        el, hl = it.locs(rec.entry), it.locs(rec.head)
        for loc, v in el.items():
            if loc[0] == "h":
                if v.kind == "dict" and isidmap(it, it.freeze_h(v, rec.entry.heap)):
                    self.maps.append(loc)
            elif isinstance(v, Ref) and rec.entry.heap[v.o].kind == "dict" and isidmap(it, it.freeze(v, rec.entry.heap)):
                self.maps.append(loc)
        self.maplvs = {}
        for loc in self.maps:
            h = hl[loc]
            f = it.freeze_h(h, rec.head.heap) if loc[0] == "h" else it.freeze(h, rec.head.heap)
            if isinstance(f, T) and f.op == "lv":
                self.maplvs[id(f)] = (f, loc)
            # a map that came in changed from an earlier shot
        self.outer_maplvs = []

    def end_value(self, e, loc=None):
        it = self.run.it
        loc = loc or self.sloc
        ls = it.locs(e.snap)
        if loc not in ls:
            return None
        v = ls[loc]
        return it.freeze_h(v, e.snap.heap) if loc[0] == "h" else it.freeze(v, e.snap.heap)

    def logof(self, e):
        return e.snap.log[len(self.rec.head.log):]

    def conds(self, e):
        return e.snap.pc[self.rec.npc:]


def isstate0(t, names):
    return isinstance(t, T) and t.op == "call" and isinstance(t.a[0], str) and t.a[0] in names


def main_loops(run, names=("pyQDD.makeZeroState", "pyQDD.makeZeroStateMPI")):
    it = run.it
    out = []
    seen = set()
    for p in run.paths:
        for r in loops(p.snap.log):
            k = (r.lid, r.line)
            if not run.hooks.isdata(r.seq) or k in seen:
                continue
            cand = []
            for loc, v in it.locs(r.entry).items():
                if loc[0] == "v":
                    f = it.freeze(v, r.entry.heap) if isinstance(v, (T, Ref)) else v
                    if isinstance(f, T) and (isstate0(f, names) or any(isstate0(x, names) for x in subterms(f)) and f.op in ("call",)):
                        cand.append(loc)
            if not cand:
                continue
            seen.add(k)
            cand.sort(key=lambda l: (l[1], l in r.hv))
            # innermost frame; the one the loop changes if there are several
            ch = [c for c in cand if c in r.hv]
            out.append(Main(run, r, (ch or cand)[-1]))
    return out


# ------------------------------------------------------------- models
def perms(n):
    return list(itertools.permutations(range(n)))


class CircModel:
    """a circuit of nq qubits and nc clbits; instruction qubits `qs`; position
    maps given by id(term) -> permutation"""

    def __init__(self, nq, qs, nc=2, cs=(), maps=None, extra=None):
        self.nq, self.nc = nq, nc
        self.qubits = ["Q%d" % i for i in range(nq)]
        self.clbits = ["C%d" % i for i in range(nc)]
        self.qs = [self.qubits[i] for i in qs]
        self.cs = [self.clbits[i] for i in cs]
        self.maps = maps or {}
        self.extra = extra

    def leaf(self, t, pos, m):
        if id(t) in self.maps:
            p = self.maps[id(t)]
            return dict(enumerate(p))
        if t.op == "q":
            return self.qs[t.a[0]]
        if t.op == "c":
            return self.cs[t.a[0]]
        if t.op == "attr" and t.a[0] is sym("circ"):
            if t.a[1] == "num_qubits":
                return self.nq
            if t.a[1] == "num_clbits":
                return self.nc
            if t.a[1] == "qubits":
                return self.qubits
            if t.a[1] == "clbits":
                return self.clbits
        if t.op == "bitpos":
            b = m.ev(t.a[1], pos)
            return self.qubits.index(b) if b in self.qubits else self.clbits.index(b)
        if t.op == "swapres":
            return m.ev(t.a[0], pos)
        if self.extra:
            return self.extra(t, pos, m)
        return NotImplemented

    def model(self, call=None):
        return Model(self.leaf, call)
