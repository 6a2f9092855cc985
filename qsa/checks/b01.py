"""What each instruction does to the state.  The evaluation of a circuit is interpreted
abstractly once per kind of instruction, number of qubits and execution mode; the change of the
state in one step of the loop over the instructions is extracted as a term over the state and
the qubit map on entry of the step.  The term is compared with Qiskit's definition of the gate
by evaluating both on small registers, for all (or a spread of) maps, qubits and relocations.
Routines that relocate qubits are analysed once each: every step of theirs must exchange the
same two positions in the state and in the map."""
import itertools
from ..pyback import (Backend, MODES, ONE, TWO, OTHER, E, main_loops, loops, lv_entry, isidmap, CircModel, perms,
                      alllogs, Main)
from ..pyev import T, mk, sym, show, subterms, TooHard, isext, Ref
from ..pyval import Model, Unk, Err
from .. import opsem as S

WH = "qdd/qdd_backend.py"
R1 = "one step of the loop applies the gate's own operator, with its parameters, controls and targets in order, exactly once"
R2 = "instructions without effect leave state and map alone; the map always says where each qubit is held"
R3 = "a relocation step exchanges the same two positions in state and map"
R4 = "the loop starts from the zero state, visits circ.data in order; afterwards the qubits are back in place and the global phase is applied"
R5 = "the exchange level passed to a distributed product covers every qubit the operator acts on"
R6 = "merging starts from the identity and multiplies each gate from the left, then applies the global phase"


def spread(seq, k):
    seq = list(seq)
    if len(seq) <= k:
        return seq
    st = len(seq) / float(k)
    return [seq[int(i * st)] for i in range(k)]


class Case:
    """one small circuit situation: n qubits, the instruction's qubits, current map, relocations"""

    def __init__(self, run, n, qs, perm, reloc, cls, ctrl=None):
        self.run, self.n, self.qs, self.perm, self.reloc, self.cls, self.ctrl = run, n, qs, perm, reloc, cls, ctrl
        self.psi = S.rnd("psi%d" % n, 1 << n)
        self.oplv = S.Op(n, [(S.rmat("op%d" % n, n), tuple(range(n)), (), 0)])
        self.perms = {}
        self.level = []
        self.kinds = set()

    # the operator Qiskit defines for the instruction, on logical qubits
    def spec(self):
        n, qs = self.n, self.qs
        k = self.cls
        if k in ONE:
            m = S.base_matrix(ONE[k][0][0])
            return S.gate(n, m, [qs[-1]], qs[:-1], self.ctrl)
        if k in TWO:
            m = S.base_matrix(TWO[k][0][0])
            # the last qubit is the high bit of the matrix index
            return S.gate(n, m, [qs[-2], qs[-1]], qs[:-2], self.ctrl)
        if k == "UnitaryGate":
            return S.gate(n, S.rmat("unitary%d" % len(qs), len(qs)), qs, [])
        if k == "QDDGate":
            return S.Op(n, [(S.rmat("qdd%d" % n, n), tuple(range(n)), (), 0)])
        raise Unk("specification of " + k)

    def leaf(self, t, pos, m):
        if t.op == "swapped":
            cur = m.ev(t.a[0], pos)
            old = m.ev(t.a[2], pos)
            new = self.relocof(t.a[1], m, pos)
            if not isinstance(cur, list) or sorted(old) != list(range(self.n)):
                raise Err("relocation of " + show(t.a[0])[:60])
            # logical content as the map believes, put at the new places
            inv = [0] * self.n
            for l, p in old.items():
                inv[p] = l
            return S.place(S.place(cur, inv), [new[l] for l in range(self.n)])
        if t.op == "swapmap":
            return self.relocof(t.a[1], m, pos)
        if t.op == "swapres":
            return m.ev(t.a[0], pos)
        if t.op == "lv" and id(t) in self.states:
            kind = self.states[id(t)]
            return self.oplv if kind == "op" else S.place(self.psi, self.perm)
        if t.op == "lv" and id(t) in self.maps:
            return dict(enumerate(self.perm))
        if t.op == "mcall" and t.a[1] == "to_matrix":
            k = self.cls
            if k == "UnitaryGate":
                return S.rmat("unitary%d" % len(self.qs), len(self.qs))
            raise Unk("to_matrix of " + k)
        if t.op == "attr" and t.a[1] == "params" and isinstance(t.a[0], T) and t.a[0].op == "op":
            if self.cls == "QDDGate":
                return [S.Op(self.n, [(S.rmat("qdd%d" % self.n, self.n), tuple(range(self.n)), (), 0)])]
            k = (ONE.get(self.cls) or TWO.get(self.cls) or (0, 0))[1]
            return S.PARAMS[:k]
        if t.op == "attr" and t.a[0] is sym("circ") and t.a[1] == "global_phase":
            return 0.3713
        return NotImplemented

    def relocof(self, k, m, pos):
        info = self.run.hooks.swap_calls.get(k)
        fx = info.get("final") if info else None
        if fx is not None:
            return dict(enumerate(fx(self.n)))
        if k not in self.reloc:
            raise Unk("relocation")
        return dict(enumerate(self.reloc[k]))

    def call(self, name, a, kw, t):
        if not isinstance(name, str):
            return NotImplemented
        if kw:
            raise Unk("named arguments of " + name)
        f = name.split(".")[-1]
        if name.startswith("qiskit:"):
            return NotImplemented
        if f == "makeGate":
            return S.gate(a[0], self.mat(a[1], 2), [a[2]], a[3] if len(a) > 3 else []) if self.num(a[0]) else None
        if f == "makeTwoQubitGate":
            # first named target is the high bit
            return S.gate(a[0], self.mat(a[1], 4), [a[3], a[2]], a[4] if len(a) > 4 else []) if self.num(a[0]) else None
        if f == "unitary":
            if not self.num(a[0]):
                return None
            return S.gate(a[0], a[1], a[2] if len(a) > 2 else range(self.n), [])
        if f in ("SWAP", "ISWAP"):
            return S.gate(a[0], S.base_matrix("swapmat" if f == "SWAP" else "iswapmat"), [a[2], a[1]], [])
        if f in S.PAR1 or f in S.PAR2:
            k, fn = S.PAR1.get(f) or S.PAR2[f]
            if len(a) != k:
                raise S.Bad("%s called with %s parameters" % (f, len(a)))
            return fn(*a)
        if f in ("mv_multiply", "mv_multiply_MPI", "mv_multiply_MPI_bcast"):
            op, v = a[0], a[1]
            self.kinds.add(f)
            if not isinstance(op, S.Op) or not isinstance(v, list):
                raise S.Bad("product of things that are no operator and state")
            if f != "mv_multiply":
                self.level.append((a[2], a[3], op.top()))
            return op.apply(v)
        if f == "mm_multiply":
            if not isinstance(a[0], S.Op) or not isinstance(a[1], S.Op):
                raise S.Bad("product of things that are no operators")
            return a[0].after(a[1])
        if f in ("makeZeroState", "makeZeroStateMPI"):
            self.kinds.add(f)
            return [1] + [0] * ((1 << a[0]) - 1)
        if f == "applyGlobal":
            if isinstance(a[0], S.Op):
                return S.Op(a[0].n, a[0].steps, a[0].w * S.e(a[1]))
            return [S.e(a[1]) * x for x in a[0]]
        if f in ("getVector", "getVectorMPI"):
            return a[0]
        if f == "log2":
            return NotImplemented
        return NotImplemented

    def num(self, n):
        if n != self.n:
            raise S.Bad("operator built for %r qubits in a circuit of %d" % (n, self.n))
        return True

    def mat(self, m, d):
        if isinstance(m, str):
            if m not in S.FIX:
                raise S.Bad("no matrix named %r in the engine" % m)
            return S.FIX[m]
        if isinstance(m, list) and m and isinstance(m[0], list):
            if len(m) != d:
                raise S.Bad("matrix of the wrong size")
            return m
        raise Unk("matrix argument")

    def model(self, states, maps):
        self.states, self.maps = states, maps
        cm = CircModel(self.n, self.qs, extra=self.leaf)
        return Model(cm.leaf, self.call)


def pcs_hold(m, pcs):
    """False when the path cannot be taken in this model"""
    for c in pcs:
        try:
            if m.ev(c) is False:
                return False
        except (Unk, Err, S.Bad):
            pass
        except Exception:
            pass
    return True


def map_locs(run, rec):
    """locations holding a position map at this loop, with their symbols at the head"""
    it = run.it
    out = {}
    p = run.paths[0]
    for q in run.paths:
        if any(r.lid == rec.lid for r in loops(q.snap.log)):
            p = q
    hl = it.locs(rec.head)
    held = {v.o for l, v in hl.items() if l[0] != "h" and isinstance(v, Ref)}
    for loc, v in it.locs(rec.entry).items():
        if loc[0] == "h":
            if v.kind != "dict" or loc[1] not in held:
                continue
            f = it.freeze_h(v, rec.entry.heap)
        elif isinstance(v, Ref) and rec.entry.heap[v.o].kind == "dict":
            f = it.freeze(v, rec.entry.heap)
        else:
            continue
        if ismapval(run, p, f, 0):
            h = hl.get(loc)
            if h is None:
                continue
            fh = it.freeze_h(h, rec.head.heap) if loc[0] == "h" else it.freeze(h, rec.head.heap)
            out[loc] = (f, fh)
    return out


def ismapval(run, p, f, d):
    it = run.it
    if d > 6 or not isinstance(f, T):
        return False
    if f.op == "swapmap":
        return ismapval(run, p, f.a[0], d + 1)
    if f.op == "swapres":
        return ismapval(run, p, f.a[0], d + 1)
    if f.op == "lv":
        e = lv_entry(it, p, f)
        return e is not None and ismapval(run, p, e, d + 1)
    return isidmap(it, f)


def situations(cls, nq, nmaps, nrel, rels, full):
    """register size, instruction qubits, map, relocations"""
    n = max(3, nq)
    inj = list(itertools.permutations(range(n), nq))
    ps = perms(n)
    big = n > 4
    inj = spread(inj, 3 if big else (6 if full else 4))
    mp = spread(ps, 4 if big else 6) if nmaps else [tuple(range(n))]
    rl = spread(ps[1:], 2 if big else 4) if rels else [None]
    if not full:
        rl = rl[:2]
    for a, i in enumerate(inj):
        for b, m in enumerate(mp):
            for c, r in enumerate(rl):
                if big and (a + b + c) % 2:
                    continue
                yield n, i, m, {k: rl[(c + j) % len(rl)] for j, k in enumerate(rels)}


def step_obligation(ctx, key, run, m, e, cls, full=False, identity=False, ctrl=None, rule=None, mode=None, merge=False):
    """state and map after one step against the specification; -> True/False/None"""
    it = run.it
    end = m.end_value(e)
    ml = map_locs(run, m.rec)
    states = {id(m.cur0): "op" if merge else "state"} if isinstance(m.cur0, T) else {}
    maps = {id(fh): loc for loc, (f, fh) in ml.items() if isinstance(fh, T) and fh.op == "lv"}
    if not merge and mode is not None and m.cur0.op != "lv":
        ctx.und(key, WH, rule, "state at the head of the loop: " + show(m.cur0)[:120])
        return None
    endmaps = {loc: m.end_value(e, loc) for loc in ml}
    rels = sorted({t.a[1] for x in [end] + list(endmaps.values()) for t in subterms(x) if t.op in ("swapped", "swapmap")})
    nq = run.part["nq"]
    n_eval = 0
    if any(run.hooks.swap_calls.get(r, {}).get("open") for r in rels):
        ctx = Soft(ctx)
    try:
        for n, qs, perm, reloc in situations(cls, nq, bool(maps), 0, rels, full):
            if not identity and not legitimate(cls, n, qs):
                c = Case(run, n, qs, perm, reloc, "-")
                if pcs_hold(c.model(states, maps), m.conds(e)):
                    ctx.bad(key, WH, rule, "applied although it does not span the register in order: qubits %s" % list(qs))
                    return False
                continue
            c = Case(run, n, qs, perm, reloc, cls, ctrl)
            mod = c.model(states, maps)
            if not pcs_hold(mod, m.conds(e)):
                continue
            c.kinds.clear()
            c.level.clear()
            got = mod.ev(end)
            kinds, level = set(c.kinds), list(c.level)
            newperm = perm
            for loc, x in endmaps.items():
                y = mod.ev(x)
                if sorted(y) != list(range(n)) or sorted(y.values()) != list(range(n)):
                    ctx.bad(key, WH, rule, "after the step the qubit map is no one-to-one map (%s)" % (loc,))
                    return False
                newperm = tuple(y[l] for l in range(n))
            if merge:
                if not isinstance(got, S.Op):
                    raise Unk("merged value")
                want = c.oplv.apply(c.psi) if identity else c.spec().apply(c.oplv.apply(c.psi))
                g = got.apply(c.psi)
            else:
                if not isinstance(got, list):
                    raise Unk("state value")
                psi = c.psi if identity else c.spec().apply(c.psi)
                want, g = S.place(psi, newperm), got
            n_eval += 1
            if not S.close(g, want):
                where = "qubits %s, map %s" % (list(qs), list(perm)) + (", relocation %s" % {k: list(v) for k, v in reloc.items()} if reloc else "")
                ctx.bad(key, WH, rule, ("the state after the step is not the %s (%s)" % (
                    "state before it" if identity else "gate applied to the state before it", where)))
                return False
            for nn, lv, top in level:
                if nn != n:
                    ctx.bad(key, WH, R5, "register size %r passed to the distributed product" % (nn,))
                    return False
                if lv < top:
                    ctx.bad(key, WH, R5, "exchange level %r passed for an operator that reaches qubit %d" % (lv, top))
                    return False
            if mode is not None:
                mpi = MODES[mode][0]
                if mpi and "mv_multiply" in kinds or not mpi and kinds - {"mv_multiply"}:
                    ctx.bad(key, WH, rule, "product of the wrong kind for this mode: %s" % sorted(kinds))
                    return False
    except S.Bad as x:
        ctx.bad(key, WH, rule, str(x))
        return False
    except Err as x:
        ctx.bad(key, WH, rule, "the step fails: " + str(x))
        return False
    except Unk as x:
        ctx.und(key, WH, rule, "not evaluated: " + str(x)[:200])
        return None
    if n_eval == 0:
        ctx.count("paths of a step that no small register takes")
        return True
    ctx.count("small registers evaluated", n_eval)
    return True


def legitimate(cls, n, qs):
    """situations in which a supported gate may not be refused"""
    return cls != "QDDGate" or tuple(qs) == tuple(range(n))


def raise_obligation(ctx, key, run, m, e, cls, ctrl):
    """a refusing path of a gate that is applied elsewhere: only for situations the gate does not cover"""
    it = run.it
    ml = map_locs(run, m.rec)
    states = {id(m.cur0): "state"} if isinstance(m.cur0, T) else {}
    maps = {id(fh): loc for loc, (f, fh) in ml.items() if isinstance(fh, T) and fh.op == "lv"}
    why = "%s" % (show(e.val.cls) if isinstance(e.val.cls, T) else e.val.cls)
    for n, qs, perm, reloc in situations(cls, run.part["nq"], bool(maps), 0, [], False):
        if not legitimate(cls, n, qs):
            continue
        c = Case(run, n, qs, perm, reloc, cls, ctrl)
        mod = c.model(states, maps)
        sure = True
        for x in m.conds(e):
            try:
                v = mod.ev(x)
            except (Unk, Err, S.Bad):
                sure = False
                continue
            if v is False:
                break
        else:
            if sure:
                ctx.bad(key, WH, R1, "refused (%s) although it is applied in other situations: qubits %s, map %s" % (why, list(qs), list(perm)))
                return False
            ctx.und(key, WH, R1, "one path of the step raises " + why)
            return None
    return True


def parts(full):
    for k, (mats, np_, nqs) in ONE.items():
        for nq in nqs:
            yield k, nq
    for k, (mats, np_, nqs, symm) in TWO.items():
        for nq in nqs:
            yield k, nq
    for nq in OTHER["UnitaryGate"]:
        yield "UnitaryGate", nq
    yield "QDDGate", 3


def clsval(B, it_probe, k):
    if k == "QDDGate":
        return None
    return E(k)


def mkpart(k, nq, nc=0, cond=None, **kw):
    return dict(cls=E(k), nq=nq, nc=nc, cond=cond, kn=k, **kw)


def run_part(B, part, mode, stable, shots=True, **kw):
    if part["kn"] == "QDDGate":
        part = dict(part)
        part["cls"] = "qdd"
    return B.run(part, mode, stable, shots, **kw)


def check_steps(ctx, B, k, nq, mode, stable, identity=False, ctrl=None, nc=0, tag=""):
    key = "%s on %d qubits, %s%s%s" % (k, nq, mode, "" if stable else ", per shot", tag)
    part = mkpart(k, nq, nc)
    if ctrl is not None:
        part["ctrl"] = ctrl
    run = run_part(B, part, mode, stable)
    ms = main_loops(run)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            return "refused"
        ctx.und(key, WH, R1, "the loop over the instructions was not found")
        return None
    prepare_swaps(ctx, run)
    kinds = []
    for m in ms:
        order(ctx, key, m)
        for e in m.rec.ends:
            kinds.append(e.kind)
    if all(x == "raise" for x in kinds):
        return "refused"
    res = True
    for m in ms:
        for i, e in enumerate(m.rec.ends):
            if e.kind == "raise":
                r = raise_obligation(ctx, key, run, m, e, k, ctrl)
                if r is False:
                    return False
                res = r if r is None else res
                continue
            if e.kind in ("break", "return"):
                ctx.bad(key, WH, R1, "the step leaves the loop over the instructions")
                return False
            r = step_obligation(ctx, key, run, m, e, k, ctx.thorough, identity, ctrl, R2 if identity else R1, mode)
            if r is not True:
                res = r if res is True or r is False else res
                if r is False:
                    return False
    if res is True:
        ctx.ok(key, WH, R2 if identity else R1)
        ctx.count("gate, arity and mode combinations")
        ctx.count("paths of a step", len(kinds))
    return res


def order(ctx, key, m):
    """the loop runs over circ.data from first to last"""
    mod = Model(lambda t, pos, mm: ["A", "B", "C"] if t.op == "attr" and t.a[1] == "data" else NotImplemented)
    try:
        v = mod.seq(m.rec.seq, {})
    except (Unk, Err):
        ctx.und(key + ", order", WH, R4, "sequence of instructions: " + show(m.rec.seq)[:100])
        return
    if v != ["A", "B", "C"]:
        ctx.bad(key + ", order", WH, R4, "the instructions are visited as " + show(m.rec.seq)[:100])


# ------------------------------------------------------------- relocation routines
class NeedFree(Exception):
    def __init__(self, t):
        self.t = t


class SwapModel:
    """one step of a relocation loop on n positions; unknown indices are enumerated"""

    def __init__(self, run, info, n, rec, free):
        self.run, self.info, self.n, self.rec, self.free = run, info, n, rec, free

    def leaf(self, t, pos, m):
        if t is self.maplv:
            return dict(enumerate(self.perm))
        if self.carlv is not None and t is self.carlv:
            return self.carval
        if t.op == "attr" and t.a[1] in ("num_qubits",):
            return self.n
        if id(t) in self.free:
            return self.free[id(t)]
        if t.op == "pos":
            if t.a[0] in pos:
                return NotImplemented
            return self.freeval(t)
        if t.op == "idx" and not any(x is self.maplv for x in subterms(t)):
            if closed(t, self):
                return NotImplemented
            return self.freeval(t)
        return NotImplemented

    def freeval(self, t):
        if id(t) in self.free:
            return self.free[id(t)]
        raise NeedFree(t)


def closed(t, sm):
    """only the position of the loop and the number of qubits are free in it"""
    try:
        Model(lambda x, pos, m: (sm.n if x.op == "attr" and x.a[1] == "num_qubits" else
                                 0 if x.op == "pos" and x.a[0] not in pos else NotImplemented)).ev(t)
        return True
    except (Unk, Err):
        return False


def prepare_swaps(ctx, run):
    for key, info in run.hooks.swap_info.items():
        if "checked" in info:
            continue
        info["checked"] = True
        kk = "relocation routine %s" % info["fn"].qual.split(".")[-1]
        done = ctx.__dict__.setdefault("swapdone", set())
        silent = (kk, key[1:]) in done
        done.add((kk, key[1:]))
        sub = Quiet() if silent else ctx
        sub.guard(kk, WH, R3, check_swap, sub, run, info, kk)
        if not silent:
            ctx.saw(info["fn"].qual)


class Soft:
    """the effect of a relocation routine is not established: nothing that follows from it is a violation"""

    def __init__(self, ctx):
        self.ctx = ctx

    def bad(self, key, where, rule, detail):
        self.ctx.und(key, where, rule, "the effect of a relocation routine is not established (" + detail[:120] + ")")

    def __getattr__(self, n):
        return getattr(self.ctx, n)


class Quiet:
    thorough = False

    def ok(self, *a):
        pass
    bad = und = count = saw = check = ok

    def guard(self, key, where, rule, fn, *a):
        try:
            return fn(*a)
        except (TooHard, RecursionError):
            return None


def check_swap(ctx, run, info, key):
    it = run.it
    info["open"] = True          # until its effect is established
    rets = [p for p in info["paths"] if p.kind == "return"]
    mo = info["M"].o
    cur = info["args"][info["state_arg"]]
    ok = True
    finals = []
    for p in rets:
        r = swap_path(ctx, run, info, p, mo, cur, key)
        if r is None or r is False:
            ok = r if ok is True else ok
            if r is False:
                return
        else:
            finals.append(r)
    if ok is not True:
        return
    # the map handed back
    roles = info["ret"]
    newm = [r[1] for r in roles if not isinstance(r, str) and r[0] == "newmap"]
    fin = finals[0] if finals and all(f == finals[0] for f in finals) else None
    if newm:
        try:
            want = {n: Model(lambda t, pos, m: n if t.op == "attr" and t.a[1] == "num_qubits" else NotImplemented).ev(newm[0]) for n in (2, 3, 4)}
        except (Unk, Err):
            ctx.und(key, WH, R3, "the map handed back is not evaluated: " + show(newm[0])[:100])
            return
        if not info["map_mutated"]:
            ctx.und(key, WH, R3, "hands back a map of its own")
            return
        if fin != "identity" or any(w != {i: i for i in range(n)} for n, w in want.items()):
            ctx.bad(key, WH, R3, "the map handed back is not the one the state was moved to")
            return
    elif "map" not in roles and not info["map_mutated"]:
        ctx.bad(key, WH, R3, "no updated map is handed back")
        return
    if fin == "identity":
        info["final"] = lambda n: tuple(range(n))
        info["open"] = False
    else:
        info["open"] = bool(newm)
    ctx.ok(key, WH, R3)


def swap_path(ctx, run, info, p, mo, cur, key):
    """-> 'identity' / 'some' when state and map move together on this path, False on a violation"""
    it = run.it
    # loops that change the map
    base = sym("MAP")
    recs = [r for r in loops(p.snap.log) if ("h", mo) in r.hv]
    v = p.val
    vs = list(v) if isinstance(v, tuple) else [v]
    st = [it.freeze(x, p.snap.heap) for x, r in zip(vs, info["ret"]) if r == "state"]
    if len(st) != 1:
        raise TooHard("state result")
    st = st[0]
    endmap = p.snap.heap[mo].sym
    if not recs:
        # no relocation on this path: both unchanged, or straight-line exchange
        if st is cur and endmap is base:
            return "some"
        raise TooHard("relocation without a loop")
    if len(recs) != 1:
        raise TooHard("several loops change the map")
    L = recs[0]
    head_map = L.head.heap[mo].sym
    if L.entry.heap[mo].sym is not base or endmap is not head_map:
        raise TooHard("map changed outside the loop")
    # carrier: what the exchanges are multiplied into
    hl, el = it.locs(L.head), it.locs(L.entry)
    car = None
    for loc in L.hv:
        if loc[0] != "v" or loc not in el:
            continue
        ev_ = it.freeze(el[loc], L.entry.heap) if isinstance(el[loc], (T, Ref)) else el[loc]
        hv_ = it.freeze(hl[loc], L.head.heap)
        if ev_ is cur:
            car = (loc, hv_, "state")
        elif isinstance(ev_, T) and ev_.op == "call" and ev_.a[0] == "pyQDD.makeGate":
            car = (loc, hv_, "op")
            a = ev_.a[1]
            if len(a) < 2 or a[1] != "I":
                ctx.bad(key, WH, R3, "the fused relocation does not start from the identity")
                return False
    if car is None:
        raise TooHard("nothing carries the exchanges")
    loc, carlv, kind = car
    rel = set()
    fixes = True
    for e in L.ends:
        if e.kind == "raise":
            continue
        if e.kind not in ("next", "exit", "continue"):
            raise TooHard("relocation loop left by " + e.kind)
        r = swap_step(ctx, run, info, L, e, mo, loc, carlv, kind, head_map, key)
        if r is False:
            return False
        if r is None:
            return None
        fixes = fixes and r == "fixes"
    # after the loop
    if kind == "state":
        if st is not carlv:
            ctx.bad(key, WH, R3, "the state handed back is not the relocated one")
            return False
    else:
        ok = isinstance(st, T) and st.op == "call" and st.a[0] in ("pyQDD.mv_multiply", "pyQDD.mv_multiply_MPI", "pyQDD.mv_multiply_MPI_bcast") \
            and st.a[1][0] is carlv and st.a[1][1] is cur
        if not ok:
            ctx.bad(key, WH, R3, "the fused relocation is not applied once to the state") if isinstance(st, T) else None
            return False
        if st.a[0] != "pyQDD.mv_multiply":
            try:
                for n in (2, 3):
                    mm = Model(lambda t, pos, m: n if t.op == "attr" and t.a[1] == "num_qubits" else NotImplemented)
                    if mm.ev(st.a[1][2]) != n or mm.ev(st.a[1][3]) < n - 1:
                        ctx.bad(key, WH, R5, "exchange level of the fused relocation does not cover the register")
                        return False
            except (Unk, Err):
                ctx.und(key, WH, R5, "exchange level not evaluated")
    # a loop over all positions that fixes each for good ends in the identity
    if fixes:
        try:
            m = lambda n: Model(lambda t, pos, mm: n if t.op == "attr" and t.a[1] == "num_qubits" else NotImplemented)
            if all(m(n).seq(L.seq, {}) == list(range(n)) for n in (2, 3, 4)):
                return "identity"
        except (Unk, Err):
            pass
    return "some"


def swap_step(ctx, run, info, L, e, mo, loc, carlv, kind, head_map, key):
    it = run.it
    endmap = e.snap.heap[mo].sym
    ec = it.locs(e.snap)[loc]
    ec = it.freeze(ec, e.snap.heap) if isinstance(ec, (T, Ref)) else ec
    pcs = e.snap.pc[L.npc:]
    fixes = True
    n = 3
    free_terms = []
    total = 0
    while True:
        try:
            total = 0
            fixes = True
            for vals in itertools.product(range(n), repeat=len(free_terms)):
                for perm in perms(n):
                    sm = SwapModel(run, info, n, L, {id(t): v for t, v in zip(free_terms, vals)})
                    sm.perm, sm.maplv, sm.carlv = perm, head_map, carlv
                    case = Case(run, n, (), perm, {}, "-")
                    sm.carval = S.place(case.psi, perm) if kind == "state" else S.Op(n, [])
                    mod = Model(sm.leaf, case.call)
                    hold = True
                    for c in pcs:
                        try:
                            if mod.ev(c) is False:
                                hold = False
                                break
                        except (Unk, Err, S.Bad):
                            pass
                    if not hold:
                        continue
                    try:
                        nm = mod.ev(endmap)
                        case.level.clear()
                        got = mod.ev(ec)
                    except S.Bad as x:
                        if "named twice" in str(x):
                            continue      # positions of two different lists are different
                        ctx.bad(key, WH, R3, str(x))
                        return False
                    except Err:
                        continue          # position that the routine cannot meet
                    total += 1
                    if sorted(nm) != list(range(n)) or sorted(nm.values()) != list(range(n)):
                        ctx.bad(key, WH, R3, "a step of the relocation leaves two qubits at one place in the map")
                        return False
                    newp = tuple(nm[l] for l in range(n))
                    if kind == "op":
                        got = got.apply(S.place(case.psi, perm))
                    if not S.close(got, S.place(case.psi, newp)):
                        ctx.bad(key, WH, R3, "a step moves the state differently from the map (map %s -> %s)" % (list(perm), list(newp)))
                        return False
                    for nn, lv, top in case.level:
                        if nn != n or lv < top:
                            ctx.bad(key, WH, R5, "a relocation step passes exchange level %r of %r for positions up to %d" % (lv, nn, top))
                            return False
                    # fixed points
                    fp = [t for t in free_terms if t.op == "pos"]
                    if len(fp) == 1:
                        ii = vals[free_terms.index(fp[0])]
                        if all(perm[j] == j for j in range(ii)) and not all(newp[j] == j for j in range(ii + 1)):
                            fixes = False
                    else:
                        fixes = False
                    if len(free_terms) != 1:
                        fixes = False
            break
        except NeedFree as x:
            if len(free_terms) >= 4:
                ctx.und(key, WH, R3, "too many unknown indices in a relocation step")
                return None
            free_terms.append(x.t)
        except Unk as x:
            ctx.und(key, WH, R3, "relocation step not evaluated: " + str(x)[:150])
            return None
    ctx.count("relocation steps evaluated", total)
    return "fixes" if fixes else "step"


# ------------------------------------------------------------- before and after
def check_frame(ctx, B, mode, stable):
    """entry of the loop, shots around it, what happens to the state afterwards"""
    key = "start and end, %s%s" % (mode, "" if stable else ", per shot")
    part = mkpart("Barrier", 2)
    run = run_part(B, part, mode, stable, save=True)
    ms = main_loops(run)
    prepare_swaps(ctx, run)
    if not ms:
        ctx.und(key, WH, R4, "the loop over the instructions was not found")
        return
    it = run.it
    mpi = MODES[mode][0]
    good = True
    for m in ms:
        ml = map_locs(run, m.rec)
        for n in (1, 2, 3):
            c = Case(run, n, (), tuple(range(n)), {}, "-")
            mod = c.model({}, {})
            try:
                v = mod.ev(m.entry)
            except (Unk, Err, S.Bad) as x:
                ctx.und(key, WH, R4, "initial state: " + str(x)[:120])
                good = None
                break
            if not S.close(v, [1] + [0] * ((1 << n) - 1)):
                ctx.bad(key, WH, R4, "the loop does not start from the zero state of all qubits")
                return
            if ("makeZeroStateMPI" in c.kinds) != mpi:
                ctx.bad(key, WH, R4, "the zero state is of the wrong kind for this mode")
                return
    # every later value of state and map
    outer = [r for p in run.paths for r in loops(p.snap.log)]
    for m in ms:
        ml = map_locs(run, m.rec)
        states = {id(m.cur0): "state"}
        maps = {id(fh): loc for loc, (f, fh) in ml.items() if isinstance(fh, T) and fh.op == "lv"}
        for r in outer:
            if r is m.rec or m.sloc not in r.hv:
                continue
            hl = it.locs(r.head)
            for e in r.ends:
                if e.kind != "next" or not any(x.res.lid == m.rec.lid for x in e.snap.log[len(r.head.log):] if x.kind == "loop"):
                    continue
                st = it.freeze(it.locs(e.snap)[m.sloc], e.snap.heap)
                mm = {loc: m.end_value(e, loc) for loc in ml}
                g = frame_eval(ctx, key, run, st, mm, states, maps, False)
                if g is not True:
                    good = g
                    if g is False:
                        return
                # symbols after the outer loop
                h = it.freeze(hl[m.sloc], r.head.heap)
                states[id(h)] = "state"
                for loc in ml:
                    if loc in hl:
                        hv = it.freeze_h(hl[loc], r.head.heap) if loc[0] == "h" else it.freeze(hl[loc], r.head.heap)
                        if isinstance(hv, T) and hv.op == "lv":
                            maps[id(hv)] = loc
        nres = 0
        for p in run.paths:
            if p.kind != "return" or not any(r is m.rec for r in loops(p.snap.log)):
                continue
            sv = field(it, p, ("data", "statevector"))
            if sv is None:
                ctx.und(key, WH, R4, "no state vector in the result")
                good = None
                continue
            nres += 1
            g = frame_eval(ctx, key, run, sv, {}, states, maps, True)
            if g is not True:
                good = g
                if g is False:
                    return
        if not nres:
            good = None
            ctx.und(key, WH, R4, "no result with a state vector")
    if good is True:
        ctx.ok(key, WH, R4)


def field(it, p, path):
    v = p.val
    for k in path:
        if isinstance(v, Ref):
            h = p.snap.heap[v.o]
            if h.kind == "dict" and h.items is not None:
                for kk, vv in (h.items.items() if isinstance(h.items, dict) else h.items):
                    if kk == k:
                        v = vv
                        break
                else:
                    return None
            else:
                f = it.freeze(v, p.snap.heap)
                return None
        else:
            return None
    return it.freeze(v, p.snap.heap) if isinstance(v, (Ref, T)) else v


def frame_eval(ctx, key, run, st, mm, states, maps, final):
    rels = sorted({t.a[1] for x in [st] + list(mm.values()) for t in subterms(x) if t.op in ("swapped", "swapmap")})
    if any(run.hooks.swap_calls.get(r, {}).get("open") for r in rels):
        ctx = Soft(ctx)
    try:
        for n, qs, perm, reloc in situations("-", 0, True, 0, rels, False):
            if not maps:
                perm = tuple(range(n))
            c = Case(run, n, (), perm, reloc, "-")
            mod = c.model(states, maps)
            got = mod.ev(st)
            if not isinstance(got, list):
                raise Unk("state value")
            if final:
                want = [S.e(0.3713) * x for x in c.psi]
                if not S.close(got, want):
                    if S.close(got, c.psi):
                        why = "the global phase is not applied"
                    elif S.close(got, S.place(want, perm)):
                        why = "the qubits are not put back in place"
                    else:
                        why = "it is another state"
                    ctx.bad(key, WH, R4, "the exported vector is not the final state times the global phase: " + why)
                    return False
            else:
                newperm = perm
                for loc, x in mm.items():
                    y = mod.ev(x)
                    newperm = tuple(y[l] for l in range(n))
                if not S.close(got, S.place(c.psi, newperm)):
                    ctx.bad(key, WH, R4, "between shots the map and the state disagree")
                    return False
    except S.Bad as x:
        ctx.bad(key, WH, R4, str(x))
        return False
    except Err as x:
        ctx.und(key, WH, R4, "not evaluated: " + str(x)[:150])
        return None
    except Unk as x:
        ctx.und(key, WH, R4, "not evaluated: " + str(x)[:150])
        return None
    return True


# ------------------------------------------------------------- merge
def merge_run(B, k, nq, nc=0, cond=None, ctrl=None):
    part = mkpart(k, nq, nc, cond)
    if k == "QDDGate":
        part["cls"] = "qdd"
    if ctrl is not None:
        part["ctrl"] = ctrl
    run = B.merge(part)
    run.hooks.swap_calls = getattr(run.hooks, "swap_calls", {})
    return run, main_loops(run, ("pyQDD.makeGate",))


def check_merge(ctx, B, k, nq, identity=False, ctrl=None):
    key = "%s on %d qubits%s, merged" % (k, nq, ", open control" if ctrl is not None else "")
    run, ms = merge_run(B, k, nq, ctrl=ctrl)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            return "refused"
        ctx.und(key, WH, R6, "the loop over the instructions was not found")
        return None
    if all(e.kind == "raise" for m in ms for e in m.rec.ends):
        return "refused"
    res = True
    for m in ms:
        order(ctx, key, m)
        for e in m.rec.ends:
            if e.kind == "raise":
                r = raise_obligation(ctx, key, run, m, e, k, ctrl)
                if r is False:
                    return False
                res = r if r is None else res
                continue
            if e.kind in ("break", "return"):
                ctx.bad(key, WH, R6, "the step leaves the loop over the instructions")
                return False
            r = step_obligation(ctx, key, run, m, e, k, ctx.thorough, identity, ctrl, R6, None, True)
            if r is not True:
                res = r if res is True or r is False else res
                if r is False:
                    return False
    if res is True:
        ctx.ok(key, WH, R6)
        ctx.count("gate and arity combinations merged")
    return res


def check_merge_frame(ctx, B):
    key = "start and end, merged"
    run, ms = merge_run(B, "Barrier", 2)
    if not ms:
        ctx.und(key, WH, R6, "the loop over the instructions was not found")
        return
    it = run.it
    good = True
    for m in ms:
        for n in (1, 2, 3):
            c = Case(run, n, (), tuple(range(n)), {}, "-")
            try:
                v = c.model({}, {}).ev(m.entry)
                if not S.close(v.apply(c.psi), c.psi):
                    ctx.bad(key, WH, R6, "the product does not start from the identity")
                    return
                for p in run.paths:
                    if p.kind != "return":
                        continue
                    f = it.freeze(p.val, p.snap.heap) if isinstance(p.val, (T, Ref)) else p.val
                    got = c.model({id(m.cur0): "op"}, {}).ev(f)
                    if not S.close(got.apply(c.psi), [S.e(0.3713) * x for x in c.oplv.apply(c.psi)]):
                        ctx.bad(key, WH, R6, "the merged operator is not the product times the global phase")
                        return
            except S.Bad as x:
                ctx.bad(key, WH, R6, str(x))
                return
            except (Unk, Err) as x:
                ctx.und(key, WH, R6, "not evaluated: " + str(x)[:150])
                return
    ctx.ok(key, WH, R6)


def fixpoint(ctx, B, jobs):
    """loop state that other kinds of instruction change must be arbitrary at the head of the loop"""
    for rnd in range(3):
        grew = False
        for part, mode, stable, shots in jobs:
            try:
                if part["cls"] == "merge":
                    run = B.merge(mkpart(mode, shots))
                else:
                    run = run_part(B, part, mode, stable, shots)
            except TooHard:
                continue
            grew = B.collect(run) or grew
        if not grew:
            break
    return B.seeds, {n: None for n in B.swap_fns}


SEEDPARTS = [("CXGate", 2, 0, None), ("Measure", 1, 1, None), ("Reset", 1, 0, None), ("QDDGate", 3, 0, None), ("XGate", 1, 0, "bit")]


def seed(ctx, B, modes=MODES, shots=(True,)):
    groups = []
    for mode in modes:
        for stable in (True, False):
            for sh in shots:
                jobs = [(mkpart(k, nq, nc, cond), mode, stable, sh) for k, nq, nc, cond in SEEDPARTS
                        if not (stable and k in ("Measure", "Reset"))]
                groups.append(jobs)
    groups.append([({"cls": "merge"}, k, None, nq) for k, nq in (("CXGate", 2), ("SwapGate", 2))])
    names = {}
    for sd, fns in ctx.spread(lambda c, js: fixpoint(c, B, js), groups):
        for kind, tab in sd.items():
            t = B.seeds.setdefault(kind, {})
            for k, locs in tab.items():
                t.setdefault(k, {}).update(locs)
        names.update(fns)
    B.swap_names = names


def check(ctx):
    B = Backend()
    ctx.explanation = ("every gate class of the specification table, in eight execution modes, per shot and not, and merged; "
                       "one step of the loop over the instructions evaluated on small registers against Qiskit's definition")
    ctx.guard("loop state", WH, R2, seed, ctx, B)
    jobs = [(k, nq) for k, nq in parts(ctx.thorough)]
    jobs.sort(key=lambda j: -j[1])
    applied = {k for k in ctx.spread(lambda c, j: one_gate(c, B, *j), jobs) if k}
    ctx.spread(lambda c, mode: frames(c, B, mode), list(MODES))
    ctx.guard("Barrier merged", WH, R2, check_merge, ctx, B, "Barrier", 2, True)
    ctx.guard("merge frame", WH, R6, check_merge_frame, ctx, B)
    ctx.counts["gate classes applied"] = len(applied)
    for n in B.swap_names:
        ctx.saw(n)
    ctx.saw("QddBackend._evaluate_circuit")
    ctx.saw("QddBackend.merge_circuit")


def frames(ctx, B, mode):
    for stable in (True, False):
        ctx.guard("Barrier, %s" % mode, WH, R2, check_steps, ctx, B, "Barrier", 2, mode, stable, True)
        ctx.guard("start and end, %s" % mode, WH, R4, check_frame, ctx, B, mode, stable)
    ctx.guard("Measure, %s" % mode, WH, R2, check_steps, ctx, B, "Measure", 1, mode, True, True, None, 1)


def one_gate(ctx, B, k, nq):
    applied = None
    for mode in MODES:
        for stable in (True, False):
            key = "%s on %d qubits, %s%s" % (k, nq, mode, "" if stable else ", per shot")
            r = ctx.guard(key, WH, R1, check_steps, ctx, B, k, nq, mode, stable)
            if r is True:
                applied = k
                if ctrls(k, nq) and (ctx.thorough or stable and mode in ("one process", "distributed, swaps v1")):
                    ctx.guard(key + ", open control", WH, R1, check_steps, ctx, B, k, nq, mode, stable, False, 0, 0, ", open control")
    r = ctx.guard("%s on %d qubits, merged" % (k, nq), WH, R6, check_merge, ctx, B, k, nq)
    if r is True and ctrls(k, nq):
        ctx.guard("%s on %d qubits, open control, merged" % (k, nq), WH, R6, check_merge, ctx, B, k, nq, False, 0)
    return applied


def ctrls(k, nq):
    if k in ONE:
        return nq - 1
    if k == "CSwapGate":
        return nq - 2
    return 0
