"""What one shot does to the classical bits.  The loop over the instructions is interpreted once
per kind of instruction; the locations its classical result depends on are found from the result
outwards, and each step's effect on state and bits is evaluated on small registers: every content
the bits can reach, every measured outcome, every condition."""
import itertools
from .pyback import MODES, main_loops, loops, E, Main
from .pyev import T, mk, sym, show, subterms, TooHard, Ref
from .pyval import Model, Unk, Err
from .checks.b01 import Case, map_locs, mkpart, run_part, prepare_swaps, field
from . import opsem as S
from .seqrun import unbound

NQ, NC = 3, 3


class ShotCase(Case):
    """one situation: bits' locations, outcome per measurement call, condition"""

    def __init__(self, run, n, qs, perm, reloc, cls, cs=(), vals=None, cond=None, outcomes=None, cfv=None, nc=NC, shots=2, ctrl=None):
        super().__init__(run, n, qs, perm, reloc, cls, ctrl)
        self.cs, self.vals, self.cond, self.outcomes, self.nc = cs, vals or {}, cond, outcomes, nc
        self.cfv, self.shots = cfv, shots
        self.measured = []
        self.occ = {}

    def leaf(self, t, pos, m):
        if t.op == "lv" and id(t) in self.vals:
            return self.vals[id(t)]
        if t.op == "condbits" and self.cond:
            return self.cond[0] if isinstance(self.cond[0], str) else list(self.cond[0])
        if t.op == "condval" and self.cond:
            return self.cond[1]
        if t.op == "shots":
            return self.shots
        if t is sym("CFV") and self.cfv is not None:
            return dict(self.cfv)
        return super().leaf(t, pos, m)

    def call(self, name, a, kw, t):
        f = name.split(".")[-1] if isinstance(name, str) else ""
        if f in ("measureOneCollapsing", "measureOneCollapsingMPI", "measureOne", "measureOneMPI"):
            if kw or not isinstance(a[0], list):
                raise Unk("measurement call")
            self.kinds.add(f)
            if f.endswith("MPI") and (len(a) < 3 or a[2] != self.n):
                raise S.Bad("register size %r passed to %s" % (a[2:], f))
            k = t.a[3].a[0] if len(t.a) > 3 else 0
            if k not in self.occ:
                self.occ[k] = len(self.occ)
            o = self.outcomes[self.occ[k]] if self.occ[k] < len(self.outcomes) else 0
            self.measured.append((k, a[1]))
            return (S.project(a[0], a[1], o), "%d" % o)
        if f in ("measureAll", "measureAllMPI"):
            return self.sample(f, a, t)
        if f == "Counter" and len(a) == 1:
            r = {}
            for x in a[0]:
                r[x] = r.get(x, 0) + 1
            return r
        return super().call(name, a, kw, t)

    def sample(self, f, a, t):
        raise Unk("sampling")

    def model(self, states, maps):
        self.states, self.maps = states, maps
        from .pyback import CircModel
        cm = CircModel(self.n, self.qs, self.nc, self.cs, extra=self.leaf)

        def first(t, pos, m):
            if t.op in ("condbits", "condval"):
                v = self.leaf(t, pos, m)
                if isinstance(v, list):
                    return [cm.clbits[i] for i in v]
                if isinstance(v, str) and v.startswith("#"):
                    return cm.clbits[int(v[1:])]
                return v
            if t is sym("CFV") and self.cfv is not None:
                return {cm.clbits[c]: cm.qubits[q] for c, q in self.cfv}
            return cm.leaf(t, pos, m)
        return ShotModel(first, self.call, self)


class ShotModel(Model):
    def __init__(self, leaf, call, case):
        super().__init__(leaf, call)
        self.case = case
        self.pos = {}

    def o_call(self, t, pos):
        self.pos = pos
        return super().o_call(t, pos)


class Stale:
    """an unknown value an earlier shot left"""


class Part:
    """one kind of instruction: the run, its main loop, the classical locations"""

    def __init__(self, run, m):
        self.run, self.m = run, m
        it = run.it
        self.it = it
        rec = m.rec
        eloc = it.locs(rec.entry)
        self.names = {}      # path name -> location
        for loc in rec.hv:
            pn = it.pathed({loc: None}, eloc)
            for k in pn:
                self.names[k] = loc
        self.lvname = {}     # lv name -> path name
        hl = it.locs(rec.head)
        for k, loc in self.names.items():
            if loc in hl:
                v = hl[loc]
                f = it.freeze_h(v, rec.head.heap) if loc[0] == "h" else it.freeze(v, rec.head.heap) if isinstance(v, (T, Ref)) else v
                if isinstance(f, T) and f.op == "lv" and f.a[0] == rec.lid:
                    self.lvname.setdefault(id(f), (f, k))
        self.ml = map_locs(run, rec)
        self.states = {id(m.cur0): "state"} if isinstance(m.cur0, T) else {}
        self.maps = {id(fh): loc for loc, (f, fh) in self.ml.items() if isinstance(fh, T) and fh.op == "lv"}

    def lvs(self, t):
        """path names of the classical loop state a term reads"""
        out = set()
        for x in subterms(t):
            if x.op == "lv" and x.a[0] == self.m.rec.lid and id(x) in self.lvname and id(x) not in self.states and id(x) not in self.maps:
                out.add(self.lvname[id(x)][1])
        return out

    def entry(self, pn):
        it, rec = self.it, self.m.rec
        v = it.locs(rec.entry)[self.names[pn]]
        return it.freeze_h(v, rec.entry.heap) if self.names[pn][0] == "h" else it.freeze(v, rec.entry.heap) if isinstance(v, (T, Ref, tuple)) else v

    def start(self, pn, n=3):
        """the value at the start of a shot; None when it holds anything an earlier shot left"""
        x = self.entry(pn)
        if isinstance(x, T) and x.op == "lv":
            return None
        vals = {}
        for t in subterms(x) if isinstance(x, T) else ():
            if t.op == "lv":
                v = self.before(t)
                if isinstance(v, list):
                    vals[id(t)] = [Stale() for _ in v]
        v = ShotCase(self.run, n, (), tuple(range(n)), {}, "-", vals=vals, nc=NC).model({}, {}).ev(x)
        if isinstance(v, Stale) or isinstance(v, (list, tuple)) and any(isinstance(y, Stale) for y in v):
            return None
        return v

    def before(self, t):
        """what a loop-carried value was before its loop"""
        it = self.it
        from .pyback import loops
        for p in self.run.paths:
            for r in loops(p.snap.log):
                if r.lid != t.a[0] or r is self.m.rec:
                    continue
                hl, el = it.locs(r.head), it.locs(r.entry)
                for loc, v in hl.items():
                    f = it.freeze_h(v, r.head.heap) if loc[0] == "h" else it.freeze(v, r.head.heap) if isinstance(v, (T, Ref)) else v
                    if f is t and loc in el:
                        e = el[loc]
                        x = it.freeze_h(e, r.entry.heap) if loc[0] == "h" else it.freeze(e, r.entry.heap) if isinstance(e, (T, Ref)) else e
                        return ShotCase(self.run, 3, (), (0, 1, 2), {}, "-", nc=NC).model({}, {}).ev(x)
        return None

    def binding(self, vals):
        return {i: vals[k] for i, (f, k) in self.lvname.items() if k in vals}

    def enabled(self, mod, e):
        """True, or None when a condition is not evaluated"""
        sure = True
        for c in self.m.conds(e):
            free = any(t.op == "pos" and t.a[0] > self.m.rec.depth for t in unbound(c))
            if free:
                continue
            try:
                v = mod.ev(c, self.pos())
            except S.Bad:
                raise
            except (Unk, Err):
                sure = None
                continue
            if v is False:
                return False
        return sure

    def pos(self):
        return {d: 0 for d in range(self.m.rec.depth + 1)}

    def newvals(self, mod, e, vals, want):
        out = {}
        for k in want:
            if k not in self.names:
                out[k] = vals[k]
                continue
            x = self.m.end_value(e, self.names[k])
            out[k] = mod.ev(x, self.pos())
        return out


def hashable(v):
    if isinstance(v, (list, tuple)):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple(sorted(((hashable(k), hashable(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted((hashable(x) for x in v), key=repr))
    return v


# ------------------------------------------------------------- kinds of instruction
def part_runs(B, k, nq, nc, mode, cond=None, ctx=None, stable=False, shots=True):
    """the partition's main loops as Parts; None when the whole run refuses"""
    run = run_part(B, mkpart(k, nq, nc, cond), mode, stable, shots)
    ms = main_loops(run)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            return None
        raise TooHard("the loop over the instructions was not found")
    prepare_swaps(ctx, run)
    return [Part(run, m) for m in ms]


def result_terms(part):
    """(memory, counts) of every way the run returns a result"""
    out = []
    for p in part.run.paths:
        if p.kind != "return" or not any((r.lid, r.line) == (part.m.rec.lid, part.m.rec.line) for r in loops(p.snap.log)):
            continue
        out.append((field(part.it, p, ("data", "memory")), field(part.it, p, ("data", "counts")), field(part.it, p, ("shots",))))
    return out


def conds_on_bits(part):
    """loop state the conditions on classical bits read"""
    out = set()
    for e in part.m.rec.ends:
        for c in part.m.conds(e):
            if any(t.op in ("condbits", "condval") for t in subterms(c)):
                out |= part.lvs(c)
    return out


def closure(parts, names):
    names = set(names)
    while True:
        new = set()
        for P in parts:
            for e in P.m.rec.ends:
                if e.kind != "next":
                    continue
                for k in names:
                    if k in P.names:
                        new |= P.lvs(P.m.end_value(e, P.names[k]))
        if new <= names:
            return sorted(names)
        names |= new


class Mismatch(Exception):
    pass


def expected(case, k, holds, c, o, bits):
    """logical state and bits after the step"""
    psi = case.psi
    bits = list(bits)
    if holds is False or k == "Barrier":
        return psi, bits
    q = case.qs[0]
    if k == "Measure":
        bits[c] = "%d" % o
        return S.project(psi, q, o), bits
    if k == "Reset":
        v = S.project(psi, q, o)
        return (S.gate(case.n, S.FIX["X"], [q], []).apply(v) if o else v), bits
    return case.spec().apply(psi), bits


def eval_step(P, e, case, k, holds, c, o, vals, bits, want):
    """-> new values; raises Mismatch; None when the step is not taken in this situation"""
    vb = P.binding(vals)
    case.vals = vb
    mod = case.model(P.states, P.maps)
    en = P.enabled(mod, e)
    if en is False:
        return None
    if e.kind == "raise":
        raise Mismatch("the step ends in an error (%s)" % (show(e.val.cls) if isinstance(e.val.cls, T) else e.val.cls)) if en else Unk("a refusing path")
    got = mod.ev(P.m.end_value(e), P.pos())
    newperm = case.perm
    for loc in P.ml:
        y = mod.ev(P.m.end_value(e, loc), P.pos())
        newperm = tuple(y[l] for l in range(case.n))
    psi, nb = expected(case, k, holds, c, o, bits)
    if not isinstance(got, list):
        raise Unk("state value")
    if not S.close(got, S.place(psi, newperm)):
        if not en and cond_unknown(P, e, mod):
            raise Unk("a condition of the step")
        raise Mismatch("the state after the step is not " + (
            "the state before it" if holds is False or k == "Barrier" else "the %s" % (
                "projection onto the outcome of the measured qubit" if k == "Measure" else "state with the qubit reset" if k == "Reset" else "gate applied to it")))
    nv = P.newvals(mod, e, vals, want)
    return nv, nb


def cond_unknown(P, e, mod):
    for c in P.m.conds(e):
        if any(t.op in ("condbits", "condval") for t in subterms(c)) or P.lvs(c) & set(P.used):
            try:
                mod.ev(c, P.pos())
            except (Unk, Err):
                if not any(t.op == "pos" and t.a[0] > P.m.rec.depth for t in unbound(c)):
                    return True
    return False


CONDS = [("bit", ("#%d" % i, v)) for i in range(NC) for v in (False, True)] + \
        [("reg", (r, v)) for r in ([0], [2], [0, 1], [1, 2], [2, 0], [0, 1, 2], [2, 1, 0]) for v in range(1 << len(r))]


def holds(cond, bits):
    t, v = cond
    if isinstance(t, str):
        return bits[int(t[1:])] == ("1" if v else "0")
    return all(bits[i] == "%d" % ((v >> j) & 1) for j, i in enumerate(t))


def rels_of(P, e, want):
    xs = [P.m.end_value(e)] + [P.m.end_value(e, loc) for loc in P.ml] + [P.m.end_value(e, P.names[k]) for k in want if k in P.names] + list(P.m.conds(e))
    return sorted({t.a[1] for x in xs for t in subterms(x) if t.op in ("swapped", "swapmap")})


def steps(P, k, nq, nc, want, space, cond=None, thorough=False):
    """evaluate every step of one part over the situations; yields (vals, bits, new vals, new bits)"""
    from .checks.b01 import situations
    P.used = want
    opens = False
    for e in P.m.rec.ends:
        if e.kind in ("break", "return"):
            raise Mismatch("the step leaves the loop over the instructions")
    ends = [(e, rels_of(P, e, want)) for e in P.m.rec.ends]
    sit = list(situations(k, nq, bool(P.maps), 0, sorted({r for _, rs in ends for r in rs}), thorough))
    conds = [c for t, c in CONDS if t == cond] if cond else [None]
    cl = list(range(NC)) if nc else [0]
    outs = [0, 1] if k in ("Measure", "Reset") else [0]
    i = 0
    for si, (n, qs, perm, reloc) in enumerate(sit):
        combos = list(itertools.product(space, cl, outs, conds))
        if si and not thorough:
            combos = [x for j, x in enumerate(combos) if (j + si) % 7 == 0] or combos[:2]
        if si and k == "QDDGate" and tuple(qs) != tuple(range(n)):
            continue
        for (vals, bits), c, o, cd in combos:
            h = holds(cd, bits) if cd else True
            taken = 0
            for e, rs in ends:
                case = ShotCase(P.run, n, qs, perm, reloc, k, (c,) if nc else (), None, cd, [o, 1 - o])
                try:
                    r = eval_step(P, e, case, k, h, c, o, vals, bits, want)
                except (Mismatch, S.Bad, Err) as x:
                    raise Mismatch("%s: %s (%s)" % (desc(k, qs, c if nc else None, o if k in ("Measure", "Reset") else None, cd, bits), x, "map %s" % (list(perm),)))
                if r is None:
                    continue
                taken += 1
                i += 1
                yield (vals, bits), r, desc(k, qs, c if nc else None, o, cd, bits)
            if not taken:
                raise Unk("no step applies to " + desc(k, qs, c, o, cd, bits))


def desc(k, qs, c, o, cd, bits):
    s = "%s on qubit%s %s" % (k, "s" if len(qs) > 1 else "", ",".join(map(str, qs)))
    if c is not None:
        s += " into bit %d" % c
    if o is not None and k in ("Measure", "Reset"):
        s += ", outcome %d" % o
    if cd:
        s += ", required value %d of %s" % (cd[1], "bit " + cd[0][1:] if isinstance(cd[0], str) else "register of bits %s" % (cd[0],))
    return s + " while the bits are " + "".join(reversed(bits))
