"""Runs without shots: the reported distribution is that of the classical bits.  The loops that
build the distribution are extracted as step relations and evaluated on small registers."""
import itertools
from ..pyback import Backend, MODES, main_loops, loops
from ..pyev import T, mk, sym, show, subterms, Ref, TooHard
from ..pyval import Model, Unk, Err
from .. import opsem as S
from ..shots import ShotCase, ShotModel, Part, closure
from .b01 import mkpart, run_part, seed, WH, field, map_locs, prepare_swaps, situations

R1 = "sampled from one final state: every value of the classical bits is given the probability of the qubits last measured into them"
R2 = "a circuit without measurements is given the probabilities of its qubits' values"
R3 = "a bit never measured reads 0"
R4 = "measured while the circuit goes on: bits of independent qubits are given the product of their probabilities"
R5 = "measured while the circuit goes on: correlated bits are given their joint probabilities"
R7 = "a conditional instruction in a run without shots is refused: no bit has one value there"
R6 = "a reset does not make the distribution depend on chance"

NC = 4          # more bits than qubits


class Fold:
    """loop-built values: the extracted step relation of the loop is run on the finite model"""

    def __init__(self, it, recs):
        self.it, self.recs, self.bound, self.memo = it, recs, [], {}

    def name(self, loc):
        return loc[2] if loc[0] == "v" else "." + loc[2] if loc[0] == "a" else "obj%d" % loc[1]

    def locval(self, snap, loc):
        it = self.it
        v = it.locs(snap).get(loc)
        if loc[0] == "h":
            h = snap.heap.get(loc[1])
            return None if h is None else it.freeze_h(h, snap.heap)
        return it.freeze(v, snap.heap) if isinstance(v, (T, Ref, tuple)) else v

    def lv(self, t, pos, m):
        for b in reversed(self.bound):
            if t in b:
                v = b[t]
                if isinstance(v, (Unk, Err)):
                    raise v
                return v
        rec = self.recs.get(t.a[0])
        if rec is None:
            return NotImplemented
        key = (t.a[0], tuple(sorted(pos.items())), tuple(id(b) for b in self.bound))
        if len(self.bound) or key not in self.memo:
            r = self.run(rec, pos, m)
            if self.bound:
                return r[t] if t in r else NotImplemented
            self.memo[key] = r
        r = self.memo[key]
        if t not in r:
            raise Unk("loop value " + show(t)[:60])
        if isinstance(r[t], (Unk, Err)):
            raise r[t]
        return r[t]

    def run(self, rec, pos, m):
        if any(e.kind != "next" for e in rec.ends if e.kind != "raise"):
            raise Unk("a loop that can end early")
        d = rec.depth
        locs = [l for l in rec.hv if not (rec.hv[l] and rec.hv[l][0] == "ind")]

        def each(snap):
            out = {}
            for l in locs:
                x = self.locval(snap, l)
                try:
                    out[mk("lv", rec.lid, self.name(l))] = Unk("unset") if x is None else m.ev(x, cur)
                except (Unk, Err) as e:
                    out[mk("lv", rec.lid, self.name(l))] = e
            return out
        cur = dict(pos)
        st = each(rec.entry)
        n = len(m.seq(rec.seq, pos))
        if n > 4096:
            raise Unk("a long loop")
        for i in range(n):
            cur = {**pos, d: i}
            self.bound.append(st)
            try:
                took = None
                for e in rec.ends:
                    if all(m.ev(c, cur) for c in e.snap.pc[rec.npc:]):
                        if e.kind == "raise":
                            raise Err("the loop ends in an error")
                        took = e
                        break
                if took is None:
                    raise Unk("no step applies")
                nx = each(took.snap)
            finally:
                self.bound.pop()
            st = nx
        return st


class ExactCase(ShotCase):
    def setup(self, it, recs, main):
        self.fold = Fold(it, {k: r for k, r in recs.items() if k not in main})
        return self

    def leaf(self, t, pos, m):
        r = super().leaf(t, pos, m)
        if r is NotImplemented and t.op == "lv":
            return self.fold.lv(t, pos, m)
        return r

    def call(self, name, a, kw, t):
        f = name.split(".")[-1] if isinstance(name, str) else ""
        if f in ("probabilities", "probabilitiesMPI"):
            self.kinds.add(f)
            return [abs(x) ** 2 for x in a[0]]
        if f in ("measureOne", "measureOneMPI"):
            if kw or not isinstance(a[0], list):
                raise Unk("measurement call")
            if f.endswith("MPI") and (len(a) < 3 or a[2] != self.n):
                raise S.Bad("register size %r passed to %s" % (a[2:], f))
            return (a[0], sum(abs(x) ** 2 for i, x in enumerate(a[0]) if not (i >> a[1]) & 1))
        return super().call(name, a, kw, t)


def feasible(mod, p):
    """False when a condition of the path is evaluated to False"""
    for c in p.snap.pc:
        try:
            if mod.ev(c, {}) is False:
                return False
        except (Unk, Err, S.Bad):
            pass
    return True


def unit(v):
    s = sum(abs(x) ** 2 for x in v) ** 0.5
    return [x / s for x in v]


def dist(psi, cfv, n):
    out = {}
    for i, x in enumerate(psi):
        k = i if not cfv else sum(((i >> q) & 1) << c for c, q in cfv)
        out[k] = out.get(k, 0) + abs(x) ** 2
    return out


def same_dist(g, w):
    if not isinstance(g, dict) or not all(isinstance(k, int) and not isinstance(k, bool) for k in g):
        return False
    return all(abs(g.get(k, 0) - w.get(k, 0)) < 1e-9 for k in set(g) | set(w))


def lead(g):
    return "{%s}" % ", ".join("%s: %.3f" % (k, v) for k, v in sorted(g.items(), key=repr)[:8] if isinstance(v, float) or isinstance(v, int)) if isinstance(g, dict) else str(g)[:80]


def final(ctx, B, mode):
    key = "final measurements, %s" % mode
    run = run_part(B, mkpart("Barrier", 2), mode, True, False)
    ms = main_loops(run)
    prepare_swaps(ctx, run)
    if not ms:
        ctx.und(key, WH, R1, "the loop over the instructions was not found")
        return
    it = run.it
    states, maps = {}, {}
    main = set()
    for m in ms:
        states[id(m.cur0)] = "state"
        main.add(m.rec.lid)
        for loc, (f, fh) in map_locs(run, m.rec).items():
            if isinstance(fh, T) and fh.op == "lv":
                maps[id(fh)] = loc
    n_ev = 0
    for cfv in ((), ((0, 1),), ((1, 0), (0, 2)), ((2, 2), (0, 0)), ((0, 1), (1, 1), (2, 0)), ((3, 1),), ((4, 0), (1, 2))):
        rule = R1 if cfv else R2
        hit = 0
        for p in run.paths:
            if p.kind != "return":
                continue
            pr = field(it, p, ("data", "probabilities"))
            if pr is None:
                continue
            recs = {}
            for r in loops(p.snap.log):
                recs.setdefault(r.lid, r)
            xs = [pr] + list(p.snap.pc)
            for r in recs.values():
                if r.lid not in main:
                    xs += [r.seq] + [x for e in r.ends for x in [e.snap.heap[l[1]].sym for l in r.hv if l[0] == "h" and l[1] in e.snap.heap]]
            rels = sorted({t.a[1] for x in xs if isinstance(x, (T, tuple)) for t in subterms(x) if t.op in ("swapped", "swapmap")})
            for n, qs, perm, reloc in situations("-", 0, bool(maps), 0, rels, ctx.thorough):
                c = ExactCase(run, n, (), perm, reloc, "-", (), {}, None, [], cfv, 5, None).setup(it, recs, main)
                c.psi = unit(S.rnd("exact%d" % n, 1 << n))
                mod = c.model(states, maps)
                if not feasible(mod, p):
                    continue
                try:
                    g = mod.ev(pr)
                except S.Bad as x:
                    ctx.bad(key, WH, rule, str(x))
                    return
                except Err as x:
                    ctx.bad(key, WH, rule, "reading the distribution fails: " + str(x)[:120])
                    return
                hit += 1
                n_ev += 1
                w = dist(c.psi, cfv, n)
                if not same_dist(g, w):
                    ctx.bad(key, WH, rule, "%s instead of %s (bit <- qubit: %s, map %s)" % (lead(g), lead(w), dict(cfv), list(perm)))
                    return
        if not hit:
            ctx.und(key, WH, rule, "no distribution is reported")
            return
    ctx.ok(key, WH, R1)
    ctx.ok(key + ", no measurements", WH, R2)
    ctx.count("distributions evaluated", n_ev)


STATES = {
    "product": (((0.6, 0.8), (0.28, 0.96), (0.8, -0.6)), R4),
}


def product(fs):
    v = [1.0]
    for a, b in fs:
        v = [x * a for x in v] + [x * b for x in v]
    return v


def going_on(ctx, B, mode):
    key = "measured while the circuit goes on, %s" % mode
    run = run_part(B, mkpart("Measure", 1, 1), mode, False, False)
    ms = main_loops(run)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            ctx.ok(key + ", refused", WH, R5)
            return
        ctx.und(key, WH, R4, "the loop over the instructions was not found")
        return
    prepare_swaps(ctx, run)
    Ps = [Part(run, m) for m in ms]
    it = run.it
    res = []
    for p in run.paths:
        if p.kind == "return":
            pr = field(it, p, ("data", "probabilities"))
            if pr is not None:
                recs = {}
                for r in loops(p.snap.log):
                    recs.setdefault(r.lid, r)
                res.append((p, pr, recs))
    P = next((Q for Q in Ps if any(r is Q.m.rec for p, pr, recs in res for r in recs.values())), None)
    if P is None:
        ctx.und(key, WH, R4, "no distribution is reported")
        return
    main = {P.m.rec.lid}
    used = set()
    for p, pr, recs in res:
        xs = [pr]
        for r in recs.values():
            if r.lid == P.m.rec.lid:
                continue
            for e in r.ends:
                xs += [e.snap.heap[l[1]].sym for l in r.hv if l[0] == "h" and l[1] in e.snap.heap]
                xs += list(e.snap.pc[r.npc:])
        for x in xs:
            if isinstance(x, T):
                used |= P.lvs(x)
    want = closure(Ps, used)
    init = {}
    for k in want:
        x = P.entry(k)
        init[k] = x if not isinstance(x, T) else ExactCase(run, 3, (), (0, 1, 2), {}, "-", (), {}, None, [], (), NC, None).setup(it, {}, main).model({}, {}).ev(x)

    def read(vals, psi):
        for p, pr, recs in res:
            if not any(r is P.m.rec for r in recs.values()):
                continue
            c = ExactCase(run, 3, (), (0, 1, 2), {}, "-", (), P.binding(vals), None, [], (), NC, None).setup(it, recs, main)
            c.psi = psi
            mod = c.model(P.states, P.maps)
            if not feasible(mod, p):
                continue
            return mod.ev(pr)
        raise Unk("no distribution is reported")

    def measure(vals, psi, q, cb, perm, reloc):
        for e in P.m.rec.ends:
            c = ExactCase(run, 3, (q,), perm, {}, "Measure", (cb,), P.binding(vals), None, [0], None, NC, None).setup(it, {}, main)
            xs = [P.m.end_value(e)] + [P.m.end_value(e, loc) for loc in P.ml] + [P.m.end_value(e, P.names[k]) for k in want if k in P.names] + list(P.m.conds(e))
            c.reloc = {t.a[1]: reloc for x in xs for t in subterms(x) if t.op in ("swapped", "swapmap")}
            c.psi = psi
            mod = c.model(P.states, P.maps)
            if P.enabled(mod, e) is False:
                continue
            if e.kind != "next":
                raise Unk("the measurement ends the loop")
            got = mod.ev(P.m.end_value(e), P.pos())
            newperm = perm
            for loc in P.ml:
                y = mod.ev(P.m.end_value(e, loc), P.pos())
                newperm = tuple(y[l] for l in range(3))
            if not S.close(got, S.place(psi, newperm)):
                raise Unk("a measurement that changes the state")
            return P.newvals(mod, e, vals, want)
        raise Unk("no step applies")
    psi = product(STATES["product"][0])
    try:
        g = read(init, psi)
        if not same_dist(g, {0: 1.0}):
            ctx.bad(key + ", unmeasured", WH, R3, "%s when nothing was measured" % lead(g))
        else:
            ctx.ok(key + ", unmeasured", WH, R3)
        good = True
        perms = list(itertools.permutations(range(3))) if P.maps else [(0, 1, 2)]
        for seq, perm in itertools.product((((0, 0),), ((1, 1),), ((0, 1), (2, 0)), ((1, 0), (0, 1)), ((0, 0), (2, 0)), ((2, 3), (1, 1))), perms):
            vals = init
            for q, cb in seq:
                vals = measure(vals, psi, q, cb, perm, perms[-2 if len(perms) > 1 else 0])
            g = read(vals, psi)
            w = {0: 1.0}
            last = {cb: q for q, cb in seq}
            for cb, q in last.items():
                a, b = STATES["product"][0][q]
                w = {k | (o << cb): v * abs(a if not o else b) ** 2 for k, v in w.items() for o in (0, 1)}
            if not same_dist(g, w):
                ctx.bad(key + ", independent", WH, R4, "%s instead of %s (qubit, bit: %s)" % (lead(g), lead(w), list(seq)))
                good = False
                break
        if good:
            ctx.ok(key + ", independent", WH, R4)
        bell = [0.6, 0, 0, 0.8, 0, 0, 0, 0]
        vals = measure(init, bell, 0, 0, (0, 1, 2), (0, 1, 2))
        vals = measure(vals, bell, 1, 1, (0, 1, 2), (0, 1, 2))
        g = read(vals, bell)
        w = {0: 0.36, 3: 0.64}
        ctx.check(same_dist(g, w), key + ", correlated", WH, R5, "%s instead of %s" % (lead(g), lead(w)))
    except S.Bad as x:
        ctx.bad(key, WH, R4, str(x))
    except Err as x:
        ctx.bad(key, WH, R4, "reading the distribution fails: " + str(x)[:120])


def reset(ctx, B, mode):
    key = "reset, %s" % mode
    run = run_part(B, mkpart("Reset", 1), mode, False, False)
    ms = main_loops(run)
    if not ms:
        if all(p.kind == "raise" for p in run.paths):
            ctx.ok(key, WH, R6)
            return
        ctx.und(key, WH, R6, "the loop over the instructions was not found")
        return
    prepare_swaps(ctx, run)
    bell = [0.6, 0, 0, 0.8, 0, 0, 0, 0]
    for m in ms:
        P = Part(run, m)
        seen = []
        for o in (0, 1):
            for e in P.m.rec.ends:
                c = ExactCase(run, 3, (0,), (0, 1, 2), {}, "Reset", (), {}, None, [o], (), NC, None).setup(run.it, {}, {P.m.rec.lid})
                c.reloc = {r: (0, 1, 2) for r in {t.a[1] for t in subterms(P.m.end_value(e)) if t.op in ("swapped", "swapmap")}} if isinstance(P.m.end_value(e), T) else {}
                c.psi = bell
                mod = c.model(P.states, P.maps)
                if P.enabled(mod, e) is False:
                    continue
                if e.kind == "next":
                    seen.append(dist(mod.ev(P.m.end_value(e), P.pos()), (), 3))
        if not seen:
            ctx.und(key, WH, R6, "no step applies")
            return
        if not all(same_dist(x, seen[0]) for x in seen):
            ctx.bad(key, WH, R6, "resetting one of two correlated qubits leaves the other in a state drawn by chance")
            return
    ctx.ok(key, WH, R6)


class DataCase(ExactCase):
    """a circuit of one instruction"""

    def leaf(self, t, pos, m):
        if t.op == "attr" and t.a[0] is sym("circ") and t.a[1] == "data":
            return [0]
        return super().leaf(t, pos, m)


def conditional(ctx, B, mode):
    for cond in ("bit", "reg"):
        key = "conditional on a %s, %s" % ("register" if cond == "reg" else "bit", mode)
        n = 0
        for k, nq, nc in (("XGate", 1, 0), ("Measure", 1, 1)):
            run = run_part(B, mkpart(k, nq, nc, cond), mode, False, False)
            for p in run.paths:
                n += 1
                if p.kind != "return":
                    continue
                c = DataCase(run, 3, (0,), (0, 1, 2), {}, k, (0,)[:nc], {}, ("#0", 1) if cond == "bit" else ([0, 1], 1), [0], (), NC, None).setup(run.it, {}, set())
                if feasible(c.model({}, {}), p):
                    ctx.bad(key, WH, R7, "a conditional %s runs without shots" % k)
                    return
        ctx.check(True if n else None, key, WH, R7, "no path")


def one(ctx, B, job):
    what, mode = job
    if what == "cond":
        ctx.guard("conditional, " + mode, WH, R7, conditional, ctx, B, mode)
    elif what == "reset":
        ctx.guard("reset, " + mode, WH, R6, reset, ctx, B, mode)
    elif what == "final":
        ctx.guard("final measurements, " + mode, WH, R1, final, ctx, B, mode)
    else:
        ctx.guard("measured while the circuit goes on, " + mode, WH, R4, going_on, ctx, B, mode)


def check(ctx):
    B = Backend()
    ctx.explanation = "the distribution a run without shots reports, as extracted from the loops that build it, evaluated on registers of three qubits"
    ctx.guard("loop state", WH, R1, seed, ctx, B, MODES, (False,))
    ctx.spread(lambda c, j: one(c, B, j), [(w, m) for w in ("final", "on", "cond", "reset") for m in MODES])
    ctx.saw("QddBackend._evaluate_circuit")
    for n in B.swap_names:
        ctx.saw(n)
