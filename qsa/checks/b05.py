"""Classical bits: in every shot the value reported for a bit is the outcome last measured into it.
The steps' effect on the bits and the result's reading of them are extracted and explored together
over every content the bits can reach."""
import itertools
from . import b07
from ..pyback import Backend, MODES, main_loops, E, loops
from ..pyev import T, mk, sym, show, subterms, TooHard
from ..pyval import Model, Unk, Err
from .. import opsem as S
from ..shots import (ShotCase, Part, part_runs, result_terms, closure, conds_on_bits, steps, Mismatch, hashable, NC, NQ)
from .b01 import mkpart, run_part, seed, WH, field, map_locs, prepare_swaps, lv_entry

R1 = "a measurement puts its outcome into its own classical bit and leaves the others alone"
R2 = "no other instruction changes a classical bit"
R3 = "every shot starts with all bits 0 and the zero state"
R4 = "the shot's string lists the bits, bit 0 rightmost"
R5 = "counts and memory are the same list of exactly the requested number of shots"
R6 = "sampled from one final state: each bit reports the outcome of the qubit last measured into it, one draw per shot"
R7 = "the qubit last measured into each bit is recorded"

KINDS = [("Measure", 1, 1), ("XGate", 1, 0), ("CXGate", 2, 0), ("SwapGate", 2, 0), ("UnitaryGate", 2, 0), ("Reset", 1, 0), ("Barrier", 2, 0),
         ("QDDGate", 3, 0)]


def reader(ctx, key, P, vals, bits, rt, others=()):
    """the result's string for these contents"""
    vb = {}
    for Q in others:
        vb.update(Q.binding(vals))
    vb.update(P.binding(vals))
    for mem, cnt, shots in rt:
        for ns in (1, 2, 3):
            case = ShotCase(P.run, 3, (), (0, 1, 2), {}, "-", (), vb, None, [], None, NC, ns)
            mod = case.model(P.states, P.maps)
            want = "".join(reversed(bits))
            g = mod.ev(mem)
            if g != [want] * ns:
                raise Mismatch((R4 if isinstance(g, list) and len(g) == ns else R5), "bits %s (bit 0 right) are reported as %s in %d shots" % (want, str(g)[:60], ns))
            c = mod.ev(cnt)
            if c != {want: ns}:
                raise Mismatch(R5, "memory %s but counts %s" % (str(g)[:60], str(c)[:60]))
            if mod.ev(shots) != ns:
                raise Mismatch(R5, "%s shots reported for %d" % (mod.ev(shots), ns))


def carried(P, terms):
    """a value an earlier turn of the shot loop left, read by the strings it stores"""
    it = P.it
    for p in P.run.paths:
        for r in loops(p.snap.log):
            objs = {t.a[1] for x in terms for y in x if isinstance(y, T) for t in subterms(y) if t.op == "lv" and t.a[0] == r.lid}
            if r is P.m.rec or not objs or not any(q is P.m.rec for e in r.ends for q in loops(e.snap.log)):
                continue
            for e in r.ends:
                for loc in r.hv:
                    if e.kind != "next" or loc[0] != "h" or "obj%d" % loc[1] not in objs or loc[1] not in e.snap.heap:
                        continue
                    s = e.snap.heap[loc[1]].sym
                    if isinstance(s, T) and s.op in ("append", "store") and s.a[0] is mk("lv", r.lid, "obj%d" % loc[1]):
                        for t in subterms(s.a[-1]) if isinstance(s.a[-1], T) else ():
                            if t.op == "lv" and t.a[0] == r.lid:
                                return s.a[-1]
    return None


def per_shot(ctx, B, mode):
    key = "per shot, %s" % mode
    groups = []
    for k, nq, nc in KINDS:
        ps = part_runs(B, k, nq, nc, mode, None, ctx)
        if ps is None:
            continue
        groups.append((k, nq, nc, ps))
    if not groups or groups[0][0] != "Measure":
        ctx.und(key, WH, R1, "measurements are refused")
        return
    for i, M in enumerate(groups[0][3]):
        per_shot1(ctx, B, mode, groups, groups[0][3], M, key + (", loop %d" % (i + 1) if i else ""), i == 0)
    ctx.count("kinds of instruction", len(groups))


def per_shot1(ctx, B, mode, groups, Ms, M, key, others):
    names = set()
    terms = result_terms(M)
    if not terms or any(a is None or b is None for a, b, c in terms):
        ctx.und(key, WH, R5, "no memory or counts in the result")
        return
    for a, b, c in terms:
        for Q in Ms:
            names |= Q.lvs(a) | Q.lvs(b)
    want = closure([P for g in groups for P in g[3]], names)
    # start of a shot
    init = {}
    for k in want:
        x = M.entry(k)
        try:
            init[k] = M.start(k)
            for n in (2, 4):
                y = M.start(k, n)
                if init[k] is not None and y != init[k]:
                    ctx.bad(key, WH, R3, "the bits of a shot start as %s on 3 qubits and as %s on %d" % (str(init[k])[:60], str(y)[:60], n))
                    return
        except (Unk, Err):
            ctx.und(key, WH, R3, "start of a shot: " + show(x)[:120])
            return
        if init[k] is None:
            ctx.bad(key, WH, R3, "the bits of a shot start from what an earlier shot left (%s)" % show(x)[:80])
            return
    left = carried(M, terms) if not want else None
    if left is not None:
        ctx.bad(key, WH, R3, "the string of a shot is read from what an earlier shot left (%s)" % show(left)[:100])
        return
    if not want and any(t.op == "lv" for x in terms for y in x if isinstance(y, T) for t in subterms(y)):
        ctx.und(key, WH, R1, "the reported bits are built by a loop that was not resolved")
        return
    if not want:
        ctx.bad(key, WH, R1, "no measurement reaches the reported bits")
        return
    # reachable contents
    bits0 = tuple("0" * NC)
    seen = {hashable(init): [(init, bits0)]}
    pairs = {(hashable(init), bits0)}
    frontier = [(init, bits0)]
    space = []
    try:
        reader(ctx, key, M, init, bits0, terms, Ms)
        while frontier:
            space += frontier
            nxt = []
            for (v, b), (nv, nb), d in steps(M, "Measure", 1, 1, want, frontier, None, ctx.thorough):
                h = (hashable(nv), tuple(nb))
                if h in pairs:
                    continue
                pairs.add(h)
                if len(pairs) > 64:
                    raise Mismatch(R1, "the bits' contents do not follow the outcomes: " + d)
                try:
                    reader(ctx, key, M, nv, nb, terms, Ms)
                except Mismatch as x:
                    raise Mismatch(x.args[0] if x.args[0] != R4 else R1, "after %s: %s" % (d, x.args[1]))
                nxt.append((nv, tuple(nb)))
            frontier = nxt
    except Mismatch as x:
        ctx.bad(key, WH, x.args[0] if len(x.args) > 1 else R1, x.args[-1])
        return
    ctx.count("contents of the bits reached", len(space))
    ctx.ok(key + ", measurements", WH, R1)
    ctx.ok(key + ", strings", WH, R4)
    ctx.ok(key + ", list of shots", WH, R5)
    ctx.ok(key + ", start", WH, R3)
    for k, nq, nc, ps in groups if others else ():
        kk = "%s, %s" % (k, key)
        good = True
        for P in ps:
            if P is M:
                continue
            try:
                for (v, b), (nv, nb), d in steps(P, k, nq, nc, want, space[:: (1 if ctx.thorough else 3)], None, ctx.thorough):
                    if k != "Measure" and hashable(nv) != hashable({x: v[x] for x in want}):
                        good = False
                        ctx.bad(kk, WH, R2, "%s changes the bits" % d)
                        break
            except Mismatch as x:
                if k == "Measure":
                    ctx.bad(kk, WH, R1, x.args[-1])
                    good = False
                else:
                    good = None          # the state is B01's and B04's business
                    ctx.und(kk, WH, R2, x.args[-1])
            except Unk as x:
                good = None
                ctx.und(kk, WH, R2, "not evaluated: " + str(x)[:150])
            if not good:
                break
        if good:
            ctx.ok(kk, WH, R2 if k != "Measure" else R1)


# ------------------------------------------------------------- sampling from the final state
class SampleCase(ShotCase):
    def sample(self, f, a, t):
        self.kinds.add(f)
        v = a[0]
        idx = [i for i, x in enumerate(v) if abs(x) > 1e-9]
        if not idx:
            raise Unk("sampled state")
        d = self.depthof.get(t.a[3].a[0] if len(t.a) > 3 else None, 0)
        at = tuple(sorted(x for x in self.mod.pos.items() if x[0] < d))
        k = at[0][1] if at else 0
        if len(at) > 1:
            self.fine = True
        return (v, format(idx[k % len(idx)], "0%db" % self.n))


def sampled(ctx, B, mode):
    key = "from the final state, %s" % mode
    run = run_part(B, mkpart("Barrier", 2), mode, True, True)
    ms = main_loops(run)
    prepare_swaps(ctx, run)
    if not ms:
        ctx.und(key, WH, R6, "the loop over the instructions was not found")
        return
    it = run.it
    # nesting of the sampling calls
    depthof = {}

    def nest(log, d, seen):
        for e in log:
            if e.kind == "call" and isinstance(e.name, str) and "measureAll" in e.name and isinstance(e.res, T) and len(e.res.a) > 3:
                depthof[e.res.a[3].a[0]] = d
            if e.kind == "loop" and id(e.res) not in seen:
                seen.add(id(e.res))
                for x in e.res.ends:
                    nest(x.snap.log[len(e.res.head.log):], d + 1, seen)
    nres = 0
    for p in run.paths:
        if p.kind != "return":
            continue
        nest(p.snap.log, 0, set())
        mem, cnt, sh = field(it, p, ("data", "memory")), field(it, p, ("data", "counts")), field(it, p, ("shots",))
        if mem is None or cnt is None:
            ctx.und(key, WH, R5, "no memory or counts in the result")
            return
        nres += 1
        states, maps = {}, {}
        for m in ms:
            states[id(m.cur0)] = "state"
            for loc, (f, fh) in map_locs(run, m.rec).items():
                if isinstance(fh, T) and fh.op == "lv":
                    maps[id(fh)] = loc
        rels = sorted({t.a[1] for x in (mem, cnt) for t in subterms(x) if t.op in ("swapped", "swapmap")})
        from .b01 import situations
        n_ev = 0
        for n, qs, perm, reloc in situations("-", 0, bool(maps), 0, rels, ctx.thorough):
            for cfv in (((0, 1),), ((1, 0), (0, 2)), ((2, 2), (0, 0)), ((0, 1), (1, 1), (2, 0)), ((2, 1),)):
                for b, nc in (((5, 3, 6), NC), ((1, 2, 4), NC), ((6, 0, 5), NC), ((5, 3, 6), NC + 1), ((1, 2, 6), NC + 3)):
                    ns = 3
                    c = SampleCase(run, n, (), perm, reloc, "-", (), {}, None, [], cfv, nc, ns)
                    c.depthof, c.fine = depthof, False
                    c.psi = [1.0 if i in b else 0 for i in range(1 << n)]
                    mod = c.model(states, maps)
                    c.mod = mod
                    try:
                        g = mod.ev(mem)
                        cc = mod.ev(cnt)
                        s = mod.ev(sh)
                    except S.Bad as x:
                        ctx.bad(key, WH, R6, str(x))
                        return
                    except Err as x:
                        ctx.bad(key, WH, R6, "reading the sample fails: " + str(x)[:120])
                        return
                    # physical indices in the order the sampler numbers them
                    if not isinstance(g, list) or len(g) != ns or not all(isinstance(x, str) for x in g):
                        ctx.bad(key, WH, R5, "%d shots requested, memory is %s" % (ns, str(g)[:80]))
                        return
                    opts = []
                    for lb in sorted(b):
                        w = ["0"] * nc
                        for cb, q in cfv:
                            w[cb] = str((lb >> q) & 1)
                        opts.append("".join(reversed(w)))
                    n_ev += 1
                    if sorted(g) != sorted(opts):
                        why = "is drawn once for all shots" if len(set(g)) == 1 and len(set(opts)) > 1 else "reports %s for the states %s" % (
                            sorted(g), [format(x, "0%db" % n) for x in sorted(b)])
                        ctx.bad(key, WH, R6, "the sample %s (bit <- qubit: %s, map %s)" % (why, dict(cfv), list(perm)))
                        return
                    if c.fine:
                        ctx.bad(key, WH, R6, "bits of one shot come from different draws")
                        return
                    ref = {}
                    for x in g:
                        ref[x] = ref.get(x, 0) + 1
                    if cc != ref:
                        ctx.bad(key, WH, R5, "memory %s but counts %s" % (g, str(cc)[:80]))
                        return
                    if s != ns:
                        ctx.bad(key, WH, R5, "%s shots reported for %d" % (s, ns))
                        return
        ctx.count("samples evaluated", n_ev)
    if nres:
        ctx.ok(key, WH, R6)
        ctx.ok(key + ", list of shots", WH, R5)
    else:
        ctx.und(key, WH, R6, "no result")


def recorded(ctx, B, req):
    """which qubit each bit is recorded with, on every sequence of measurements (and gates between them)"""
    key = "recorded qubits" + ("" if req else ", measurements optional")
    it, paths = b07.setup(B, req)
    A = [b07.Inst("Measure", "measure", (q,), (c,)) for q in (0, 1) for c in (0, 1)]
    A += [b07.Inst("XGate", "x", (0,)), b07.Inst("CXGate", "cx", (0, 1)), b07.Inst("Barrier", "barrier", (0, 1))]
    n = 0
    for ln in range(1, 5 if ctx.thorough else 4):
        for circ in itertools.product(A, repeat=ln):
            meas = [i for i in circ if i.k == "Measure"]
            if not meas or b07.anew(circ):
                continue
            r = b07.classify(it, paths, circ)
            if r[0] != "prop" or not r[1]:
                continue
            n += 1
            want = {"C%d" % i.cs[0]: "Q%d" % i.qs[0] for i in meas}
            if r[2] != want:
                ctx.bad(key, WH, R7, "%s for %s" % (r[2], "; ".join(map(repr, circ))))
                return
    if n:
        ctx.ok(key, WH, R7)
    else:
        ctx.und(key, WH, R7, "no circuit is sampled from one final state")
    ctx.count("sequences of measurements", n)


def one(ctx, B, job):
    what, mode = job
    if what == "record":
        ctx.guard("recorded qubits", WH, R7, recorded, ctx, B, mode)
    elif what == "shot":
        ctx.guard("per shot, " + mode, WH, R1, per_shot, ctx, B, mode)
    else:
        ctx.guard("from the final state, " + mode, WH, R6, sampled, ctx, B, mode)


def check(ctx):
    B = Backend()
    ctx.explanation = ("one step of the loop per kind of instruction and the reading of the result, explored over every content of %d classical bits; "
                       "the sampling of the final state evaluated on small registers" % NC)
    ctx.guard("loop state", WH, R1, seed, ctx, B)
    ctx.spread(lambda c, j: one(c, B, j), [(w, m) for w in ("shot", "sample") for m in MODES] + [("record", True), ("record", False)])
    ctx.saw("QddBackend._evaluate_circuit")
    for n in B.swap_names:
        ctx.saw(n)
