"""Gate construction.  makeGate and makeTwoQubitGate are interpreted with makeMEdge/makeIdent
as constructors; each loop over levels is a step relation from an arbitrary iteration, so the
returned edge is a block tree whose leaves are matrix entries, valid for every register width.
Rules: a level without control repeats every cell on the diagonal of a new block; a level with
a control puts the cell where the control has its required value and the identity (diagonal
cells) or zero (off-diagonal cells) on the other side; target levels split by the matrix index
bit that belongs to that target.  makeLargeGate: the recursion's blocks for arbitrary ranges,
and the index permutation for every ordering of up to three targets (thorough: four) with a
symbolic matrix.  Wrappers (RX ... CSWAP): the operator they compose, on their named qubits."""
import itertools
from ..cxev import Interp, Ref, St, strip_t
from ..laurent import to_laurent
from ..terms import *
from .e02 import CONST, path_name
from ..model import find, Out

R1 = "levels below, between and above the targets only add identity or control blocks; target levels split by that target's index bit"
R2 = "a level with a control keeps the cell where the control has its required value and is the identity elsewhere"
R3 = "controls are visited in the order of their qubits"
R4 = "bit k of the matrix index belongs to targets[k]"
R5 = "levels that are no target repeat the block; target levels split rows and columns in halves, row half major"
R6 = "the wrapper applies its matrix to its own targets and controls"
R7 = "the caller's matrix is not changed"


class Unk(Exception):
    pass


def rec_w_n(t):
    if isT(t, "rec") and t.args[0] == "mEdge":
        d = dict(t.args[1])
        return d.get("w"), d.get("n")
    return None


def is_term(n):
    return isT(n) and (n.op == "addr" and "terminalNode" in show(n) or "mNode::terminal" in show(n))


def hv_cell(t):
    """(loop, key) when t is one havocked cell of edge type"""
    wn = rec_w_n(t)
    if wn:
        w, n = wn
        if isT(w, "hv") and isT(n, "hv") and w.args[0] is n.args[0]:
            return w.args[0], w
        return None
    if isT(t, "hv"):
        return t.args[0], t
    return None


def entry_index(t, g):
    """(r, c) when t is entry [r][c] / [i] of g, as a complex number"""
    d = pdict(t) if isT(t) and t.op != "rec" else {}
    idx = set()
    for m, c in d.items():
        if c != 1:
            return None
        for a, e in m:
            if a is I or e != 1:
                continue
            if a.op not in ("re", "im"):
                return None
            x = a.args[0]
            path = []
            while isT(x) and x.op in ("proj", "idx"):
                p = x.args[1]
                if isinstance(p, tuple):
                    if p[0] != "i":
                        return None
                    p = p[1]
                path.append(p if isT(p) else num(p))
                x = x.args[0]
            if x is not g:
                return None
            idx.add((tuple(reversed(path)), a.op))
    ks = {i for i, _ in idx}
    if len(ks) == 1 and len(d) == 2 and {o for _, o in idx} == {"re", "im"}:
        # re(x) + I*im(x)
        for m, c in d.items():
            hasI = any(a is I for a, _ in m)
            op = [a.op for a, _ in m if a is not I]
            if op != ["im" if hasI else "re"]:
                return None
        return next(iter(ks))
    return None


class Tree:
    def __init__(self, it, g, ctl, qn):
        self.it, self.g, self.ctl, self.qn = it, g, ctl, qn
        self.byloop = {}
        for l in it.loops:
            self.byloop[l.lid] = l
        self.cells = {}          # lid -> {head w-term: (head, entry, [step])}
        self.zsub = {}
        for l in it.loops:
            self.cells[l.lid] = self.find_cells(l)

    # cells of a loop: parallel walk of head / entry / steps
    def find_cells(self, l):
        out = {}
        if l.entry is None or l.head is None:
            return out
        steps = [s for t, v, s in l.steps if t in ("cont", "next", "ok", "fall", None) or t not in ("ret", "throw", "break")]
        for k, h in l.head.env.items():
            if not isinstance(h, T):
                continue
            en = l.entry.env.get(k)
            ss = [s.env.get(k) for s in steps]
            if en is None or any(x is None for x in ss):
                continue
            if all(x is h for x in ss):
                continue
            self.walk(h, en, ss, out)
        return out

    def walk(self, h, en, ss, out):
        c = hv_cell(h)
        if c is not None:
            out[c[1]] = (h, en, ss)
            return
        if isT(h) and h.op in ("arr", "vec"):
            if not (isT(en) and en.op == h.op and len(en.args[0]) == len(h.args[0])):
                return
            if not all(isT(x) and x.op == h.op and len(x.args[0]) == len(h.args[0]) for x in ss):
                return
            for j in range(len(h.args[0])):
                self.walk(h.args[0][j], en.args[0][j], [x.args[0][j] for x in ss], out)
            return
        if isT(h, "rec") and isT(en, "rec") and all(isT(x, "rec") for x in ss):
            for (n, x) in h.args[1]:
                self.walk(x, dict(en.args[1]).get(n), [dict(y.args[1]).get(n) for y in ss], out)

    # ---- level loops
    def level_loop(self, lid):
        """dict(z, z0, bound, it, it0, cells, steps)"""
        l = self.byloop.get(lid)
        if l is None:
            raise Unk(f"value of an unknown loop {lid}")
        if getattr(l, "_lv", None) is not None:
            return l._lv
        zs, its, cells = [], [], []
        for key, (h, en, ss) in self.cells[lid].items():
            if all(self.is_edge(x) for x in ss):
                cells.append((h, en, ss))
            elif all(x is padd(h, ONE) for x in ss):
                zs.append((h, en))
            elif all(x is h or isT(x, "itnext") and x.args[0] is h for x in ss):
                its.append((h, en))
            else:
                raise Unk(f"loop at line {l.line} changes something that is neither level, cell nor control position")
        if len(zs) != 1 or len(its) > 1:
            raise Unk(f"loop at line {l.line} is not a loop over levels")
        z, z0 = zs[0]
        steps = [s for _, _, s in l.steps]
        bound = None
        hf = set(l.head.facts.lits)
        b = None
        for s in steps:
            bs = {self.bound_of(f, v, z) for f, v in s.facts.order if f not in hf} - {None}
            if not bs:
                raise Unk(f"loop at line {l.line} has no bound on the level")
            b = bs if b is None else b & bs      # what only some steps ask is no bound
        if not b or len(b) != 1:
            raise Unk(f"loop at line {l.line} has several bounds")
        l._lv = dict(l=l, z=z, z0=z0, bound=next(iter(b)), it=its[0] if its else None, cells=cells, steps=steps)
        self.zsub[z] = l._lv["bound"]
        return l._lv

    @staticmethod
    def bound_of(f, v, z):
        if f.op == "lt" and v or f.op == "le" and not v or f.op == "le" and v:
            p = f.args[0]
            d = pdict(p)
            if f.op == "lt" and v or f.op == "le" and v:
                # p < 0: z - b < 0
                if d.get(((z, 1),)) == 1:
                    b = psub(z, p)
                    return b if f.op == "lt" else padd(b, ONE)
            else:
                # not p <= 0: b - z > 0
                if d.get(((z, 1),)) == -1:
                    return padd(z, p)
        if f.op == "eq0" and not v:
            d = pdict(f.args[0])
            if d.get(((z, 1),)) == 1:
                return psub(z, f.args[0])
            if d.get(((z, 1),)) == -1:
                return padd(z, f.args[0])
        if f.op == "eq" and not v and z in f.args:
            b = f.args[0] if f.args[1] is z else f.args[1]
            return None if any(x.op == "deref" for x in atoms(b)) else b
        return None

    def is_edge(self, x):
        return rec_w_n(x) is not None or isT(x, "call") and x.args[0] in ("makeMEdge", "makeIdent") or isT(x, "hv")

    def lvl(self, t):
        return subst(t, lambda a: self.zsub.get(a))

    def norm_bound(self, t):
        for _ in range(8):
            n = self.lvl(t)
            if n is t:
                return t
            t = n
        return t

    # ---- denotation
    def den(self, t):
        wn = rec_w_n(t)
        if isT(t, "call") and t.args[0] == "makeMEdge":
            c = t.args[2]
            if not (isT(c, "arr") and len(c.args[0]) == 4):
                raise Unk("children of makeMEdge are not a list of four")
            ds = tuple(self.den(x) for x in c.args[0])
            if ds == (("I",), ("Z",), ("Z",), ("I",)):
                return ("I",)
            return ("B", self.norm_bound(t.args[1]), ds)
        if isT(t, "call") and t.args[0] == "makeIdent":
            return ("I",)
        hc = hv_cell(t)
        if hc is not None:
            lv = self.level_loop(hc[0])
            cell = self.cells[hc[0]].get(hc[1])
            if cell is None:
                raise Unk("cell of a loop not found")
            inner = self.den(cell[1])
            a, b = self.norm_bound(lv["z0"]), self.norm_bound(lv["bound"])
            if inner[0] == "L" and inner[2] is a:
                return ("L", inner[1], b, inner[3])
            return ("L", a, b, inner)
        if wn:
            w, n = wn
            if w is ZERO:
                return ("Z",)
            if is_term(n):
                if w is ONE:
                    return ("I",)
                e = entry_index(w, self.g)
                if e is not None:
                    e = tuple(cint(x) for x in e)
                    if None in e:
                        raise Unk("matrix entry index is not constant")
                    if len(e) == 1:
                        e = divmod(e[0], 2)
                    return ("E",) + tuple(e)
        raise Unk("edge outside the rule: " + show(t)[:200])


def diag(d):
    if d[0] == "I":
        return True
    if d[0] == "Z":
        return False
    if d[0] == "E":
        return d[1] == d[2]
    if d[0] == "B":
        return diag(d[2][0])
    if d[0] == "L":
        return diag(d[3])


def shd(d):
    if d[0] == "E":
        return f"g[{d[1]}][{d[2]}]"
    if d[0] == "B":
        return f"block({show(d[1])[:40]}; {', '.join(shd(x) for x in d[2])})"
    if d[0] == "L":
        return f"levels[{show(d[1])[:30]}..{show(d[2])[:30]})({shd(d[3])})"
    return d[0]


def L(a, b, d):
    return d if a is b else ("L", a, b, d)


def spec1(q, t):
    return L(padd(t, ONE), q, ("B", t, tuple(L(ZERO, t, ("E", i, j)) for i in (0, 1) for j in (0, 1))))


def spec2(q, t0, t1, t0_larger):
    lo, hi = (t1, t0) if t0_larger else (t0, t1)

    def ent(hr, hc, lr, lc):
        # index = (bit of target0) * 2?  decided by the convention: see below
        if t0_larger:
            r, c = 2 * hr + lr, 2 * hc + lc
        else:
            r, c = 2 * lr + hr, 2 * lc + hc
        return ("E", r, c)
    outer = []
    for hr in (0, 1):
        for hc in (0, 1):
            inner = tuple(L(ZERO, lo, ent(hr, hc, lr, lc)) for lr in (0, 1) for lc in (0, 1))
            outer.append(L(padd(lo, ONE), hi, ("B", lo, inner)))
    return L(padd(hi, ONE), q, ("B", hi, tuple(outer)))


def eq_den(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "B":
        return a[1] is b[1] and all(eq_den(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "L":
        return a[1] is b[1] and a[2] is b[2] and eq_den(a[3], b[3])
    return a == b


def fit(have, want):
    """normalise 'have' against empty level ranges present in the specification's shape"""
    if have[0] == "L" and have[1] is have[2]:
        return fit(have[3], want)
    if have[0] == "L" and want[0] == "L":
        return ("L", have[1], have[2], fit(have[3], want[3]))
    if have[0] == "B" and want[0] == "B":
        return ("B", have[1], tuple(fit(x, y) for x, y in zip(have[2], want[2])))
    return have


def mentions(t, xs):
    if t in xs:
        return True
    return any(x in xs for x in atoms(t))


def step_check(ctx, T_, lv, fn, where, valid=()):
    """every step path of a level loop lifts every cell by the rule"""
    l, z = lv["l"], lv["z"]
    C = T_.ctl
    bound = lv["bound"]

    def is_bound(f, v):
        return Tree.bound_of(f, v, z) is bound

    def wrong(key, s, extra, bools, rule, msg):
        """a deviation on a path with conditions of its own counts when some register and position meets them"""
        if not extra:
            return ctx.bad(key, where, rule, msg)
        # level counters of earlier loops ended at their bounds
        past = {h: b for h, b in T_.zsub.items() if h is not z}

        def end(t):
            for _ in range(4):
                t = subst(t, lambda x: past.get(x))
            return t
        lits = [(end(f), v) for f, v in s.facts.order]
        ints = {}
        bd, z0 = end(bound), end(lv["z0"])
        vals = set(range(0, 6))
        for f, _ in lits:
            for p in ([f.args[0]] if f.op in ("lt", "le", "eq0") else []) + ([f.args[0].args[0]] if f.op == "not" and f.args[0].op in ("lt", "le", "eq0") else []):
                c = abs(int(pdict(p).get((), 0)))
                if c < 1000:
                    vals |= set(range(max(c - 1, 0), c + 4))
        vals = sorted(vals)
        for f in [f for f, _ in lits] + [bd, z0]:
            for a in atoms(f) | {f}:
                if a.op in ("sym", "hv") and a not in bools and (a is z or a is T_.q or a in T_.targets):
                    ints[a] = vals
        ints.setdefault(z, vals)
        ints.setdefault(T_.q, vals)
        dom = dict(ints)
        dom.update({b: (0, 1) for b in bools})
        inside = [(blt(a, T_.q), True) for a in ints if a is not T_.q] + [(blt(z, bd), True), (blt(z, z0), False)] + list(valid)
        try:
            ex = find(lits + inside, dom)
        except Out as x:
            return ctx.und(key, where, rule, "condition on the controls outside the rule: " + str(x)[:160])
        if ex is None:
            return ctx.ok(key, where, rule)
        ctx.bad(key, where, rule, msg + " (" + ", ".join(f"{show(a)[-30:]} = {n}" for a, n in ex.items() if a in ints) + ")")
    hf = set(l.head.facts.lits)
    itc = lv["it"][0] if lv["it"] else None
    consulted = False
    types = set()
    for n, s in enumerate(lv["steps"]):
        fs = [(f, v) for f, v in s.facts.order if f not in hf]
        rest = [(f, v) for f, v in fs if not is_bound(f, v)]
        key = f"{fn}:levels at line {l.line} [{path_name(s)[-160:]}]"
        if itc is None:
            stuck = [f for f, v in rest if v and f.op == "eq" and z in f.args and any(a.op == "itptr" for a in atoms(f))]
            if stuck:
                consulted = True
                ctx.bad(key, where, R3, "a control position is compared with every level but never advances past its qubit: " + show(stuck[0])[:160])
                continue
            extra, bools = [f for f, v in rest], set()
            if any(mentions(f, {C}) for f in extra):
                consulted = True
                ctx.und(key, where, R2, "levels depend on a condition outside the rule: " + show(rest[0][0])[:160])
                continue
            case = "none"
        else:
            P = mk("deref", mk("itptr", itc))
            fx = s.facts
            qz = q_of(T_, s, itc)
            end = fx.decide(beq(itc, mk("itend", C)))
            here = fx.decide(beq(z, qz)) if qz is not None else None
            ty = t_of(T_, s, itc)
            neg = fx.decide(beq(ty, ZERO))
            if neg is None:
                pos = fx.decide(beq(ty, ONE))
                neg = None if pos is None else not pos
            known = {beq(itc, mk("itend", C)), beq(z, qz), beq(ty, ZERO), beq(ty, ONE)}
            known |= {x.args[0] for x in known if x.op == "not"}
            extra = [f for f, v in rest if f not in known]
            bools = known
            if end is True or here is False:
                case = "none"
                consulted = True
            elif here is True and end is False:
                consulted = True
                case = "neg" if neg is True else "pos" if neg is False else "any"
                types.add(case)
            elif here is True and end is None:
                wrong(key, s, extra, bools, R2, "the control position is used without comparing it with the end")
                continue
            else:
                case = "none?"
                if extra and end is None and here is None:
                    wrong(key, s, extra, bools, R2, "a level is built without looking whether a control sits on it")
                    continue
        adv = None
        if itc is not None:
            x = [ss[n] for k, (h, en, ss) in T_.cells[l.lid].items() if h is itc][0]
            adv = x is not itc
            if case in ("none", "none?") and adv:
                wrong(key, s, extra, bools, R2, "the control position advances at a level that is not its qubit")
                continue
            if case in ("pos", "neg", "any") and not adv:
                wrong(key, s, extra, bools, R2, "the control position stays after its qubit's level: later controls are never reached")
                continue
        if case == "any":
            wrong(key, s, extra, bools, R2, "a control of either type is treated the same")
            continue
        for h, en, ss in lv["cells"]:
            v = ss[n]
            try:
                dg = diag(T_.den(en))
                got = T_.den_step(v, h, lv)
            except Unk as x:
                ctx.und(key, where, R2, str(x))
                break
            off = ("I",) if dg else ("Z",)
            want = {"none": (("X",), ("Z",), ("Z",), ("X",)), "none?": (("X",), ("Z",), ("Z",), ("X",)),
                    "pos": (off, ("Z",), ("Z",), ("X",)), "neg": (("X",), ("Z",), ("Z",), off)}[case]
            if got[0] != "B" or s.facts.decide(beq(got[1], z)) is not True or got[2] != want:
                what = {"none": "no control", "none?": "no control", "pos": "positive control", "neg": "negative control"}[case]
                wrong(key, s, extra, bools, R2, f"cell {show(h)[-60:]} at a level with {what} becomes {shd(got)[:200]}, expected block(level; {', '.join(shd(x) for x in want)})")
                break
        else:
            ctx.ok(key, where, R2)
    return consulted


def q_of(T_, s, itc):
    return ctl_field(T_, s, itc, "qubit")


def t_of(T_, s, itc):
    return ctl_field(T_, s, itc, "type")


def ctl_field(T_, s, itc, name):
    P = mk("deref", mk("itptr", itc))
    for f in list(s.facts.lits):
        for a in atoms(f) | {f}:
            if isT(a, "proj") and a.args[1][0] == "f" and a.args[1][1] == name and a.args[0] is P:
                return a
    return T_.it.proj(s, P, ("f", name, "Control"))


def den_step(self, v, h, lv):
    """one step's value of a cell: the cell itself is X"""
    if v is h or hv_cell(v) is not None and hv_cell(v) == hv_cell(h):
        return ("X",)
    if isT(v, "call") and v.args[0] == "makeMEdge":
        c = v.args[2]
        if isT(c, "arr") and len(c.args[0]) == 4:
            return ("B", v.args[1], tuple(self.den_step(x, h, lv) for x in c.args[0]))
        raise Unk("children of makeMEdge are not a list of four")
    if isT(v, "call") and v.args[0] == "makeIdent":
        return ("I",)
    hc = hv_cell(v)
    if hc is not None:
        if hc[0] == lv["l"].lid:
            return ("other cell",)
        return self.den(v)
    wn = rec_w_n(v)
    if wn:
        if wn[0] is ZERO:
            return ("Z",)
        if wn[0] is ONE and is_term(wn[1]):
            return ("I",)
    raise Unk("edge outside the rule: " + show(v)[:160])


Tree.den_step = den_step


def edge_ops(fd):
    return fd["name"] in ("makeMEdge", "makeIdent")


def loc(f):
    return f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']}"


def check_build(ctx, U, name, nps, two):
    it = Interp(U, opaque=edge_ops, const_globals=CONST)
    it.no_merge = True
    fs = [f for f in it.by_qn.get(name, []) if len(f["ps"]) == nps]
    if not fs:
        ctx.und(name, "src/dd.cpp", R1, f"{name} with {nps} parameters not found")
        return
    f = fs[0]
    where = loc(f)
    ctx.saw(where)
    args = [sym(p["n"]) for p in f["ps"]]
    q, g, ctl = args[0], args[1], args[-1]
    st = St()
    tg = args[2:-1]
    if two:
        st.facts.assume(beq(tg[0], tg[1]), False)
    it.loops.clear()
    rs = it.run(f, args, st=st)
    done = set()
    any_control = False
    lids = set()
    und = False
    for tag, v, s in rs:
        if two:
            lt01 = s.facts.decide(blt(tg[0], tg[1]))
            lt10 = s.facts.decide(blt(tg[1], tg[0]))
            if lt01 is False and lt10 is False:
                continue     # equal targets: not a gate
            t0_larger = lt01 is False or lt10 is True
            if lt01 is None and lt10 is None:
                key = f"{name}: order of the targets"
                und = True
                ctx.und(key, where, R1, "the path does not settle which target is larger")
                continue
        key = f"{name} [{path_name(s)[:120]}]"
        if tag == "throw":
            ctx.bad(key, where, R1, "throws on valid arguments") if not s.facts.order else ctx.und(key, where, R1, "throws on a condition")
            continue
        T_ = Tree(it, g, ctl, q)
        T_.q, T_.targets = q, set(tg)
        try:
            have = T_.den(v)
            # loop bounds expressed by std::min/std::max
            want = spec2(q, tg[0], tg[1], t0_larger) if two else spec1(q, tg[0])
        except Unk as x:
            und = True
            ctx.und(key, where, R1, str(x))
            continue
        h = fit(have, want)
        ctx.check(eq_den(h, want), key, where, R1, f"builds {shd(h)[:700]}, expected {shd(want)[:700]}")
        # iterator chain
        chain = []
        for lid in used_loops(T_, v):
            lv = T_.level_loop(lid)
            if lid not in done:
                done.add(lid)
                any_control |= bool(step_check(ctx, T_, lv, name, where, [(beq(tg[0], tg[1]), False)] if two else []))
            if lv["it"]:
                chain.append((lid, lv["it"]))
        heads = {h0: lid for lid, (h0, e0) in chain}
        for lid, (h0, e0) in chain:
            ok = e0 is mk("itbegin", ctl) or e0 in heads
            ctx.check(True if ok else None if isT(e0, "hv") else False, f"{name}:control position at loop line {T_.byloop[lid].line}", where, R3,
                      f"starts at {show(e0)[:120]}")
        nb = sum(1 for _, (h0, e0) in chain if e0 is mk("itbegin", ctl))
        if chain and nb > 1:
            ctx.bad(f"{name}:control position restarts", where, R3, "two level loops both start at the first control: a control passed below is met again above its qubit")
        # loops in one chain must all consult the controls
        for lid in used_loops(T_, v):
            lv, ln = T_.level_loop(lid), T_.byloop[lid].line
            hf = set(lv["l"].head.facts.lits)
            free = any(mentions(x, {ctl}) for _, _, ss in lv["cells"] for x in ss) or \
                any(f not in hf and Tree.bound_of(f, b, lv["z"]) is not lv["bound"] for s2 in lv["steps"] for f, b in s2.facts.order)
            if lv["it"] or free:
                continue
            ctx.bad(f"{name}:levels at line {ln} ignore the controls", where, R2, "no step of the loop over these levels consults the controls")
    return


def used_loops(T_, v):
    out = []
    todo = [v]
    seen = set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        hc = hv_cell(t) if isT(t) else None
        if hc is not None:
            if hc[0] not in out:
                out.append(hc[0])
            c = T_.cells[hc[0]].get(hc[1])
            if c:
                todo.append(c[1])
            continue
        if isT(t, "call") and t.args[0] == "makeMEdge" and isT(t.args[2], "arr"):
            todo += list(t.args[2].args[0])
    return out


def check_default(ctx, U, name, n_short, n_long):
    """the overload without controls is the one with none"""
    it = Interp(U, opaque=lambda fd: fd["name"] == name and len(fd["ps"]) == n_long or edge_ops(fd), const_globals=CONST)
    fs = [f for f in it.by_qn.get(name, []) if len(f["ps"]) == n_short]
    for f in fs:
        ctx.saw(loc(f))
        a = [sym(p["n"]) for p in f["ps"]]
        for tag, v, s in it.run(f, a):
            key = f"{name} without controls"
            if not (isT(v, "call") and v.args[0] == name):
                ctx.und(key, loc(f), R6, show(v)[:160])
                continue
            got = v.args[1:-1]
            ctl = got[-1] if len(got) == n_long else None
            empty = ctl is None or ctl is mk("emptymap") or show(ctl) in ("emptymap()", "set()", "Controls{}")
            if tuple(got[:len(a)]) == tuple(a):
                ctx.check(True if empty else None, key, loc(f), R6, "controls: " + show(ctl)[:100] if ctl is not None else "")
            else:
                ctx.bad(key, loc(f), R6, "forwards " + show(v)[:200])


def comparator(ctx, U):
    it = Interp(U, const_globals=CONST)
    fs = [f for f in it.by_qn.get("ControlComparator::operator()", []) if f.get("body") and [strip_t(p["t"]) for p in f["ps"]] == ["Control", "Control"]]
    if not fs:
        ctx.und("ControlComparator", "include/dd.h", R3, "not found")
        return
    f = fs[0]
    ctx.saw(loc(f))
    a, b = sym("a"), sym("b")
    ra = it.mkrec("Control", (("qubit", mk("q", a)), ("type", mk("t", a))))
    rb = it.mkrec("Control", (("qubit", mk("q", b)), ("type", mk("t", b))))
    for assume, want in ((blt(mk("q", a), mk("q", b)), True), (blt(mk("q", b), mk("q", a)), False)):
        st = St()
        st.facts.assume(assume, True)
        st.facts.assume(beq(mk("q", a), mk("q", b)), False)
        for tag, v, s in it.run(f, [ra, rb], st=st):
            r = s.facts.decide(it.as_bool(v))
            ctx.check(None if r is None else r is want, f"ControlComparator [{show(assume)}]", loc(f), R3,
                      f"says {r} when the first control's qubit is {'smaller' if want else 'larger'}")


# ------------------------------------------------------------------ makeLargeGate
def strip_after(t, g):
    def f(a):
        if a.op == "after" and a.args[0] == "makeLargeGate":
            return g
        return None
    return subst(t, f)


def large_rec(ctx, U):
    it = Interp(U, opaque=lambda fd: edge_ops(fd) or fd["name"] == "makeLargeGate" and len(fd["ps"]) == 8, const_globals=CONST)
    it.no_merge = True
    fs = [f for f in it.by_qn.get("makeLargeGate", []) if len(f["ps"]) == 8]
    if not fs:
        ctx.und("makeLargeGate recursion", "src/dd.cpp", R5, "not found")
        return
    f = fs[0]
    where = loc(f)
    ctx.saw(where)
    a = [sym(p["n"]) for p in f["ps"]]
    g, lvl, rs, re_, cs, ce, skip, tmin = a
    half = lambda x, y: mk("idiv", padd(x, y), num(2))
    rm, cm = half(rs, re_), half(cs, ce)

    def canon(t):
        # (a+b)/2 == a + (b-a)/2 on the ranges that occur (differences are powers of two)
        def fn(x):
            if x.op == "idiv" and x.args[1] is num(2):
                for lo, hi in ((rs, re_), (cs, ce)):
                    if x.args[0] is psub(hi, lo):
                        return psub(half(lo, hi), lo)
            if x.op in ("shr", "rshift") and x.args[1] is ONE:
                return fn(mk("idiv", x.args[0], num(2))) or mk("idiv", x.args[0], num(2))
            return None
        return subst(t, fn)

    def calls(t):
        t = canon(strip_after(t, g))
        if isT(t, "call") and t.args[0] == "makeLargeGate":
            return t.args[1:-1]
        return None
    it.loops.clear()
    st = St()
    G = ("v", "large_g", 0)
    st.env[G] = g
    for tag, v, s in it.run(f, [Ref((G, ()))] + a[1:], st=st):
        key = f"makeLargeGate recursion [{path_name(s)[:120]}]"
        if tag != "ret":
            continue
        base = s.facts.decide(beq(lvl, tmin))
        sk = s.facts.decide(mk("idx", skip, lvl))
        if not (isT(v, "call") and v.args[0] == "makeMEdge" and isT(v.args[2], "arr") and len(v.args[2].args[0]) == 4):
            ctx.und(key, where, R5, "result is not one block: " + show(v)[:160])
            continue
        ch = v.args[2].args[0]
        if base is True:
            ok = s.facts.decide(beq(v.args[1], tmin)) is True or v.args[1] in (tmin, lvl)
            want = [(rs, cs), (rs, padd(cs, ONE)), (padd(rs, ONE), cs), (padd(rs, ONE), padd(cs, ONE))]
            for c, w in zip(ch, want):
                wn = rec_w_n(c)
                e = entry_index(wn[0], g) if wn and is_term(wn[1]) else None
                ok = ok and e is not None and tuple(e) == w
            ctx.check(ok, key, where, R5, "lowest target's block is " + show(v)[:300])
        elif base is False and sk is True:
            c0, c3 = calls(ch[0]), calls(ch[3])
            z = all(rec_w_n(ch[j]) and rec_w_n(ch[j])[0] is ZERO for j in (1, 2))
            want = (g, psub(lvl, ONE), rs, re_, cs, ce, skip, tmin)
            ctx.check(v.args[1] is lvl and c0 == want and c3 == want and bool(z), key, where, R5, "level without target becomes " + show(v)[:300])
        elif base is False and sk is False:
            want = [(rs, rm, cs, cm), (rs, rm, cm, ce), (rm, re_, cs, cm), (rm, re_, cm, ce)]
            got = [calls(c) for c in ch]
            if None in got:
                ctx.und(key, where, R5, "a quadrant is not a recursive call")
                continue
            ok = v.args[1] is lvl and all(x == (g, psub(lvl, ONE)) + w + (skip, tmin) for x, w in zip(got, want))
            if not ok and any("idiv" in show(y) or "(" in show(y) for x in got for y in x[2:6]) and \
                    not all(y in (rs, re_, cs, ce, rm, cm) for x in got for y in x[2:6]):
                ctx.und(key, where, R5, "range ends outside the rule: " + "; ".join(",".join(show(y) for y in x[2:6]) for x in got)[:300])
            else:
                ctx.check(ok, key, where, R5, "quadrants are " + "; ".join(",".join(show(y) for y in x[1:6]) for x in got)[:400])
        else:
            ctx.und(key, where, R5, "path decides neither the lowest target nor the skip flag")
        ctx.check(strip_after(it.root_get(s, G), g) is g, key + ":g", where, R7, "writes the matrix")


def large_top(ctx, U):
    fresh = lambda: Interp(U, opaque=lambda fd: edge_ops(fd) or fd["name"] == "makeLargeGate" and len(fd["ps"]) == 8, const_globals=CONST)
    it = fresh()
    fs = [f for f in it.by_qn.get("makeLargeGate", []) if len(f["ps"]) == 3]
    if not fs:
        ctx.und("makeLargeGate", "src/dd.cpp", R4, "not found")
        return
    f = fs[0]
    where = loc(f)
    ctx.saw(where)
    vec = lambda xs: mk("vec", tuple(xs))
    for k in range(1, 6):
        q = 6 if k < 5 else 8
        every = itertools.permutations((1, 3, 4, 5)[:k] if k < 5 else (0, 2, 3, 5, 7))
        if k > 4 and not ctx.thorough:      # some of the orders, first and last among them
            every = list(every)
            every = every[:1] + every[3::29] + every[-1:]
        for tg in every:
            key = f"makeLargeGate targets {tg}"
            N = 2 ** k
            it = fresh()
            it.no_merge = True
            st = St()
            g = vec([vec([mk("m", num(i), num(j)) for j in range(N)]) for i in range(N)])
            R, Q = ("v", "large_g", 0), ("v", "large_t", 0)
            st.env[R], st.env[Q] = g, vec([num(x) for x in tg])

            def body():
                for tag, v, s in it.run(f, [num(q), Ref((R, ())), Ref((Q, ()))], st=st):
                    if tag != "ret":
                        ctx.bad(key, where, R4, f"refuses a matrix of size {N} for {k} targets" + "; " + path_name(s)[:200]) if not s.facts.order \
                            else ctx.und(key, where, R4, "throws on a condition")
                        continue
                    if not (isT(v, "call") and v.args[0] == "makeLargeGate"):
                        ctx.und(key, where, R4, "result is " + show(v)[:160])
                        continue
                    gs, lvl, r0, r1, c0, c1, sk, tm = v.args[1:-1]
                    srt = sorted(tg)
                    pos = [tg.index(x) for x in srt]        # bit j of the sorted index is bit pos[j] of the matrix index
                    conv = [sum(1 << pos[j] for j in range(k) if i >> j & 1) for i in range(N)]
                    want = vec([vec([mk("m", num(conv[i]), num(conv[j])) for j in range(N)]) for i in range(N)])
                    wsk = vec([boolc(x not in tg) for x in range(q)])
                    full = all(isT(x, "vec") for x in (gs, sk)) and all(isT(x, "vec") for x in gs.args[0])
                    if not full:
                        ctx.und(key, where, R4, "matrix or flags are not fully computed")
                        continue
                    okp = (lvl, r0, r1, c0, c1, tm) == (num(q - 1), ZERO, num(N), ZERO, num(N), num(min(tg)))
                    msg = ""
                    if gs is not want:
                        msg = "block order differs: row 1 is " + show(gs.args[0][1])[:160] + ", expected " + show(want.args[0][1])[:160]
                    elif vec(sk.args[0][:q]) is not wsk:      # flags above the register are never read
                        msg = "target flags are " + show(sk)[:160]
                    elif not okp:
                        msg = "starts with " + ", ".join(show(x)[:20] for x in (lvl, r0, r1, c0, c1, tm))
                    ctx.check(not msg, key, where, R4, msg)
                    ctx.check(it.root_get(s, R) is g, key + ":g", where, R7, "the matrix passed in is changed")
            ctx.guard(key, where, R4, body)
    # default targets
    q = 6
    fd = [f for f in it.by_qn.get("makeLargeGate", []) if len(f["ps"]) == 2]
    it2 = Interp(U, opaque=lambda fd: edge_ops(fd) or fd["name"] == "makeLargeGate" and len(fd["ps"]) == 3, const_globals=CONST)
    for f in fd:
        ctx.saw(loc(f))
        for k in (1, 2, 3, 4, 5):
            N = 2 ** k
            st = St()
            g = vec([vec([mk("m", num(i), num(j)) for j in range(N)]) for i in range(N)])
            R = ("v", "large_g", 0)
            st.env[R] = g

            def body2():
                for tag, v, s in it2.run(f, [num(q), Ref((R, ()))], st=st):
                    want = vec([num(i) for i in range(k)])
                    key = f"makeLargeGate without targets, size {N}"
                    if tag != "ret" or not isT(v, "call") or not isT(v.args[3], "vec"):
                        ctx.und(key, loc(f), R4, show(v)[:160] if isT(v) else tag)
                        continue
                    ctx.check(v.args[3] is want, key, loc(f), R4, "targets " + show(v.args[3])[:100])
            ctx.guard(f"makeLargeGate without targets, size {N}", loc(f), R4, body2)


# ------------------------------------------------------------------ wrappers
def mmul(a, b):
    n = len(a)
    return [[sum_([pmul(a[i][k], b[k][j]) for k in range(n)]) for j in range(n)] for i in range(n)]


def sum_(xs):
    r = ZERO
    for x in xs:
        r = padd(r, x)
    return r


def embed(m, ts, ctls, n):
    """matrix index bit k of m belongs to qubit ts[k] (list), controls [(bit, value)]"""
    N = 1 << n
    out = [[ZERO] * N for _ in range(N)]
    for i in range(N):
        if any((i >> b & 1) != v for b, v in ctls):
            out[i][i] = ONE
            continue
        ri = sum((i >> t & 1) << k for k, t in enumerate(ts))
        base = i
        for t in ts:
            base &= ~(1 << t)
        for c in range(1 << len(ts)):
            j = base | sum((c >> k & 1) << t for k, t in enumerate(ts))
            out[i][j] = m[ri][c]
    return out


WR = {  # name: (targets parameter names, control names, matrix maker | literal)
    "RX": (["target"], [], "rx"), "RY": (["target"], [], "ry"), "RZ": (["target"], [], "rz"),
    "CX": (["target"], ["control"], "X"), "SWAP": (["target0", "target1"], [], "SW"), "makeSwap": (["target0", "target1"], [], "SW"),
    "RXX": (["target0", "target1"], [], "rxx_matrix"), "RYY": (["target0", "target1"], [], "ryy_matrix"),
    "RZZ": (["target0", "target1"], [], "rzz_matrix"), "RZX": (["target0", "target1"], [], "rzx_matrix"),
    "ISWAP": (["target0", "target1"], [], "iswap_matrix"), "CSWAP": (["target0", "target1"], ["control"], "SW"),
}
SW = [[ONE, ZERO, ZERO, ZERO], [ZERO, ZERO, ONE, ZERO], [ZERO, ONE, ZERO, ZERO], [ZERO, ZERO, ZERO, ONE]]
XM = [[ZERO, ONE], [ONE, ZERO]]


def mat_of(t):
    if not isT(t, "arr"):
        return None
    xs = t.args[0]
    if len(xs) == 4 and all(isT(x, "arr") for x in xs):
        return [list(x.args[0]) for x in xs]
    if len(xs) == 4:
        return [[xs[0], xs[1]], [xs[2], xs[3]]]
    return None


def ctl_of(t, names):
    """[(bit, value)] of a control set term"""
    out = []
    while True:
        if t is mk("emptymap") or isT(t) and show(t) in ("emptymap()", "Controls{}", "set()"):
            return out
        if isT(t, "setins"):
            c = t.args[1]
            while isT(c, "rec"):
                d = dict(c.args[1])
                if isT(d.get("qubit"), "rec"):
                    c = d["qubit"]
                    continue
                break
            if not isT(c, "rec"):
                return None
            d = dict(c.args[1])
            b, v = names.get(d["qubit"]), cint(d["type"])
            if b is None or v is None:
                return None
            out.append((b, v))
            t = t.args[0]
            continue
        return None


def op_of(t, q, names, n):
    if isT(t, "call") and t.args[0] == "mm_multiply":
        a, b = op_of(t.args[1], q, names, n), op_of(t.args[2], q, names, n)
        return mmul(a, b)
    if isT(t, "call") and t.args[0] in ("makeGate", "makeTwoQubitGate"):
        two = t.args[0] == "makeTwoQubitGate"
        a = t.args[1:-1]
        if a[0] is not q:
            raise Unk("register width is not the one passed in")
        m = mat_of(a[1])
        ts = a[2:4] if two else a[2:3]
        rest = a[4:] if two else a[3:]
        if m is None or any(x not in names for x in ts):
            raise Unk("matrix or target outside the rule: " + show(t)[:160])
        cs = ctl_of(rest[0], names) if rest else []
        if cs is None:
            raise Unk("controls outside the rule: " + show(rest[0])[:160])
        bits = [names[x] for x in ts]
        if two:
            # makeTwoQubitGate: target0 is the high bit of the index
            bits = [bits[1], bits[0]]
        return embed(m, bits, cs, n)
    raise Unk("operator outside the rule: " + show(t)[:160])


def wrappers(ctx, U):
    it = Interp(U, opaque=lambda fd: fd["name"] in ("makeGate", "makeTwoQubitGate", "mm_multiply"), const_globals=CONST)
    for name, (ts, cs, m) in WR.items():
        for f in it.by_qn.get(name, []):
            if not f.get("body"):
                continue
            where = loc(f)
            ctx.saw(where)

            def body():
                ps = [p["n"] for p in f["ps"]]
                # by position: (qnum, targets..., control..., angle)
                args = [sym(p) for p in ps]
                names = {}
                for k in range(len(ts) + len(cs)):
                    names[args[1 + k]] = k
                n = len(ts) + len(cs)
                if m == "SW":
                    M = SW
                elif m == "X":
                    M = XM
                else:
                    mf = it.by_qn.get(m, [])
                    if not mf:
                        raise Unk("matrix function " + m + " not found")
                    r = it.run(mf[0], [args[-1]] if mf[0]["ps"] else [])
                    M = mat_of(r[0][1])
                    if M is None:
                        raise Unk("matrix of " + m)
                bits = [1, 0] if len(ts) == 2 else [0]
                want = embed(M, bits, [(len(ts) + j, 1) for j in range(len(cs))], n)
                for tag, v, s in it.run(f, args):
                    key = f"{name}({', '.join(ps)})"
                    if tag != "ret":
                        ctx.und(key, where, R6, "throws")
                        continue
                    got = op_of(v, args[0], names, n)
                    bad = [(i, j) for i in range(1 << n) for j in range(1 << n) if got[i][j] is not want[i][j]]
                    if bad and any(not psame(got[i][j], want[i][j]) for i, j in bad):
                        i, j = next((i, j) for i, j in bad if not psame(got[i][j], want[i][j]))
                        ctx.bad(key, where, R6, f"entry [{i}][{j}] of the composed operator is {show(got[i][j])[:80]}, expected {show(want[i][j])[:80]}")
                    else:
                        ctx.ok(key, where, R6)
            try:
                ctx.guard(name, where, R6, body)
            except Unk as x:
                ctx.und(name, where, R6, str(x))


def psame(a, b):
    if a is b:
        return True
    try:
        return to_laurent(a).close(to_laurent(b))
    except Exception:
        raise Unk("entries " + show(a)[:80] + " and " + show(b)[:80] + " cannot be compared")


def check(ctx):
    U = ctx.unit("def")
    ctx.guard("makeGate", "src/dd.cpp", R1, check_build, ctx, U, "makeGate", 4, False)
    ctx.guard("makeTwoQubitGate", "src/dd.cpp", R1, check_build, ctx, U, "makeTwoQubitGate", 5, True)
    ctx.guard("makeGate without controls", "src/dd.cpp", R6, check_default, ctx, U, "makeGate", 3, 4)
    ctx.guard("makeTwoQubitGate without controls", "src/dd.cpp", R6, check_default, ctx, U, "makeTwoQubitGate", 4, 5)
    ctx.guard("ControlComparator", "include/dd.h", R3, comparator, ctx, U)
    ctx.guard("makeLargeGate recursion", "src/dd.cpp", R5, large_rec, ctx, U)
    ctx.guard("makeLargeGate", "src/dd.cpp", R4, large_top, ctx, U)
    wrappers(ctx, U)
