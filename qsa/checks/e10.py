"""Dense export.  getVector, getMatrix and their recursions are turned into summaries (paths,
recursive calls, buffer writes, loop step relations, for arbitrary arguments) by the abstract
interpreter; the summaries are unfolded as recurrences over diagrams with symbolic weights:
every register width up to the bound, every pattern of skipped operator levels, stubs of
zero edges at every level.  Each entry of the exported buffer must be the product of the
weights along the path its index selects, every entry must be written, and the reported
dimension, the buffer's size and the Python-side copies must agree with it."""
from ..cxev import Interp
from ..terms import *
from ..summ import Summ, Node, Edge, Cell, Buf, Arr, Und
from .e02 import CONST

RA = "entry b of the exported vector is the product of the weights along the path selected by the bits of b"
RB = "entry (r,c) of the exported matrix is the product along the path selected by the bits of r and c, skipped levels as identity"
RC = "buffer size and reported dimension are those of the register"
RD = "the copy handed to Python lists the same entries in the same order"


def vtree(lv, name, TERM, stub):
    """full state diagram of levels 0..lv; stub(name) -> zero edge there"""
    if stub(name):
        return Edge(ZERO, TERM)
    w = sym("w" + name)
    if lv < 0:
        return Edge(w, TERM)
    return Edge(w, Node(num(lv), [vtree(lv - 1, name + str(k), TERM, stub) for k in (0, 1)]))


def vval(e, lv, b, TERM):
    w = e.w
    while lv >= 0:
        if e.n is TERM:
            return w if w is ZERO else None
        e = e.n.children[(b >> lv) & 1]
        w = pmul(w, e.w)
        lv -= 1
    return w


def mtree(lv, name, TERM, skip, stub):
    if stub(name):
        return Edge(ZERO, TERM)
    while lv >= 0 and skip(lv, name):
        lv -= 1
    w = sym("w" + name)
    if lv < 0:
        return Edge(w, TERM)
    return Edge(w, Node(num(lv), [mtree(lv - 1, name + str(k), TERM, skip, stub) for k in range(4)]))


def mval(e, lv, r, c, TERM):
    w = e.w
    for l in range(lv, -1, -1):
        rb, cb = (r >> l) & 1, (c >> l) & 1
        if e.n is not TERM and cint(e.n.v) == l:
            e = e.n.children[2 * rb + cb]
            w = pmul(w, e.w)
        elif rb != cb:
            return ZERO
    return w


def stubs(n, fan):
    yield lambda s: False, "full"
    for d in range(1, n + 1):
        for k in range(fan):
            yield (lambda d, k: lambda s: len(s) == d and s.endswith(str(k)))(d, k), f"zero child {k} at depth {d}"


def skips(n):
    for m in range(2 ** n):
        yield (lambda m: lambda lv, s: bool(m >> lv & 1))(m), f"levels skipped {[l for l in range(n) if m >> l & 1]}"
    if n > 1:
        yield lambda lv, s: len(s) > 0 and s[-1] in "03" and lv == n - 2, "level skipped below diagonal children only"
        yield lambda lv, s: len(s) > 0 and s[-1] in "12" and lv == n - 2, "level skipped below off-diagonal children only"


def known(v):
    return isinstance(v, T) and all(a.op in ("sym", "poly", "re", "im") for a in atoms(v))


def compare(ctx, key, wh, rule, got, want, what):
    for b, (g, w) in enumerate(zip(got, want)):
        if g is not w:
            ctx.check(False if g is None or known(g) else None, key, wh, rule, f"{what}: entry {b} is {show(g)[:160] if g is not None else 'not written'}, expected {show(w)[:160]}")
            return
    ctx.ok(key, wh, rule)


def psubst_name(x, suf):
    """the same value held by another process"""
    if isinstance(x, T):
        if x.op == "sym":
            return sym(x.args[0] + suf)
        if x.op == "poly":
            r = ZERO
            for m, c in x.args[0]:
                q = num(c)
                for a, e in m:
                    q = pmul(q, ppow(a if a is I else psubst_name(a, suf), e))
                r = padd(r, q)
            return r
        return mk(x.op, *[psubst_name(a, suf) for a in x.args])
    return x


def norm(x):
    """I*im(w) + re(w) -> w, entrywise over monomials in re/im of one term"""
    if not isinstance(x, T):
        return x
    p = pdict(x)
    res = [a for m in p for a, e in m if isT(a, "re")]
    for a in res:
        w = a.args[0]
        if x is padd(pmul(I, mk("im", w)), a):
            return w
    return x


def wide(n):
    """for registers beyond the bound: the full diagram only"""
    return [(lambda s: False, "full")]


def alternate(n):
    """for registers beyond the bound: every second level of operators is skipped, or all but the lowest"""
    for f, nm in ((lambda l: l % 2, "odd"), (lambda l: (l + 1) % 2, "even"), (lambda l: l != 0, "all but the lowest")):
        yield lambda lv, name, f=f: bool(f(lv)), "levels skipped " + nm


def check(ctx):
    U = ctx.unit("def")
    it = Interp(U, opaque=lambda fd: fd["name"] in ("fillVector", "fillMatrix", "getVector", "getMatrix", "printVector2"), const_globals=CONST)
    it.no_merge = True
    VT, MT = Node(num(-1)), Node(num(-1))
    S = Summ(it, {"vNode": VT, "mNode": MT})
    vmax, mmax = (6, 4) if ctx.thorough else (4, 3)

    def get(qn):
        fs = it.by_qn.get(qn) or []
        return fs[0] if len(fs) == 1 else None

    def where(f):
        ctx.saw(f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']}")
        return f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']}"

    gv = get("vEdge::getVector")
    if gv is None:
        ctx.und("getVector", "src/dd.cpp", RA, "vEdge::getVector not found")
    else:
        wh = where(gv)
        for f in it.by_qn.get("fillVector", []):
            where(f)
        for n in range(1, vmax + 5):
            for stub, sn in (stubs(n, 2) if n <= vmax else wide(n)):
                e = vtree(n - 1, "", VT, stub)
                what = f"{n} qubits, {sn}"

                def one():
                    S.bufs, S.steps = [], 0
                    c = Cell()
                    try:
                        v, outs, B = S.call(gv, [c], e)
                    except Und as x:
                        ctx.und("getVector", wh, RA, f"{what}: {x}"[:300])
                        return
                    ctx.count("vector entries", 2 ** n)
                    if not isinstance(v, Buf):
                        ctx.und("getVector", wh, RA, f"{what}: returns {v}")
                        return
                    ctx.check(v.size == 2 ** n and c.val is num(2 ** n), "getVector:size", wh, RC,
                              f"{what}: {v.size} entries allocated, {show(c.val) if c.val is not None else 'nothing'} reported")
                    extra = [k for k in v.mem if not 0 <= k < 2 ** n]
                    if extra:
                        ctx.bad("getVector:size", wh, RC, f"{what}: entry {extra[0]} is written")
                    compare(ctx, "getVector", wh, RA, [v.mem.get(b) for b in range(2 ** n)], [vval(e, n - 1, b, VT) for b in range(2 ** n)], what)
                ctx.guard("getVector", wh, RA, one)
    gm = get("mEdge::getMatrix")
    if gm is None:
        ctx.und("getMatrix", "src/dd.cpp", RB, "mEdge::getMatrix not found")
    else:
        wh = where(gm)
        for f in it.by_qn.get("fillMatrix", []):
            where(f)
        for n in range(1, 6):
            for skip, kn in (skips(n) if n <= mmax else alternate(n)):
                for stub, sn in (wide(n) if n > mmax else stubs(n, 4) if kn == "levels skipped []" or n < 3 or ctx.thorough else [(lambda s: False, "full")]):
                    e = mtree(n - 1, "", MT, skip, stub)
                    top = cint(e.n.v)
                    for q in ([-1] if top == n - 1 else []) + [n]:
                        what = f"{n} qubits (argument {q}), {kn}, {sn}"

                        def one():
                            S.bufs, S.steps = [], 0
                            c = Cell()
                            try:
                                v, outs, B = S.call(gm, [c, num(q)], e)
                            except Und as x:
                                ctx.und("getMatrix", wh, RB, f"{what}: {x}"[:300])
                                return
                            d = 2 ** n
                            ctx.count("matrix entries", d * d)
                            if not isinstance(v, Buf):
                                ctx.und("getMatrix", wh, RB, f"{what}: returns {v}")
                                return
                            rows = [v.mem.get(r) for r in range(d)]
                            okr = all(isinstance(r, Buf) for r in rows)
                            ctx.check(v.size == d and okr and all(r.size == d for r in rows) and c.val is num(d) and len({id(r) for r in rows}) == d,
                                      "getMatrix:size", wh, RC, f"{what}: allocation or reported dimension differs from {d}")
                            if okr:
                                compare(ctx, "getMatrix", wh, RB, [rows[r].mem.get(cc) for r in range(d) for cc in range(d)],
                                        [mval(e, n - 1, r, cc, MT) for r in range(d) for cc in range(d)], what)
                        ctx.guard("getMatrix", wh, RB, one)
    # copies handed to Python: Eigen forms, std::vector forms, the gathered vector of all processes
    class Stand(Summ):
        """getVector / getMatrix stand for any buffer with the entries of the register, all_gather for the
        list of every process's argument"""
        n, seen, P, empty = 1, None, 1, None

        def subcall(self, e, B):
            if e.name.endswith("Edge::isTerminal"):
                B[e.res] = mk("true") if self.ev(e.args[0], B).n is VT else mk("false")
            elif e.name == "boost::mpi::all_reduce":
                # one other process at least holds a part that is not zero
                op = e.node["f"]["pt"][2] if len(e.args) == 3 else ""
                c = cint(self.ev(e.args[1], B))
                if "maximum" not in op or c not in (0, 2 ** self.n):
                    raise Und("reduction of %s by %s" % (c, op))
                B[e.res] = num(2 ** self.n)
            elif e.name.endswith("getVector"):
                b = Buf(2 ** self.n, "Complex")
                b.mem = {k: sym(f"a{k}") for k in range(2 ** self.n)}
                if self.empty and self.ev(e.args[0], B) is self.empty:
                    # a zero part has no buffer of its own size
                    b.mem = {k: sym("entry of a terminal edge") for k in range(2 ** self.n)}
                self.out(e, B, b, num(2 ** self.n))
            elif e.name.endswith("getMatrix"):
                b = Buf(2 ** self.n, "Complex*")
                for r in range(2 ** self.n):
                    b.mem[r] = Buf(2 ** self.n, "Complex")
                    b.mem[r].mem = {c: sym(f"a{r},{c}") for c in range(2 ** self.n)}
                self.out(e, B, b, num(2 ** self.n))
            elif e.name == "boost::mpi::all_gather":
                mine = self.ev(e.args[1], B)
                if not isinstance(mine, list):
                    raise Und("all_gather of a non-list")
                self.gathered = mine
                B[mk("after", e.name, 2, e.res)] = [[psubst_name(x, f"@{p}") for x in mine] for p in range(self.P)]
            else:
                super().subcall(e, B)

        def out(self, e, B, b, d):
            B[e.res] = b
            av = list(e.args)
            self.seen = self.ev(av[0], B), [self.ev(a, B) for a in av[2:]]
            B[mk("after", e.name, 0, e.res)] = d

    def copies(key, unit, qn, args, this, n, P, expect, empty=False):
        U2 = ctx.unit(unit)
        ib = Interp(U2, opaque=lambda fd: fd["name"] in ("getVector", "getMatrix", "fillVector", "fillMatrix"), const_globals=CONST)
        ib.no_merge = True
        fs = [f for f in ib.by_qn.get(qn, [])]
        if len(fs) != 1:
            ctx.und(key, qn, RD, "not found")
            return
        wh = where(fs[0])
        for nn in range(1, n + 1):
            for p in P:
                def one():
                    S2 = Stand(ib, {"vNode": VT, "mNode": MT})
                    S2.bufs, S2.n, S2.P = [], nn, p
                    e = Edge(ZERO, VT) if empty else Edge(sym("w"), Node(num(nn - 1)))
                    S2.empty = e if empty else None
                    try:
                        v, outs, B = S2.call(fs[0], args(e, nn), e if this else None)
                    except Und as x:
                        ctx.und(key, wh, RD, f"{nn} qubits: {x}"[:300])
                        return
                    if S2.seen is not None and S2.seen[0] is not e:
                        ctx.bad(key, wh, RD, "another diagram is exported")
                    if S2.seen is not None and qn.endswith("getEigenMatrix") and S2.seen[1] != [num(nn)]:
                        ctx.check(False if all(isinstance(x, T) and const(x) is not None for x in S2.seen[1]) else None, key, wh, RD,
                                  f"getMatrix is asked for {[show(x) for x in S2.seen[1]]} qubits of {nn}")
                    want = expect(nn, p)
                    if isinstance(v, Arr):
                        got = [v.mem.get(r) for r in range(v.dims[0])]
                        if len(v.dims) == 2:
                            got = [g.mem.get(c) if isinstance(g, Arr) else None for g in got for c in range(v.dims[1])]
                    elif isinstance(v, list):
                        got = v
                    else:
                        ctx.und(key, wh, RD, f"returns {v}")
                        return
                    if len(got) != len(want):
                        ctx.bad(key, wh, RD, f"{len(got)} entries for {nn} qubits" + (f", {p} processes" if p > 1 else ""))
                        return
                    compare(ctx, key, wh, RD, [norm(x) for x in got], want, f"{nn} qubits")
                ctx.guard(key, wh, RD, one)
    vec = lambda nn, p: [sym(f"a{k}") for k in range(2 ** nn)]
    copies("_getVector", "defb", "_getVector", lambda e, n: [e], False, 3, (1,), vec)
    copies("getEigenVector", "def", "vEdge::getEigenVector", lambda e, n: [], True, 3, (1,), vec)
    copies("getEigenMatrix", "def", "mEdge::getEigenMatrix", lambda e, n: [num(n)], True, 2, (1,),
           lambda nn, p: [sym(f"a{r},{c}") for r in range(2 ** nn) for c in range(2 ** nn)])
    copies("_getVectorMPI", "mpib", "_getVectorMPI", lambda e, n: [e], False, 2, (1, 2, 4),
           lambda nn, p: [sym(f"a{k}@{q}") for q in range(p) for k in range(2 ** nn)])
    copies("_getVectorMPI:zero part", "mpib", "_getVectorMPI", lambda e, n: [e], False, 2, (2, 4),
           lambda nn, p: [ZERO for q in range(p) for k in range(2 ** nn)], True)
