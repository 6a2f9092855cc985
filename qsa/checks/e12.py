"""Sampling all qubits and the exact distribution.  measureAll and probabilities are extracted once
(paths, loop step relations, for arbitrary states and draws) and the recurrences are unfolded over
diagrams of every shape up to the bound with exact Gaussian-rational weights: full, with zero
children at every place, with shared nodes.  Per level the draws are placed on both sides of the
conditional probability of 0: the set of draws giving 0 must be the interval of that length, the
walk must continue in the child of the bit reported, the string must list the bits with qubit 0
last, and a collapse must leave the reported basis state.  The mass of a node (assignProbabilities)
is E09's; here it is the contract, available only once the node's mass has been assigned."""
from fractions import Fraction as F
from itertools import product
from ..cxev import Interp, Ref, St
from ..terms import *
from ..summ import Summ, Node, Edge, Und
from .e02 import CONST

RA = "each bit is drawn with its probability given the bits already drawn"
RB = "the string lists the drawn bits with qubit 0 last"
RC = "a collapse leaves the reported basis state"
RD = "without collapse the state is left as it is"
RE = "entry b of the distribution is the squared magnitude of amplitude b relative to the total"
NAMES = ("measureAll", "probabilities")


def cpx(a, b=0):
    return padd(num(F(a)), pmul(I, num(F(b)))) if b else num(F(a))


def mag2(w):
    c = re_im(w)
    if c is None:
        raise Und("magnitude of " + show(w)[:80])
    return c[0] * c[0] + c[1] * c[1]


# ------------------------------------------------------------ diagrams
WS = [cpx(F(1, 2)), cpx(F(1, 3), F(1, 5)), cpx(0, F(-3, 4)), cpx(F(-2, 7)), cpx(F(3, 5), F(-1, 5)), cpx(1)]


class Shapes:
    """max-normalised diagrams (one child of every node has weight 1), as the library builds them"""

    def __init__(self, TERM):
        self.TERM, self.k = TERM, 0

    def w(self):
        self.k += 1
        return WS[(self.k * 5 + self.k // 3) % len(WS)]

    def node(self, lv, path, zero, share):
        """zero: set of path prefixes that are zero edges; share: both children are one node"""
        if lv < 0:
            return self.TERM
        z = [path + c in zero for c in "01"]
        if share(lv, path) and not any(z):
            n = self.node(lv - 1, path + "0", zero, share)
            w = self.w()
            return Node(num(lv), [Edge(ONE, n), Edge(w, n)] if self.k % 2 else [Edge(w, n), Edge(ONE, n)])
        es = []
        big = 1 if z[0] else 0 if z[1] else self.k % 2
        for i in (0, 1):
            if z[i]:
                es.append(Edge(ZERO, self.TERM))
            else:
                w = ONE if i == big else self.w()
                es.append(Edge(w, self.node(lv - 1, path + str(i), zero, share)))
        return Node(num(lv), es)


def shapes(n, TERM):
    none = lambda lv, p: False
    S = Shapes(TERM)
    yield "full", Edge(cpx(F(1, 3), F(-1, 2)), S.node(n - 1, "", (), none))
    yield "full", Edge(ONE, S.node(n - 1, "", (), none))
    for d in range(1, n + 1):
        for p in product("01", repeat=d):
            yield "zero edge at " + "".join(p), Edge(cpx(F(2, 3)), S.node(n - 1, "", {"".join(p)}, none))
    for p in product("01", repeat=n):
        s = "".join(p)
        yield "basis state " + s, Edge(cpx(0, 1), S.node(n - 1, "", {s[:i] + "10"[int(s[i])] for i in range(n)}, none))
    for m in range(1, 2 ** n):
        yield "nodes shared at levels %s" % [l for l in range(n) if m >> l & 1], Edge(cpx(F(1, 2)), S.node(n - 1, "", (), lambda lv, p, m=m: bool(m >> lv & 1)))


def mass(n, TERM, memo):
    if n is TERM:
        return F(1)
    if n not in memo:
        memo[n] = sum((mag2(e.w) * mass(e.n, TERM, memo) for e in n.children), F(0))
    return memo[n]


# ------------------------------------------------------------ unfolding
class Walk(Summ):
    def __init__(self, it, TERM):
        Summ.__init__(self, it, {"vNode": TERM})
        self.TERM, self.known, self.us, self.dists, self.memo = TERM, True, [], [], {}
        self.fin = None

    def assigned(self, n):
        return self.known

    def _ev(self, t, B):
        op = t.op
        if op == "glob" or op == "hv" and isinstance(t.args[1], str) and t.args[1] == "probs":
            return "probs"
        if op in ("mapget", "mapat", "mapval") and self.ev(t.args[0], B) == "probs":
            n = self.ev(t.args[1], B)
            if not isinstance(n, Node):
                raise Und("mass of " + show(t.args[1])[:100])
            return num(mass(n, self.TERM, self.memo)) if self.known else ZERO
        if op in ("mag2", "norm2", "sqabs"):
            return num(mag2(self._num(self.ev(t.args[0], B))))
        if op == "inv":
            return pinv(self._num(self.ev(t.args[0], B)))
        if op == "sqrt":
            x = const(self._num(self.ev(t.args[0], B)))
            if x is None or x < 0:
                raise Und("root")
            r = F(int(x.numerator ** 0.5 + .5), int(x.denominator ** 0.5 + .5))
            if r * r == x:
                return num(r)
            raise Und("root of a non-square")
        if op in ("re", "im"):
            c = re_im(self._num(self.ev(t.args[0], B)))
            if c is None:
                raise Und(show(t)[:80])
            return num(c[0] if op == "re" else c[1])
        if op == "vec" and t.args[0] == ():
            return []
        if op in ("itrbegin", "itbegin", "itrend", "itend"):
            return (op, self.ev(t.args[0], B))
        if op == "make" and isinstance(t.args[0], str) and "basic_string" in t.args[0]:
            a = [self.ev(x, B) for x in t.args[1][:2]]
            if len(a) == 2 and all(isinstance(x, tuple) for x in a) and a[0][1] is not None:
                if (a[0][0], a[1][0]) == ("itrbegin", "itrend"):
                    return list(reversed(a[0][1]))
                if (a[0][0], a[1][0]) == ("itbegin", "itend"):
                    return list(a[0][1])
            if len(a) >= 1 and isinstance(a[0], list):
                return list(a[0])
            raise Und("string " + show(t)[:100])
        if op == "make" and "allocator" in str(t.args[0]):
            return None
        if op == "make" and "uniform_real" in str(t.args[0]):
            a = [self.ev(x, B) for x in t.args[1]]
            return ("dist",) + tuple((a + [ZERO, ONE][len(a):])[:2])
        if op == "reverse" or op == "rev":
            return list(reversed(self.ev(t.args[0], B)))
        if op == "arr":
            return [self.ev(x, B) for x in t.args[0]]
        if op == "rec" and {"w", "n"} <= {n for n, _ in t.args[1]}:
            d = {n: self.ev(x, B) for n, x in t.args[1]}
            return Edge(d["w"], d["n"])
        if op == "glob" or op == "static":
            nm = show(t)
            if "one" in nm:
                return Edge(ONE, self.TERM)
            if "zero" in nm:
                return Edge(ZERO, self.TERM)
        return Summ._ev(self, t, B)

    def truth(self, t, B):
        if t.op == "has" and self.ev(t.args[0], B) == "probs":
            n = self.ev(t.args[1], B)
            return self.known0 if not self.during else self.known
        if t.op == "az" or t.op == "isApproximatelyZero":
            c = re_im(self._num(self.ev(t.args[0], B)))
            if c is None:
                raise Und(show(t)[:80])
            return c == (0, 0)
        if t.op == "eq" and any(isT(a, "null") for a in t.args):
            return False
        return Summ.truth(self, t, B)

    during = False

    def snapshot(self):
        return (Summ.snapshot(self), self.known, self.pos, list(self.dists))

    def restore(self, snap):
        Summ.restore(self, snap[0])
        self.known, self.pos, self.dists = snap[1], snap[2], list(snap[3])

    def process(self, r, B, skip):
        tag, v, s = r
        if tag != "ret":
            raise Und("path ends by " + tag)
        self.events(s.log[skip:], B)
        val = self.ev(v, B) if isinstance(v, T) and v.op != "none" else None
        fin = self.ev(self.it.root_get(s, self.R), B) if self.R is not None else None
        return val, fin, B

    def subcall(self, e, B):
        nm = e.name.split("::")[-1]
        if nm == "assignProbabilities":
            n = self.ev(e.args[0], B)
            if not isinstance(n, Edge):
                raise Und("masses of " + show(e.args[0])[:80])
            if n.n is self.root.n:
                self.known = True
            B[e.res] = num(mag2(n.w) * mass(n.n, self.TERM, self.memo))
        elif nm == "draw":
            d = self.ev(e.args[0], B)
            if not (isinstance(d, tuple) and d[0] == "dist"):
                raise Und("distribution " + show(e.args[0])[:80])
            lo, hi = const(d[1]), const(d[2])
            if lo is None or hi is None or hi <= lo:
                raise Und("range of the draw")
            if self.pos >= len(self.us):
                raise Und("more draws than qubits")
            B[e.res] = num(lo + self.us[self.pos] * (hi - lo))
            self.pos += 1
        elif nm == "makeVEdge":
            q, es = self.ev(e.args[0], B), self.ev(e.args[1], B)
            if not isinstance(es, list) or len(es) != 2 or not all(isinstance(x, Edge) for x in es):
                raise Und("makeVEdge of " + show(e.args[1])[:80])
            B[e.res] = Edge(ZERO, self.TERM) if all(x.w is ZERO for x in es) else Edge(ONE, Node(q, es))
        else:
            Summ.subcall(self, e, B)


def amp(e, lv, b, TERM):
    w = e.w
    while lv >= 0:
        if w is ZERO:
            return ZERO
        if e.n is TERM or cint(e.n.v) != lv:
            return None
        e = e.n.children[(b >> lv) & 1]
        w = pmul(w, e.w)
        lv -= 1
    return w if e.n is TERM else None


def where_of(f):
    return f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']}"


def check(ctx):
    for u in ("def", "mt", "mpi") if ctx.thorough else ("def",):
        one_unit(ctx, u)


def one_unit(ctx, u):
    U = ctx.unit(u)
    it = Interp(U, opaque=lambda fd: fd["name"] in ("assignProbabilities", "makeVEdge"), const_globals=CONST)
    TERM = Node(num(-1))
    nmax = 4 if ctx.thorough else 3
    f = (it.by_qn.get("measureAll") or [None])[0]
    if f is None:
        ctx.und("measureAll", "src/dd.cpp", RA, "measureAll not found")
    else:
        wh = where_of(f)
        ctx.saw(wh)
        ctx.guard("measureAll", wh, RA, lambda: sampling(ctx, it, f, wh + f" [{u}]", TERM, nmax))
    f = (it.by_qn.get("probabilities") or [None])[0]
    if f is None:
        ctx.und("probabilities", "src/dd.cpp", RE, "probabilities not found")
    else:
        wh = where_of(f)
        ctx.saw(wh)
        ctx.guard("probabilities", wh, RE, lambda: exact(ctx, it, f, wh + f" [{u}]", TERM, nmax))


def sampling(ctx, it, f, wh, TERM, nmax):
    R = ("v", "root", 0)
    st = St()
    st.env[R] = sym("rootEdge")
    col = sym("collapse")
    args = [Ref((R, ())), col] + [sym(p["n"] or "p%d" % i) for i, p in enumerate(f["ps"][2:])]
    rs = [r for r in it.run(f, args, st=st)]
    rets = [r for r in rs if r[0] == "ret"]
    ctx.count("extracted paths", len(rs))
    W = Walk(it, TERM)
    W.R = R

    def go(e, us, collapse, known):
        W.us, W.pos, W.dists, W.known, W.known0, W.root, W.steps, W.during = us, 0, [], known, known, e, 0, False
        B0 = {sym("rootEdge"): e, col: mk("true") if collapse else mk("false")}
        v, fin, _ = W.select(rets, B0, 0, lambda r: r[2])
        return v, fin, W.pos

    eps = F(1, 10 ** 6)
    for n in range(1, nmax + 1):
        for name, e in shapes(n, TERM):
            what = f"{n} qubits, {name}"
            memo = {}

            def target(b, known, collapse, what=what, e=e, n=n, memo=memo):
                """(probability of 0, bit) per level along b; None if b cannot occur"""
                cur, us, ps = e, [], []
                for lv in range(n - 1, -1, -1):
                    m = [mag2(c.w) * mass(c.n, TERM, memo) for c in cur.n.children]
                    p0 = m[0] / (m[0] + m[1])
                    k = b >> lv & 1
                    if (p0, 1 - p0)[k] == 0:
                        return None
                    ps.append((p0, k))
                    cur = cur.n.children[k]
                return ps

            for b in range(2 ** n):
                ps = target(b, True, False)
                if ps is None:
                    continue
                want = [num(48 + (b >> lv & 1)) for lv in range(n - 1, -1, -1)]
                ok_conv = None
                # convention A: 0 below p0; convention B: 0 above 1 - p0
                res = {}
                und = None
                for conv in "AB":
                    bad = None
                    plans = []
                    iv = []
                    for p0, k in ps:
                        lo, hi = ((0, p0) if k == 0 else (p0, 1)) if conv == "A" else ((1 - p0, 1) if k == 0 else (0, 1 - p0))
                        iv.append((lo, hi))
                    plans.append([lo + (hi - lo) * eps for lo, hi in iv])
                    plans.append([hi - (hi - lo) * eps for lo, hi in iv])
                    if conv == "A":
                        # a draw of exactly 0 must not pick an impossible 0
                        plans.append([lo if p0 == 0 else (lo + hi) / 2 for (lo, hi), (p0, k) in zip(iv, ps)])
                    for us in plans:
                        for known in (True, False):
                            try:
                                v, fin, used = go(e, us, False, known)
                            except Und as x:
                                und = str(x)
                                break
                            if used != n:
                                und = f"{used} draws for {n} qubits"
                                break
                            if not (isinstance(v, list) and len(v) == n and all(isinstance(x, T) for x in v)):
                                und = "returns " + str(v)[:80]
                                break
                            ctx.count("walks")
                            if v != want:
                                bad = (us, v, known)
                                break
                            if fin is not e:
                                res["state"] = "the state is replaced" if isinstance(fin, Edge) else None
                        if und or bad:
                            break
                    if und:
                        break
                    if not bad:
                        ok_conv = conv
                        break
                    res[conv] = bad
                if und:
                    ctx.und("measureAll:draw", wh, RA, f"{what}, outcome {b:0{n}b}: {und}"[:300])
                    continue
                if ok_conv is None:
                    us, v, known = res["A"]
                    got = "".join(chr(cint(x)) if cint(x) is not None else "?" for x in v)
                    rule = RB if got == f"{b:0{n}b}"[::-1] and got != f"{b:0{n}b}" else RA
                    ctx.bad("measureAll:draw" if rule is RA else "measureAll:string", wh, rule,
                            f"{what}: conditional probabilities of 0 along {b:0{n}b} are {[str(p) for p, _ in ps]}, draws {[str(float(x)) for x in us]} give {got}"
                            + ("" if known else " when no masses have been computed yet"))
                else:
                    ctx.ok("measureAll:draw", wh, RA)
                    ctx.ok("measureAll:string", wh, RB)
                    if "state" in res:
                        ctx.check(False if res["state"] else None, "measureAll:keep", wh, RD, f"{what}: {res['state']}")
                    else:
                        ctx.ok("measureAll:keep", wh, RD)
                    iv = [((0, p0) if k == 0 else (p0, 1)) if ok_conv == "A" else ((1 - p0, 1) if k == 0 else (0, 1 - p0)) for p0, k in ps]
                    us = [lo + (hi - lo) / 2 for lo, hi in iv]
                    try:
                        v, fin, used = go(e, us, True, b % 2 == 0)
                    except Und as x:
                        ctx.und("measureAll:collapse", wh, RC, f"{what}: {x}"[:300])
                        continue
                    if not isinstance(fin, Edge):
                        ctx.und("measureAll:collapse", wh, RC, f"{what}: leaves {fin}")
                        continue
                    am = [amp(fin, n - 1, i, TERM) for i in range(2 ** n)]
                    ok = all(a is not None for a in am) and all((a is ZERO) == (i != b) for i, a in enumerate(am)) and mag2(am[b]) == 1
                    ctx.check(ok and v == want, "measureAll:collapse", wh, RC,
                              f"{what}: outcome {b:0{n}b} leaves amplitudes {[show(a) if a is not None else None for a in am]}")


def exact(ctx, it, f, wh, TERM, nmax):
    ps = [sym("p%d" % i) for i in range(len(f["ps"]))]
    rets = [r for r in it.run(f, ps) if r[0] == "ret"]
    W = Walk(it, TERM)
    W.R = None
    for n in range(1, nmax + 1):
        for name, e in shapes(n, TERM):
            tot = mag2(e.w) * mass(e.n, TERM, {})
            want = [mag2(amp(e, n - 1, b, TERM)) / tot for b in range(2 ** n)]
            for known in (True, False):
                W.us, W.pos, W.dists, W.known, W.known0, W.root, W.steps = [], 0, [], known, known, e, 0
                what = f"{n} qubits, {name}"
                try:
                    v, _, _ = W.select(rets, {ps[0]: e}, 0, lambda r: r[2])
                except Und as x:
                    ctx.und("probabilities", wh, RE, f"{what}: {x}"[:300])
                    continue
                got = [const(x) if isinstance(x, T) else None for x in v] if isinstance(v, list) else None
                if got is None or None in got:
                    ctx.und("probabilities", wh, RE, f"{what}: returns {str(v)[:100]}")
                    continue
                ctx.count("distribution entries", len(got))
                i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), None)
                ctx.check(i is None, "probabilities", wh, RE,
                          f"{what}: entry {i} of {len(got)} is {float(got[i]) if i is not None and i < len(got) else 'missing'}, expected {float(want[i]) if i is not None and i < len(want) else 'none'}")
