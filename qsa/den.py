"""Denotations of decision-diagram edges.

den(edge) = w * N(node), a linear combination of node atoms with polynomial
coefficients.  Recursive calls denote what their contract says (induction on the
level), a call that builds a node denotes the block operator of its children, and a
memo table hit denotes what its key denotes.  P(a,b) is the product of two node
operators, K(a,b) their tensor product.  Path facts are used for rewriting:
"approximately zero" weights are zero, equal nodes are identified.
"""
from .terms import *
from .terms import _norm_poly
from .cxev import TooHard

ADD = {"mm_add2": "m", "vv_add2": "v", "mm_add": "m", "vv_add": "v"}
MUL = {"mm_multiply2": "mm", "mv_multiply2": "mv", "mm_multiply": "mm", "mv_multiply": "mv"}
KRON = {"mm_kronecker2": "m", "vv_kronecker2": "v", "mm_kronecker": "m", "vv_kronecker": "v"}
MAKE = {"makeMEdge": 4, "makeVEdge": 2}
TERMS = {"m": mk("addr", ("g", "mNode::terminalNode"), ()), "v": mk("addr", ("g", "vNode::terminalNode"), ())}
TERM = mk("TERM")


def terminal_level(it, st, t, val):
    """axiom: the terminal node's level is -1"""
    neg = num(-1)
    known = [(l, v) for l, v in st.facts.order if v and l.op in ("eq", "eq0")]
    terms = {x for l, v in known if l.op == "eq" for x in l.args if any(y in TERMS.values() for y in l.args)}
    for l, v in known:
        if l.op == "eq":
            sides = l.args
        else:
            continue
        for a, b in (sides, sides[::-1]):
            if isT(a, "f") and a.args[1] == "v" and isT(a.args[0], "deref") and a.args[0].args[0] in terms:
                if st.facts.decide(beq(b, neg)) is False:
                    return False
    return True


def lin_add(a, b, k=ONE):
    d = dict(a)
    for n, c in b.items():
        x = padd(d.get(n, ZERO), pmul(k, c))
        if x is ZERO:
            d.pop(n, None)
        else:
            d[n] = x
    return d


def lin_scale(k, a):
    if k is ZERO:
        return {}
    return {n: pmul(k, c) for n, c in a.items()}


def divides(p, q):
    """monomial m (poly) with q == m*p, or None"""
    if q is ZERO:
        return ZERO
    dp, dq = pdict(p), pdict(q)
    if len(dp) != len(dq) or not dp:
        return None
    mp, cp = next(iter(sorted(dp.items(), key=lambda x: repr([(a.uid, e) for a, e in x[0]]))))
    for mq, cq in dq.items():
        m = pdiv(_norm_poly({mq: cq}), _norm_poly({mp: cp}))
        if pmul(m, p) is q:
            return m
    return None


class Den:
    def __init__(self, it, st, facts=None):
        self.it, self.st = it, st
        self.facts = facts or st.facts
        self.levels = []
        self.used_find = []
        self.uf = {}
        self.zeros = []
        self.subs = {}
        for lit, val in self.facts.order:
            self.note(lit, val)

    def note(self, lit, val):
        if lit.op == "not":
            return self.note(lit.args[0], not val)
        if not val:
            return
        if lit.op == "eq":
            a, b = lit.args
            if isT(a, "null") or isT(b, "null"):
                return
            ra, rb = self.rep(a), self.rep(b)
            if ra is not rb:
                if rb in TERMS.values() or (rb.uid < ra.uid and ra not in TERMS.values()):
                    self.uf[ra] = rb
                else:
                    self.uf[rb] = ra
        elif lit.op in ("az", "isz"):
            self.zeros.append(lit.args[0])

    def rep(self, n):
        while n in self.uf:
            n = self.uf[n]
        return n

    def decide(self, t):
        return self.facts.decide(t)

    def eq(self, a, b):
        if a is b or self.rep(a) is self.rep(b):
            return True
        return self.facts.decide(self.it.eq_term(self.st, a, b))

    def W(self, e):
        return self.it.proj(self.st, e, ("f", "w", "Complex"))

    def N(self, e):
        return self.it.proj(self.st, e, ("f", "n"))

    # ---------------------------------------------------------------- zero test modulo facts
    def solve(self, D):
        """D reduced by the weights the path found to be zero (or equal)"""
        for p in self.zeros:
            for m, c in pdict(p).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] is not I:
                    a = m[0][0]
                    rest = psub(p, _norm_poly({m: c}))
                    if a in atoms(rest):
                        continue
                    val = pmul(num(-1 / c), rest) if not isinstance(c, complex) else None
                    if val is None:
                        continue
                    if all(a not in atoms(x) for x in [val]) and any(any(b is a and e < 0 for b, e in mm) for mm in pdict(D)):
                        continue
                    D2 = subst(D, lambda t, a=a, v=val: v if t is a else None)
                    D = D2
                    break
        return D

    def is_zero(self, D):
        if D is ZERO:
            return True
        D2 = self.solve(D)
        if D2 is ZERO:
            return True
        for p in self.zeros:
            if divides(p, D) is not None or divides(p, D2) is not None:
                return True
            # D contains p's product as a factor
            if len(pdict(p)) == 1:
                (mp, cp), = pdict(p).items()
                if all(all(dict(m).get(a, 0) >= e for a, e in mp) for m in pdict(D)):
                    return True
        return False

    def lin_zero(self, d):
        return all(self.is_zero(c) for c in d.values())

    def same(self, a, b):
        return self.lin_zero(lin_add(a, b, num(-1)))

    # ---------------------------------------------------------------- denotations
    def edge(self, e):
        e = self.it.copy_val(self.st, e) if not isinstance(e, T) else e
        return lin_scale(self.W(e), self.node(self.N(e)))

    def node(self, n):
        n = self.rep(n)
        if n in TERMS.values():
            return {TERM: ONE}
        if isT(n, "f") and n.args[1] == "n" and isT(n.args[0], "call"):
            X = n.args[0]
            d = self.call(X)
            if d is not None:
                return lin_scale(pinv(self.W(X)), d)
        return {n: ONE}

    def bil(self, op, a, b, left_only=False):
        out = {}
        for x, c in a.items():
            for y, d in b.items():
                if x is TERM:
                    k = y
                elif y is TERM and not left_only:
                    k = x
                else:
                    k = mk(op, x, y)
                out = lin_add(out, {k: pmul(c, d)})
        return out

    def call(self, X):
        """denotation promised by the contract of a call, None if it builds a node / is unknown"""
        q = X.args[0].split("<")[0]
        a = X.args[1:]
        if q in ADD:
            self.levels.append((X, a[2] if len(a) > 3 else None, ADD[q]))
            return lin_add(self.edge(a[0]), self.edge(a[1]))
        if q in MUL:
            self.levels.append((X, a[2] if len(a) > 3 else None, MUL[q][1]))
            return self.bil("P", self.edge(a[0]), self.edge(a[1]), left_only=MUL[q] == "mv")
        if q in KRON:
            return self.bil("K", self.edge(a[0]), self.edge(a[1]))
        if q.endswith("Cache::find"):
            self.used_find.append(X)
            return self.key(q, a[1], a[2])
        return None

    def key(self, q, a, b):
        if q.startswith("AddCache"):
            return lin_add(self.edge(a), self.edge(b))
        return self.bil("P", self.node(a), self.node(b), left_only=True)

    # ---------------------------------------------------------------- block view of an operand
    def child(self, n, i, kind):
        st = self.st
        lv = (("h", n, kind + "Node"), (("f", "children"), ("i", num(i))))
        return self.it.read(st, lv)

    def var(self, n, kind):
        return self.it.read(self.st, (("h", n, kind + "Node"), (("f", "v"),)))


KNOWN_OPS = {"poly", "sym", "f", "idx", "deref", "call", "rec", "arr", "vec", "addr", "null", "P", "K", "TERM", "glob", "az", "eq", "eq0",
             "lt", "le", "fill", "after", "store", "push", "pair", "mag2", "sqrt"}
KNOWN_CALLS = set(ADD) | set(MUL) | set(KRON) | set(MAKE)


def understood(t):
    for a in atoms(t):
        if a.op not in KNOWN_OPS:
            return False
        if a.op == "call":
            q = a.args[0].split("<")[0]
            if q not in KNOWN_CALLS and "Cache::" not in q:
                return False
    return True


class Op:
    """obligation: function F(l, r, L) denotes spec"""

    def __init__(self, it, kind, lk, rk, L=None, lp="l", rp="r"):
        self.it, self.kind, self.lk, self.rk, self.L = it, kind, lk, rk, L
        self.l, self.r = sym(lp), sym(rp)

    def top(self, D):
        if self.kind == "add":
            return lin_add(D.edge(self.l), D.edge(self.r))
        return D.bil("P" if self.kind == "mul" else "K", D.edge(self.l), D.edge(self.r),
                     left_only=(self.kind == "mul" and self.rk == "v"))

    def cases(self, D, e, kind, L):
        """ways an operand can look at level L >= 0: ('at') has a node here, ('id') identity-stripped / lower"""
        w, n = D.W(e), D.rep(D.N(e))
        if D.is_zero(w):
            return ["zero"]
        t = D.eq(n, TERMS[kind])
        at = D.eq(L, D.var(n, kind)) if t is not True else False
        if kind == "v":
            # a non-zero vector edge at level L has its node at level L
            if t is True or at is False:
                return []
            return ["at"]
        out = []
        if at is not False and t is not True:
            out.append("at")
        if at is not True:
            out.append("id")
        return out

    def block(self, D, e, kind, case, i, nb):
        w, n = D.W(e), D.rep(D.N(e))
        if case == "zero":
            return {}
        if case == "at":
            c = D.child(n, i, kind)
            return lin_scale(w, D.edge(c))
        return lin_scale(w, D.node(n)) if i in (0, 3) else {}

    def blocks(self, D, lc, rc, lo=None, ro=None):
        l, r = (lo or self.l), (ro or self.r)
        if self.kind == "add":
            nb = 4 if self.lk == "m" else 2
            return [lin_add(self.block(D, l, self.lk, lc, i, nb), self.block(D, r, self.rk, rc, i, nb)) for i in range(nb)]
        if self.kind == "kron":
            nb = 4 if self.lk == "m" else 2
            er = D.edge(r)
            return [D.bil("K", self.block(D, l, self.lk, lc, i, nb), er) for i in range(nb)]
        out = []
        cols = 2 if self.rk == "m" else 1
        for row in range(2):
            for col in range(cols):
                s = {}
                for k in range(2):
                    a = self.block(D, l, self.lk, lc, row * 2 + k, 4)
                    b = self.block(D, r, self.rk, rc, k * cols + col, 2 * cols)
                    s = lin_add(s, D.bil("P", a, b, left_only=self.rk == "v"))
                out.append(s)
        return out

    def matches_block(self, D, C, coef, L, lo=None, ro=None):
        """coef * [children of C] == wC * [blocks of the spec], in every operand case; returns None or a message"""
        q, ch = C.args[1], C.args[2]
        if D.eq(q, L) is not True:
            return f"node is built at level {show(q)}, the result belongs to level {show(L)}"
        nb = MAKE[C.args[0]]
        wC = D.W(C)
        l, r = lo or self.l, ro or self.r
        lcs = self.cases(D, l, self.lk, L if self.kind != "kron" else D.var(D.rep(D.N(l)), self.lk))
        rcs = ["id"] if self.kind == "kron" else self.cases(D, r, self.rk, L)
        for lc in lcs:
            for rc in rcs:
                f2 = D.facts.copy()
                okf = True
                for e, kind, c in ((l, self.lk, lc), (r, self.rk, rc)):
                    if c == "zero" or self.kind == "kron":
                        continue
                    n = D.rep(D.N(e))
                    if c == "at":
                        okf &= f2.assume(self.it.eq_term(D.st, L, D.var(n, kind)), True)
                        okf &= f2.assume(self.it.eq_term(D.st, n, TERMS[kind]), False)
                if not okf:
                    continue
                D2 = Den(self.it, D.st, f2)
                D2.uf.update(D.uf)
                spec = self.blocks(D2, lc, rc, lo, ro)
                for i in range(nb):
                    x = D2.edge(D2.it.proj(D2.st, ch, ("i", num(i))))
                    diff = lin_add(lin_scale(coef, x), lin_scale(wC, spec[i]), num(-1))
                    if not D2.lin_zero(diff):
                        if not all(understood(c) and understood(n) for n, c in diff.items()):
                            raise TooHard(f"block {i} contains terms outside the domain: {showlin(x)}"[:400])
                        return f"block {i} (left operand {lc}, right operand {rc}) is {showlin(x)}, expected {showlin(spec[i])}"
                for X, lvl, k in D2.levels:
                    if lvl is None:
                        continue
                    d = const(psub(lvl, psub(L, ONE)))
                    if lvl is not psub(L, ONE) and f2.decide(beq(lvl, psub(L, ONE))) is not True:
                        if d is not None and k == "m" and d > 0:
                            continue
                        if d is None and not understood(lvl):
                            raise TooHard("level of recursion: " + show(lvl))
                        return f"recursive call {show(X)[:120]} runs at level {show(lvl)} inside level {show(L)}"
        return None

    def denotes(self, D, v, L, log, node_spec=None):
        """does edge value v denote the spec?  node_spec: compare on unit-weight operands (lo, ro)"""
        lo = ro = None
        if node_spec is not None:
            lo, ro = node_spec
        spec = self.top(D) if node_spec is None else self.top_of(D, lo, ro)
        R = D.edge(v)
        if D.same(R, spec):
            return None
        why = None
        if L is not None:
            for C in [e.res for e in log if e.kind == "call" and e.name in MAKE][::-1]:
                nC, wC = D.rep(D.N(C)), D.W(C)
                if set(R) == {nC}:
                    cands = [R[nC]]
                elif not R:
                    cands = [p for p in D.zeros if wC in atoms(p)] + [lit.args[0] for lit, val in D.facts.order
                                                                    if val and lit.op == "az" and wC in atoms(lit.args[0])]
                else:
                    continue
                for c in cands:
                    w = self.matches_block(D, C, c, L, lo, ro)
                    if w is None:
                        return None
                    why = why or w
        if not R:
            for X in [e.res for e in log if e.kind == "call"]:
                if not isinstance(X, T) or X.op != "call":
                    continue
                d = D.call(X)
                if d is None:
                    continue
                for p in D.zeros:
                    if D.W(X) in atoms(p):
                        if D.same(lin_scale(pdiv(p, D.W(X)), d), spec):
                            return None
        if why is None:
            bad = {**R, **spec}
            if not all(understood(c) and understood(n) for n, c in bad.items()):
                raise TooHard("result outside the domain: " + showlin(R)[:300])
            why = f"result denotes {showlin(R)}, expected {showlin(spec)}"
        return why

    def top_of(self, D, lo, ro):
        if self.kind == "add":
            return lin_add(D.edge(lo), D.edge(ro))
        return D.bil("P", D.edge(lo), D.edge(ro), left_only=self.rk == "v")


def showlin(d):
    if not d:
        return "0"
    return " + ".join(f"({show(c)})*N[{show(n)}]" for n, c in d.items())[:700]
