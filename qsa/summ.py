"""Evaluation of extracted summaries.  A function's paths (conditions, recursive calls, buffer
writes, loop step relations), extracted once by the abstract interpreter for arbitrary
arguments, form a system of recurrences; here the recurrences are unfolded for diagrams of a
given shape with symbolic weights.  Nothing of the analysed program is executed."""
from .cxev import Ref
from .terms import *


class Und(Exception):
    pass


class Node:
    def __init__(self, v, children=()):
        self.v, self.children = v, list(children)


class Edge:
    def __init__(self, w, n):
        self.w, self.n = w, n


class Buf:
    def __init__(self, size, cls):
        self.size, self.cls, self.mem = size, cls, {}


class Arr:
    """a dense array held by value (Eigen vector / matrix)"""

    def __init__(self, dims, mem):
        self.dims, self.mem = dims, mem


class Cell:
    """address of an entry of a buffer / an out parameter"""

    def __init__(self):
        self.val = None


class Summ:
    def __init__(self, it, terminals, limit=200000):
        self.it, self.terminals, self.limit = it, terminals, limit
        self.cache = {}
        self.steps = 0

    # ------------------------------------------------------------ values
    def ev(self, t, B):
        if isinstance(t, tuple):
            return [self.ev(x, B) for x in t]
        if not isinstance(t, T):
            return t
        if t in B:
            return B[t]
        r = self._ev(t, B)
        B[t] = r
        return r

    def _num(self, x, t=None):
        if isinstance(x, T):
            return x
        raise Und(f"not a number: {show(t)[:100] if t is not None else x}")

    def _int(self, x):
        c = cint(x) if isinstance(x, T) else None
        if c is None:
            raise Und("integer expected: " + (show(x)[:100] if isinstance(x, T) else str(x)))
        return c

    def _ev(self, t, B):
        op = t.op
        if op == "poly":
            r = ZERO
            for m, c in t.args[0]:
                q = num(c)
                for a, e in m:
                    b = self._num(self.ev(a, B), a) if a is not I else I
                    q = pmul(q, ppow(b, e) if e > 0 else ppow(pinv(b), -e))
                r = padd(r, q)
            return r
        if op == "f":
            b = self.ev(t.args[0], B)
            if isinstance(b, (Edge, Node)):
                return getattr(b, t.args[1])
            if isinstance(b, dict) and t.args[1] in b:
                return b[t.args[1]]
            raise Und("field of " + show(t.args[0])[:120])
        if op == "deref":
            b = self.ev(t.args[0], B)
            if isinstance(b, (Node, Edge, Buf)):
                return b
            raise Und("deref of " + show(t.args[0])[:120])
        if op == "hv" and isT(t.args[1], "deref"):
            # memory at the head of a loop that writes through pointers: buffers are tracked by
            # identity here, diagram objects are never written (write() refuses)
            return self.ev(t.args[1], B)
        if op == "idx":
            b = self.ev(t.args[0], B)
            k = self._int(self.ev(t.args[1], B))
            if isinstance(b, list):
                if 0 <= k < len(b):
                    return b[k]
                raise Und("index outside")
            if isinstance(b, (Buf, Arr)):
                if k not in b.mem:
                    raise Und(f"unwritten entry {k}")
                return b.mem[k]
            raise Und("index of " + show(t.args[0])[:120])
        if op == "elem":
            b = self.ev(t.args[0], B)
            k = B.get(mk("hv", t.args[1], "rangeidx"))
            if isinstance(b, list) and isinstance(k, T) and 0 <= cint(k) < len(b):
                return b[cint(k)]
            raise Und("element of " + show(t.args[0])[:120])
        if op == "store":
            try:
                b = self.ev(t.args[0], B)
            except Und:
                if not isT(t.args[0], "idx"):
                    raise
                o = self.ev(t.args[0].args[0], B)
                k = self._int(self.ev(t.args[0].args[1], B))
                if not isinstance(o, Arr) or k in o.mem:
                    raise
                b = Arr(None, {})
            k = self._int(self.ev(t.args[1], B))
            x = self.ev(t.args[2], B)
            if isinstance(b, Arr):
                return Arr(b.dims, {**b.mem, k: x})
            if isinstance(b, list) and 0 <= k < len(b):
                return b[:k] + [x] + b[k + 1:]
            raise Und("store into " + show(t.args[0])[:120])
        if op == "make" and isinstance(t.args[0], str) and t.args[0].startswith("Eigen::"):
            return Arr([self._int(self.ev(x, B)) for x in t.args[1]], {})
        if op == "fill":
            return [self.ev(t.args[0], B)] * self._int(self.ev(t.args[1], B))
        if op == "addr":
            if "terminalNode" in show(t):
                for k, n in self.terminals.items():
                    if k in show(t):
                        return n
            raise Und(show(t)[:120])
        if op in ("eq", "lt", "le", "eq0", "not", "az", "isempty", "has"):
            return mk("true") if self.truth(t, B) else mk("false")
        if op == "pow2":
            return num(Fraction(2) ** self._int(self.ev(t.args[0], B)))
        if op in ("idiv", "mod", "shr", "shl", "band", "bor", "bxor", "bit"):
            a, b = (self._int(self.ev(x, B)) for x in t.args)
            if op in ("idiv", "mod"):
                if b == 0:
                    raise Und("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return num(q if op == "idiv" else a - b * q)
            return num({"shr": lambda: a >> b, "shl": lambda: a << b, "band": lambda: a & b, "bor": lambda: a | b,
                        "bxor": lambda: a ^ b, "bit": lambda: (a >> b) & 1}[op]())
        if op in ("log2",):
            k = self._int(self.ev(t.args[0], B))
            if k > 0 and k & (k - 1) == 0:
                return num(k.bit_length() - 1)
            raise Und("log2")
        if op in ("re", "im"):
            x = self.ev(t.args[0], B)
            c = re_im(x) if isinstance(x, T) else None
            if c is not None:
                return num(c[0] if op == "re" else c[1])
            return mk(op, self._num(x))
        if op == "vec":
            return [self.ev(x, B) for x in t.args[0]]
        if op == "resize":
            x, k = self.ev(t.args[0], B), self._int(self.ev(t.args[1][0], B))
            if not isinstance(x, list) or k < 0 or k > 1 << 20:
                raise Und("resize")
            return x[:k] + [self.ev(t.args[1][1], B)] * (k - len(x))
        if op == "sumof":
            xs = self.ev(t.args[0], B)
            if not isinstance(xs, list):
                raise Und("sum of " + show(t.args[0])[:100])
            r = ZERO
            for x in xs:
                r = padd(r, self._num(x))
            return r
        if op == "rev" and isinstance(self.ev(t.args[0], B), list):
            return self.ev(t.args[0], B)[::-1]
        if op == "push":
            return list(self.ev(t.args[0], B)) + [self.ev(t.args[1], B)]
        if op == "size":
            x = self.ev(t.args[0], B)
            if isinstance(x, list):
                return num(len(x))
            raise Und("size")
        if op in ("true", "false", "null", "str"):
            return t
        if op == "sqrt" or op == "mag2":
            return mk(op, self._num(self.ev(t.args[0], B)))
        if op == "rec":
            return {n: self.ev(x, B) for n, x in t.args[1]}
        raise Und(show(t)[:160])

    def truth(self, t, B):
        if t.op == "true":
            return True
        if t.op == "false":
            return False
        if t.op == "not":
            return not self.truth(t.args[0], B)
        if t.op in ("lt", "le", "eq0"):
            c = const(self._num(self.ev(t.args[0], B)))
            if c is None:
                x = self.ev(t.args[0], B)
                if t.op == "eq0" and not any(a.op not in ("sym", "poly") for a in atoms(x)):
                    return False        # generic symbolic weights
                raise Und("undecided condition " + show(t)[:100])
            return {"lt": c < 0, "le": c <= 0, "eq0": c == 0}[t.op]
        if t.op == "eq":
            a, b = self.ev(t.args[0], B), self.ev(t.args[1], B)
            if isinstance(a, (Node, Buf, Edge, Cell)) or isinstance(b, (Node, Buf, Edge, Cell)):
                return a is b
            if a is b:
                return True
            ca, cb = const(a) if isinstance(a, T) else None, const(b) if isinstance(b, T) else None
            if ca is not None and cb is not None:
                return ca == cb
            raise Und("undecided equality " + show(t)[:100])
        if t.op == "az":
            x = self.ev(t.args[0], B)
            return x is ZERO
        if t in B and isinstance(B[t], T) and B[t].op in ("true", "false"):
            return B[t] is mk("true")
        raise Und("undecided condition " + show(t)[:100])

    # ------------------------------------------------------------ summaries
    def summary(self, f):
        if f["id"] not in self.cache:
            n0 = len(self.it.loops)
            ps = [sym(f["name"] + "#" + str(i)) for i in range(len(f["ps"]))]
            this = sym(f["name"] + "#this")
            kw = {"this": this} if f.get("cls") and not f.get("static") else {}
            rs = [r for r in self.it.run(f, ps, **kw)]
            self.cache[f["id"]] = (ps, this, rs)
        return self.cache[f["id"]]

    def by_name(self, qn, nargs=None):
        fs = self.it.by_qn.get(qn) or []
        if len(fs) == 1:
            return fs[0]
        fs = [f for f in fs if nargs is None or len(f["ps"]) == nargs]
        return fs[0] if len(fs) == 1 else None

    def call(self, f, args, this=None):
        """run the summary of f; returns (value, out parameters {i: Cell value}, this)"""
        self.steps += 1
        if self.steps > self.limit:
            raise Und("unfolding limit")
        ps, th, rs = self.summary(f)
        B0 = dict(zip(ps, args))
        if this is not None:
            B0[th] = this
        st = [r for r in rs if r[0] == "ret"]
        if len(st) != len([r for r in rs if r[0] != "abort"]):
            st = rs
        return self.select(st, B0, 0, lambda r: r[2])

    def feasible(self, s, B):
        """False if a condition is false, None if some cannot be evaluated yet"""
        r = True
        for c, val in s.facts.order:
            try:
                if self.truth(c, B) != val:
                    return False
            except Und:
                r = None
        return r

    def select(self, rs, B0, skip, state):
        """exactly one path applies: process it"""
        cands = []
        for r in rs:
            f = self.feasible(state(r), dict(B0))
            if f is not False:
                cands.append((r, f))
        sure = [r for r, f in cands if f is True]
        if len(sure) == 1 and len(cands) == 1:
            return self.process(sure[0], dict(B0), skip)
        # conditions that depend on what the path computes
        good = []
        for r, f in cands:
            snap = self.snapshot()
            B = dict(B0)
            try:
                res = self.process(r, B, skip)
            except Und:
                self.restore(snap)
                if len(cands) == 1:
                    raise
                raise
            if self.feasible(state(r), B) is not False:
                good.append((res, self.snapshot()))
            self.restore(snap)
        if len(good) != 1:
            raise Und(f"{len(good)} applicable paths")
        self.restore(good[0][1])
        return good[0][0]

    def snapshot(self):
        return [(b, dict(b.mem)) for b in self.bufs]

    def restore(self, snap):
        self.bufs = [b for b, _ in snap]
        for b, m in snap:
            b.mem = dict(m)

    bufs = ()

    def process(self, r, B, skip):
        tag, v, s = r
        if tag != "ret":
            raise Und("path ends by " + tag)
        outs = self.events(s.log[skip:], B)
        return (self.ev(v, B) if isinstance(v, T) and v.op != "none" else None), outs, B

    def events(self, log, B):
        outs = {}
        inner = 0
        for e in log:
            if e.kind == "loop":
                self.loop(e.x, B)
            elif e.kind == "loopend":
                pass
            elif e.kind == "new":
                b = Buf(self._int(self.ev(e.args[0], B)) if e.args and isinstance(e.args[0], T) else None, e.name)
                self.bufs = list(self.bufs) + [b]
                B[e.res] = b
            elif e.kind == "delete":
                self.on_delete(e, B)
            elif e.kind == "write":
                self.write(e, B, outs)
            elif e.kind == "call":
                self.subcall(e, B)
            elif e.kind in ("out", "vecidx", "dtor", "mapidx", "clear"):
                pass
            else:
                raise Und("event " + e.kind)
        return outs

    def on_delete(self, e, B):
        pass

    def subcall(self, e, B):
        if "operator<<" in e.name or "ostream" in e.name or "Eigen" in e.name:
            return
        if e.name.endswith("__assert_fail"):
            raise Und("assertion")
        av = list(e.args)
        f = self.by_name(e.name)
        if f is None:
            fs = self.it.by_qn.get(e.name) or []
            fs = [g for g in fs if len(g["ps"]) == len(av)]
            f = fs[0] if len(fs) == 1 else None
        if f is None:
            raise Und("call of " + e.name)
        this = None
        if f.get("cls") and not f.get("static"):
            this = self.ev(av[0], B)
            av = av[1:]
        vals = []
        cells = {}
        for i, a in enumerate(av):
            if isinstance(a, T) and a.op == "addr":
                c = Cell()
                cells[i] = c
                vals.append(c)
            else:
                vals.append(self.ev(a, B))
        v, outs, _ = self.call(f, vals, this)
        B[e.res] = v
        for i, c in cells.items():
            B[mk("after", e.name, i, e.res)] = c.val

    def write(self, e, B, outs):
        root, path = e.x
        if root[0] == "h":
            p = self.ev(root[1], B)
            val = self.ev(e.res, B)
            if isinstance(p, Cell) and not path:
                p.val = val
                return
            if isinstance(p, Buf):
                k = 0
                for st in path:
                    if st[0] == "i":
                        k = self._int(self.ev(st[1], B))
                    else:
                        raise Und("write to a part of an entry")
                p.mem[k] = val
                return
        raise Und("write " + str(root)[:100])

    def loop(self, rec, B):
        heads = {}
        for r, h in rec.head.env.items():
            o = rec.entry.env.get(r)
            if h is o or not isinstance(h, T) or not isinstance(o, T):
                continue
            heads[r] = h
        cur = {}
        for r, h in heads.items():
            o = rec.entry.env[r]
            try:
                cur[r] = self.ev(o, B)
            except Und:
                cur[r] = None
        k = len(rec.head.log)
        n = 0
        known = set(B)
        rng = None
        if rec.range is not None:
            rng = self.ev(self.it.read(rec.entry.copy(), rec.range), dict(B))
            if not isinstance(rng, list):
                raise Und("range of the loop")
            more = {c for tag, v, s in rec.steps for c, _ in s.facts.order if c.op == "more" and c.args[0] == rec.id}
        while True:
            n += 1
            self.steps += 1
            if n > 4096 or self.steps > self.limit:
                raise Und("loop bound")
            Bi = {a: b for a, b in B.items() if a in known}
            for r, h in heads.items():
                if cur[r] is not None:
                    Bi[h] = cur[r]
            if rng is not None:
                Bi[mk("hv", rec.lid, "rangeidx")] = num(n - 1)
                for c in more:
                    Bi[c] = mk("true" if n <= len(rng) else "false")
            steps = []
            for tag, v, s in rec.steps:
                f = self.feasible(s, Bi.copy())
                if f is not False:
                    steps.append((tag, v, s, f))
            if not steps:
                break
            # conditions evaluated before the body's computations decide entry
            live = []
            for tag, v, s, f in steps:
                if tag not in ("next", "continue"):
                    raise Und("loop left by " + tag)
                snap = self.snapshot()
                B2 = dict(Bi)
                self.events(s.log[k:], B2)
                if self.feasible(s, B2) is not False:
                    live.append((s, B2, self.snapshot()))
                self.restore(snap)
            if not live:
                break
            if len(live) != 1:
                raise Und("several loop steps apply")
            s, B2, snap = live[0]
            self.restore(snap)
            nxt = {}
            for r in heads:
                x = s.env.get(r)
                try:
                    nxt[r] = self.ev(x, B2) if isinstance(x, T) else None
                except Und:
                    nxt[r] = None
            cur = nxt
        if rng is not None:
            for c in more:
                B[c] = mk("false")
        for r, h in heads.items():
            if cur[r] is not None:
                B[h] = cur[r]
                for t in [t for t in B if t is not h and h in atoms(t)]:
                    del B[t]
