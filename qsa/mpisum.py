"""Distributed routines, analysed as a system of processes.  The paths of a routine, extracted once by the
abstract interpreter for arbitrary rank and arguments, are unfolded for every process of a world of given size;
message passing is modelled (posting, matching by source and tag, completion when waited for, collectives as
meetings of all processes), everything else the routines call is a symbol or its own contract.  Nothing of the
analysed program is executed."""
import threading, cmath, math, random
from fractions import Fraction
from .cxev import Interp, Ref, is_ref_t, const_ref_t
from .summ import Summ, Und, Node, Edge, Cell, Buf
from .terms import *

MP = "boost::mpi::"
COLL = {"broadcast": 1, "all_reduce": None, "reduce": None, "gather": None, "all_gather": None, "scatter": None, "barrier": None}


class Stop(Exception):
    """the other processes cannot go on"""


class Problem(Exception):
    def __init__(self, kind, where, what):
        self.kind, self.where, self.what = kind, where, what


# ------------------------------------------------------------ values
class Tok:
    """a value that is only passed on"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class St:
    """a state (part of a vector): weight and node of one origin"""

    def __init__(self, key):
        self.key = key
        self.w = sym("W<%s>" % (key,))
        self.n = Tok("N<%s>" % (key,))
        self.n.of = self


class Gate:
    def __init__(self, what):
        self.what = what


class Blk:
    def __init__(self, gate, r, c):
        self.gate, self.r, self.c = gate, r, c


class Lin(St):
    """a sum of products {(gate, row, column, state key): how often}"""

    def __init__(self, terms, key):
        St.__init__(self, key)
        self.terms = terms


class Table:
    """record form of a node"""

    def __init__(self, n):
        self.n = n


class Got:
    """what a receive delivers; not there before it is complete"""

    def __init__(self, what):
        self.what, self.done, self.val = what, False, None


class Req:
    def __init__(self, kind, rank, line, root=None, got=None, msg=None):
        self.kind, self.rank, self.line, self.root, self.got, self.msg = kind, rank, line, root, got, msg
        self.done = False


class Msg:
    def __init__(self, src, dst, tag, typ, val, line):
        self.src, self.dst, self.tag, self.typ, self.val, self.line = src, dst, tag, typ, val, line
        self.taken = False


class World:
    def __init__(self, size):
        self.size = size
        self.queue, self.posted = [], []
        self.colls = []            # per meeting {rank: entry}
        self.problems = []
        self.lock = threading.Condition()
        self.turn = 0
        self.wait = {}             # rank -> (predicate, what it waits for)
        self.done = set()
        self.dead = False

    # --- cooperative scheduling: exactly one process runs
    def pass_on(self, me):
        n = self.size
        for d in range(1, n + 1):
            r = (me + d) % n
            if r not in self.done and (r not in self.wait or self.wait[r][0]()):
                self.turn = r
                self.lock.notify_all()
                return
        if len(self.done) < n:
            ws = {r: w for r, (_, w) in self.wait.items()}
            kind = "collective" if any("collective" in w for w in ws.values()) else "deadlock"
            what = "; ".join("process %d of %d waits in %s" % (r, n, w) for r, w in sorted(ws.items()))
            if self.done:
                what += "; process %s is through" % ", ".join(map(str, sorted(self.done)))
            self.problems.append(Problem(kind, None, "no process can go on: " + what))
            self.dead = True
            self.lock.notify_all()

    def block(self, me, pred, why):
        if pred():
            return
        with self.lock:
            self.wait[me] = (pred, why)
            self.pass_on(me)
            while not self.dead and not (self.turn == me and pred()):
                self.lock.wait()
            if self.dead:
                raise Stop()
            del self.wait[me]

    def run(self, jobs):
        """jobs[r]() for every process; -> results, None where it did not get through"""
        res = [None] * self.size
        errs = []

        def body(r):
            with self.lock:
                while not self.dead and self.turn != r:
                    self.lock.wait()
            try:
                if not self.dead:
                    res[r] = jobs[r]()
            except Stop:
                pass
            except Problem as p:
                self.problems.append(p)
                self.dead = True
            except BaseException as x:
                errs.append(x)
                self.dead = True
            with self.lock:
                self.done.add(r)
                self.wait.pop(r, None)
                if self.dead:
                    self.lock.notify_all()
                else:
                    self.pass_on(r)
        old = threading.stack_size(64 * 1024 * 1024)
        try:
            ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
            for t in ts:
                t.start()
        finally:
            threading.stack_size(old)
        for t in ts:
            t.join()
        if errs and not self.problems:
            raise errs[0]
        return res

    # --- messages
    def post(self, m):
        for p in self.posted:
            if (p[0], p[1], p[2]) == (m.dst, m.src, m.tag):
                self.posted.remove(p)
                return self.match(m, p)
        self.queue.append(m)

    def expect(self, p):
        for m in self.queue:
            if (p[0], p[1], p[2]) == (m.dst, m.src, m.tag):
                self.queue.remove(m)
                return self.match(m, p)
        self.posted.append(p)

    def match(self, m, p):
        if m.typ != p[4]:
            raise Problem("message", p[5], "a message of type %s (line %s) is received as %s" % (m.typ, m.line, p[4]))
        m.taken = True
        p[3].done, p[3].val = True, m.val

    def meet(self, rank, k, kind, root, typ, op, val, line):
        """the k-th collective of this process; -> values by rank"""
        while len(self.colls) <= k:
            self.colls.append({})
        c = self.colls[k]
        for o in c.values():
            for i, what in ((0, "kind"), (1, "root"), (2, "type"), (3, "operation")):
                if o[i] != (kind, root, typ, op)[i]:
                    raise Problem("collective", line, "processes meet in different exchanges: %s (line %s) and %s" % (
                        desc(*o[:4]), o[5], desc(kind, root, typ, op)))
        if root is not None and not 0 <= root < self.size:
            raise Problem("collective", line, "root %d of %d processes" % (root, self.size))
        c[rank] = (kind, root, typ, op, val, line)
        self.block(rank, lambda: len(c) == self.size, "collective %s, line %s" % (kind, line))
        return {r: x[4] for r, x in c.items()}


def desc(kind, root, typ, op):
    return kind + (" from %s" % root if root is not None else "") + (" of " + typ if typ else "") + (" (%s)" % op if op else "")


def numeric(t, env):
    """float value of a term"""
    if isinstance(t, (int, float, Fraction)):
        return complex(float(t))
    if not isinstance(t, T):
        raise Und("number expected")
    c = const(t)
    if c is not None:
        return complex(float(c))
    if t is I:
        return 1j
    if t.op == "sym":
        if t not in env:
            h = random.Random(t.args[0] if isinstance(t.args[0], str) else show(t))
            env[t] = complex(h.uniform(0.5, 2), h.uniform(0.5, 2))
        return env[t]
    if t.op == "poly":
        r = 0
        for m, c in t.args[0]:
            q = complex(float(c))
            for a, e in m:
                q *= numeric(a, env) ** e
            r += q
        return r
    if t.op == "sqrt":
        return cmath.sqrt(numeric(t.args[0], env))
    if t.op == "mag2":
        x = numeric(t.args[0], env)
        return (x * x.conjugate())
    if t.op == "inv":
        return 1 / numeric(t.args[0], env)
    if t.op in ("cos", "sin"):
        return getattr(cmath, t.op)(numeric(t.args[0], env))
    raise Und("number: " + show(t)[:80])


def bare(t):
    t = (t or "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t[6:].strip() if t.startswith("const ") else t


def strv(x):
    """text as a tuple of parts"""
    if isinstance(x, tuple) and x and x[0] == "str":
        return x
    if isinstance(x, T) and x.op == "str":
        return ("str",) + tuple(x.args[0] if x.args else "")
    if isinstance(x, T) and cint(x) is not None:
        return ("str", chr(cint(x)))
    if isinstance(x, Tok):
        return ("str", x.name)
    raise Und("text")


class Proc(Summ):
    """one process"""

    def __init__(self, it, world, rank, contracts, total=None, us=(), zero=False):
        Summ.__init__(self, it, {})
        self.world, self.rank, self.contracts, self.total = world, rank, contracts, total
        self.us, self.nu = list(us), 0
        self.k = 0
        self.reqs = []
        self.zero = zero
        self.data = {}
        self.skip = set()
        self.trace = []

    # ---------------------------------------------------------------- values
    def ev(self, t, B):
        r = Summ.ev(self, t, B)
        if isinstance(r, Got):
            if not r.done:
                raise Problem("message", None, "%s is read before it is complete" % r.what)
            return r.val
        return r

    def top(self, t, B):
        if isinstance(t, T) and t in B:
            return B[t]
        return self.ev(t, B)

    def state(self, x):
        """a state from its parts"""
        if isinstance(x, St):
            return x
        if isinstance(x, dict) and set(x) == {"w", "n"}:
            n = x["n"]
            if isinstance(n, Tok) and isinstance(getattr(n, "of", None), St):
                if x["w"] is n.of.w:
                    return n.of
                if isinstance(x["w"], T) and isinstance(n.of, St):
                    o = [a for a in atoms(x["w"]) if a.op == "sym" and str(a.args[0]).startswith("W<")]
                    if any(a is not n.of.w for a in o):
                        raise Problem("value", None, "the weight of one process is combined with the node of another")
                s = Scaled(n.of, x["w"])
                return s
        raise Und("state value")

    def _ev(self, t, B):
        op = t.op
        if op == "f":
            b = self.ev(t.args[0], B)
            nm = t.args[1]
            if isinstance(b, tuple) and b and b[0] == "pair" and nm in ("first", "second"):
                return b[1 if nm == "first" else 2]
            if isinstance(b, St) and nm in ("w", "n"):
                return getattr(b, nm)
            if isinstance(b, dict) and nm in b:
                return b[nm]
            if isinstance(b, Tok) and nm == "v" and self.total is not None:
                return num(self.total - self.world.size.bit_length())
            if isinstance(b, Tok) and b.name == "mat" or isinstance(b, Gate):
                return Tok("field")
            if isinstance(b, Tok):
                raise Und("field %s of %s" % (nm, b.name))
        if op == "pair":
            return ("pair", self.ev(t.args[0], B), self.ev(t.args[1], B))
        if op == "deref":
            b = self.ev(t.args[0], B)
            if isinstance(b, (St, Tok)):
                return b
        if op in ("deflt", "glob", "emptymap", "emptyset", "undef"):
            return Tok("empty" if op != "glob" else show(t))
        if op == "make":
            if "distribution" in str(t.args[0]):
                return ("dist", t.args[0], [self.ev(x, B) for x in t.args[1]])
            if str(t.args[0]).startswith(("std::basic_string<", "std::__cxx11::basic_string<")):
                return self.text(t, B)
            if str(t.args[0]).startswith("std::vector") and not t.args[1]:
                return []
            return Tok(show(t)[:60])
        if op == "concat":
            a, b = self.ev(t.args[0], B), self.ev(t.args[1], B)
            return strv(a) + strv(b)[1:]
        if op == "mapall":
            xs = self.ev(t.args[0], B)
            if not isinstance(xs, list):
                raise Und("transformed sequence")
            out = []
            for x in xs:
                B2 = dict(B)
                B2[t.args[1]] = x
                out.append(self.ev(t.args[2], B2))
            return out
        if op == "vinsert":
            v, r = self.ev(t.args[0], B), t.args[1]
            pos = itpos(r[0])
            src = [itpos(x) for x in r[1:]]
            if pos is None or len(src) != 2 or None in src or not isinstance(v, list):
                raise Und("insertion: " + show(t)[:200])
            if isT(pos, "size") and self.ev(pos.args[0], B) is v:
                k = len(v)
            else:
                k = self._int(self.ev(pos, B))
            xs = self.itsrc(r[1], B)
            i, j = (self._int(self.ev(x, B)) for x in src)
            return v[:k] + xs[i:j] + v[k:]
        if op == "mapget" and "probs" in show(t.args[0]):
            n = self.ev(t.args[1], B)
            return self.data["Q"][n.of.key]
        if op == "mag2":
            x = self.ev(t.args[0], B)
            if isinstance(x, T) and x.op == "sym" and x in self.data.get("M", {}):
                return self.data["M"][x]
            c = const(x) if isinstance(x, T) else None
            if c is not None:
                return num(c * c)
            return mk("mag2", self._num(x))
        if op == "inv":
            x = self._num(self.ev(t.args[0], B))
            if const(x) == 0:
                raise Problem("value", None, "division by zero")
            return pinv(x)
        if op == "log2":
            k = self.ev(t.args[0], B)
            c = cint(k) if isinstance(k, T) else None
            if c is None or c <= 0:
                raise Und("log2")
            if c & (c - 1):
                raise Und("log2 of %d" % c)
            return num(c.bit_length() - 1)
        if op == "arr":
            return [self.ev(x, B) for x in t.args[0]]
        if op in ("none", "fn", "closure"):
            return Tok(op)
        if op == "addr":
            return Tok(show(t)[:60])
        if op == "ite":
            return self.ev(t.args[1] if self.truth(t.args[0], B) else t.args[2], B)
        return Summ._ev(self, t, B)

    def itsrc(self, t, B):
        while isinstance(t, T) and t.op == "make" and len(t.args[1]) == 1:
            t = t.args[1][0]
        x = B.get(t)
        if isinstance(x, list):
            return x
        lv = (t.args[0], t.args[1][:-1])
        r = self.here.env.get(lv[0]) if lv[0][0] in ("v", "t") else None
        if isinstance(r, Ref):
            lv = (r.lv[0], r.lv[1] + lv[1])
        x = self.ev(self.it.read(self.here.copy(), lv), B)
        if not isinstance(x, list):
            raise Und("inserted sequence")
        return x

    def text(self, t, B):
        a = [self.ev(x, B) for x in t.args[1]]
        if len(a) == 2 and isinstance(a[0], T) and isinstance(a[1], T) and cint(a[0]) is not None:
            return ("str",) + (chr(cint(a[1])),) * cint(a[0])
        if not a:
            return ("str",)
        raise Und("text")

    def truth(self, t, B):
        if t.op == "has":
            return self.data.get("known", False)
        if t.op == "isempty":
            x = self.ev(t.args[0], B)
            if isinstance(x, list):
                return not x
            if isinstance(x, tuple) and x and x[0] == "str":
                return len(x) == 1
        if t.op == "eq":
            a, b = self.ev(t.args[0], B), self.ev(t.args[1], B)
            if isinstance(a, Tok) or isinstance(b, Tok):
                n = a if hasattr(a, "of") else b if hasattr(b, "of") else None
                m = [x for x in (a, b) if x is not n and isinstance(x, Tok)]
                if n is not None and m and not hasattr(m[0], "of") and "terminal" in m[0].name:
                    return n.of.key in self.env.zeros
                raise Und("comparison")
        if t.op in ("sym", "poly"):
            x = self.ev(t, B)
            if isT(x, "true") or isT(x, "false"):
                return x.op == "true"
            c = const(x) if isinstance(x, T) else None
            if c is not None:
                return c != 0
        return Summ.truth(self, t, B)

    # ---------------------------------------------------------------- steps
    def follow(self, cands, B, k):
        """the one path that applies, its events processed from position k; -> (tag, value, state) or None"""
        sure_ = {}
        while True:
            now = dict(sure_)
            cands = [c for c in cands if self.feas(c[2], B, now) is not False]
            sure_ = {c: x for c, x in now.items() if x is not None}
            if not cands:
                return None
            end = [c for c in cands if len(c[2].log) <= k]
            if len(end) == len(cands):
                sure = [c for c in cands if self.feas(c[2], B) is True]
                if len(cands) == 1 and len(sure) == 1:
                    return cands[0]
                if len(cands) > 1:
                    if len({c[1] for c in cands}) == 1 and len({c[0] for c in cands}) == 1 and all(c[0] != "next" for c in cands):
                        return cands[0]
                    raise Und("%d paths apply" % len(cands))
                raise Und("conditions of the path: " + "; ".join(show(c)[:80] for c, v in cands[0][2].facts.order if self.one(c, v, B) is None)[:200])
            if end:
                raise Und("paths of different length apply")
            evs = {id(c[2].log[k]): c[2].log[k] for c in cands}
            if len(evs) > 1:
                e0 = list(evs.values())
                if len({(e.kind, e.line, e.name) for e in e0}) == 1 and e0[0].kind in ("out", "dtor", "set", "vecidx", "mapidx"):
                    for e in e0:
                        self.event1(e, B)
                    k += 1
                    continue
                raise Und("undecided branch before line %s: %s" % (e0[0].line, "; ".join(
                    show(c)[:80] for c, v in cands[0][2].facts.order if self.one(c, v, B) is None)[:200]))
            self.here = cands[0][2]
            e = cands[0][2].log[k]
            if e.kind == "loop":
                sure_ = {}
            if id(e) in self.skip:
                self.skip.discard(id(e))
            else:
                self.event1(e, B)
            k += 1

    def one(self, c, v, B):
        try:
            return self.truth(c, dict(B)) == v
        except (Und, KeyError, AttributeError, TypeError):
            return None

    def feas(self, s, B, memo=None):
        r = True
        for c, v in s.facts.order:
            if memo is None:
                x = self.one(c, v, B)
            else:
                if c not in memo:
                    memo[c] = self.one(c, True, B)
                x = None if memo[c] is None else memo[c] == v
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def select(self, rs, B0, skip, state):
        B = dict(B0)
        r = self.follow(list(rs), B, skip)
        if r is None:
            raise Und("no path applies")
        tag, v, s = r
        if tag == "abort":
            raise Problem("value", None, "an assertion fails")
        if tag != "ret":
            raise Problem("value", None, "it ends by " + tag)
        self.final = (s, B)
        return (self.ev(v, B) if isinstance(v, T) and v.op != "none" else None), {}, B

    def event1(self, e, B):
        if e.kind == "loop":
            self.loop(e.x, B)
        elif e.kind == "call":
            self.subcall(e, B)
        elif e.kind == "new":
            B[e.res] = Buf(None, e.name)
        elif e.kind == "set":
            self.changed(e.x[0], e.line)

    def loop(self, rec, B):
        heads = {}
        for r, h in rec.head.env.items():
            o = rec.entry.env.get(r)
            if h is o or not isinstance(h, T) or not isinstance(o, T):
                continue
            heads[r] = h
        cur = {}
        for r, h in heads.items():
            try:
                cur[r] = self.top(rec.entry.env[r], B)
            except Und:
                cur[r] = None
        k = len(rec.head.log)
        known = set(B)
        rng, more, n = None, set(), 0
        if rec.range is not None:
            rng = self.ev(self.it.read(rec.entry.copy(), rec.range), dict(B))
            if not isinstance(rng, list):
                raise Und("range of the loop")
            more = {c for tag, v, s in rec.steps for c, _ in s.facts.order if c.op == "more" and c.args[0] == rec.id}
        while True:
            n += 1
            self.steps += 1
            if n > 4096 or self.steps > self.limit:
                raise Und("loop bound")
            Bi = {a: b for a, b in B.items() if a in known}
            for r, h in heads.items():
                if cur[r] is not None:
                    Bi[h] = cur[r]
            if rng is not None:
                Bi[mk("hv", rec.lid, "rangeidx")] = num(n - 1)
                for c in more:
                    Bi[c] = mk("true" if n <= len(rng) else "false")
            live = [c for c in rec.steps if self.feas(c[2], Bi) is not False]
            if not any(c[0] in ("next", "continue") for c in live):
                break
            seen = len(self.done_events) if hasattr(self, "done_events") else 0
            mark = []
            got = self.track(live, Bi, k, mark)
            if got is None or got[0] not in ("next", "continue"):
                # what was carried out belongs to the path that goes on behind the loop
                self.skip |= {id(e) for e in mark}
                for a, b in Bi.items():
                    if a not in B:
                        B[a] = b
                break
            s = got[2]
            nxt = {}
            for r in heads:
                x = s.env.get(r)
                try:
                    nxt[r] = self.top(x, Bi) if isinstance(x, T) else None
                except Und:
                    nxt[r] = None
            cur = nxt
        if rng is not None:
            for c in more:
                B[c] = mk("false")
        for r, h in heads.items():
            if cur[r] is not None:
                B[h] = cur[r]
                for t in [t for t in B if t is not h and isinstance(t, T) and h in atoms(t)]:
                    if t.op not in ("after", "call"):
                        del B[t]

    def track(self, cands, B, k, mark):
        keep = self.event1
        depth = [0]

        def note(e, B_):
            if depth[0] == 0:
                mark.append(e)
            depth[0] += 1
            try:
                keep(e, B_)
            finally:
                depth[0] -= 1
        self.event1 = note
        try:
            return self.follow(cands, B, k)
        finally:
            self.event1 = keep

    # ---------------------------------------------------------------- calls
    def arg(self, e, i, B):
        return self.ev(e.args[i], B)

    def soft(self, t, B):
        try:
            return self.ev(t, B)
        except Und:
            return Tok("?" + show(t)[:60] if isinstance(t, T) else "?")

    def changed(self, root, line):
        for r in self.reqs:
            if not r.done and r.root == root:
                raise Problem("message", line, "the buffer of a message started at line %s is changed before the message is complete" % r.line)

    def subcall(self, e, B):
        name = e.name
        short = name.split("::")[-1]
        if name.startswith(MP):
            return self.mpi(e, short, B)
        pt = (e.node.get("f") or {}).get("pt", []) if e.node else []
        for j, v in enumerate(e.x or ()):
            if isinstance(v, Ref) and j < len(pt) and is_ref_t(pt[j]) and not const_ref_t(pt[j]):
                self.changed(v.lv[0], e.line)
        if name.endswith("__assert_fail"):
            raise Problem("value", e.line, "an assertion fails")
        if short == "draw":
            d = self.ev(e.args[0], B)
            if not (isinstance(d, tuple) and d[0] == "dist" and "uniform_real" in d[1]):
                raise Und("distribution")
            a, b = d[2] if d[2] else (num(0), num(1))
            u = self.us[self.nu % len(self.us)]
            self.nu += 1
            B[e.res] = padd(self._num(a), pmul(num(u), padd(self._num(b), pmul(num(-1), self._num(a)))))
            return
        c = self.contracts.get(short)
        if c is not None:
            r = c(self, e, B)
            if r is not NotImplemented:
                B[e.res] = r
                return
        B[e.res] = Tok("%s()" % short)

    def after(self, e, i, v, B):
        B[mk("after", e.name, i, e.res)] = v

    def mpi(self, e, short, B):
        W, me = self.world, self.rank
        pt = e.node["f"]["pt"]
        a = e.args
        cls = name_cls(e.name)
        if short == "rank":
            B[e.res] = num(me)
            return
        if short == "size":
            B[e.res] = num(W.size)
            return
        if short == "barrier":
            W.meet(me, self.meet_no(), "barrier", None, "", None, None, e.line)
            return
        if cls == "communicator" and short in ("send", "isend", "recv", "irecv"):
            if len(pt) != 3:
                raise Und("form of %s" % short)
            o = self._int(self.ev(a[1], B))
            tag = self._int(self.ev(a[2], B))
            if not 0 <= o < W.size:
                raise Problem("message", e.line, "%s with process %d of %d" % (short, o, W.size))
            if tag < 0:
                raise Problem("message", e.line, "%s with tag %d" % (short, tag))
            typ = bare(pt[2])
            buf = e.x[2].lv[0] if isinstance(e.x[2], Ref) else None
            if short in ("send", "isend"):
                m = Msg(me, o, tag, typ, self.soft(a[3], B), e.line)
                W.post(m)
                self.trace.append((short, o, tag, typ))
                if short == "send":
                    W.block(me, lambda: m.taken, "send to %d, line %s" % (o, e.line))
                else:
                    q = Req("send", me, e.line, root=buf, msg=m)
                    self.reqs.append(q)
                    B[e.res] = q
                return
            if buf is not None:
                self.changed(buf, e.line)
            g = Got("the buffer received at line %s" % e.line)
            W.expect((me, o, tag, g, typ, e.line))
            self.after(e, 2, g, B)
            self.trace.append((short, o, tag, typ))
            if short == "recv":
                W.block(me, lambda: g.done, "receive from %d, line %s" % (o, e.line))
            else:
                q = Req("recv", me, e.line, root=buf, got=g)
                self.reqs.append(q)
                B[e.res] = q
            return
        if short == "wait" and cls == "request":
            q = self.ev(a[0], B)
            if not isinstance(q, Req):
                raise Und("request")
            return self.complete([q], e)
        if short == "wait_all":
            return self.complete(self.reqrange(e, B), e)
        if short in COLL:
            return self.coll(e, short, B, pt)
        raise Und("MPI call " + e.name)

    def reqrange(self, e, B):
        if len(e.args) != 2:
            raise Und("form of wait_all")
        lo, hi = e.args
        off = []
        for x in (lo, hi):
            # a plain array: its contents and an offset
            k = 0
            while isT(x, "padd") and len(x.args) == 2:
                k += self._int(self.ev(x.args[1], B))
                x = x.args[0]
            off.append((x, k))
        if off[0][0] is off[1][0] and off[0][0].op in ("arr", "vec", "call", "hv", "store"):
            xs = self.ev(off[0][0], B)
            if not isinstance(xs, list) or not all(isinstance(x, Req) for x in xs):
                raise Und("range of requests")
            return xs[off[0][1]:off[1][1]]
        if not (isT(lo, "addr") and isT(hi, "addr") and lo.args[0] == hi.args[0] and e.snap and lo.args[0] in e.snap):
            raise Und("range of requests")
        xs = self.ev(e.snap[lo.args[0]], B)
        if not isinstance(xs, list) or not all(isinstance(x, Req) for x in xs):
            raise Und("range of requests")
        i, j = (self._int(self.ev(x.args[1][-1][1], B)) for x in (lo, hi))
        return xs[i:j]

    def complete(self, qs, e):
        W = self.world
        for q in qs:
            if q.kind == "send":
                W.block(self.rank, lambda: q.msg.taken, "wait, line %s" % e.line)
            else:
                W.block(self.rank, lambda: q.got.done, "wait, line %s" % e.line)
            q.done = True

    def meet_no(self):
        self.k += 1
        return self.k - 1

    def coll(self, e, kind, B, pt):
        W, me, a = self.world, self.rank, e.args
        n = len(pt)
        if "*" in "".join(pt):
            raise Und("form of " + kind)
        root = op = out = None
        ret = False
        src = 1
        if kind == "broadcast" and n == 3:
            root, out = 2, 1
        elif kind == "all_reduce" and n in (3, 4):
            op, out, ret = (2, None, True) if n == 3 else (3, 2, False)
        elif kind == "reduce" and n in (4, 5):
            op, root, out = (2, 3, None) if n == 4 else (3, 4, 2)
        elif kind == "gather" and n in (3, 4):
            root, out = (2, None) if n == 3 else (3, 2)
        elif kind == "all_gather" and n == 3:
            out = 2
        elif kind == "scatter" and n == 4:
            root, out = 3, 2
        else:
            raise Und("form of " + kind)
        rt = self._int(self.ev(a[root], B)) if root is not None else None
        typ = bare(pt[out] if kind == "scatter" else pt[src])
        opn = bare(pt[op]) if op is not None else None
        if out is not None and isinstance(e.x[out], Ref):
            self.changed(e.x[out].lv[0], e.line)
        v = self.soft(a[src], B) if not (kind == "broadcast" and rt != me) else None
        vals = W.meet(me, self.meet_no(), kind, rt, typ, opn, v, e.line)
        self.trace.append((kind, rt, typ, opn))
        if kind == "broadcast":
            self.after(e, 1, vals[rt], B)
            return
        xs = [vals[r] for r in range(W.size)]
        if kind in ("all_reduce", "reduce"):
            if "plus" in opn:
                r = num(0)
                for x in xs:
                    r = padd(r, self._num(x))
            elif "maximum" in opn or "minimum" in opn:
                cs = [const(self._num(x)) for x in xs]
                if None in cs:
                    raise Und("maximum")
                r = num(max(cs) if "maximum" in opn else min(cs))
            elif "multiplies" in opn:
                r = num(1)
                for x in xs:
                    r = pmul(r, self._num(x))
            else:
                raise Und("reduction by " + opn)
        elif kind == "scatter":
            if not isinstance(xs[rt], list) or len(xs[rt]) < W.size:
                raise Und("scattered values")
            r = xs[rt][me]
        else:
            r = xs
        if ret:
            B[e.res] = r
        elif out is not None and (rt is None or rt == me or kind == "scatter"):
            self.after(e, out, r, B)
        elif out is not None:
            self.after(e, out, self.soft(a[out], B), B)

    # ---------------------------------------------------------------- whole runs
    def finish(self):
        for q in self.reqs:
            if not q.done:
                raise Problem("message", q.line, "the %s started here is never waited for" % ("message" if q.kind == "send" else "receive"))


class Scaled(St):
    def __init__(self, of, w):
        self.of, self.key = of, of.key
        self.w, self.n = w, of.n


def name_cls(qn):
    p = qn.split("::")
    return p[-2] if len(p) > 1 else ""


def itpos(t):
    """offset of an iterator"""
    while isinstance(t, T) and t.op == "make" and len(t.args[1]) == 1:
        t = t.args[1][0]
    if isT(t, "addr") and t.args[1] and t.args[1][-1][0] == "i":
        return t.args[1][-1][1]
    return None


def finish_world(W):
    if W.problems:
        return
    for m in W.queue:
        W.problems.append(Problem("message", m.line, "a message from process %d to %d (tag %d, %d processes) is never received" % (m.src, m.dst, m.tag, W.size)))
        return
