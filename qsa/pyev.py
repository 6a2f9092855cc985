"""Abstract interpretation of the Python layer (qdd/*.py).

Domain: hash-consed terms (value numbering) for everything that is not a source
constant, an abstract heap of lists, dicts, sets and objects, and trace
partitioning on the conditions the source branches on.  Sequences whose length
is not a source constant are never unrolled: a loop over one is analysed once,
for an arbitrary position and an arbitrary value of everything its body
changes (widening to a fresh symbol until nothing new changes), and the loop
is left from that state.  Nothing of the analysed program is executed and no
solver is used; what cannot be interpreted raises TooHard and is reported as
undecided by the checks.
"""
import ast
import builtins
import operator
import os
import re


from .cxev import TooHard


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "h")
    tab = {}

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, T):
        return ("T", id(x))
    if isinstance(x, tuple):
        return ("t",) + tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.h = op, a, len(T.tab)
        T.tab[k] = t
    return t


def same(a, b):
    return _key(a) == _key(b)


def skey(x):
    """deterministic ordering key"""
    return show(x)


_show = {}


def show(x, depth=60):
    if isinstance(x, T):
        r = _show.get(id(x))
        if r is None:
            r = _show1(x)
            _show[id(x)] = r
        return r
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y) for y in x) + ")"
    return repr(x)


def _show1(t):
    if t.op == "ext":
        return t.a[0]
    if t.op == "sym":
        return t.a[0]
    if t.op == "lin":
        s = "+".join((show(x) if c == 1 else "%s*%s" % (c, show(x))) for x, c in t.a[1])
        return s + ("%+d" % t.a[0] if t.a[0] else "")
    if t.op == "idx":
        return "%s[%s]" % (show(t.a[0]), show(t.a[1]))
    if t.op == "attr":
        return "%s.%s" % (show(t.a[0]), t.a[1])
    if t.op == "pos":
        return "p%d" % t.a[0]
    return "%s(%s)" % (t.op, ", ".join(show(y) for y in t.a))


def sym(n):
    return mk("sym", n)


def ext(n):
    if n.startswith("qiskit."):
        last = n.rsplit(".", 1)[-1]
        if last[:1].isupper() or last.endswith("Gate"):
            n = "qiskit:" + last
    return mk("ext", n)


def isext(t, n=None):
    return isinstance(t, T) and t.op == "ext" and (n is None or t.a[0] == n)


def subterms(x, seen=None):
    if seen is None:
        seen = set()
    if isinstance(x, T):
        if id(x) in seen:
            return
        seen.add(id(x))
        yield x
        for y in x.a:
            yield from subterms(y, seen)
    elif isinstance(x, tuple):
        for y in x:
            yield from subterms(y, seen)


def occurs(t, x):
    return any(y is t for y in subterms(x))


def subst(x, m, memo=None):
    """m: dict id(term)->value"""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(subst(y, m, memo) for y in x)
    if not isinstance(x, T):
        return x
    if id(x) in m:
        return m[id(x)]
    r = memo.get(id(x))
    if r is None:
        bs = [y for y in x.a if isinstance(y, T) and y.op == "seq"]
        if bs and x.op != "seq" and len(bs) == 1:
            r = memo[id(x)] = subst_under(x, bs[0], m, memo)
            return r
        na = tuple(subst(y, m, memo) for y in x.a)
        r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[id(x)] = r
    return r


def free_pos(x, bound=frozenset(), out=None):
    out = set() if out is None else out
    if isinstance(x, tuple):
        for y in x:
            free_pos(y, bound, out)
    elif isinstance(x, T):
        if x.op == "pos":
            if x.a[0] not in bound:
                out.add(x.a[0])
            return out
        bs = [y.a[0] for y in x.a if isinstance(y, T) and y.op == "seq"]
        b2 = bound | set(bs) if bs else bound
        for y in x.a:
            free_pos(y, bound if isinstance(y, T) and y.op == "seq" else b2, out)
    return out


def subst_under(x, sq, m, memo):
    """a term that binds the position of sq in its other arguments"""
    d, s = sq.a
    p = mk("pos", d)
    inner = {k: v for k, v in m.items() if k != id(p)}
    args = list(x.a)
    nd = d
    if inner and any(d in free_pos(v) for v in inner.values()):
        nd = d
        used = set().union(*[free_pos(v) for v in inner.values()]) | free_pos(tuple(y for y in args if y is not sq))
        while nd in used:
            nd += 100
        args = [y if y is sq else subst(y, {id(p): mk("pos", nd)}) for y in args]
    im = memo if len(inner) == len(m) and nd == d else {}
    na = tuple(mk("seq", nd, subst(s, m, memo)) if y is sq else (subst(y, inner, im) if inner else y) for y in args)
    return x if all(a is b for a, b in zip(na, x.a)) else rebuild(x.op, na)


def rebuild(op, a):
    if op == "lin":
        r = a[0]
        for x, c in a[1]:
            r = add(r, mul(x, c))
        return r
    if op == "idx":
        return index_term(a[0], a[1])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "not":
        return neg(a[0])
    return mk(op, *a)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def tolin(x):
    if isinstance(x, bool):
        return int(x), {}
    if isnum(x):
        return x, {}
    if isinstance(x, T) and x.op == "lin":
        return x.a[0], {id(t): (t, c) for t, c in x.a[1]}
    return 0, {id(x): (x, 1)}


def fromlin(c0, d):
    items = sorted([(t, c) for t, c in d.values() if c != 0], key=lambda e: skey(e[0]))
    if not items:
        return c0
    if c0 == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c0, tuple(items))


def add(x, y, s=1):
    a0, a = tolin(x)
    b0, b = tolin(y)
    d = dict(a)
    for k, (t, c) in b.items():
        o = d.get(k, (t, 0))[1]
        d[k] = (t, o + s * c)
    return fromlin(a0 + s * b0, d)


def mul(x, y):
    if isnum(x) and isnum(y):
        return x * y
    if isnum(y):
        x, y = y, x
    if isnum(x):
        b0, b = tolin(y)
        return fromlin(b0 * x, {k: (t, c * x) for k, (t, c) in b.items()})
    fs = []
    for z in (x, y):
        fs += list(z.a) if isinstance(z, T) and z.op == "mul" else [z]
    return mk("mul", *sorted(fs, key=skey))


CONST = (int, str, float, bool, type(None), bytes, complex, type(Ellipsis))


def isconst(x):
    return isinstance(x, CONST)


def neg(x):
    if isconst(x):
        return not x
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


class MV:
    """a value of a host model (arrays, operators, circuits, ...): its operations are the model's own"""

    def equals(self, o):
        return self is o

    def compare(self, op, o):
        if op in ("Eq", "NotEq"):
            return bool(self.equals(o)) == (op == "Eq")
        raise TooHard("comparison of %s" % type(self).__name__)


# what a failing host operation says when it is the model that lacks the operation
NOMODEL = re.compile(r"'(T|Ref|H|Fn|Bound|BM|Cls)'|'\w+' object has no attribute|bad operand type for unary|argument of type|unexpected keyword|positional argument|has no len")


def opname(op):
    return {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
            "LShift": "lshift", "RShift": "rshift", "BitAnd": "and_", "BitOr": "or_", "BitXor": "xor", "MatMult": "matmul"}[op]


def eq(a, b):
    if isinstance(a, MV) or isinstance(b, MV):
        return a.equals(b) if isinstance(a, MV) else b.equals(a)
    if same(a, b):
        return True
    if isconst(a) and isconst(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [eq(x, y) for x, y in zip(a, b)]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return conj([r for r in rs if r is not True])
    if isext(a) and isext(b):
        return False
    if isext(a) and isconst(b) or isext(b) and isconst(a):
        return False
    if isinstance(a, T) and isinstance(b, T):
        c0, d = tolin(add(a, b, -1))
        if not [1 for t, c in d.values() if c]:
            return c0 == 0
    elif isinstance(a, tuple) != isinstance(b, tuple) and (isconst(a) or isconst(b)):
        return False
    x, y = sorted((a, b), key=skey)
    return mk("eq", x, y)


def conj(ts):
    out = {}
    for t in ts:
        if t is True:
            continue
        if t is False:
            return False
        for u in (t.a if isinstance(t, T) and t.op == "and" else (t,)):
            out[id(u)] = u
    l = sorted(out.values(), key=skey)
    for t in l:
        n = neg(t)
        if isinstance(n, T) and id(n) in out:
            return False
    if not l:
        return True
    return l[0] if len(l) == 1 else mk("and", *l)


def disj(ts):
    return neg(conj([neg(t) for t in ts]))


def index_term(o, k):
    """o[k] for terms"""
    while isinstance(o, T) and o.op == "store":
        e = eq(o.a[1], k)
        if e is True:
            return o.a[2]
        if e is False:
            o = o.a[0]
            continue
        break
    if isinstance(o, T):
        if o.op == "rep":
            return o.a[0]
        if o.op in ("map", "dictmap") and not (o.op == "dictmap" and not ispos(o.a[1])):
            p = o.a[1] if o.op == "dictmap" else None
            v = o.a[-1]
            d = depth_of(o)
            return subst(v, {id(mk("pos", d)): k})
        if o.op == "list" and isinstance(k, int) and not isinstance(k, bool):
            if -len(o.a) <= k < len(o.a):
                return o.a[k]
        if o.op == "slice" and o.a[3] is None and isnum(o.a[1]) and isnum(k) \
                and o.a[1] >= 0 and k >= 0:
            return index_term(o.a[0], o.a[1] + k)
        if o.op == "dict":
            for kk, vv in o.a:
                e = eq(kk, k)
                if e is True:
                    return vv
                if e is not False:
                    break
        if o.op == "list_of" and len(o.a) == 1:
            return index_term(o.a[0], k)
    if isinstance(o, tuple) and isinstance(k, int):
        if -len(o) <= k < len(o):
            return o[k]
        raise Raise("IndexError", None)
    return mk("idx", o, k)


def ispos(t):
    return isinstance(t, T) and t.op == "pos"


def depth_of(o):
    """position variable depth of a map term: maps carry it as first arg of
    their sequence descriptor"""
    return o.a[0].a[0]


# ------------------------------------------------------------------ heap
class Ref:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "&%d" % self.o

    def __eq__(self, x):
        return isinstance(x, Ref) and x.o == self.o

    def __hash__(self):
        return hash(("Ref", self.o))


class H:
    """heap cell; kind list|dict|set|obj|iter.  sym is None for a container
    with known shape."""
    __slots__ = ("kind", "sym", "items", "cls")

    def __init__(self, kind, items=None, sym=None, cls=None):
        self.kind, self.items, self.sym, self.cls = kind, items, sym, cls

    def copy(self):
        i = self.items
        return H(self.kind, i.copy() if i is not None else None, self.sym, self.cls)


class Fn:
    def __init__(self, node, mod, frame, cls=None, kind="fn", name=None):
        self.node, self.mod, self.frame, self.cls, self.kind = node, mod, frame, cls, kind
        self.name = name or getattr(node, "name", "<lambda>")

    def __repr__(self):
        return "fn:%s" % self.qual

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class BM:
    """builtin method of a value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class BI:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "builtin:" + self.name


class Cls:
    def __init__(self, name, mod, bases, node):
        self.name, self.mod, self.bases, self.node = name, mod, bases, node
        self.vars = {}
        self.dataclass = False
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.vars:
                return c.vars[n], c
        return None, None

    def __repr__(self):
        return "class:" + self.name


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.frame = Frame({}, None, self)
        self.done = False


class Frame:
    def __init__(self, vars_, parent, mod, fn=None):
        self.vars, self.parent, self.mod, self.fn = vars_, parent, mod, fn
        self.globals_ = set()
        self.nonlocals_ = set()


class SuperV:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Raise(Exception):
    def __init__(self, cls, val, line=0):
        self.cls, self.val, self.line = cls, val, line


class Ev:
    """effect event"""
    __slots__ = ("kind", "name", "args", "kw", "res", "line", "fn", "x", "end")

    def __init__(self, kind, name, args=(), kw=(), res=None, line=0, fn="", x=None):
        self.kind, self.name, self.args, self.kw = kind, name, args, kw
        self.res, self.line, self.fn, self.x = res, line, fn, x
        self.end = None

    def __repr__(self):
        return "%s %s%s%s -> %s @%s" % (self.kind, self.name, show(tuple(self.args)),
                                       show(tuple(self.kw)) if self.kw else "",
                                       show(self.res) if not isinstance(self.res, LoopRec) else "loop",
                                       self.line)


class LoopRec:
    """analysed loop: entry snapshot, head snapshot, ends [(kind, val, snap)]"""

    def __init__(self, lid, seq, node, fn):
        self.lid, self.seq, self.node, self.fn = lid, seq, node, fn
        self.entry = self.head = None
        self.ends = []
        self.line = node.lineno
        self.elem = None

    def __repr__(self):
        return "loop%s@%d" % (self.lid, self.line)


class Snap:
    __slots__ = ("frames", "heap", "pc", "log", "cnt", "depth")


class Path:
    def __init__(self, kind, val, snap):
        self.kind, self.val, self.snap = kind, val, snap

    @property
    def log(self):
        return self.snap.log

    @property
    def pc(self):
        return self.snap.pc


EXC = {"Exception": "BaseException", "KeyboardInterrupt": "BaseException",
       "SystemExit": "BaseException", "GeneratorExit": "BaseException"}
for _n in dir(builtins):
    _c = getattr(builtins, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException) and _c is not BaseException:
        EXC[_n] = _c.__mro__[1].__name__


def exc_sub(n, m):
    n = n.split(":")[-1].split(".")[-1]
    m = m.split(":")[-1].split(".")[-1]
    while n:
        if n == m:
            return True
        if n == "BaseException":
            return False
        n = EXC.get(n, "Exception")
    return False


MAXPATHS = 3000
BUILTINS = ("len range enumerate zip reversed sorted list dict set tuple str int float "
            "bool max min any all sum isinstance hasattr getattr setattr print pow map filter type abs "
            "super bin iter next repr round frozenset id callable vars object property "
            "staticmethod classmethod divmod ord chr hash issubclass complex").split()


class Interp:
    """One analysis.  Hooks (all optional, set by the checks):
      attr_hook(it, obj, name)    value or NotImplemented
      call_hook(it, fn, args, kw, node) value or NotImplemented
      truth_hook(it, term)        True/False/None
      unpack_hook(it, term, n)    list or None
      raises(it, name, args)      True if the call may raise
      pure(name)                  True if an external call has no effect and
                                  its result depends on its arguments only
    """

    def __init__(self, repo, hooks=None):
        self.strlv = set()
        self.repo = repo
        self.mods = {}
        self.frames = []
        self.heap = {}
        self.pc = []
        self.log = []
        self.cnt = {}
        self.depth = 0
        self.oracles = []
        self.hooks = hooks
        self.callstack = []
        self.steps = 0
        self.maxsteps = 3000000
        self.reached = set()      # functions interpreted
        self.nloops = 0
        self.seeds = {}           # loop key -> {loc: how}; from other instruction kinds
        self.seen_hv = {}
        self.trydepth = 0

    # -------------------------------------------------------- bookkeeping
    def fresh(self, k):
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return n

    def new(self, h):
        o = self.fresh("heap")
        self.heap[o] = h
        return Ref(o)

    def newlist(self, items):
        return self.new(H("list", list(items)))

    def newdict(self, items):
        return self.new(H("dict", list(items)))

    def snapshot(self):
        s = Snap()
        s.frames = [(f, dict(f.vars)) for f in self.frames]
        s.heap = {o: h.copy() for o, h in self.heap.items()}
        s.pc = list(self.pc)
        s.log = list(self.log)
        s.cnt = dict(self.cnt)
        s.depth = self.depth
        return s

    def restore(self, s):
        self.frames[:] = [f for f, _ in s.frames]
        for f, v in s.frames:
            f.vars = dict(v)
        self.heap = {o: h.copy() for o, h in s.heap.items()}
        self.pc = list(s.pc)
        self.log = list(s.log)
        self.cnt = dict(s.cnt)
        self.depth = s.depth

    def event(self, *a, **k):
        e = Ev(*a, **k)
        e.fn = self.callstack[-1] if self.callstack else ""
        self.log.append(e)
        return e

    # -------------------------------------------------------- choices
    def choose(self, n):
        o = self.oracles[-1]
        if o["pos"] < len(o["prefix"]):
            c = o["prefix"][o["pos"]]
        else:
            c = 0
            o["prefix"].append(0)
        o["n"] = o["n"][:o["pos"]] + [n]
        o["pos"] += 1
        return c

    def paths(self, thunk):
        """all partitions of thunk(); state is restored afterwards"""
        snap = self.snapshot()
        prefix = []
        out = []
        cs = list(self.callstack)
        while True:
            self.restore(snap)
            self.callstack[:] = cs
            o = {"prefix": prefix, "pos": 0, "n": []}
            self.oracles.append(o)
            try:
                try:
                    kind, val = thunk()
                    out.append(Path(kind, val, self.snapshot()))
                except Infeasible:
                    pass
            finally:
                self.oracles.pop()
            ns, prefix = o["n"], o["prefix"][:o["pos"]]
            while prefix and prefix[-1] + 1 >= ns[len(prefix) - 1]:
                prefix.pop()
            if not prefix:
                break
            prefix[-1] += 1
            if len(out) > MAXPATHS:
                raise TooHard("too many partitions")
        self.restore(snap)
        self.callstack[:] = cs
        return out

    def outcome(self, thunk):
        try:
            return "next", thunk()
        except Break:
            return "break", None
        except Continue:
            return "next", None
        except Return as r:
            return "return", r.v
        except Raise as r:
            return "raise", r

    def known(self, t):
        """truth of a condition under the partition's conditions"""
        if isconst(t):
            return bool(t)
        for c in self.pc:
            if c is t:
                return True
            if isinstance(c, T) and c.op == "not" and c.a[0] is t:
                return False
            if isinstance(t, T) and t.op == "not" and t.a[0] is c:
                return False
        if t.op == "not":
            k = self.known(t.a[0])
            return None if k is None else not k
        if t.op == "and":
            ks = [self.known(x) for x in t.a]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if t.op == "eq":
            # x == c known for another constant c
            a, b = t.a
            for x, k in ((a, b), (b, a)):
                if isconst(k):
                    for c in self.pc:
                        if isinstance(c, T) and c.op == "eq":
                            u, v = c.a
                            if u is x and isconst(v) and v != k or v is x and isconst(u) and u != k:
                                return False
        if self.hooks is not None and hasattr(self.hooks, "truth"):
            return self.hooks.truth(self, t)
        return None

    def branch(self, t):
        if isinstance(t, T) and t.op == "and":
            return all(self.branch(x) for x in t.a)
        if isinstance(t, T) and t.op == "not" and isinstance(t.a[0], T):
            return not self.branch(t.a[0])
        k = self.known(t)
        if k is not None:
            return k
        if self.choose(2) == 0:
            self.pc.append(t)
            return True
        self.pc.append(neg(t))
        return False

    def cond(self, v):
        """value -> condition term or bool"""
        if isinstance(v, MV):
            return self.native(bool, v)
        if isconst(v):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.kind == "obj":
                m = h.cls.find("__len__")[0] if h.cls else None
                if m is None:
                    return True
                return self.cond(self.call(Bound(v, m), [], {}, None))
            if h.sym is None:
                return len(h.items) > 0
            t = h.sym
            return self.cond_T(mk("nonempty", t))
        if isinstance(v, (Fn, Bound, Cls, BI, BM)):
            return True
        return self.cond_T(v)

    def cond_T(self, t):
        if t.op in ("eq", "not", "and", "in", "lt", "le", "isnone", "any", "isinstance", "nonempty", "truthy"):
            if t.op == "nonempty":
                s = t.a[0]
                if isinstance(s, T) and s.op in ("append", "add", "store"):
                    return True
            return t
        if t.op == "ext":
            return True
        if t.op == "bool":
            return t.a[0]
        if t.op == "lin" or t.op == "len":
            return neg(eq(t, 0))
        return mk("truthy", t)

    def truth(self, v):
        c = self.cond(v)
        if isinstance(c, bool):
            return c
        return self.branch(c)

    # -------------------------------------------------------- values
    def freeze(self, v, heap=None, seen=()):
        heap = self.heap if heap is None else heap
        if isinstance(v, Ref):
            h = heap[v.o]
            if v.o in seen:
                return mk("cyc", v.o)
            sn = seen + (v.o,)
            if h.kind == "obj":
                if h.sym is not None:
                    return h.sym
                return mk("obj", h.cls.name if h.cls else "?",
                          *[(k, self.freeze(x, heap, sn)) for k, x in sorted(h.items.items())])
            if h.sym is not None:
                return h.sym
            if h.kind == "list":
                return mk("list", *[self.freeze(x, heap, sn) for x in h.items])
            if h.kind == "set":
                return mk("set", *sorted([self.freeze(x, heap, sn) for x in h.items], key=skey))
            return mk("dict", *[(self.freeze(k, heap, sn), self.freeze(x, heap, sn)) for k, x in h.items])
        if isinstance(v, tuple):
            return tuple(self.freeze(x, heap, seen) for x in v)
        if isinstance(v, (T, MV)) or isconst(v):
            return v
        if isinstance(v, Fn):
            return mk("fn", v.qual)
        if isinstance(v, Bound):
            return mk("bound", self.freeze(v.self_, heap, seen) if not isinstance(v.self_, Ref) else mk("self", v.self_.o), v.fn.qual)
        if isinstance(v, BM):
            return mk("bm", self.freeze(v.obj, heap, seen), v.name)
        if isinstance(v, Cls):
            return mk("cls", v.name)
        if isinstance(v, BI):
            return mk("ext", "builtins." + v.name)
        if isinstance(v, Mod):
            return mk("ext", v.name)
        if isinstance(v, slice):
            return mk("slc", v.start, v.stop, v.step)
        raise TooHard("freeze %r" % (v,))

    # -------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace(".", "/")
        p = os.path.join(self.repo, rel + ".py")
        if not os.path.exists(p):
            p = os.path.join(self.repo, rel, "__init__.py")
        if not os.path.exists(p):
            return None
        m = Mod(name, p)
        self.mods[name] = m
        tree = ast.parse(open(p).read(), p)
        m.tree = tree
        self.frames.append(m.frame)
        self.callstack.append(name)
        self.oracles.append({"prefix": [], "pos": 0, "n": []})
        try:
            self.block(tree.body, m.frame)
            if self.oracles[-1]["n"]:
                raise TooHard("module %s branches on an unknown value" % name)
        finally:
            self.oracles.pop()
            self.callstack.pop()
        m.done = True
        return m

    def get_module_attr(self, m, n):
        if n in m.frame.vars:
            return m.frame.vars[n]
        sub = self.module(m.name + "." + n)
        if sub:
            return sub
        return ext(m.name + "." + n if m.name != "qdd" else n)

    def imp(self, name):
        if name == "qdd" or name.startswith("qdd."):
            if name.endswith("pyQDD"):
                return ext("pyQDD")
            m = self.module(name)
            if m:
                return m
        return ext(name)

    # -------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooHard("analysis budget")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise TooHard("statement %s line %d" % (type(s).__name__, s.lineno))
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.setvar(fr, a.asname, self.imp(a.name))
            else:
                self.setvar(fr, a.name.split(".")[0], self.imp(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            base = "qdd" + ("." + base if base else "")
        if base == "__future__":
            return
        for a in s.names:
            if a.name == "*":
                raise TooHard("import *")
            if base == "qdd" or base.startswith("qdd."):
                if a.name == "pyQDD":
                    v = ext("pyQDD")
                else:
                    if base == "qdd":
                        # package re-exports; avoid import cycles
                        v = self.pkg_attr(a.name)
                    else:
                        m = self.module(base)
                        if m is None:
                            raise TooHard("module " + base)
                        v = m.frame.vars.get(a.name)
                        if v is None:
                            v = self.imp(base + "." + a.name)
            else:
                v = ext(base + "." + a.name)
            self.setvar(fr, a.asname or a.name, v)

    def pkg_attr(self, n):
        tree = ast.parse(open(os.path.join(self.repo, "qdd", "__init__.py")).read())
        for st in tree.body:
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == n:
                        m = self.module("qdd." + st.module)
                        if n in m.frame.vars:
                            return m.frame.vars[n]
                        return ext("qdd." + n)
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in st.targets):
                if isinstance(st.value, ast.Constant):
                    return st.value.value
        m = self.module("qdd." + n)
        return m if m else ext("qdd." + n)

    def setvar(self, fr, n, v):
        if n in fr.globals_:
            fr.mod.frame.vars[n] = v
            return
        if n in fr.nonlocals_:
            f = fr.parent
            while f is not None:
                if n in f.vars:
                    f.vars[n] = v
                    return
                f = f.parent
        fr.vars[n] = v

    def s_Global(self, s, fr):
        fr.globals_ |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals_ |= set(s.names)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.attr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.subscript(o, k)
        else:
            raise TooHard("augassign")
        r = self.ev(s.value, fr)
        if isinstance(cur, MV):
            v = self.tohere(self.native(getattr(operator, "i" + opname(op).rstrip("_")), cur, self.tohost(r)))
        elif isinstance(cur, Ref) and self.heap[cur.o].kind in ("list", "set", "dict") and op in ("Add", "BitOr", "BitAnd", "Sub"):
            h = self.heap[cur.o]
            if h.kind == "list" and op == "Add":
                self.m_list_extend(cur, r)
            elif h.kind == "set" and op == "BitOr":
                self.m_set_update(cur, r)
            elif h.kind == "dict" and op == "BitOr":
                self.m_dict_update(cur, r)
            else:
                nv = self.binop(op, cur, r)
                h2 = self.heap[nv.o]
                self.heap[cur.o] = h2.copy()
            v = cur
        else:
            v = self.binop(op, cur, r)
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v)
        else:
            self.setitem(o, k, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                vs = self.tolist(v)
                if vs is None:
                    i = st[0]
                    if i == n - 1:
                        vs0 = [self.getitem_T(v, j) for j in range(n - 1)]
                        rest = self.subscript(v, slice(n - 1, None, None))
                        for e, x in zip(t.elts[:-1], vs0):
                            self.assign(e, x, fr)
                        self.assign(t.elts[-1].value, rest, fr)
                        return
                    if i == 0:
                        for j in range(1, n):
                            self.assign(t.elts[j], self.getitem_T(v, j - n), fr)
                        self.assign(t.elts[0].value, self.subscript(v, slice(None, 1 - n, None)), fr)
                        return
                    raise TooHard("starred")
                i = st[0]
                k = len(vs) - (n - 1)
                if k < 0:
                    raise Raise("ValueError", None)
                parts = vs[:i] + [self.newlist(vs[i:i + k])] + vs[i + k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            for e, x in zip(t.elts, self.unpack(v, n)):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        else:
            raise TooHard("assign target")

    def unpack(self, v, n):
        vs = self.tolist(v)
        if vs is None:
            if self.hooks is not None and hasattr(self.hooks, "unpack"):
                r = self.hooks.unpack(self, v, n)
                if r is not None:
                    return r
            f = self.freeze(v)
            return [self.getitem_T(f, i) for i in range(n)]
        if len(vs) != n:
            raise Raise("ValueError", None)
        return vs

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                self.delitem(o, k)
            else:
                raise TooHard("del")

    def delitem(self, o, k):
        if not isinstance(o, Ref):
            raise TooHard("del on a term")
        h = self.heap[o.o]
        if h.sym is None and h.kind == "dict":
            for i, (kk, vv) in enumerate(h.items):
                if eq(kk, k) is True:
                    del h.items[i]
                    return
        h.sym = mk("del", self.freeze(o), self.freeze(k))
        h.items = None

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise Raise("AssertionError", None, s.lineno)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.name("$exc", fr, s, default=None)
            if cur is None:
                raise Raise("Exception", None, s.lineno)
            raise Raise(cur[0], cur[1], s.lineno)
        v = self.ev(s.exc, fr)
        if isinstance(v, Ref):
            h = self.heap[v.o]
            c = h.cls.name if h.cls else "Exception"
            raise Raise(c, v, s.lineno)
        f = self.freeze(v)
        n = "Exception"
        if isinstance(f, T):
            if f.op == "ext":
                n = f.a[0]
            elif f.op == "call":
                n = f.a[0] if isinstance(f.a[0], str) else show(f.a[0])
            elif f.op == "exc":
                n = f.a[0]
        n = n.replace("builtins.", "")
        raise Raise(n, v, s.lineno)

    def s_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_FunctionDef(self, s, fr):
        f = Fn(s, fr.mod, fr if fr.fn else fr.mod.frame)
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, fr) if d is not None else None for d in s.args.kw_defaults]
        for d in s.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n in ("staticmethod", "classmethod", "property"):
                f.kind = n
            elif n in ("abstractmethod", "override", "wraps", "lru_cache", "cache", "cached_property"):
                raise TooHard("decorator " + n)
            else:
                raise TooHard("decorator on " + s.name)
        self.setvar(fr, s.name, f)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        c = Cls(s.name, fr.mod, bases, s)
        for d in s.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
            if n == "dataclass":
                c.dataclass = True
            else:
                raise TooHard("class decorator")
        self.setvar(fr, s.name, c)
        cf = Frame(c.vars, fr, fr.mod)
        cf.vars = c.vars
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.fields.append((st.target.id, st.value is not None))
            self.stmt(st, cf)
        c.vars = cf.vars
        for v in c.vars.values():
            if isinstance(v, Fn) and v.cls is None:
                v.cls = c
                v.frame = fr if fr.fn else fr.mod.frame

    def s_Try(self, s, fr):
        def run():
            try:
                self.trydepth += 1
                try:
                    self.block(s.body, fr)
                finally:
                    self.trydepth -= 1
            except Raise as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        ok = False
                        for nm in names:
                            hn = nm.id if isinstance(nm, ast.Name) else nm.attr if isinstance(nm, ast.Attribute) else "?"
                            if exc_sub(r.cls, hn):
                                ok = True
                            elif r.cls == "Exception" and hn not in ("Exception", "BaseException"):
                                # some exception: may or may not be this one
                                if self.choose(2) == 0:
                                    ok = True
                            if ok:
                                break
                    if ok:
                        v = r.val if r.val is not None else mk("exc", r.cls)
                        saved = fr.vars.get("$exc")
                        fr.vars["$exc"] = (r.cls, v)
                        if h.name:
                            fr.vars[h.name] = v
                        self.event("caught", r.cls, line=h.lineno)
                        self.block(h.body, fr)
                        if saved is None:
                            fr.vars.pop("$exc", None)
                        else:
                            fr.vars["$exc"] = saved
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            run()
            return
        try:
            self.trydepth += 1
            try:
                run()
            finally:
                self.trydepth -= 1
        except (Raise, Return, Break, Continue):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        cms = []
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            cms.append(v)
            h = self.hook("enter", v)
            r = v if h is NotImplemented else h
            if h is NotImplemented:
                if isinstance(v, Ref) and self.heap[v.o].kind == "obj" and self.heap[v.o].cls:
                    m = self.heap[v.o].cls.find("__enter__")[0]
                    if m is None:
                        raise TooHard("with")
                    r = self.call(Bound(v, m), [], {}, s)
                else:
                    r = mk("enter", self.freeze(v))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)

        def leave():
            for v in reversed(cms):
                if isinstance(v, Ref) and self.heap[v.o].kind == "obj" and self.heap[v.o].cls:
                    m = self.heap[v.o].cls.find("__exit__")[0]
                    self.call(Bound(v, m), [None, None, None], {}, s)
                else:
                    self.event("exit", show(self.freeze(v)), line=s.lineno)
        try:
            self.trydepth += 1
            try:
                self.block(s.body, fr)
            finally:
                self.trydepth -= 1
        except (Raise, Return, Break, Continue):
            leave()
            raise
        leave()

    def hook(self, n, *a):
        f = getattr(self.hooks, n, None) if self.hooks is not None else None
        return f(self, *a) if f else NotImplemented

    # -------------------------------------------------------- iteration
    def tolist(self, v):
        """known elements or None"""
        if isinstance(v, MV):
            return [self.tohere(x) for x in self.native(list, v)]
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.kind == "list" and h.sym is None:
                return list(h.items)
            if h.kind == "set" and h.sym is None:
                if all(type(x) is int and 0 <= x < 5 for x in h.items):
                    return sorted(h.items)      # small numbers come out of a set in order
                return list(h.items)
            if h.kind == "dict" and h.sym is None:
                return [k for k, _ in h.items]
            if h.kind == "iter":
                return h.items
            return None
        if isinstance(v, T):
            if v.op == "list":
                return list(v.a)
            if v.op == "range":
                a = v.a
                if all(isnum(x) for x in a):
                    if len(range(*a)) > 200:
                        return None
                    return list(range(*a))
            if v.op == "enumerate":
                l = self.tolist(v.a[0])
                if l is not None:
                    return [(add(i, v.a[1]), x) for i, x in enumerate(l)]
            if v.op == "zip":
                ls = [self.tolist(x) for x in v.a]
                if ls and all(l is not None for l in ls):
                    return [tuple(x) for x in zip(*ls)]
            if v.op == "reversed":
                l = self.tolist(v.a[0])
                if l is not None:
                    return l[::-1]
            if self.hooks is not None and hasattr(self.hooks, "elements"):
                return self.hooks.elements(self, v)
        return None

    def seqdesc(self, v):
        """(sequence term that gives the trip count, element value at pos p)"""
        d = self.depth
        p = mk("pos", d)
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.kind == "dict":
                k = mk("keys", h.sym)
                return k, index_term(k, p)
            if h.kind == "obj":
                m = h.cls.find("__iter__")[0] if h.cls else None
                if m is not None:
                    raise TooHard("__iter__")
                f = self.freeze(v)
                return f, self.getitem_T(f, p)
            v = self.freeze(v)
        if isinstance(v, tuple):
            v = mk("list", *v)
        if not isinstance(v, T):
            raise TooHard("iterate %r" % (v,))
        if v.op == "range":
            a = v.a
            if len(a) == 1:
                n = a[0]
                if isinstance(n, T) and n.op == "len":
                    return n.a[0], p
                return mk("range", n), p
            if len(a) == 2:
                return mk("range", *a), add(a[0], p)
            return v, add(a[0], mul(p, a[2]))
        if v.op == "enumerate":
            s, e = self.seqdesc(v.a[0])
            return s, (add(p, v.a[1]), e)
        if v.op == "zip":
            ss = [self.seqdesc(x) for x in v.a]
            seqs = tuple(s for s, _ in ss)
            u = []
            for s in seqs:
                if not any(s is x for x in u):
                    u.append(s)
            return (u[0] if len(u) == 1 else mk("zip", *u)), tuple(e for _, e in ss)
        if v.op == "items":
            k = mk("keys", v.a[0])
            return k, (self.getitem_T(k, p), index_term(v.a[0], self.getitem_T(k, p)))
        if v.op == "values":
            k = mk("keys", v.a[0])
            return k, index_term(v.a[0], self.getitem_T(k, p))
        if self.hook("isdict", v) is True:
            k = mk("keys", v)
            return k, index_term(k, p)
        if v.op == "list_of":
            return self.seqdesc(v.a[0])
        if v.op == "map":
            return v.a[0].a[1] if d == depth_of(v) else v, index_term(v, p)
        return v, self.getitem_T(v, p)

    def getitem_T(self, o, k):
        r = index_term(o, k) if isinstance(o, (T, tuple)) else self.subscript(o, k)
        return r

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_loop(it, lambda e: self.assign(s.target, e, fr), lambda: self.block(s.body, fr), s,
                      (lambda: self.block(s.orelse, fr)) if s.orelse else None)

    def for_loop(self, it, bind, body, node, orelse=None):
        l = self.tolist(it)
        if l is not None:
            if len(l) > 2000:
                raise TooHard("long unrolled loop")
            try:
                for e in l:
                    bind(e)
                    try:
                        body()
                    except Continue:
                        pass
            except Break:
                return
            if orelse:
                orelse()
            return
        seq, elem = self.seqdesc(it)

        def one():
            bind(elem)
            body()
        self.sym_loop(seq, elem, one, node, orelse)

    def s_While(self, s, fr):
        for n in range(400):
            c = self.cond(self.ev_peek(s.test, fr))
            if not isinstance(c, bool):
                k = self.known(c)
                if k is None:
                    break
                c = k
            if not c:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
        else:
            raise TooHard("long while loop")

        def one():
            if not self.truth(self.ev(s.test, fr)):
                raise WhileExit()
            self.block(s.body, fr)
        self.sym_loop(mk("while", s.lineno), None, one, s, (lambda: self.block(s.orelse, fr)) if s.orelse else None, True)

    def ev_peek(self, e, fr):
        """evaluate a loop condition; partitions inside it make it unknown"""
        ps = self.paths(lambda: self.outcome(lambda: self.freeze(self.ev(e, fr))))
        if len(ps) == 1 and ps[0].kind == "next":
            return ps[0].val
        return mk("while?", e.lineno)

    # widening loop analysis
    def locs(self, snap):
        """locations of a snapshot: name -> value"""
        out = {}
        for i, (f, v) in enumerate(snap.frames):
            if f.fn is None:
                continue
            for n, x in v.items():
                out[("v", i, n)] = x
        for o, h in snap.heap.items():
            if h.kind == "obj":
                if h.items is not None:
                    for n, x in h.items.items():
                        out[("a", o, n)] = x
            else:
                out[("h", o)] = h
        return out

    def heap_same(self, a, b):
        if a.kind != b.kind or (a.sym is None) != (b.sym is None):
            return False
        if a.sym is not None:
            return a.sym is b.sym
        if len(a.items) != len(b.items):
            return False
        return all(self.val_same(x, y) for x, y in zip(a.items, b.items))

    def val_same(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.val_same(p, q) for p, q in zip(x, y))
        if isinstance(x, Ref) or isinstance(y, Ref):
            return x == y
        if isinstance(x, T) or isinstance(y, T):
            return x is y
        if isconst(x) and isconst(y):
            return type(x) is type(y) and x == y
        return x is y or (isinstance(x, Bound) and isinstance(y, Bound) and x.fn is y.fn)

    def havoc(self, loc, lid, how, entry):
        """make a location arbitrary at the loop head"""
        kind = loc[0]
        name = loc[2] if kind != "h" else "obj%d" % loc[1]
        lv = mk("lv", lid, name if kind != "a" else "." + name)
        if how and how[0] == "ind":
            val = add(how[1], mul(mk("pos", self.depth), how[2]))
        else:
            val = lv
        if kind == "h":
            h = self.heap[loc[1]]
            h.sym, h.items = lv, None
            return
        old = entry.get(loc)
        if val is lv and self.strish(old):
            self.strlv.add(id(lv))
        if isinstance(old, Ref) and self.heap[old.o].kind in ("list", "dict", "set") and val is lv:
            val = self.new(H(self.heap[old.o].kind, None, lv))
        elif isinstance(old, tuple) and val is lv:
            val = lv
        if kind == "v":
            f = self.frames[loc[1]]
            f.vars[loc[2]] = val
        else:
            self.heap[loc[1]].items[loc[2]] = val

    def pathed(self, hv, eloc):
        """loop state named by how it is reached from variables, comparable between runs"""
        objs = None
        out = {}
        for loc, how in hv.items():
            if loc[0] == "v":
                out[loc] = how
                continue
            if objs is None:
                objs = {}
                todo = [(("p",) + l[1:], v) for l, v in eloc.items() if l[0] == "v"]
                for d in range(3):
                    nxt = []
                    for pth, v in todo:
                        if isinstance(v, Ref) and v.o not in objs:
                            objs[v.o] = pth
                            nxt += [(pth + (l[2],), x) for l, x in eloc.items() if l[0] == "a" and l[1] == v.o]
                    todo = nxt
            if loc[1] in objs:
                out[objs[loc[1]] + (("@",) if loc[0] == "h" else (loc[2],))] = how
        return out

    def unpathed(self, pth, eloc):
        v = eloc.get(("v",) + pth[1:3])
        for n in pth[3:]:
            if not isinstance(v, Ref):
                return None
            if n == "@":
                return ("h", v.o)
            last = ("a", v.o, n)
            v = eloc.get(last)
        return last

    def sym_loop(self, seq, elem, one, node, orelse=None, is_while=False):
        outer = {e.name for e in self.log if e.kind == "loopstart"}
        lid = self.fresh("loop")
        entry = self.snapshot()
        eloc = self.locs(entry)
        hv = {}          # loc -> how
        self.nloops += 1
        lkey = (getattr(node, "lineno", 0), len(self.callstack))
        seeds = self.seeds.get(lkey, {})
        for loc, how in seeds.items():
            if loc[0] == "p":
                loc = self.unpathed(loc, eloc)
                if loc is None:
                    continue
            if loc in eloc or loc[0] == "v" and loc[1] < len(entry.frames):
                hv[loc] = how if how == ("top",) or not how else None
        rec = None
        for rnd in range(12):
            self.restore(entry)
            self.cnt["heap"] = self.cnt.get("heap", 0)
            self.event("loopstart", str(lid), (seq,), line=node.lineno)
            for loc in sorted(hv, key=lambda l: (l[0] == "h", str(l))):
                if loc[0] == "h" and loc not in eloc:
                    continue      # made arbitrary together with the variable that holds it
                self.havoc(loc, lid, hv[loc], eloc)
            head = self.snapshot()
            hloc = self.locs(head)
            self.depth += 1
            npc = len(self.pc)

            def thunk():
                try:
                    return self.outcome(one)
                except WhileExit:
                    return "exit", None
            ends = self.paths(thunk)
            self.depth -= 1
            # what changed
            new = {}
            for e in ends:
                if e.kind not in ("next",):
                    continue
                el = self.locs(e.snap)
                for loc, hval in hloc.items():
                    if loc[0] == "h":
                        if loc[1] in e.snap.heap and not self.heap_same(hval, e.snap.heap[loc[1]]):
                            new.setdefault(loc, []).append(e.snap.heap[loc[1]])
                    else:
                        x = el.get(loc, Ellipsis)
                        if not self.val_same(hval, x):
                            new.setdefault(loc, []).append(x)
                for loc in el:
                    if loc not in hloc and loc[0] != "h" and self.in_head(loc, head):
                        new.setdefault(loc, []).append(el[loc])
            fresh = [l for l in new if l not in hv]
            # induction variables
            redo = False
            nexts = [e for e in ends if e.kind == "next"]
            for loc in list(hv):
                if hv[loc] is None and loc[0] != "h" and loc in eloc and not isinstance(eloc[loc], (Ref, tuple)):
                    lvt = hloc.get(loc)
                    if isinstance(lvt, T) and lvt.op == "lv" and (isconst(eloc[loc]) and isnum(eloc[loc]) or isinstance(eloc[loc], T)):
                        cs = set()
                        for e in nexts:
                            x = self.locs(e.snap).get(loc)
                            dlt = add(x, lvt, -1) if isinstance(x, T) and x.op == "lin" or isnum(x) else None
                            cs.add(dlt if isnum(dlt) else None)
                        if len(cs) == 1 and None not in cs and nexts and list(cs)[0] != 0 and not is_while:
                            hv[loc] = ("ind", eloc[loc], list(cs)[0])
                            redo = True
                elif hv[loc] and hv[loc][0] == "ind":
                    # still inductive?
                    hval = hloc[loc]
                    for e in nexts:
                        x = self.locs(e.snap).get(loc)
                        if not (isinstance(x, (T, int, float)) and same(add(x, hval, -1), hv[loc][2])):
                            hv[loc] = ("top",)
                            redo = True
            for l in fresh:
                hv[l] = None
            if not fresh and not redo:
                break
        else:
            raise TooHard("loop does not stabilise")
        rec = LoopRec(lid, seq, node, self.callstack[-1] if self.callstack else "")
        rec.entry, rec.head, rec.ends, rec.elem, rec.hv = entry, head, ends, elem, dict(hv)
        rec.key = lkey
        sn = self.seen_hv.setdefault(lkey, [])
        sn.append(self.pathed(hv, eloc))
        rec.depth = entry.depth
        rec.npc = npc
        # leave the loop
        exits = [e for e in ends if e.kind in ("break", "return", "raise", "exit")]
        if is_while:
            pass
        outs = []
        early = [e for e in ends if e.kind in ("break", "return", "raise")]
        if self.trydepth == 0:
            # nothing in the analysed code sees the state a failure leaves behind: one of each suffices
            seen, rest = set(), []
            for e in early:
                if e.kind == "raise":
                    k = (skey(e.val.cls), skey(e.val.val), e.val.line)
                    if k in seen:
                        continue
                    seen.add(k)
                rest.append(e)
        else:
            rest = early
        p = mk("pos", entry.depth)
        invariant = not hv or all(loc[0] == "v" and loc not in eloc for loc in hv) or \
            not any(t.op == "lv" and str(t.a[0]) not in outer for e in early for t in subterms(tuple(e.snap.pc[npc:])))
        # group breaks by resulting condition
        if early and invariant and not is_while:
            A = mk("any", mk("seq", entry.depth, seq), disj([conj(e.snap.pc[npc:]) for e in early]))
        else:
            A = None
        if A is None:
            early = rest
        n = len(early) + (1 if not is_while else len([e for e in ends if e.kind == "exit"]))
        if n == 0:
            raise Infeasible()
        # conditions for the exit state
        if A is not None and len(early) >= 1:
            kA = self.known(A)
            opts = []
            if kA is not False:
                opts += [("early", e) for e in early]
            if kA is not True:
                opts.append(("exit", None))
        else:
            opts = [("early", e) for e in early]
            if is_while:
                opts += [("wexit", e) for e in ends if e.kind == "exit"]
            else:
                opts.append(("exit", None))
        c = self.choose(len(opts)) if len(opts) > 1 else 0
        what, e = opts[c]
        if what == "early" or what == "wexit":
            self.restore(e.snap)
            self.depth = entry.depth
            body_log = e.snap.log[len(head.log):]
            self.log = list(head.log)
            self.event("loop", str(lid), (seq,), res=rec, line=node.lineno, x=what).end = e
            self.log += body_log
            if A is not None:
                self.pc = list(entry.pc) + [A] + [x for x in e.snap.pc[npc:] if not occurs(p, x)] \
                    + [x for x in e.snap.pc[npc:] if occurs(p, x)]
            if what == "wexit":
                if orelse:
                    orelse()
                return
            if e.kind == "break":
                return
            if e.kind == "return":
                raise Return(e.val)
            raise Raise(e.val.cls, e.val.val, e.val.line)
        self.restore(head)
        self.depth = entry.depth
        self.event("loop", str(lid), (seq,), res=rec, line=node.lineno, x="exit")
        if A is not None:
            self.pc.append(neg(A))
        self.loop_exit(rec, entry, eloc, head, hv, nexts, seq, npc, early)
        if orelse:
            orelse()

    def in_head(self, loc, head):
        if loc[0] == "v":
            return loc[1] < len(head.frames)
        return loc[1] in head.heap

    def loop_exit(self, rec, entry, eloc, head, hv, nexts, seq, npc, early):
        """values on leaving a loop by exhaustion: recognise accumulations"""
        d = entry.depth
        p = mk("pos", d)
        sq = mk("seq", d, seq)
        ln = self.length(seq)
        lvs = [mk("lv", rec.lid, (l[2] if l[0] == "v" else "." + l[2] if l[0] == "a" else "obj%d" % l[1]))
               for l in hv if not (hv[l] and hv[l][0] == "ind")]

        def clean(x):
            return not any(occurs(l, x) for l in lvs)
        for loc, how in hv.items():
            if how and how[0] == "ind":
                v = add(how[1], mul(ln, how[2]))
                self.put(loc, v)
                continue
            if loc[0] == "h":
                lv = mk("lv", rec.lid, "obj%d" % loc[1])
                ent = entry.heap.get(loc[1])
                if ent is None:
                    continue
                r = self.accumulate(lv, ent, [e.snap.heap[loc[1]].sym if e.snap.heap[loc[1]].sym is not None else None for e in nexts],
                                    [conj(e.snap.pc[npc:]) for e in nexts], sq, p, seq, clean, entry)
                if r is not None:
                    h = self.heap[loc[1]]
                    h.sym, h.items = r, None
                continue
            # a flag set to one constant
            ev0 = eloc.get(loc)
            lvt = mk("lv", rec.lid, loc[2] if loc[0] == "v" else "." + loc[2])
            vals = [(self.locs(e.snap).get(loc), conj(e.snap.pc[npc:])) for e in nexts]
            if isconst(ev0) and loc in eloc and not any(isinstance(v, Ref) for v, _ in vals):
                sets = [(v, c) for v, c in vals if v is not lvt]
                if sets and all(isconst(v) for v, _ in sets) and len({_key(v) for v, _ in sets}) == 1 and not early:
                    if all(isconst(v) and same(v, ev0) for v, _ in sets):
                        self.put(loc, ev0)
                        continue
                    # conditions must not depend on loop state, except on the flag itself
                    conds = [self.drop_flag(c, lvt) for _, c in sets]
                    if all(clean(c) for c in conds):
                        A = disj(conds)
                        A = mk("any", sq, A) if isinstance(A, T) else (mk("nonempty", seq) if A else False)
                        if self.branch(A) if isinstance(A, T) else A:
                            self.put(loc, sets[0][0])
                        else:
                            self.put(loc, ev0)
                        continue
            # accumulation of a term: x = f(x) with x + g(p)
            if len(vals) == 1 and isinstance(vals[0][0], T):
                v = vals[0][0]
                if v.op == "lin":
                    rest = add(v, lvt, -1)
                    if clean(rest) and vals[0][1] is True and not early and (isinstance(ev0, T) or isnum(ev0)):
                        self.put(loc, add(ev0, mk("sum", sq, rest)))
                        continue
                if v.op == "concat" and len(v.a) == 2 and isinstance(ev0, str) and vals[0][1] is True and not early:
                    a, b = v.a
                    if a is lvt and clean(b):
                        j = mk("join", "", mk("map", sq, b))
                        self.put(loc, mk("concat", ev0, j) if ev0 else j)
                        continue
                    if b is lvt and clean(a):
                        j = mk("join", "", mk("reversed", mk("map", sq, a)))
                        self.put(loc, mk("concat", j, ev0) if ev0 else j)
                        continue

    def drop_flag(self, c, lvt):
        if not isinstance(c, T):
            return c
        parts = c.a if c.op == "and" else (c,)
        return conj([x for x in parts if not (occurs(lvt, x) and len(list(subterms(x))) <= 4)])

    def put(self, loc, v):
        if loc[0] == "v":
            self.frames[loc[1]].vars[loc[2]] = v
        else:
            self.heap[loc[1]].items[loc[2]] = v

    def accumulate(self, lv, ent, syms, conds, sq, p, seq, clean, entry):
        if any(s is None for s in syms) or not syms:
            return None
        base = self.freeze_h(ent, entry.heap)
        ch = [(s, c) for s, c in zip(syms, conds) if s is not lv]
        if len(ch) != 1:
            # the same change on several partitions
            if ch and len({id(s) for s, _ in ch}) == 1:
                ch = [(ch[0][0], disj([c for _, c in ch]))]
            elif len(ch) > 1 and len(ch) == len(syms) and all(
                    isinstance(s, T) and s.op == ch[0][0].op and s.op in ("append", "store", "add") and s.a[:-1] == ch[0][0].a[:-1] for s, _ in ch):
                # the same place with one value per partition
                v = ch[-1][0].a[-1]
                for s, c in reversed(ch[:-1]):
                    v = mk("ite", c, s.a[-1], v)
                if not all(clean(c) for _, c in ch):
                    return None
                ch = [(mk(ch[0][0].op, *ch[0][0].a[:-1], v), True)]
                syms = ch
            else:
                return None
        s, c = ch[0]
        if len(ch) == len(syms):
            c = True
        if not isinstance(s, T) or not s.a or s.a[0] is not lv:
            return None
        if not clean(tuple(s.a[1:])) or not clean(c):
            return None
        cond = () if c is True else (c,)
        empty = isinstance(base, T) and base.op in ("list", "dict", "set") and not base.a
        if s.op == "append":
            m = mk("map" if not cond else "filtermap", sq, *cond, s.a[1])
            return m if empty else mk("concat", base, m)
        if s.op == "concat":
            m = mk("flatmap", sq, *cond, s.a[1])
            return m if empty else mk("concat", base, m)
        if s.op == "store":
            k, v = s.a[1], s.a[2]
            if ent.kind == "dict" and empty and not cond:
                return mk("dictmap", sq, k, v)
            if base.op == "rep" and not cond and k is p and same(self.length(seq), base.a[1]):
                return mk("map", sq, v)
            return mk("storemap", base, sq, *cond, k, v)
        if s.op == "add":
            m = mk("setmap", sq, *cond, s.a[1])
            return m if empty else mk("union", base, m)
        if s.op == "union":
            m = mk("unionmap", sq, *cond, s.a[1])
            return m if empty else mk("union", base, m)
        return None

    def freeze_h(self, h, heap):
        if h.sym is not None:
            return h.sym
        if h.kind == "list":
            return mk("list", *[self.freeze(x, heap) for x in h.items])
        if h.kind == "set":
            return mk("set", *sorted([self.freeze(x, heap) for x in h.items], key=skey))
        return mk("dict", *[(self.freeze(k, heap), self.freeze(x, heap)) for k, x in h.items])

    # host model values
    def native(self, f, *a):
        try:
            return f(*a)
        except (TypeError, IndexError, KeyError, ValueError, ZeroDivisionError, AttributeError) as x:
            if NOMODEL.search(str(x)):
                raise TooHard("host value: %s" % x)
            raise Raise(type(x).__name__, str(x))

    def tohost(self, v):
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.sym is None and h.kind in ("list", "set"):
                return [self.tohost(x) for x in h.items]
            if h.sym is None and h.kind == "dict":
                return {self.tohost(k): self.tohost(x) for k, x in h.items}
            raise TooHard("host value")
        if isinstance(v, tuple):
            return tuple(self.tohost(x) for x in v)
        if isinstance(v, T):
            l = self.tolist(v)
            if l is not None:
                return [self.tohost(x) for x in l]
        return v

    def tohere(self, v):
        if isinstance(v, list):
            return self.newlist([self.tohere(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.tohere(x) for x in v)
        if isinstance(v, dict):
            return self.newdict([(self.tohere(k), self.tohere(x)) for k, x in v.items()])
        return v

    def length(self, v):
        if isinstance(v, MV):
            return self.native(len, v)
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.kind == "obj":
                m = h.cls.find("__len__")[0] if h.cls else None
                if m:
                    return self.call(Bound(v, m), [], {}, None)
                return mk("len", self.freeze(v))
            if h.sym is None:
                return len(h.items)
            return self.length(h.sym)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, T):
            l = self.tolist(v)
            if l is not None:
                return len(l)
            if v.op == "range":
                if len(v.a) == 1:
                    return v.a[0]
                if len(v.a) == 2:
                    return add(v.a[1], v.a[0], -1)
            if v.op == "rep":
                return v.a[1]
            if v.op == "store" or v.op == "storemap":
                if self.is_listish(v):
                    return self.length(v.a[0])
            if v.op == "append":
                return add(self.length(v.a[0]), 1)
            if v.op in ("map", "list_of", "reversed", "enumerate"):
                x = v.a[0]
                return self.length(x.a[1] if isinstance(x, T) and x.op == "seq" else x)
            if v.op == "seq":
                return self.length(v.a[1])
            if v.op == "keys":
                return mk("len", v.a[0])
            return mk("len", v)
        raise TooHard("len")

    def is_listish(self, v):
        while isinstance(v, T) and v.op in ("store", "storemap"):
            v = v.a[0]
        return isinstance(v, T) and v.op in ("rep", "map", "append", "list")

    # -------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise TooHard("expression %s line %d" % (type(e).__name__, e.lineno))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr, e)

    def name(self, n, fr, node, default=Ellipsis):
        f = fr
        if n in fr.globals_:
            f = fr.mod.frame
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        if n in fr.mod.frame.vars:
            return fr.mod.frame.vars[n]
        if n in BUILTINS:
            return BI(n)
        if n in EXC or n in ("BaseException", "Exception", "NotImplemented"):
            return ext("builtins." + n)
        if default is not Ellipsis:
            return default
        if n == "__name__":
            return fr.mod.name
        # unbound
        raise Raise("NameError", n, getattr(node, "lineno", 0))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                l = self.tolist(v)
                if l is None:
                    raise TooHard("starred element")
                out += l
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.newlist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = self.new(H("set", []))
        for x in self.elts(e.elts, fr):
            self.m_set_add(s, x)
        return s

    def e_Dict(self, e, fr):
        d = self.newdict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.m_dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                f = self.freeze(v)
                if isconst(f) and x.format_spec is None and x.conversion == -1:
                    parts.append(str(f))
                else:
                    parts.append(mk("fmt", f))
        if all(isinstance(x, str) for x in parts):
            return "".join(parts)
        return mk("fstr", *parts)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if isconst(v) else (False if self.boolish(v) else v)
            if not isand and t:
                return v if not self.boolish(v) else True
        return v

    def boolish(self, v):
        return isinstance(v, bool) or isinstance(v, T) and v.op in ("eq", "not", "and", "in", "lt", "le", "isnone", "any", "isinstance", "bool")

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.cond(v)
            return neg(c)
        if isinstance(v, MV):
            f = {"USub": operator.neg, "Invert": operator.invert, "UAdd": operator.pos}[type(e.op).__name__]
            return self.tohere(self.native(f, v))
        if isinstance(e.op, ast.USub):
            return mul(v, -1) if isinstance(v, T) or isnum(v) else mk("neg", self.freeze(v))
        if isinstance(e.op, ast.Invert):
            return ~v if isinstance(v, int) else mk("invert", self.freeze(v))
        return v

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setvar(fr, e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        f = Fn(e, fr.mod, fr, name="<lambda%d>" % e.lineno)
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        f.kwdefaults = [self.ev(d, fr) if d is not None else None for d in e.args.kw_defaults]
        return f

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if c is False:
                return False
            res.append(c)
            left = right
        return conj(res)

    def compare(self, op, a, b):
        if op not in ("Is", "IsNot", "In", "NotIn") and (isinstance(a, MV) or isinstance(b, MV)):
            x, y, o = self.tohost(a), self.tohost(b), op
            if not isinstance(x, MV):
                x, y, o = y, x, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            return self.native(x.compare, o, y)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return neg(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return neg(r) if op == "NotIn" else r
        if op in ("Eq", "NotEq"):
            if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
                r = True
            elif self.isfn(a) or self.isfn(b):
                r = a is b or (isinstance(a, BI) and isinstance(b, BI) and a.name == b.name)
            else:
                fa, fb = self.freeze(a), self.freeze(b)
                if (fa is None) != (fb is None):
                    r = self.is_(a, b)
                else:
                    r = self.hook("eq", fa, fb)
                    if r is NotImplemented:
                        r = eq(fa, fb)
            return neg(r) if op == "NotEq" else r
        fa, fb = self.freeze(a), self.freeze(b)
        if isconst(fa) and isconst(fb) and fa is not None and fb is not None:
            return {"Lt": fa < fb, "LtE": fa <= fb, "Gt": fa > fb, "GtE": fa >= fb}[op]
        if op == "Gt":
            fa, fb, op = fb, fa, "Lt"
        if op == "GtE":
            fa, fb, op = fb, fa, "LtE"
        # a < b  /  a <= b ; b <= a  is not(a < b)
        if op == "LtE":
            return neg(self.lt(fb, fa))
        return self.lt(fa, fb)

    def lt(self, a, b):
        if isinstance(a, T) and a.op in ("set", "add", "union", "setmap"):
            return mk("lt", a, b)
        r = self.hook("lt", a, b)
        if r is not NotImplemented:
            return r
        # 0 < len(x)  -> nonempty
        if a == 0 and isinstance(b, T) and b.op == "len":
            return self.cond_T(mk("nonempty", b.a[0]))
        if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
            c0, d = tolin(add(a, b, -1))
            if not [1 for t, c in d.values() if c]:
                return c0 < 0
        return mk("lt", a, b)

    def isfn(self, v):
        return isinstance(v, (Fn, Bound, Cls, BI, BM, Mod))

    def is_(self, a, b):
        if isinstance(a, MV) or isinstance(b, MV):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if self.isfn(a) or self.isfn(b):
            return a is b or isinstance(a, BI) and isinstance(b, BI) and a.name == b.name
        if isconst(a) and isconst(b):
            return a is b or (a == b and type(a) is type(b))
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                r = self.hook("isnone", x)
                if r is not NotImplemented and r is not None:
                    return r
                if x.op in ("ext", "list", "dict", "map", "rep", "lin", "fstr", "and", "not", "eq", "in", "obj", "range"):
                    return False
                return mk("isnone", x)
            if isinstance(y, bool):
                return self.cond(x) if y else neg(self.cond(x))
        return eq(a, b)

    def contains(self, c, x):
        if isinstance(c, MV):
            return self.native(c.has, self.tohost(x))
        fx = self.freeze(x) if not self.isfn(x) else x
        l = None
        if isinstance(c, Ref):
            h = self.heap[c.o]
            if h.kind in ("list", "set", "dict") and h.sym is None:
                l = [k for k, _ in h.items] if h.kind == "dict" else h.items
            elif h.kind == "dict":
                return self.in_sym(h.sym, fx)
            elif h.sym is not None:
                return self.in_sym(h.sym, fx)
            elif h.kind == "obj":
                m = h.cls.find("__contains__")[0] if h.cls else None
                if m:
                    return self.cond(self.call(Bound(c, m), [x], {}, None))
                return mk("in", fx, self.freeze(c))
        elif isinstance(c, tuple):
            l = c
        elif isinstance(c, str) and isinstance(x, str):
            return x in c
        elif isinstance(c, T):
            l = self.tolist(c)
        if l is not None:
            rs = []
            for y in l:
                if self.isfn(y) or self.isfn(fx):
                    r = y is fx
                else:
                    fy = self.freeze(y)
                    r = self.hook("eq", fx, fy)
                    if r is NotImplemented:
                        r = eq(fx, fy)
                if r is True:
                    return True
                if r is not False:
                    rs.append(r)
            return disj(rs) if rs else False
        return self.in_sym(self.freeze(c), fx)

    def in_sym(self, s, x):
        r = self.hook("contains", s, x)
        if r is not NotImplemented and r is not None:
            return r
        if isinstance(s, T):
            if s.op == "store":
                e = eq(s.a[1], x)
                if e is True and not self.is_listish(s):
                    return True
                if e is False:
                    return self.in_sym(s.a[0], x)
            if s.op == "add":
                e = eq(s.a[1], x)
                if e is True:
                    return True
                return disj([e, self.in_sym(s.a[0], x)])
            if s.op == "union":
                rs = [self.in_sym(y, x) for y in s.a]
                if any(r is True for r in rs):
                    return True
                return disj(rs)
            if s.op in ("set", "list"):
                rs = [eq(y, x) for y in s.a]
                if any(r is True for r in rs):
                    return True
                return disj(rs) if rs else False
            if s.op == "setof":
                return self.in_sym(s.a[0], x)
            if s.op == "keys":
                return self.in_sym(s.a[0], x)
        return mk("in", x, s)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, MV) or isinstance(b, MV):
            return self.tohere(self.native(getattr(operator, opname(op)), self.tohost(a), self.tohost(b)))
        if isconst(a) and isconst(b) and a is not None and b is not None:
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
                        "LShift": lambda: a << b, "RShift": lambda: a >> b, "BitAnd": lambda: a & b,
                        "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
            except (TypeError, ZeroDivisionError) as x:
                raise Raise(type(x).__name__, None)
            except KeyError:
                raise TooHard("operator " + op)
        ka = self.heap[a.o].kind if isinstance(a, Ref) else None
        kb = self.heap[b.o].kind if isinstance(b, Ref) else None
        if op == "Add":
            if ka == "list" and kb == "list":
                la, lb = self.tolist(a), self.tolist(b)
                if la is not None and lb is not None:
                    return self.newlist(la + lb)
                return self.new(H("list", None, self.concat(self.freeze(a), self.freeze(b))))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) or isinstance(b, str) or self.strish(a) or self.strish(b):
                return mk("concat", self.freeze(a), self.freeze(b))
            fa, fb = self.freeze(a), self.freeze(b)
            if ka or kb:
                return self.new(H("list", None, self.concat(fa, fb)))
            return add(fa, fb)
        if op == "Sub":
            if ka == "set" or kb == "set":
                la = self.tolist(a)
                lb = self.tolist(b)
                if la is not None and lb is not None:
                    rs = [(x, self.contains(b, x)) for x in la]
                    if all(isinstance(r, bool) for _, r in rs):
                        return self.new(H("set", [x for x, r in rs if not r]))
                return self.new(H("set", None, mk("setdiff", self.freeze(a), self.freeze(b))))
            return add(self.freeze(a), self.freeze(b), -1)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and self.heap[x.o].kind == "list":
                    l = self.tolist(x)
                    if l is not None and isinstance(y, int):
                        return self.newlist(l * y)
                    if l is not None and len(l) == 1:
                        return self.new(H("list", None, mk("rep", self.freeze(l[0]), self.freeze(y))))
                    raise TooHard("list repetition")
            return mul(self.freeze(a), self.freeze(b))
        if op in ("BitOr", "BitAnd", "BitXor") and (ka == "set" or kb == "set"):
            if op == "BitOr":
                s = self.new(self.heap[a.o].copy() if ka else H("set", None, self.freeze(a)))
                self.m_set_update(s, b)
                return s
            return self.new(H("set", None, mk("set" + op, self.freeze(a), self.freeze(b))))
        if op == "BitOr" and ka == "dict":
            s = self.new(self.heap[a.o].copy())
            self.m_dict_update(s, b)
            return s
        fa, fb = self.freeze(a), self.freeze(b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(fa, bool) or isinstance(fb, bool):
                pass
            fa, fb = sorted((fa, fb), key=skey)
        if op == "Mod" and isinstance(fa, str):
            return mk("fstr", fa, fb)
        if op == "Pow" and fa == 2:
            return mk("pow2", fb)
        if op == "LShift" and fa == 1:
            return mk("pow2", fb)
        return mk(op, fa, fb)

    def concat(self, a, b):
        if isinstance(a, T) and a.op == "list" and not a.a:
            return b
        if isinstance(b, T) and b.op == "list":
            r = a
            for x in b.a:
                r = mk("append", r, x)
            return r
        return mk("concat", a, b)

    def strish(self, v):
        if not isinstance(v, T):
            return isinstance(v, str)
        return v.op in ("fstr", "str", "join") or id(v) in self.strlv or v.op == "concat" and any(self.strish(x) for x in v.a)

    # ---- comprehensions
    def e_ListComp(self, e, fr):
        out = self.newlist([])
        self.comp(e.generators, 0, Frame({}, fr, fr.mod, fr.fn or "comp"), lambda f: self.m_list_append(out, self.ev(e.elt, f)), e)
        return out

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        out = self.new(H("set", []))
        self.comp(e.generators, 0, Frame({}, fr, fr.mod, fr.fn or "comp"), lambda f: self.m_set_add(out, self.ev(e.elt, f)), e)
        return out

    def e_DictComp(self, e, fr):
        out = self.newdict([])

        def do(f):
            k = self.ev(e.key, f)
            self.setitem(out, k, self.ev(e.value, f))
        self.comp(e.generators, 0, Frame({}, fr, fr.mod, fr.fn or "comp"), do, e)
        return out

    def comp(self, gens, i, f, do, node):
        if i == 0:
            self.frames.append(f)
        try:
            g = gens[i]
            it = self.ev(g.iter, f)

            def body():
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        raise Continue()
                if i + 1 < len(gens):
                    self.comp(gens, i + 1, f, do, node)
                else:
                    do(f)
            self.for_loop(it, lambda x: self.assign(g.target, x, f), body, node)
        finally:
            if i == 0:
                if self.frames and self.frames[-1] is f:
                    self.frames.pop()

    def quantifier(self, name, e, fr):
        """any()/all() over a generator expression: stops at the first witness"""
        g = e.generators
        f = Frame({"$r": name == "all"}, fr, fr.mod, fr.fn or "comp")
        want = name == "any"
        self.frames.append(f)

        def do(fx):
            if self.truth(self.ev(e.elt, fx)) == want:
                fx.vars["$r"] = want
                raise Found()
        try:
            def lvl(i):
                gg = g[i]
                it = self.ev(gg.iter, f)

                def body():
                    for c in gg.ifs:
                        if not self.truth(self.ev(c, f)):
                            raise Continue()
                    if i + 1 < len(g):
                        lvl(i + 1)
                        if f.vars["$r"] == want:
                            raise Break()
                    else:
                        try:
                            do(f)
                        except Found:
                            raise Break()
                self.for_loop(it, lambda x: self.assign(gg.target, x, f), body, e)
            lvl(0)
            return f.vars["$r"]
        finally:
            if self.frames and self.frames[-1] is f:
                self.frames.pop()

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, (Cls, BI)) or isext(o) and not o.a[0].startswith(("pyQDD",)) and isinstance(e.ctx, ast.Load) and o.a[0].split(".")[0] in ("typing", "collections", "numpy"):
            return o          # a type annotation
        return self.subscript(o, self.ev(e.slice, fr))

    def subscript(self, o, k):
        if isinstance(o, MV):
            return self.tohere(self.native(operator.getitem, o, self.tohost(k)))
        if isinstance(k, slice):
            l = self.tolist(o)
            if l is not None and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                r = l[k]
                if isinstance(o, tuple):
                    return tuple(r)
                if isinstance(o, str):
                    return "".join(r)
                return self.newlist(r)
            f = self.freeze(o)
            if k.start is None and k.stop is None and k.step == -1:
                return mk("reversed", f)
            return mk("slice", f, *[None if x is None else self.freeze(x) for x in (k.start, k.stop, k.step)])
        if isinstance(o, Ref):
            h = self.heap[o.o]
            if h.kind == "obj":
                m = h.cls.find("__getitem__")[0] if h.cls else None
                if m:
                    return self.call(Bound(o, m), [k], {}, None)
                return mk("idx", self.freeze(o), self.freeze(k))
            if h.sym is None:
                if h.kind == "list":
                    if isinstance(k, int):
                        if -len(h.items) <= k < len(h.items):
                            return h.items[k]
                        raise Raise("IndexError", None)
                    return index_term(self.freeze(o), self.freeze(k))
                fk = self.freeze(k) if not self.isfn(k) else k
                unk = False
                for kk, vv in reversed(h.items):
                    r = eq(self.freeze(kk), fk) if not self.isfn(fk) else kk is fk
                    if r is True:
                        if unk:
                            break
                        return vv
                    if r is not False:
                        unk = True
                if not unk:
                    if isinstance(h.cls, DD):
                        v = self.call(h_default(h), [], {}, None)
                        self.setitem(o, k, v)
                        return v
                    raise Raise("KeyError", fk)
                if isinstance(h.cls, DD):
                    raise TooHard("defaultdict with symbolic keys")
                return mk("idx", self.freeze(o), fk)
            if isinstance(h.cls, DD):
                raise TooHard("defaultdict with symbolic keys")
            return self.dict_read(h, self.freeze(k))
        if isinstance(o, tuple):
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise Raise("IndexError", None)
            return mk("idx", mk("list", *[self.freeze(x) for x in o]), self.freeze(k))
        if isinstance(o, str):
            if isinstance(k, int):
                return o[k]
            return mk("idx", o, self.freeze(k))
        if isinstance(o, T):
            r = self.hook("getitem", o, self.freeze(k))
            if r is not NotImplemented:
                return r
            l = self.tolist(o) if isinstance(k, int) else None
            if l is not None:
                if -len(l) <= k < len(l):
                    return l[k]
                raise Raise("IndexError", None)
            return index_term(o, self.freeze(k))
        raise TooHard("subscript of %r" % (o,))

    def dict_read(self, h, k):
        s = h.sym
        return index_term(s, k)

    def setitem(self, o, k, v):
        if isinstance(o, MV):
            self.native(operator.setitem, o, self.tohost(k), self.tohost(v))
            return
        if not isinstance(o, Ref):
            # effect on something outside
            f = self.freeze(o)
            self.event("setitem", show(f), (f, self.freeze(k), self.freeze(v)))
            return
        h = self.heap[o.o]
        if h.kind == "obj":
            m = h.cls.find("__setitem__")[0] if h.cls else None
            if m:
                self.call(Bound(o, m), [k, v], {}, None)
                return
            raise TooHard("setitem on object")
        if isinstance(k, slice):
            l = self.tolist(v)
            whole = k.step is None and k.stop is None and (k.start is None or k.start == 0)
            if h.kind == "list" and whole and l is not None:
                h.items, h.sym = list(l), None
                return
            if h.kind == "list" and whole and isinstance(v, Ref) and self.heap[v.o].kind == "list":
                h.items, h.sym = None, self.heap[v.o].sym
                return
            if h.kind == "list" and h.sym is None and l is not None and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                h.items[k] = list(l)
                return
            raise TooHard("slice assignment")
        fk = self.freeze(k) if not self.isfn(k) else k
        if h.sym is None:
            if h.kind == "list":
                if isinstance(k, int) and not isinstance(k, bool):
                    if -len(h.items) <= k < len(h.items):
                        h.items[k] = v
                        return
                    raise Raise("IndexError", None)
            else:
                ok = True
                for i, (kk, vv) in enumerate(h.items):
                    r = eq(self.freeze(kk) if not self.isfn(kk) else kk, fk) if not self.isfn(fk) and not self.isfn(kk) else kk is fk
                    if r is True:
                        if ok:
                            h.items[i] = (kk, v)
                            return
                    elif r is not False:
                        ok = False
                if ok:
                    h.items.append((k, v))
                    return
            s = self.freeze(o)
        else:
            s = h.sym
        h.sym = mk("store", s, self.freeze(k), self.freeze(v))
        h.items = None

    def e_Starred(self, e, fr):
        raise TooHard("starred")

    # ---- attributes
    def e_Attribute(self, e, fr):
        return self.attr(self.ev(e.value, fr), e.attr)

    def attr(self, o, n):
        r = self.hook("attr", o, n)
        if r is not NotImplemented:
            return r
        if isinstance(o, Ref):
            h = self.heap[o.o]
            if h.kind == "obj":
                if h.items is not None and n in h.items:
                    return h.items[n]
                if h.cls:
                    v, c = h.cls.find(n)
                    if c is not None:
                        if isinstance(v, Fn):
                            if v.kind == "property":
                                return self.call(Bound(o, v), [], {}, None)
                            if v.kind == "staticmethod":
                                return v
                            if v.kind == "classmethod":
                                return Bound(h.cls, v)
                            return Bound(o, v)
                        return v
                if n == "__class__":
                    return h.cls
                if h.sym is not None:
                    return mk("attr", h.sym, n)
                return mk("attr", mk("self", h.cls.name if h.cls else "?"), n)
            return BM(o, n)
        if isinstance(o, MV):
            if not hasattr(o, n):
                if getattr(o, "strict", False):
                    raise Raise("AttributeError", n)
                raise TooHard("%s.%s" % (type(o).__name__, n))
            v = getattr(o, n)
            return BM(o, n) if callable(v) and not isinstance(v, MV) else self.tohere(v)
        if isinstance(o, Cls):
            v, c = o.find(n)
            if c is not None:
                if isinstance(v, Fn) and v.kind == "classmethod":
                    return Bound(o, v)
                return v
            if n in ("__name__", "__qualname__"):
                return o.name
            return mk("attr", mk("cls", o.name), n)
        if isinstance(o, Mod):
            return self.get_module_attr(o, n)
        if isinstance(o, SuperV):
            mro = o.cls.mro()
            scls = self.heap[o.self_.o].cls if isinstance(o.self_, Ref) else o.self_
            mro = scls.mro() if isinstance(scls, Cls) else mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if n in c.vars:
                    return Bound(o.self_, c.vars[n])
            return BM(o, n)
        if isinstance(o, T):
            if o.op == "ext":
                if n in ("__name__", "__qualname__"):
                    return o.a[0].split(":")[-1].split(".")[-1]
                return ext((o.a[0] if not o.a[0].startswith("qiskit:") else "qiskit." + o.a[0][7:]) + "." + n)
            if o.op == "mcall" and o.a[1] == "find_bit" and n == "index":
                return posof(o.a[0], o.a[2])
            return mk("attr", o, n)
        if isinstance(o, (str, tuple)) or isconst(o):
            return BM(o, n)
        if isinstance(o, (Fn, Bound, BI)):
            if n in ("__name__", "__qualname__"):
                return o.name if not isinstance(o, Bound) else o.fn.name
        raise TooHard("attribute %s of %r" % (n, o))

    def setattr(self, o, n, v):
        if isinstance(o, MV):
            setattr(o, n, self.tohost(v))
            return
        if isinstance(o, Ref):
            h = self.heap[o.o]
            if h.kind == "obj":
                if h.items is None:
                    h.items = {}
                h.items[n] = v
                self.event("setattr", n, (self.freeze(v) if not isinstance(v, (Fn, Bound)) else None,), x=o.o)
                return
        if isinstance(o, Cls):
            o.vars[n] = v
            return
        self.event("setattr", n, (self.freeze(o), self.freeze(v)))

    # ---- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and self.name(e.func.id, fr, e).__class__ is BI:
            return self.quantifier(e.func.id, e.args[0], fr)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and not (isinstance(f.fn, Fn) and f.fn.cls):
                f = f.parent
            if f is None:
                raise TooHard("super")
            a0 = f.fn.node.args.args[0].arg
            return SuperV(f.vars[a0], f.fn.cls)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                l = self.tolist(v)
                if l is None and isinstance(v, T) and v.op == "slice" and v.a[3] is None and \
                        v.a[1] in (None, 0) and isinstance(v.a[2], int) and 0 <= v.a[2] <= 8:
                    l = [self.subscript(v.a[0], q) for q in range(v.a[2])]
                if l is None:
                    args.append(mk("star", self.freeze(v)))
                else:
                    args += l
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and self.heap[v.o].kind == "dict" and self.heap[v.o].sym is None:
                    for kk, vv in self.heap[v.o].items:
                        kw[kk] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node):
        line = getattr(node, "lineno", 0)
        r = self.hook("call", fn, args, kw, line)
        if r is not NotImplemented:
            return r
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + args, kw, node)
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw, line)
        if isinstance(fn, Cls):
            return self.construct(fn, args, kw, line)
        if isinstance(fn, BI):
            return self.builtin(fn.name, args, kw, line)
        if isinstance(fn, BM):
            return self.method(fn.obj, fn.name, args, kw, line)
        if isinstance(fn, T):
            if fn.op == "ext":
                return self.extcall(fn.a[0], args, kw, line)
            if fn.op == "attr":
                return self.mcall(fn.a[0], fn.a[1], args, kw, line)
            return self.extcall(fn, args, kw, line)
        raise TooHard("call of %r" % (fn,))

    def call_fn(self, fn, args, kw, line):
        if len(self.callstack) > 60:
            raise TooHard("call depth")
        if self.callstack.count(fn.qual) >= 3:
            raise TooHard("recursion in " + fn.qual)
        n = fn.node
        a = n.args
        fr = Frame({}, fn.frame, fn.mod, fn)
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        kw = dict(kw)
        if any(isinstance(x, T) and x.op == "star" for x in pos):
            raise TooHard("star argument to " + fn.qual)
        for nm in names:
            if pos:
                fr.vars[nm] = pos.pop(0)
            elif nm in kw:
                fr.vars[nm] = kw.pop(nm)
        d0 = len(names) - len(fn.defaults)
        for i, d in enumerate(fn.defaults):
            if names[d0 + i] not in fr.vars:
                fr.vars[names[d0 + i]] = d
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                fr.vars[x.arg] = kw.pop(x.arg)
            elif d is not None or isinstance(a.kw_defaults[a.kwonlyargs.index(x)], ast.Constant):
                fr.vars[x.arg] = d
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(pos)
            pos = []
        if a.kwarg:
            star = kw.pop("**", None)
            if star is not None:
                if kw:
                    d = self.new(self.heap[star.o].copy() if isinstance(star, Ref) else H("dict", None, self.freeze(star)))
                    for k, v in kw.items():
                        self.setitem(d, k, v)
                    fr.vars[a.kwarg.arg] = d
                else:
                    fr.vars[a.kwarg.arg] = self.new(self.heap[star.o].copy()) if isinstance(star, Ref) else self.new(H("dict", None, self.freeze(star)))
            else:
                fr.vars[a.kwarg.arg] = self.newdict(list(kw.items()))
            kw = {}
        if "**" in kw:
            star = kw.pop("**")
            for nm in names + [x.arg for x in a.kwonlyargs]:
                if nm not in fr.vars or nm in names[d0:]:
                    raise TooHard("** into named parameters of " + fn.qual)
        if pos or kw:
            raise Raise("TypeError", None, line)
        for nm in names:
            if nm not in fr.vars:
                raise Raise("TypeError", None, line)
        self.reached.add(fn.qual)
        self.frames.append(fr)
        self.callstack.append(fn.qual)
        depth = len(self.frames)
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in walk_own(n)):
                raise TooHard("generator function " + fn.qual)
            try:
                self.block(n.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            del self.frames[depth - 1:]
            self.callstack.pop()

    def construct(self, c, args, kw, line):
        o = self.new(H("obj", {}, None, c))
        init, _ = c.find("__init__")
        if isinstance(init, Fn):
            self.call_fn(init, [o] + args, kw, line)
        elif any(k.dataclass for k in c.mro()):
            fields = []
            for k in reversed(c.mro()):
                fields += [f for f in k.fields if f not in fields]
            kw = dict(kw)
            for i, (n, hasdef) in enumerate(fields):
                if i < len(args):
                    self.heap[o.o].items[n] = args[i]
                elif n in kw:
                    self.heap[o.o].items[n] = kw.pop(n)
                elif hasdef:
                    self.heap[o.o].items[n] = c.find(n)[0]
                else:
                    raise Raise("TypeError", None, line)
            if kw or len(args) > len(fields):
                raise Raise("TypeError", None, line)
        elif args or kw:
            self.heap[o.o].items["$args"] = tuple(self.freeze(a) for a in args)
        self.event("new", c.name, tuple(self.freeze(a) if not isinstance(a, (Fn, Bound)) else None for a in args),
                   tuple(sorted((k, self.freeze(v) if not isinstance(v, (Fn, Bound)) else None) for k, v in kw.items())), o, line)
        return o

    def extcall(self, name, args, kw, line):
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kw.items()))
        if isinstance(name, str):
            if name in ("copy.deepcopy", "copy.copy") and len(args) == 1:
                v = args[0]
                return self.new(self.heap[v.o].copy()) if isinstance(v, Ref) else v
            if name == "collections.defaultdict":
                if not args and not kw or args[0] is None:
                    return self.newdict([])
                if len(args) > 1 or kw or not (self.isfn(args[0])):
                    raise TooHard("defaultdict")
                r = self.newdict([])
                self.heap[r.o].cls = DD(args[0])
                return r
        if self.hooks is not None and hasattr(self.hooks, "raises") and self.hooks.raises(self, name, fa):
            if self.choose(2) == 1:
                self.event("call", name, fa, fk, mk("raised", self.fresh("call")), line, x="raises")
                raise Raise("Exception", mk("excof", name if isinstance(name, str) else show(name)), line)
        pure = self.hook("pure", name)
        if pure is NotImplemented:
            pure = False
        t = mk("call", name, fa, fk) if pure else mk("call", name, fa, fk, mk("n", self.fresh("call")))
        self.event("call", name, fa, fk, t, line)
        return t

    def mcall(self, obj, name, args, kw, line):
        """method call on a term"""
        fa = tuple(self.freeze(a) for a in args)
        if not kw:
            if name == "get" and len(args) in (1, 2):
                return mk("get", obj, fa[0], fa[1] if len(fa) > 1 else None)
            if name in ("items", "values", "keys") and not args:
                return mk(name, obj)
            if name == "index" and len(args) == 1 and obj.op == "attr" and obj.a[1] in ("qubits", "clbits"):
                return posof(obj.a[0], fa[0], obj.a[1])
            if name == "find_bit" and len(args) == 1:
                return mk("mcall", obj, "find_bit", fa[0])
            if name == "copy" and not args:
                return mk("copyof", obj)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kw.items()))
        if self.hooks is not None and hasattr(self.hooks, "raises") and self.hooks.raises(self, "." + name, fa):
            if self.choose(2) == 1:
                raise Raise("Exception", mk("excof", "." + name), line)
        pure = self.hook("pure", "." + name)
        n = () if pure is True else (mk("n", self.fresh("call")),)
        t = mk("mcall", obj, name, *fa, *[mk("kw", k, v) for k, v in fk], *n)
        self.event("mcall", name, (obj,) + fa, fk, t, line)
        return t

    # ---- builtin functions
    def builtin(self, n, args, kw, line):
        a = args
        if n == "len":
            return self.length(a[0])
        if n == "range":
            return mk("range", *[self.freeze(x) for x in a])
        if n == "enumerate":
            st = a[1] if len(a) > 1 else kw.get("start", 0)
            l = self.tolist(a[0])
            if l is not None:
                return self.newlist([(add(i, st), x) for i, x in enumerate(l)])
            return mk("enumerate", self.seqterm(a[0]), self.freeze(st))
        if n == "zip":
            ls = [self.tolist(x) for x in a]
            if all(l is not None for l in ls):
                return self.newlist([tuple(x) for x in zip(*ls)])
            return mk("zip", *[self.seqterm(x) for x in a])
        if n == "filter" and len(a) == 2:
            l = self.tolist(a[1])
            if l is not None:
                return self.newlist([x for x in l if self.truth(x if a[0] is None else self.call(a[0], [x], {}, None))])
        if n == "map" and len(a) == 2:
            l = self.tolist(a[1])
            if l is not None:
                return self.newlist([self.call(a[0], [x], {}, None) for x in l])
            out = self.newlist([])
            cell = {}

            def bind(x):
                cell["x"] = x

            class N:
                lineno = line
            self.for_loop(a[1], bind, lambda: self.m_list_append(out, self.call(a[0], [cell["x"]], {}, None)), N)
            return out
        if n == "reversed":
            l = self.tolist(a[0])
            if l is not None:
                return self.newlist(l[::-1])
            return mk("reversed", self.freeze(a[0]))
        if n == "sorted":
            l = self.tolist(a[0])
            if l is not None and not kw and all(isconst(x) for x in l):
                return self.newlist(sorted(l))
            if l is not None and not kw and len(l) <= 1:
                return self.newlist(l)
            if l is not None and set(kw) <= {"key", "reverse"} and kw.get("reverse", False) in (True, False):
                ks = [self.call(kw["key"], [x], {}, None) for x in l] if kw.get("key") is not None else \
                    [x[0] if isinstance(x, tuple) and x else x for x in l]
                if all(isconst(x) and x is not None for x in ks) and (kw.get("key") is not None or len(set(ks)) == len(ks)):
                    return self.newlist([x for _, x in sorted(zip(ks, l), key=lambda p: p[0], reverse=bool(kw.get("reverse")))])
            return self.new(H("list", None, mk("sorted", self.freeze(a[0]), *[mk("kw", k, self.freeze(v)) for k, v in sorted(kw.items())])))
        if n in ("list", "tuple"):
            if not a:
                return self.newlist([]) if n == "list" else ()
            l = self.tolist(a[0])
            if l is not None:
                return self.newlist(l) if n == "list" else tuple(l)
            f = self.seqterm(a[0])
            if isinstance(a[0], Ref) and self.heap[a[0].o].kind == "dict":
                f = mk("keys", f)
            if isinstance(f, T) and f.op in ("range", "keys", "reversed", "enumerate", "zip", "setof", "setdiff", "items", "values"):
                return self.new(H("list", None, mk("list_of", f))) if n == "list" else mk("list_of", f)
            return self.new(H("list", None, f)) if n == "list" else f
        if n in ("set", "frozenset"):
            s = self.new(H("set", []))
            if a:
                self.m_set_update(s, a[0])
            return s
        if n == "dict":
            d = self.newdict([])
            if a:
                f = a[0]
                if isinstance(f, Ref) and self.heap[f.o].kind == "dict":
                    self.m_dict_update(d, f)
                else:
                    l = self.tolist(f)
                    if l is not None:
                        for x in l:
                            k, v = self.unpack(x, 2)
                            self.setitem(d, k, v)
                    else:
                        seq, el = self.seqdesc(f)

                        class N:
                            lineno = line

                        def one():
                            k, v = self.unpack(el, 2)
                            self.setitem(d, k, v)
                        self.sym_loop(seq, el, one, N)
            for k, v in kw.items():
                if k == "**":
                    self.m_dict_update(d, v)
                else:
                    self.setitem(d, k, v)
            return d
        if n in ("str", "repr"):
            if not a:
                return ""
            f = self.freeze(a[0])
            if isconst(f) and not isinstance(f, float):
                return str(f) if n == "str" else repr(f)
            if self.strish(f):
                return f
            return mk("str", f)
        if n in ("int", "float", "bool"):
            if not a:
                return {"int": 0, "float": 0.0, "bool": False}[n]
            f = self.freeze(a[0])
            if n == "bool":
                return self.cond(a[0])
            if isconst(f) and f is not None and len(a) == 1:
                try:
                    return int(f) if n == "int" else float(f)
                except ValueError:
                    raise Raise("ValueError", None, line)
            if isinstance(f, MV):
                if len(a) == 1 and n == "float":
                    return f
                raise TooHard(n)
            if n == "int" and isinstance(f, str) and len(a) == 2 and isinstance(a[1], int):
                return self.native(int, f, a[1])
            r = self.hook(n, f)
            if r is not NotImplemented:
                return r
            return mk(n, *[self.freeze(x) for x in a])
        if n in ("max", "min"):
            l = self.tolist(a[0]) if len(a) == 1 else list(a)
            if l is not None and not kw:
                if not l:
                    raise Raise("ValueError", None, line)
                fs = [self.freeze(x) for x in l]
                if all(isconst(x) for x in fs):
                    return max(fs) if n == "max" else min(fs)
                u = {}
                for x in fs:
                    for y in (x.a if isinstance(x, T) and x.op == n else (x,)):
                        u[_key(y)] = y
                us = sorted(u.values(), key=skey)
                return us[0] if len(us) == 1 else mk(n, *us)
            if kw:
                return mk("bi_" + n, *[self.freeze(x) for x in a], *[mk("kw", k, self.freeze(v)) for k, v in sorted(kw.items())])
            return mk(n, *[self.freeze(x) for x in a])
        if n in ("any", "all"):
            l = self.tolist(a[0])
            if l is None:
                f = self.freeze(a[0])
                # any(map of conditions)
                if isinstance(f, T) and f.op == "map":
                    c = self.cond(f.a[-1])
                    if n == "any":
                        return mk("any", f.a[0], c) if isinstance(c, T) else c
                    c = neg(c)
                    return neg(mk("any", f.a[0], c)) if isinstance(c, T) else not c
                return mk("truthy", mk(n, f))
            for x in l:
                t = self.truth(x)
                if n == "any" and t:
                    return True
                if n == "all" and not t:
                    return False
            return n == "all"
        if n == "sum":
            l = self.tolist(a[0])
            st = a[1] if len(a) > 1 else kw.get("start", 0)
            if l is not None:
                r = st
                for x in l:
                    r = self.binop("Add", r, x)
                return r
            f = self.freeze(a[0])
            if isinstance(f, T) and f.op == "map" and isnum(st):
                return add(st, mk("sum", f.a[0], f.a[1]))
            return mk("sumof", f, self.freeze(st))
        if n == "isinstance":
            return self.isinstance_(a[0], a[1])
        if n == "issubclass":
            return mk("truthy", mk("issubclass", self.freeze(a[0]), self.freeze(a[1])))
        if n == "hasattr":
            r = self.hook("hasattr", a[0], a[1])
            if r is not NotImplemented:
                return r
            if isinstance(a[0], Ref) and self.heap[a[0].o].kind == "obj" and isinstance(a[1], str):
                h = self.heap[a[0].o]
                if a[1] in (h.items or {}) or (h.cls and h.cls.find(a[1])[1]):
                    return True
            return mk("truthy", mk("hasattr", self.freeze(a[0]), self.freeze(a[1])))
        if n == "getattr":
            if isinstance(a[1], str):
                if len(a) == 2:
                    return self.attr(a[0], a[1])
                if isinstance(a[0], Ref) and self.heap[a[0].o].kind == "obj":
                    h = self.heap[a[0].o]
                    if a[1] in (h.items or {}) or (h.cls and h.cls.find(a[1])[1]):
                        return self.attr(a[0], a[1])
                if isext(a[0]):
                    return self.attr(a[0], a[1])
                r = self.hook("hasattr", a[0], a[1])
                if r is True:
                    return self.attr(a[0], a[1])
                if r is False:
                    return a[2]
            return mk("getattr", *[self.freeze(x) for x in a])
        if n == "setattr" and isinstance(a[1], str):
            self.setattr(a[0], a[1], a[2])
            return None
        if n == "print":
            return None
        if n == "pow":
            return self.binop("Pow", a[0], a[1])
        if n == "type":
            r = self.hook("type", a[0])
            if r is not NotImplemented:
                return r
            if isinstance(a[0], Ref) and self.heap[a[0].o].cls:
                return self.heap[a[0].o].cls
            return mk("typeof", self.freeze(a[0]))
        if n == "abs" and isnum(a[0]):
            return abs(a[0])
        if n == "bin" and isinstance(a[0], int):
            return bin(a[0])
        if n == "next":
            f = self.freeze(a[0])
            if isinstance(a[0], Ref) and self.tolist(a[0]):
                return self.tolist(a[0])[0]
            return mk("next", f, *[self.freeze(x) for x in a[1:]])
        if n == "iter":
            return a[0]
        if n == "callable":
            return True if self.isfn(a[0]) else mk("truthy", mk("callable", self.freeze(a[0])))
        return mk("bi_" + n, *[self.freeze(x) for x in a])

    def seqterm(self, v):
        if isinstance(v, Ref) and self.heap[v.o].kind == "dict":
            return mk("keys", self.freeze(v))
        if isinstance(v, tuple):
            return mk("list", *[self.freeze(x) for x in v])
        return self.freeze(v)

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            rs = [self.isinstance_(v, x) for x in c]
            if any(r is True for r in rs):
                return True
            return disj(rs)
        r = self.hook("isinstance", v, c)
        if r is not NotImplemented:
            return r
        cn = c.name if isinstance(c, (BI, Cls)) else show(c)
        if isinstance(v, Ref):
            h = self.heap[v.o]
            if h.kind != "obj":
                return h.kind == cn
            if isinstance(c, Cls):
                return c in h.cls.mro() if h.cls else mk("isinstance", self.freeze(v), cn)
            return mk("isinstance", self.freeze(v), cn)
        if isinstance(v, tuple):
            return cn == "tuple"
        if isconst(v):
            return isinstance(v, getattr(builtins, cn, ())) if isinstance(c, BI) else False
        return mk("isinstance", self.freeze(v), cn)

    # ---- methods of values
    def method(self, o, n, args, kw, line):
        if isinstance(o, SuperV):
            self.event("super", n, tuple(self.freeze(a) for a in args), tuple(sorted((k, self.freeze(v)) for k, v in kw.items())), None, line)
            if n == "__init__":
                self.hook("super_init", o, args, kw)
            r = self.hook("super_call", o, n, args, kw)
            if r is not NotImplemented:
                return r
            return mk("super", n, *[self.freeze(a) for a in args])
        if isinstance(o, MV):
            return self.tohere(self.native(lambda: getattr(o, n)(*[self.tohost(x) for x in args], **{k: self.tohost(x) for k, x in kw.items()})))
        if isinstance(o, Ref):
            h = self.heap[o.o]
            m = getattr(self, "m_%s_%s" % (h.kind, n), None)
            if m is None:
                raise TooHard("method %s.%s" % (h.kind, n))
            return m(o, *args, **kw)
        if isinstance(o, str):
            if n == "join":
                l = self.tolist(args[0])
                if l is not None and all(isinstance(x, str) for x in l):
                    return o.join(l)
                return mk("join", o, self.seqterm(args[0]))
            if all(isconst(a) for a in args) and not kw:
                try:
                    r = getattr(o, n)(*args)
                except Exception:
                    raise TooHard("str." + n)
                return self.newlist(r) if isinstance(r, list) else r
            return mk("strm", o, n, *[self.freeze(a) for a in args])
        if isinstance(o, tuple):
            if n == "index":
                for i, x in enumerate(o):
                    if eq(self.freeze(x), self.freeze(args[0])) is True:
                        return i
            if n == "count":
                pass
            raise TooHard("tuple." + n)
        if isconst(o):
            raise Raise("AttributeError", n, line)
        raise TooHard("method " + n)

    # list
    def m_list_append(self, o, v):
        h = self.heap[o.o]
        if h.sym is None:
            h.items.append(v)
        else:
            h.sym = mk("append", h.sym, self.freeze(v))

    def m_list_extend(self, o, v):
        l = self.tolist(v)
        h = self.heap[o.o]
        if l is not None:
            for x in l:
                self.m_list_append(o, x)
            return
        f = self.seqterm(v)
        h.sym = self.concat(self.freeze(o), f)
        h.items = None

    def m_list_insert(self, o, i, v):
        h = self.heap[o.o]
        if h.sym is None and isinstance(i, int):
            h.items.insert(i, v)
        else:
            h.sym = mk("insert", self.freeze(o), self.freeze(i), self.freeze(v))
            h.items = None

    def m_list_pop(self, o, i=-1):
        h = self.heap[o.o]
        if h.sym is None and isinstance(i, int):
            if not h.items:
                raise Raise("IndexError", None)
            return h.items.pop(i)
        s = self.freeze(o)
        h.sym, h.items = mk("popped", s, self.freeze(i)), None
        return index_term(s, self.freeze(i))

    def m_list_sort(self, o, **kw):
        h = self.heap[o.o]
        if h.sym is None and not kw and all(isconst(x) for x in h.items):
            h.items.sort()
            return
        h.sym, h.items = mk("sorted", self.freeze(o)), None

    def m_list_reverse(self, o):
        h = self.heap[o.o]
        if h.sym is None:
            h.items.reverse()
            return
        h.sym = h.sym.a[0] if h.sym.op == "reversed" else mk("reversed", h.sym)

    def m_list_copy(self, o):
        return self.new(self.heap[o.o].copy())

    def m_list_index(self, o, v):
        l = self.tolist(o)
        if l is not None:
            f = self.freeze(v)
            for i, x in enumerate(l):
                r = eq(self.freeze(x), f)
                if r is True:
                    return i
                if r is not False:
                    break
            else:
                raise Raise("ValueError", None)
        return mk("indexof", self.freeze(o), self.freeze(v))

    def m_list_count(self, o, v):
        return mk("countof", self.freeze(o), self.freeze(v))

    def m_list_clear(self, o):
        h = self.heap[o.o]
        h.sym, h.items = None, []

    def m_list_remove(self, o, v):
        h = self.heap[o.o]
        h.sym, h.items = mk("removed", self.freeze(o), self.freeze(v)), None

    # set
    def m_set_add(self, o, v):
        h = self.heap[o.o]
        f = self.freeze(v)
        if h.sym is None:
            for x in h.items:
                if eq(self.freeze(x), f) is True:
                    return
            h.items.append(v)
        else:
            if h.sym.op == "add" and same(h.sym.a[1], f):
                return
            h.sym = mk("add", h.sym, f)

    def m_set_update(self, o, *vs):
        for v in vs:
            l = self.tolist(v)
            h = self.heap[o.o]
            if l is not None:
                for x in l:
                    self.m_set_add(o, x)
                continue
            f = self.seqterm(v)
            if h.sym is None and not h.items:
                h.sym = f if isinstance(v, Ref) and self.heap[v.o].kind == "set" else mk("setof", f)
            else:
                h.sym = mk("union", self.freeze(o), f)
            h.items = None

    def m_set_union(self, o, *vs):
        s = self.new(self.heap[o.o].copy())
        self.m_set_update(s, *vs)
        return s

    def m_set_copy(self, o):
        return self.new(self.heap[o.o].copy())

    def m_set_difference(self, o, v):
        return self.binop("Sub", o, v)

    def m_set_pop(self, o):
        h = self.heap[o.o]
        s = self.freeze(o)
        h.sym, h.items = mk("popped", s), None
        return mk("anyof", s)

    def m_set_discard(self, o, v):
        h = self.heap[o.o]
        h.sym, h.items = mk("setdiff", self.freeze(o), mk("set", self.freeze(v))), None

    m_set_remove = m_set_discard

    def m_set_isdisjoint(self, o, v):
        l = self.tolist(v)
        if l is None:
            l = self.tolist(o)
            o = v
        if l is None:
            return mk("truthy", mk("isdisjoint", self.freeze(o), self.freeze(v)))
        return neg(disj([self.contains(o, x) for x in l])) if l else True

    def m_set_intersection(self, o, v):
        return self.new(H("set", None, mk("setBitAnd", self.freeze(o), self.freeze(v))))

    def m_set_issubset(self, o, v):
        l = self.tolist(o)
        if l is None:
            return mk("truthy", mk("issubset", self.freeze(o), self.freeze(v)))
        return conj([self.contains(v, x) for x in l])

    # dict
    def m_dict_get(self, o, k, d=None):
        h = self.heap[o.o]
        c = self.contains(o, k)
        if c is True:
            return self.subscript(o, k)
        if c is False:
            return d
        return mk("get", self.freeze(o), self.freeze(k), self.freeze(d))

    def m_dict_pop(self, o, k, *d):
        h = self.heap[o.o]
        c = self.contains(o, k)
        if c is True:
            v = self.subscript(o, k)
            self.delitem(o, k)
            return v
        if c is False:
            if d:
                return d[0]
            raise Raise("KeyError", None)
        v = mk("get", self.freeze(o), self.freeze(k), self.freeze(d[0]) if d else None)
        h.sym, h.items = mk("del", self.freeze(o), self.freeze(k)), None
        return v

    def m_dict_setdefault(self, o, k, d=None):
        c = self.contains(o, k)
        if c is True:
            return self.subscript(o, k)
        if c is False:
            self.setitem(o, k, d)
            return d
        h = self.heap[o.o]
        if self.branch(c):
            return self.subscript(o, k)
        self.setitem(o, k, d)
        return d

    def m_dict_items(self, o):
        h = self.heap[o.o]
        if h.sym is None:
            return self.newlist([(k, v) for k, v in h.items])
        return mk("items", h.sym)

    def m_dict_keys(self, o):
        h = self.heap[o.o]
        if h.sym is None:
            return self.newlist([k for k, v in h.items])
        return mk("keys", h.sym)

    def m_dict_values(self, o):
        h = self.heap[o.o]
        if h.sym is None:
            return self.newlist([v for k, v in h.items])
        return mk("values", h.sym)

    def m_dict_copy(self, o):
        return self.new(self.heap[o.o].copy())

    def m_dict_update(self, o, v=None, **kw):
        if v is not None:
            if isinstance(v, Ref) and self.heap[v.o].kind == "dict" and self.heap[v.o].sym is None:
                for k, x in list(self.heap[v.o].items):
                    self.setitem(o, k, x)
            else:
                h = self.heap[o.o]
                if h.sym is None and not h.items:
                    h.sym = self.freeze(v)
                else:
                    h.sym = mk("merge", self.freeze(o), self.freeze(v))
                h.items = None
        for k, x in kw.items():
            self.setitem(o, k, x)

    # -------------------------------------------------------- entry point
    def analyse(self, fn, args, kw=None):
        """all partitions of a call; list of Path (kind 'return'/'raise')"""
        def thunk():
            try:
                return "return", self.call(fn, list(args), dict(kw or {}), None)
            except Raise as r:
                return "raise", r
        return self.paths(thunk)


class WhileExit(Exception):
    pass


class Found(Exception):
    pass


def posof(circ, bit, which=None):
    """position of a bit in the circuit"""
    return mk("bitpos", circ, bit)


def h_default(h):
    return h.cls.f


class DD:
    """default factory of a dictionary"""
    name = "defaultdict"

    def __init__(self, f):
        self.f = f


def walk_own(fn):
    """nodes of a function without nested functions"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
