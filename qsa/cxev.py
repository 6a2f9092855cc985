"""Abstract interpreter for the resolved C++ AST (output of tools/cxxdump.cpp).

Forward abstract interpretation with trace partitioning on branch conditions.  The
value domain is value numbering over polynomial normal forms (qsa/terms.py), the
branch domain is literals plus intervals over linear forms (qsa/facts.py); nothing
is executed and no solver is involved.  In-project callees are inlined unless they
are in the client's `opaque` set; loops whose trip count is constant in the domain
are unrolled, all others are cut at the head (everything the body may write becomes
unknown there) and one abstract iteration is recorded.
"""
import re
from .terms import *
from .facts import Facts
from .dump import AnalysisError


class TooHard(AnalysisError):
    """construct or budget outside what the interpreter models"""


class Ref:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ref) and o.lv == self.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return f"Ref{self.lv}"


class Closure:
    def __init__(self, node, caps, fr):
        self.node, self.caps, self.fr = node, caps, fr
        global _cl
        _cl += 1
        self.n = _cl


_cl = 0
LOCKS = ("std::unique_lock<", "std::lock_guard<", "std::scoped_lock<")


def base_var(e):
    while isinstance(e, dict):
        if e.get("k") == "ref":
            return e.get("d")
        if e.get("k") in ("mcall", "opcall"):
            e = e.get("o") or (e.get("a") or [None])[0]
        else:
            e = e.get("b") or e.get("e") or e.get("o") or (e.get("a") or [None])[0]
    return None


def may_change(n, refs):
    """can this piece of code change one of the variables in refs (assignment, increment, non-const call or argument)?"""
    if isinstance(n, list):
        return any(may_change(x, refs) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get("k")
    if k in ("asg", "casg") and base_var(n.get("a") if not isinstance(n.get("a"), list) else n["a"][0]) in refs:
        return True
    if k == "un" and str(n.get("op", "")) in ("++", "--", "p++", "p--", "++p", "--p") and base_var(n.get("e")) in refs:
        return True
    f = n.get("f")
    if k in ("call", "mcall", "opcall") and isinstance(f, dict):
        if n.get("o") is not None and not f.get("const") and base_var(n["o"]) in refs and f.get("name") not in ("operator[]", "begin", "end", "at", "size", "data", "front", "back"):
            return True
        for a, t in zip(n.get("a") or [], f.get("pt") or []):
            if t.endswith("&") and not t.startswith("const") and base_var(a) in refs:
                return True
    return any(may_change(x, refs) for x in n.values() if isinstance(x, (dict, list)))


def clo_term(c):
    t = mk("closure", c)
    return t


class St:
    __slots__ = ("env", "heap", "facts", "log", "ep", "fresh")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = Facts()
        self.log = ()
        self.ep = {}
        self.fresh = frozenset()

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.log = self.log
        s.ep = dict(self.ep)
        s.fresh = self.fresh
        return s


class Event:
    __slots__ = ("kind", "name", "args", "res", "line", "fn", "nfacts", "facts", "x", "node", "heap", "obj", "snap")

    def __init__(self, kind, name, args=(), res=None, line=0, fn="", facts=None, x=None, node=None):
        self.kind, self.name, self.args, self.res, self.line, self.fn = kind, name, args, res, line, fn
        self.facts = facts or ()
        self.x = x
        self.node = node
        self.heap = None
        self.obj = None
        self.snap = None

    def __repr__(self):
        return f"<{self.kind} {self.name} {list(self.args)} -> {self.res} @{self.fn}:{self.line}>"


class LoopRec:
    def __init__(self, node, fn):
        self.node, self.fn = node, fn
        self.entry = self.head = None
        self.steps = []   # (tag, state) after one abstract iteration
        self.conds = []   # states at body start
        self.line = node.get("l")
        self.id = None


def strip_t(t):
    t = t.strip()
    while True:
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith("*const"):
            t = t[:-5]
        else:
            return t


def is_ref_t(t):
    return t.rstrip().endswith("&")


def const_ref_t(t):
    t = t.strip()
    return t.endswith("&") and not t.endswith("&&") and t.startswith("const ")


CPLX = {"Complex", "std::complex<double>", "std::complex<float>", "struct c"}
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char",
        "long long", "unsigned long long", "Qubit", "size_t", "bool"}


def is_int_t(t):
    return strip_t(t) in INTS


def is_flt_t(t):
    return strip_t(t) in ("double", "float", "long double")


ARR_RE = re.compile(r"^std::array<(.*), (\d+)>$")
CARR_RE = re.compile(r"^(.*?)\s*\[(\d+)\]$")


def arr_info(t):
    """(elem type, n) for std::array / C array types"""
    t = strip_t(t)
    m = ARR_RE.match(t)
    if m:
        return m.group(1), int(m.group(2))
    m = re.match(r"^(.*?)((?:\[\d+\])+)$", t)
    if m:
        dims = re.findall(r"\[(\d+)\]", m.group(2))
        rest = "".join(f"[{d}]" for d in dims[1:])
        return m.group(1).strip() + rest, int(dims[0])
    return None


def is_vec_t(t):
    t = strip_t(t)
    return t.startswith("std::vector<") and not t.endswith("*") and "::" not in t[t.rfind(">"):]


NULL = mk("null")


class Interp:
    def __init__(self, unit, opaque=(), const_globals=(), pure=(), models=None, max_states=3000, unroll=70, name="",
                 complex_native=True):
        self.u = unit
        self.funcs = {f["id"]: f for f in unit["funcs"]}
        self.by_qn = {}
        for f in unit["funcs"]:
            self.by_qn.setdefault(f["qn"], []).append(f)
        self.recs = {}
        for r in unit["records"]:
            self.recs.setdefault(r["t"], r)
            self.recs.setdefault(r["qn"], r)
        self.globals = {g["qn"]: g for g in unit["globals"]}
        self.opaque = opaque if callable(opaque) else (lambda f, S=frozenset(opaque): f["qn"] in S or f["name"] in S)
        self.const_globals = set(const_globals)
        self.pure = set(pure)
        self.models = dict(models or {})
        self.max_states = max_states
        self.unroll = unroll
        self.frame = 0
        self.stack = []
        self.seq = 0
        self.loops = []
        self.work = 0
        self.budget = 400000
        self.cn = complex_native
        self.notes = []
        self.axiom = None
        self.no_merge = False
        self.track_sets = False     # log changes of local variables
        self.snap_calls = None      # calls whose reference and iterator arguments are recorded with their contents
        self._ginit = {}
        self.functions_seen = set()
        self.tasks = {}
        self.rawtasks = set()

    # ------------------------------------------------------------ entry points
    watch = None

    def find(self, qn, pred=None):
        c = [f for f in self.by_qn.get(qn, []) if f.get("body") and (pred is None or pred(f))]
        if not c:
            raise AnalysisError(f"anchor not found: {qn}")
        return c[0]

    def run(self, f, args=None, this=None, st=None, pre=()):
        """args: list of values / LVs per parameter; returns [(tag, value, state)]"""
        st = st or St()
        for lit, val in pre:
            if not st.facts.assume(lit, val):
                raise AnalysisError("contradictory precondition")
        return self.call_body(f, args, this, st)

    def params(self, f, prefix=""):
        """symbolic arguments named after position"""
        out = []
        for i, p in enumerate(f["ps"]):
            out.append(sym(f"{prefix}{p['n']}"))
        return out

    def tick(self, n=1):
        self.work += n
        if self.work > self.budget:
            raise TooHard("interpretation budget exceeded in " + (self.stack[-1]["qn"] if self.stack else "?"))

    # ------------------------------------------------------------ memory
    def fields(self, cls):
        r = self.recs.get(strip_t(cls))
        if r is None:
            return None
        return [(x["n"], x["t"]) for x in r["f"]]

    def root_get(self, st, root, create=True):
        k = root[0]
        if k in ("v", "t"):
            v = st.env.get(root)
            if v is None:
                v = mk("undef", sym(str(root)))
                st.env[root] = v
            return v
        if k == "g":
            v = st.env.get(root)
            if v is None:
                v = self.global_val(st, root[1])
                st.env[root] = v
            return v
        if k == "h":
            v = st.heap.get(root)
            if v is None:
                cls = root[2]
                ep = st.ep.get(cls, 0)
                v = mk("deref", root[1], ep) if ep else mk("deref", root[1])
                st.heap[root] = v
            return v
        raise TooHard("root " + str(root))

    def global_val(self, st, qn):
        g = self.globals.get(qn)
        if g is not None and g.get("init") is not None and (
                g.get("constexpr") or g["t"].startswith("const ") or qn in self.const_globals):
            if qn not in self._ginit:
                self._ginit[qn] = None
                r = self.ev(g["init"], St())
                if len(r) == 1:
                    self._ginit[qn] = r[0][1]
            if self._ginit[qn] is not None:
                return self._ginit[qn]
        return mk("glob", qn)

    def key_eq(self, st, a, b):
        if a is b:
            return True
        if not (isinstance(a, T) and isinstance(b, T)):
            return None
        # distinct object addresses
        r = self.decide_eq(st, a, b)
        return r

    def decide_eq(self, st, a, b):
        t = self.eq_term(st, a, b)
        return st.facts.decide(t)

    def proj(self, st, v, pe, tinfo=None):
        """value of a sub-object"""
        kind = pe[0]
        if kind == "f":
            n = pe[1]
            if isinstance(v, T):
                if v.op == "rec":
                    for nn, x in v.args[1]:
                        if nn == n:
                            return x
                    return mk("f", v, n)
                if v.op == "poly" or (len(pe) > 2 and pe[2] in CPLX and self.cn):
                    if n in ("r", "real"):
                        return real_part(v)
                    if n in ("i", "imag"):
                        return imag_part(v)
                if v.op == "pair" and n in ("first", "second"):
                    return v.args[0 if n == "first" else 1]
            return mk("f", v, n)
        if kind == "i":
            i = pe[1]
            ci = cint(i)
            if isinstance(v, T):
                if v.op in ("arr", "vec"):
                    if ci is not None:
                        if 0 <= ci < len(v.args[0]):
                            return v.args[0][ci]
                        return mk("oob", v, i)
                    return mk("idx", v, i)
                while v.op == "store":
                    d = const(psub(v.args[1], i))
                    if d is not None and d == 0:
                        return v.args[2]
                    if d is not None or st.facts.decide(beq(v.args[1], i)) is False:
                        v = v.args[0]
                        continue
                    break
                if v.op == "fill":
                    return v.args[0]
                if v.op == "push":
                    s = self.size_of(st, v.args[0])
                    if s is i:
                        return v.args[1]
                    if st.facts.decide(blt(i, s)):
                        return self.proj(st, v.args[0], pe)
                if v.op in ("store",):
                    return mk("idx", v, i)
            return mk("idx", v, i)
        if kind == "k":
            return self.map_get(st, v, pe[1])
        raise TooHard("path " + str(pe))

    def map_get(self, st, m, k):
        while isinstance(m, T) and m.op == "mapset":
            e = self.key_eq(st, m.args[1], k)
            if e is True:
                return m.args[2]
            if e is False:
                m = m.args[0]
                continue
            break
        if isinstance(m, T) and m.op == "emptymap":
            return mk("zero")
        return mk("mapget", m, k)

    def map_has(self, st, m, k):
        while isinstance(m, T) and m.op in ("mapset", "setins"):
            e = self.key_eq(st, m.args[1], k)
            if e is True:
                return TRUE
            if e is False:
                m = m.args[0]
                continue
            break
        if isinstance(m, T) and m.op == "emptymap":
            return FALSE
        return mk("has", m, k)

    def size_of(self, st, v):
        if isinstance(v, T):
            if v.op in ("arr", "vec"):
                return num(len(v.args[0]))
            if v.op == "push":
                return padd(self.size_of(st, v.args[0]), ONE)
            if v.op in ("store", "rev"):
                return self.size_of(st, v.args[0])
            if v.op == "fill":
                return v.args[1]
        return mk("size", v)

    def set_sub(self, st, v, path, x, n=0):
        """v with the sub-object at path replaced by x"""
        if not path:
            return x
        pe = path[0]
        if pe[0] == "f":
            name = pe[1]
            cls = pe[2] if len(pe) > 2 else None
            if self.cn and cls in CPLX:
                old = v
                r, i = real_part(old), imag_part(old)
                if name == "r":
                    return cplx(x, i)
                return cplx(r, x)
            if isinstance(v, T) and v.op == "rec":
                fs = list(v.args[1])
                for j, (nn, o) in enumerate(fs):
                    if nn == name:
                        fs[j] = (nn, self.set_sub(st, o, path[1:], x))
                        return self.mkrec(v.args[0], fs)
                fs.append((name, self.set_sub(st, mk("f", v, name), path[1:], x)))
                return self.mkrec(v.args[0], fs)
            if isinstance(v, T) and v.op == "pair" and name in ("first", "second"):
                a, b = v.args
                if name == "first":
                    return mk("pair", self.set_sub(st, a, path[1:], x), b)
                return mk("pair", a, self.set_sub(st, b, path[1:], x))
            fl = self.fields(cls) if cls else None
            if fl is None:
                if name in ("first", "second"):
                    a, b = mk("f", v, "first"), mk("f", v, "second")
                    if name == "first":
                        return mk("pair", self.set_sub(st, a, path[1:], x), b)
                    return mk("pair", a, self.set_sub(st, b, path[1:], x))
                return mk("setf", v, name, self.set_sub(st, mk("f", v, name), path[1:], x))
            fs = [(nn, mk("f", v, nn)) for nn, _ in fl]
            fs = [(nn, self.set_sub(st, o, path[1:], x) if nn == name else o) for nn, o in fs]
            return self.mkrec(strip_t(cls), fs)
        if pe[0] == "i":
            i = pe[1]
            ci = cint(i)
            if isinstance(v, T) and v.op in ("arr", "vec") and ci is not None:
                xs = list(v.args[0])
                if 0 <= ci < len(xs):
                    xs[ci] = self.set_sub(st, xs[ci], path[1:], x)
                    return self.mkarr(v.op, xs)
                raise TooHard("constant index out of bounds")
            N = pe[2] if len(pe) > 2 else None
            if ci is not None and N and N <= 64:
                xs = [mk("idx", v, num(j)) for j in range(N)]
                xs[ci] = self.set_sub(st, xs[ci], path[1:], x)
                return self.mkarr("arr", xs)
            old = self.proj(st, v, pe)
            return mk("store", v, i, self.set_sub(st, old, path[1:], x))
        if pe[0] == "k":
            old = self.map_get(st, v, pe[1])
            new = self.set_sub(st, old, path[1:], x)
            if isinstance(v, T) and v.op == "mapset" and v.args[1] is pe[1]:
                v = v.args[0]
            return mk("mapset", v, pe[1], new)
        raise TooHard("path")

    def mkrec(self, cls, fs):
        base = None
        for n, x in fs:
            if isinstance(x, T) and x.op == "f" and x.args[1] == n and (base is None or base is x.args[0]):
                base = x.args[0]
            else:
                base = None
                break
        else:
            if base is not None:
                return base
        return mk("rec", cls, tuple(fs))

    def mkarr(self, op, xs):
        if op == "arr" and xs:
            x0 = xs[0]
            if isinstance(x0, T) and x0.op == "idx":
                b = x0.args[0]
                if all(isinstance(x, T) and x.op == "idx" and x.args[0] is b and cint(x.args[1]) == j for j, x in enumerate(xs)):
                    return b
        return mk(op, tuple(xs))

    def read(self, st, lv):
        root, path = lv
        v = self.root_get(st, root)
        if isinstance(v, Ref):
            return self.read(st, (v.lv[0], v.lv[1] + path))
        if self.watch is not None and self.watch(root, path):
            self.event(st, "read", None, (), None, 0, x=(root, path))
        for pe in path:
            v = self.proj(st, v, pe)
        return v

    def write(self, st, lv, x, line=0, node=None):
        root, path = lv
        v = self.root_get(st, root)
        if isinstance(v, Ref):
            return self.write(st, (v.lv[0], v.lv[1] + path), x, line, node)
        nv = self.set_sub(st, v, path, x)
        if root[0] == "h":
            if root not in st.fresh:
                for r in [r for r in st.heap if r[2] == root[2] and r != root and r not in st.fresh]:
                    # may alias
                    if self.decide_eq(st, r[1], root[1]) is not False:
                        del st.heap[r]
                        st.ep[root[2]] = st.ep.get(root[2], 0) + 1
            st.heap[root] = nv
        else:
            st.env[root] = nv
            if self.track_sets and root[0] == "v":
                self.event(st, "set", None, (), x, line, x=(root, path), node=node)
        if root[0] in ("h", "g"):
            self.event(st, "write", None, (), x, line, x=(root, path), node=node)

    def event(self, st, kind, name, args=(), res=None, line=0, x=None, node=None):
        e = Event(kind, name, tuple(args), res, line, self.stack[-1]["qn"] if self.stack else "", st.facts.order, x, node)
        if kind == "call":
            e.heap = dict(st.heap)
        st.log = st.log + (e,)
        return e

    def addr_of(self, st, lv):
        root, path = lv
        v = st.env.get(root) if root[0] in ("v", "t") else None
        if isinstance(v, Ref):
            return self.addr_of(st, (v.lv[0], v.lv[1] + path))
        if root[0] == "h" and not path:
            return root[1]
        return mk("addr", root, path)

    def deref(self, p, t):
        """LV for *p; t = pointee type"""
        if isinstance(p, T):
            if p.op == "addr":
                return (p.args[0], p.args[1])
            if p.op == "itptr":
                return (("h", p, strip_t(t)), ())
        return (("h", p, strip_t(t)), ())

    def ptr_add(self, p, n):
        c = cint(n)
        if c == 0:
            return p
        if p.op == "addr" and p.args[1] and p.args[1][-1][0] == "i":
            path = p.args[1]
            last = path[-1]
            return mk("addr", p.args[0], path[:-1] + (("i", padd(last[1], n)) + tuple(last[2:]),))
        if p.op == "padd":
            return self.ptr_add(p.args[0], padd(p.args[1], n))
        return mk("padd", p, n)

    # ------------------------------------------------------------ booleans
    def eq_term(self, st, a, b):
        if a is b:
            return TRUE
        if isinstance(a, T) and isinstance(b, T):
            d = self.ptr_distinct(st, a, b)
            if d:
                return FALSE
            if a.op == "addr" and b.op == "addr" and a.args[0] == b.args[0]:
                pa, pb = a.args[1], b.args[1]
                if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa and pa[-1][0] == "i":
                    return beq(pa[-1][1], pb[-1][1])
            # find(m,k) == end(m)
            for x, y in ((a, b), (b, a)):
                if x.op == "itfind" and y.op == "itend":
                    return bnot(self.map_has(st, x.args[0], x.args[1]))
            return beq(a, b)
        return mk("eq", a, b)

    def ptr_distinct(self, st, a, b):
        """provably different objects"""
        def obj(p):
            if p.op == "addr":
                r = p.args[0]
                return r
            if p.op == "null":
                return "null"
            r = [h for h in st.fresh if h[1] is p]
            if r:
                return r[0]
            return None
        oa, ob = obj(a), obj(b)
        if oa is None or ob is None:
            # a fresh object differs from anything that existed before
            if (oa is not None and oa != "null" and oa[0] == "h" and oa in st.fresh and self.older(b, a)) or \
               (ob is not None and ob != "null" and ob[0] == "h" and ob in st.fresh and self.older(a, b)):
                return True
            return False
        if oa == ob:
            if oa != "null" and a.op == "addr" and b.op == "addr":
                pa, pb = a.args[1], b.args[1]
                if pa == pb:
                    return False
                if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == "i" == pb[-1][0]:
                    return const(psub(pa[-1][1], pb[-1][1])) not in (None, 0)
                return pa[:1] != pb[:1] and pa and pb and pa[0][0] == "f" and pb[0][0] == "f"
            return False
        if "null" in (oa, ob):
            return True
        for o in (oa, ob):
            if o[0] == "h" and o not in st.fresh:
                return False
        return True

    def older(self, x, fresh):
        return x.uid < fresh.uid

    def branch(self, st, t):
        """split on a boolean term -> [(bool, state)]"""
        if isinstance(t, T) and t.op == "poly" or not isinstance(t, T):
            t = bnot(beq(t, ZERO)) if isinstance(t, T) else mk("bool", t)
        d = st.facts.decide(t)
        if d is not None:
            return [(d, st)]
        out = []
        for val in (True, False):
            s = st.copy()
            if s.facts.assume(t, val) and (self.axiom is None or self.axiom(self, s, t, val)):
                out.append((val, s))
        return out

    def as_bool(self, v):
        if not isinstance(v, T):
            return mk("bool", v)
        if v.op in ("true", "false", "lt", "le", "eq0", "eq", "not", "has", "az", "bool"):
            return v
        c = const(v)
        if c is not None:
            return boolc(c != 0)
        if v.op == "null":
            return FALSE
        if v.op == "addr":
            return TRUE
        return v

    # ------------------------------------------------------------ expressions
    def evs(self, es, st):
        """evaluate a list left to right -> [(st, [vals])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def ev(self, e, st):
        self.tick()
        if e is None:
            return [(st, mk("none"))]
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            return [(st, mk("unk", e["k"], e.get("l", 0)))]
        return m(e, st)

    def x_int(self, e, st):
        return [(st, num(int(e["v"])))]

    def x_flt(self, e, st):
        return [(st, num(Fraction(e["v"]) if "inf" not in e["v"].lower() and "nan" not in e["v"].lower() else float("inf")))]

    def x_bool(self, e, st):
        return [(st, boolc(e["v"]))]

    def x_chr(self, e, st):
        return [(st, num(e["v"]))]

    def x_str(self, e, st):
        return [(st, mk("str", e["v"]))]

    def x_null(self, e, st):
        return [(st, NULL)]

    def x_zero(self, e, st):
        return [(st, self.zero_of(e["t"]))]

    def x_sizeof(self, e, st):
        return [(st, num(e["v"]) if "v" in e else mk("sizeof", e["of"]))]

    def x_enum(self, e, st):
        return [(st, num(e["v"]))]

    def x_fnref(self, e, st):
        return [(st, mk("fn", e["f"]["qn"], e["f"].get("def", e["f"]["id"])))]

    def x_none(self, e, st):
        return [(st, mk("none"))]

    def x_typeid(self, e, st):
        return [(st, mk("typeid"))]

    def x_stmtexpr(self, e, st):
        out = []
        for tag, v, s in self.exec(e["s"], st):
            out.append((s, mk("none")))
        return out

    def zero_of(self, t):
        t = strip_t(t)
        if t in CPLX and self.cn:
            return ZERO
        if t == "bool":
            return FALSE
        if is_int_t(t) or is_flt_t(t):
            return ZERO
        if t.endswith("*"):
            return NULL
        a = arr_info(t)
        if a:
            z = self.zero_of(a[0])
            if a[1] <= 64:
                return self.mkarr("arr", [z] * a[1])
            return mk("fill", z, num(a[1]))
        if t.startswith("std::vector<"):
            return mk("vec", ())
        if t.startswith(("std::unordered_map<", "std::map<", "std::set<", "std::unordered_set<")):
            return mk("emptymap")
        r = self.recs.get(t)
        if r:
            return self.default_rec(t, St(), zero=True)
        return mk("zeroof", t)

    def default_rec(self, t, st, zero=False):
        r = self.recs.get(strip_t(t))
        fs = []
        for f in r["f"]:
            if f.get("init") is not None:
                v = self.ev1(f["init"], st)
            elif zero or (strip_t(f["t"]) in self.recs) or arr_info(f["t"]) or strip_t(f["t"]).startswith("std::") or strip_t(f["t"]) in CPLX:
                v = self.zero_of(f["t"])
            else:
                v = mk("uninit", f["n"])
            fs.append((f["n"], v))
        return mk("rec", strip_t(t), tuple(fs))

    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1:
            raise TooHard("initialiser splits")
        return r[0][1]

    # --- lvalues
    def var_key(self, e, st):
        if "g" in e:
            return ("g", e["g"])
        return self.lookup_var(e["d"], st)

    def lookup_var(self, d, st):
        fr = self.frame
        m = self.fmap
        while m is not None:
            if d in m.vars:
                return m.vars[d]
            m = m.parent
        k = ("v", d, fr)
        return k

    def lv(self, e, st):
        """-> [(st, LV)]"""
        self.tick()
        k = e["k"]
        if k == "ref":
            key = self.var_key(e, st)
            v = st.env.get(key)
            if isinstance(v, Ref):
                return [(st, v.lv)]
            return [(st, (key, ()))]
        if k == "bind":
            key = self.lookup_var(e["d"], st)
            v = st.env.get(key)
            if v is None and e.get("e") is not None:
                return self.lv(e["e"], st)
            if isinstance(v, Ref):
                return [(st, v.lv)]
            return [(st, (key, ()))]
        if k == "mem":
            out = []
            bt = e["b"]["t"]
            rec = e.get("rec") or strip_t(bt.rstrip("*"))
            cls = strip_t(bt[:-1] if strip_t(bt).endswith("*") else bt)
            cls = strip_t(strip_t(bt)[:-1]) if e["arrow"] and strip_t(bt).endswith("*") else strip_t(bt)
            if is_ref_t(next((t for n, t in self.fields(cls) or () if n == e["n"]), "")):
                # reference member: bound to an object whose address it holds
                for s, l in ([(s, self.deref(p, cls)) for s, p in self.ev(e["b"], st)] if e["arrow"] else self.lv(e["b"], st)):
                    p = self.read(s, (l[0], l[1] + (("f", e["n"], cls),)))
                    out.append((s, self.deref(p, e["t"])))
                return out
            if e["arrow"]:
                for s, p in self.ev(e["b"], st):
                    root, path = self.deref(p, cls)
                    out.append((s, (root, path + (("f", e["n"], cls),))))
            else:
                for s, (root, path) in self.lv(e["b"], st):
                    out.append((s, (root, path + (("f", e["n"], cls),))))
            return out
        if k == "idx":
            out = []
            bt = e["a"]["t"]
            ai = arr_info(bt)
            if ai and not strip_t(bt).endswith("*"):
                for s, (root, path) in self.lv(e["a"], st):
                    for s2, i in self.ev(e["b"], s):
                        out.append((s2, (root, path + (("i", i, ai[1]),))))
                return out
            for s, p in self.ev(e["a"], st):
                for s2, i in self.ev(e["b"], s):
                    out.append((s2, self.ptr_index(p, i, e["t"])))
            return out
        if k == "un" and e["op"] == "*":
            return [(s, self.deref(p, e["t"])) for s, p in self.ev(e["e"], st)]
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for s, v in self.ev(e, st):
                out += self.lv(e["e"], s)
            return out
        if k in ("asg", "casg"):
            out = []
            for s, lvv, v in self.assign(e, st):
                out.append((s, lvv))
            return out
        if k == "cond":
            out = []
            for s, c in self.ev(e["c"], st):
                for b, s2 in self.branch(s, self.as_bool(c)):
                    out += self.lv(e["a"] if b else e["b"], s2)
            return out
        if k == "cast":
            if e["e"].get("lv"):
                return self.lv(e["e"], st)
        if k == "this":
            pass
        if k in ("call", "mcall", "opcall"):
            out = []
            for s, v in self.call(e, st, want_lv=True):
                if isinstance(v, Ref):
                    out.append((s, v.lv))
                else:
                    out.append((s, self.temp(s, v)))
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(e["a"], st):
                out += self.lv(e["b"], s)
            return out
        # materialised temporary
        return [(s, self.temp(s, v)) for s, v in self.ev(e, st)]

    def temp(self, st, v):
        self.seq += 1
        k = ("t", self.seq)
        st.env[k] = v
        return (k, ())

    def ptr_index(self, p, i, t):
        if p.op == "addr":
            if p.args[1] and p.args[1][-1][0] == "i":
                q = self.ptr_add(p, i)
                return (q.args[0], q.args[1])
            if cint(i) == 0:
                return (p.args[0], p.args[1])
        if p.op == "padd":
            return (("h", p.args[0], strip_t(t) + "[]"), (("i", padd(p.args[1], i)),))
        return (("h", p, strip_t(t) + "[]"), (("i", i),))

    def x_ref(self, e, st):
        key = self.var_key(e, st)
        return [(st, self.read(st, (key, ())))]

    def x_bind(self, e, st):
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def x_mem(self, e, st):
        # rvalue base: avoid creating temporaries
        if not e["arrow"] and e["b"]["k"] in ("call", "mcall", "opcall", "ctor", "ilist") and not e["b"].get("lv"):
            cls = strip_t(e["b"]["t"])
            return [(s, self.proj(s, v, ("f", e["n"], cls))) for s, v in self.ev(e["b"], st)]
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def x_idx(self, e, st):
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def x_this(self, e, st):
        return [(st, self.this)]

    def x_cast(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            ck = e.get("ck", "")
            if ck == "ArrayToPointerDecay" or (strip_t(e["t"]).endswith("*") and arr_info(e["e"]["t"])):
                v = self.decay(e["e"], s)
            elif ck in ("IntegralToFloating", "IntegralCast", "NoOp", "FloatingCast"):
                pass
            out.append((s, v))
        return out

    def decay(self, e, st):
        ls = self.lv(e, st)
        root, path = ls[0][1]
        ai = arr_info(e["t"])
        return mk("addr", root, path + (("i", ZERO, ai[1] if ai else 0),))

    def x_f2i(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            c = const(v) if isinstance(v, T) else None
            if c is not None:
                out.append((s, num(int(c))))
            elif isinstance(v, T) and v.op in ("log2", "pow2", "pow"):
                out.append((s, v))
            elif isinstance(v, T) and v.op == "poly" and all(
                    c.denominator == 1 and all(a.op in ("log2", "pow2", "pow", "sym", "size", "f", "idx", "call") and x > 0 for a, x in m)
                    for m, c in v.args[0]):
                out.append((s, v))
            else:
                out.append((s, mk("trunc", v)))
        return out

    def x_tobool(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            t = strip_t(e["e"]["t"])
            if t.endswith("*"):
                r = bnot(self.eq_term(s, v, NULL))
            else:
                r = bnot(beq(v, ZERO))
            out.append((s, r))
        return out

    def x_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st):
                old = self.read(s, l)
                if strip_t(e["e"]["t"]).endswith("*"):
                    new = self.ptr_add(old, ONE if op == "++" else num(-1))
                else:
                    new = padd(old, ONE, 1 if op == "++" else -1)
                self.write(s, l, new, e["l"])
                out.append((s, old if e.get("post") else new))
            return out
        if op == "&":
            return [(s, self.addr_of(s, l)) for s, l in self.lv(e["e"], st)]
        if op == "*":
            return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
        out = []
        for s, v in self.ev(e["e"], st):
            if op == "!":
                out.append((s, bnot(self.as_bool(v))))
            elif op == "-":
                out.append((s, pneg(v)))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                c = cint(v)
                out.append((s, num(~c) if c is not None else mk("bnot", v)))
            else:
                out.append((s, mk("un" + op, v)))
        return out

    def x_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.ev(e["a"], st):
                for b, s2 in self.branch(s, self.as_bool(a)):
                    if b == (op == "||"):
                        out.append((s2, boolc(b)))
                    else:
                        out += [(s3, self.as_bool(v)) for s3, v in self.ev(e["b"], s2)]
            return out
        if op == ",":
            out = []
            for s, a in self.ev(e["a"], st):
                out += self.ev(e["b"], s)
            return out
        out = []
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                out.append((s2, self.binop(s2, op, a, b, e["t"], e["a"]["t"], e["b"]["t"])))
        return out

    def binop(self, st, op, a, b, t, ta, tb):
        ta, tb = strip_t(ta), strip_t(tb)
        if op in ("==", "!="):
            r = self.eq_term(st, a, b)
            return r if op == "==" else bnot(r)
        if isinstance(a, T) and a.op in ("true", "false"):
            a = num(a is TRUE)
        if isinstance(b, T) and b.op in ("true", "false"):
            b = num(b is TRUE)
        pa, pb = ta.endswith("*") or arr_info(ta), tb.endswith("*") or arr_info(tb)
        if pa and op in ("+", "-") and not pb:
            return self.ptr_add(a, b if op == "+" else pneg(b))
        if pb and op == "+":
            return self.ptr_add(b, a)
        if pa and pb and op == "-":
            return self.ptr_diff(a, b)
        if op == "<":
            return blt(a, b)
        if op == ">":
            return blt(b, a)
        if op == "<=":
            return ble(a, b)
        if op == ">=":
            return ble(b, a)
        if op == "+":
            return padd(a, b)
        if op == "-":
            return psub(a, b)
        if op == "*":
            return pmul(a, b)
        if op == "/":
            if is_int_t(t):
                return self.idiv(a, b)
            return pdiv(a, b)
        if op == "%":
            return self.imod(a, b)
        return self.bitop(st, op, a, b)

    def ptr_diff(self, a, b):
        def sp(p):
            if p.op == "addr" and p.args[1] and p.args[1][-1][0] == "i":
                return (p.args[0], p.args[1][:-1]), p.args[1][-1][1]
            if p.op == "padd":
                return p.args[0], p.args[1]
            return p, ZERO
        (x, i), (y, j) = sp(a), sp(b)
        if x == y:
            return psub(i, j)
        return mk("pdiff", a, b)

    def idiv(self, a, b):
        ca, cb = cint(a), cint(b)
        if ca is not None and cb:
            q = abs(ca) // abs(cb)
            return num(q if (ca >= 0) == (cb >= 0) else -q)
        if cb:
            d = pdict(a)
            if all((c / cb).denominator == 1 for c in d.values()):
                return pdiv(a, b)
            if cb == 2 and len(d) == 1:
                (m, c), = d.items()
                # pow2(k)/2 = pow2(k-1)
                for at, ex in m:
                    if at.op == "pow2" and ex == 1:
                        rest = tuple((x, y) for x, y in m if x is not at)
                        from .terms import _norm_poly
                        return pmul(_norm_poly({rest: c}), self.pow2(psub(at.args[0], ONE)))
        if a is b:
            return ONE
        return mk("idiv", a, b)

    def imod(self, a, b):
        ca, cb = cint(a), cint(b)
        if ca is not None and cb:
            r = abs(ca) % abs(cb)
            return num(r if ca >= 0 else -r)
        if cb == 2 and isinstance(a, T) and a.op == "shr":
            return mk("bit", a.args[0], a.args[1])
        if cb == 2:
            return mk("bit", a, ZERO)
        return mk("mod", a, b)

    def pow2(self, k):
        c = cint(k)
        if c is not None:
            return num(Fraction(2) ** c)
        d = pdict(k)
        c0 = d.pop((), Fraction(0))
        if c0.denominator == 1 and c0 != 0:
            from .terms import _norm_poly
            return pmul(num(Fraction(2) ** int(c0)), self.pow2(_norm_poly(d)))
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log2":
                return m[0][0].args[0]
            if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log2":
                return pinv(m[0][0].args[0])
        # split off log2 atoms
        for m, c in list(d.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log2" and c in (1, -1) and len(d) > 1:
                from .terms import _norm_poly
                d2 = dict(d)
                del d2[m]
                x = m[0][0].args[0]
                return pmul(x if c == 1 else pinv(x), self.pow2(_norm_poly(d2)))
        return mk("pow2", k)

    def log2(self, x):
        c = const(x)
        if c is not None and c > 0 and c.denominator == 1 and (int(c) & (int(c) - 1)) == 0:
            return num(int(c).bit_length() - 1)
        if isinstance(x, T) and x.op == "pow2":
            return x.args[0]
        d = pdict(x)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "pow2" and c > 0 and c.denominator == 1 and (int(c) & (int(c) - 1)) == 0:
                return padd(m[0][0].args[0], num(int(c).bit_length() - 1))
        return mk("log2", x)

    def bitop(self, st, op, a, b):
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            if op == "&":
                return num(ca & cb)
            if op == "|":
                return num(ca | cb)
            if op == "^":
                return num(ca ^ cb)
            if op == "<<" and 0 <= cb < 200:
                return num(ca << cb)
            if op == ">>" and 0 <= cb < 200:
                return num(ca >> cb)
        if op == "<<":
            return pmul(a, self.pow2(b))
        if op == ">>":
            if cb == 0:
                return a
            if cb is not None:
                d = pdict(a)
                if all((c / (1 << cb)).denominator == 1 for c in d.values()):
                    return pdiv(a, num(1 << cb))
            return mk("shr", a, b)
        if op == "|":
            for x, y in ((a, b), (b, a)):
                cy = cint(y)
                if cy == 0:
                    return x
                if cy is not None and cy > 0:
                    sh = 1 << cy.bit_length()
                    d = pdict(x)
                    if all((c / sh).denominator == 1 for c in d.values()):
                        return padd(x, y)
            for x, y in ((a, b), (b, a)):
                # x multiple of pow2(k), 0<=y<pow2(k)
                for at in self.pow2_factors(x):
                    if st.facts.decide(blt(y, at)):
                        return padd(x, y)
            return mk("bor", *sorted((a, b)))
        if op == "&":
            for x, y in ((a, b), (b, a)):
                cy = cint(y)
                if cy == 0:
                    return ZERO
                if cy == 1:
                    if x.op == "shr":
                        return mk("bit", x.args[0], x.args[1])
                    d = pdict(x)
                    if all((c / 2).denominator == 1 for c in d.values()):
                        return ZERO
                    return mk("bit", x, ZERO)
            return mk("band", *sorted((a, b)))
        if op == "^":
            return mk("bxor", *sorted((a, b)))
        return mk("bop" + op, a, b)

    def pow2_factors(self, x):
        d = pdict(x)
        s = None
        for m in d:
            c = {at for at, ex in m if at.op == "pow2" and ex > 0}
            s = c if s is None else s & c
        return s or ()

    def x_asg(self, e, st):
        return [(s, v) for s, l, v in self.assign(e, st)]

    x_casg = x_asg

    def assign(self, e, st):
        out = []
        if e["k"] == "asg":
            # right side first (C++17), then left
            for s, v in self.ev(e["b"], st):
                for s2, l in self.lv(e["a"], s):
                    v2 = self.copy_val(s2, v)
                    self.write(s2, l, v2, e["l"], e)
                    out.append((s2, l, v2))
            return out
        for s, b in self.ev(e["b"], st):
            for s2, l in self.lv(e["a"], s):
                a = self.read(s2, l)
                t = e["a"]["t"]
                if e["op"] == "/" and (is_flt_t(e["b"]["t"]) and is_int_t(t)):
                    t = "double"
                v = self.binop(s2, e["op"], a, b, t, e["a"]["t"], e["b"]["t"])
                self.write(s2, l, v, e["l"], e)
                out.append((s2, l, v))
        return out

    def copy_val(self, st, v):
        if isinstance(v, Ref):
            return self.read(st, v.lv)
        return v

    def x_cond(self, e, st):
        out = []
        for s, c in self.ev(e["c"], st):
            for b, s2 in self.branch(s, self.as_bool(c)):
                out += self.ev(e["a"] if b else e["b"], s2)
        return out

    def x_throw(self, e, st):
        out = []
        for s, v in (self.ev(e["e"], st) if e.get("e") else [(st, mk("none"))]):
            self.event(s, "throw", e["e"]["t"] if e.get("e") else "", (v,), None, e["l"])
            s.env[("exc",)] = v
            out.append((s, THROW))
        return out

    def x_ilist(self, e, st):
        t = strip_t(e["t"])
        out = []
        for s, vs in self.evs(e["a"], st):
            vs = [self.copy_val(s, v) for v in vs]
            ai = arr_info(t)
            if t in CPLX and self.cn and len(vs) <= 2:
                r = vs[0] if vs else ZERO
                i = vs[1] if len(vs) > 1 else ZERO
                out.append((s, padd(r, pmul(I, i))))
            elif ai:
                if len(vs) == 1 and e["a"][0]["k"] == "ilist" and arr_info(e["a"][0]["t"]) and not ARR_RE.match(strip_t(e["a"][0]["t"])) and ARR_RE.match(t):
                    out.append((s, vs[0]))
                else:
                    n = ai[1]
                    if n <= 64:
                        vs = vs + [self.zero_of(ai[0])] * (n - len(vs))
                        out.append((s, self.mkarr("arr", vs)))
                    else:
                        out.append((s, mk("fill", self.zero_of(ai[0]) if not vs else vs[0], num(n))))
            elif t in self.recs and len(vs) == 1 and isT(vs[0], "rec") and vs[0].args[0] == strip_t(t):
                out.append((s, vs[0]))
            elif t in self.recs:
                r = self.recs[t]
                fs = []
                for j, f in enumerate(r["f"]):
                    if j < len(vs) and e["a"][j] is not None:
                        fs.append((f["n"], vs[j]))
                    elif f.get("init") is not None:
                        fs.append((f["n"], self.ev1(f["init"], s)))
                    else:
                        fs.append((f["n"], self.zero_of(f["t"])))
                out.append((s, self.mkrec(t, fs)))
            elif len(vs) == 1 and (is_int_t(t) or is_flt_t(t) or t.endswith("*")):
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.zero_of(t)))
            else:
                out.append((s, mk("ilist", t, tuple(vs))))
        return out

    def x_new(self, e, st):
        out = []
        for s, n in (self.ev(e["n"], st) if e.get("n") else [(st, ONE)]):
            for s2, init in (self.ev(e["init"], s) if e.get("init") and not e.get("arr") else [(s, None)]):
                self.seq += 1
                p = mk("newptr", self.seq)
                cls = strip_t(e["at"]) + ("[]" if e["arr"] else "")
                root = ("h", p, cls)
                s2.fresh = s2.fresh | {root}
                if e["arr"]:
                    s2.heap[root] = mk("newarr", strip_t(e["at"]), n)
                else:
                    s2.heap[root] = init if init is not None else mk("newobj", strip_t(e["at"]))
                self.event(s2, "new", strip_t(e["at"]), (n,), p, e["l"], x=e["arr"], node=e)
                out.append((s2, p))
        return out

    def x_delete(self, e, st):
        out = []
        for s, p in self.ev(e["e"], st):
            self.event(s, "delete", None, (p,), None, e["l"], x=e["arr"], node=e)
            out.append((s, mk("none")))
        return out

    def x_lambda(self, e, st):
        caps = {}
        this = self.this
        for c in e["caps"]:
            if c.get("this"):
                continue
            if c.get("init") is not None:
                v = self.ev1(c["init"], st)
                if c["ref"]:
                    pass
                caps[c["d"]] = v
                continue
            key = self.lookup_var(c["d"], st)
            if c["ref"]:
                v = st.env.get(key)
                caps[c["d"]] = v if isinstance(v, Ref) else Ref((key, ()))
            else:
                caps[c["d"]] = self.read(st, (key, ()))
        return [(st, mk("closure", Closure(e, caps, (self.fmap, this))))]

    def x_other(self, e, st):
        out = []
        for s, vs in self.evs(e.get("a", []), st):
            out.append((s, mk("unk", e.get("cls", "other"), tuple(vs))))
        return out

    # ------------------------------------------------------------ calls
    def x_call(self, e, st):
        return [(s, self.copy_val(s, v)) for s, v in self.call(e, st)]

    x_mcall = x_call
    x_opcall = x_call

    def x_ctor(self, e, st):
        cls = strip_t(e["t"])
        if cls in CPLX and self.cn:
            out = []
            for s, vs in self.evs(e["a"], st):
                vs = [self.copy_val(s, v) for v in vs]
                if not vs:
                    v = ZERO
                elif len(vs) == 1:
                    v = vs[0]
                    if v.op == "rec":
                        v = padd(v.args[1][0][1], pmul(I, v.args[1][1][1]))
                else:
                    v = padd(vs[0], pmul(I, vs[1]))
                out.append((s, v))
            return out
        if e["copy"] and e["a"]:
            f = e["f"]
            fd = self.funcs.get(f.get("def"))
            if fd is not None and not fd.get("implicit") and fd.get("body") is not None and cls in self.recs and cls.endswith("Node"):
                pass  # user copy constructors of nodes are modelled field-wise below
            return [(s, self.copy_val(s, v)) for s, v in self.ev(e["a"][0], st)]
        m = self.ctor_model(cls, e, st)
        if m is not None:
            return m
        fd = self.funcs.get(e["f"].get("def")) if e["f"].get("proj") else None
        if fd is not None and not fd.get("implicit") and cls in self.recs and fd.get("inits") is not None:
            out = []
            for s, vs in self.evs_args(e["a"], e["f"]["pt"], st):
                for s2 in self.run_ctor(fd, vs, s, cls):
                    out.append(s2)
            return out
        if cls in self.recs and e["deflt"]:
            return [(st, self.default_rec(cls, st))]
        out = []
        for s, vs in self.evs(e["a"], st):
            out.append((s, mk("make", cls, tuple(self.copy_val(s, v) for v in vs))))
        return out

    def run_ctor(self, fd, vs, st, cls):
        lv = self.temp(st, self.default_rec(cls, st))
        outs = []
        frm = Frame(None)
        saved = (self.frame, self.fmap, self.this)
        self.nframes += 1
        self.frame = self.nframes
        self.fmap = frm
        self.this = mk("addr", lv[0], ())
        self.stack.append(fd)
        try:
            self.bind_params(fd, vs, st, frm)
            sts = [st]
            for it in fd["inits"]:
                if it.get("base") or not it.get("n"):
                    continue
                nxt = []
                isref = is_ref_t(next((t for n, t in self.fields(cls) or () if n == it["n"]), ""))
                for s in sts:
                    for s2, v in (self.lv(it["e"], s) if isref and it["e"].get("lv") else self.ev(it["e"], s)):
                        v = self.addr_of(s2, v) if isref and isinstance(v, tuple) else self.copy_val(s2, v)
                        s2.env[lv[0]] = self.set_sub(s2, s2.env[lv[0]], (("f", it["n"], cls),), v)
                        nxt.append(s2)
                sts = nxt
            for s in sts:
                for tag, v, s2 in (self.exec(fd["body"], s) if fd.get("body") else [("next", None, s)]):
                    if tag == "throw":
                        outs.append((s2, THROW))
                    else:
                        outs.append((s2, s2.env[lv[0]]))
        finally:
            self.stack.pop()
            self.frame, self.fmap, self.this = saved
        return outs

    def ctor_model(self, cls, e, st):
        if cls.startswith("std::vector<"):
            out = []
            for s, vs in self.evs(e["a"], st):
                vs = [self.copy_val(s, v) for v in vs]
                pt = e["f"]["pt"]
                if not vs or (len(vs) == 1 and "allocator" in pt[0]):
                    v = mk("vec", ())
                elif "initializer_list" in pt[0]:
                    x = vs[0]
                    if x.op == "arr":
                        v = mk("vec", x.args[0])
                    elif x.op == "vec":
                        v = x
                    elif x.op == "ilist":
                        v = mk("vec", x.args[1])
                    elif x.op == "initlist":
                        v = mk("vec", x.args[0])
                    else:
                        v = mk("vecof", x)
                elif is_int_t(pt[0]):
                    n = cint(vs[0])
                    el = vs[1] if len(vs) > 1 and len(pt) > 1 and "allocator" not in pt[1] else self.zero_of(cls[len("std::vector<"):-1])
                    if n is not None and n <= 64:
                        v = mk("vec", tuple([el] * n))
                    else:
                        v = mk("fill", el, vs[0])
                else:
                    v = mk("make", cls, tuple(vs))
                out.append((s, v))
            return out
        if cls.startswith(("std::unordered_map<", "std::map<", "std::set<", "std::unordered_set<")):
            out = []
            for s, vs in self.evs(e["a"], st):
                if not vs or "initializer_list" not in (e["f"]["pt"] or [""])[0]:
                    v = mk("emptymap") if not vs else mk("make", cls, tuple(self.copy_val(s, x) for x in vs))
                else:
                    x = vs[0]
                    v = mk("emptymap")
                    if x.op in ("arr", "initlist", "vec"):
                        for y in x.args[0]:
                            v = mk("setins", v, y) if "set<" in cls else mk("mapset", v, self.proj(s, y, ("f", "first")), self.proj(s, y, ("f", "second")))
                    else:
                        v = mk("make", cls, (x,))
                out.append((s, v))
            return out
        if cls.startswith("std::pair<"):
            out = []
            for s, vs in self.evs(e["a"], st):
                vs = [self.copy_val(s, v) for v in vs]
                if len(vs) == 2:
                    out.append((s, mk("pair", vs[0], vs[1])))
                elif not vs:
                    out.append((s, mk("pair", mk("deflt", "first"), mk("deflt", "second"))))
                else:
                    out.append((s, vs[0]))
            return out
        if cls.startswith("std::initializer_list<"):
            return None
        if cls.startswith(("std::basic_string<", "std::string")):
            out = []
            for s, vs in self.evs(e["a"], st):
                vs = [self.copy_val(s, v) for v in vs]
                if not vs:
                    out.append((s, mk("str", "")))
                elif len(vs) >= 1 and vs[0].op == "str":
                    out.append((s, vs[0]))
                elif len(vs) >= 2 and is_int_t(e["f"]["pt"][0]):
                    out.append((s, mk("fill", vs[1], vs[0])))
                elif len(vs) >= 2 and self.whole(s, vs[0], vs[1]) is not None:
                    out.append((s, self.read(s, self.whole(s, vs[0], vs[1]))))
                else:
                    out.append((s, mk("make", cls, tuple(vs))))
            return out
        if cls.startswith("std::array<"):
            return [(st, self.undef_of(cls))]
        if cls.startswith(("boost::fibers::packaged_task<", "std::packaged_task<")) and e["a"]:
            out = []
            for s, vs in self.evs(e["a"], st):
                self.seq += 1
                t = mk("task", self.seq)
                self.tasks[t] = self.copy_val(s, vs[-1])
                self.event(s, "task", "spawn", (t, self.tasks[t]), None, e["l"], node=e)
                out.append((s, t))
            return out
        if cls.startswith(LOCKS) and e["a"]:
            out = []
            for s, vs in self.evs_args(e["a"], (e.get("f") or {}).get("pt") or [], st):
                if not vs or not isinstance(vs[0], Ref):
                    return None
                m = self.canon(s, vs[0].lv)
                rest = [show(v) for v in vs[1:] if isinstance(v, T)]
                if "std::scoped_lock" in cls and len(vs) != 1 or any("try" in r or "adopt" in r for r in rest):
                    return None
                if not any("defer" in r for r in rest) and len(vs) == 1:
                    self.event(s, "lock", "acquire", (), None, e["l"], x=m, node=e)
                out.append((s, mk("lockof", m[0], m[1])))
            return out
        if cls in ("boost::fibers::fiber", "std::thread", "std::jthread") and e["a"]:
            out = []
            for s, vs in self.bindargs(e["a"], st):
                vs = [self.copy_val(s, v) for v in vs]
                r = self.start_task(s, vs, e)
                if r is None:
                    return None
                out.append((s, r))
            return out
        return None

    def canon(self, s, lv):
        """follow reference variables to the object itself"""
        root, path = lv
        v = s.env.get(root) if root[0] in ("v", "t") else None
        while isinstance(v, Ref):
            root, path = v.lv[0], v.lv[1] + path
            v = s.env.get(root) if root[0] in ("v", "t") else None
        return root, path

    def start_task(self, s, vs, e):
        """a fiber or thread built from these constructor arguments"""
        t = next((v for v in vs if isT(v, "task")), None)
        if t is None:
            fn = [v for v in vs if isT(v, "closure") or isT(v, "fn") or isT(v, "bindfn")]
            if not fn:
                return None
            self.seq += 1
            t = mk("task", self.seq)
            rest = vs[vs.index(fn[0]) + 1:]
            self.tasks[t] = mk("bindfn", fn[0], tuple(rest)) if rest else fn[0]
            self.rawtasks.add(t)
            self.event(s, "task", "spawn", (t, self.tasks[t]), None, e["l"], node=e)
        self.event(s, "task", "start", (t,), None, e["l"], node=e)
        return mk("running", t)

    def task_member(self, nm, e, st, obj, argn):
        """futures, tasks and the threads that run them; None when not about a known task"""
        out = []
        for s, l in self.eval_obj(obj, st):
            v = self.read(s, l)
            if isT(v, "task") and nm == "get_future":
                out.append((s, mk("future", v)))
            elif isT(v, "task") and nm == "operator()":
                self.event(s, "task", "start", (v,), None, e["l"], node=e)
                out.append((s, mk("none")))
            elif isT(v, "running") and nm == "detach":
                self.event(s, "task", "detach", (v.args[0],), None, e["l"], node=e)
                out.append((s, mk("none")))
            elif isT(v, "running") and nm == "join":
                t = v.args[0]
                self.event(s, "task", "join", (t,), None, e["l"], node=e)
                self.event(s, "task", "await", (t,), None, e["l"], node=e)
                if t in self.rawtasks:
                    for s2, r in self.apply(self.tasks[t], [], s, e):
                        out.append((s2, mk("none")))
                else:
                    out.append((s, mk("none")))
            elif isT(v, "future") and nm == "wait":
                self.event(s, "task", "await", (v.args[0],), None, e["l"], node=e)
                out.append((s, mk("none")))
            elif isT(v, "future") and nm == "get":
                t = v.args[0]
                self.event(s, "task", "await", (t,), None, e["l"], node=e)
                self.event(s, "task", "get", (t,), None, e["l"], node=e)
                for s2, r in self.apply(self.tasks[t], [], s, e):
                    self.event(s2, "task", "result", (t, r), None, e["l"], node=e)
                    out.append((s2, r))
            else:
                return None
        return out

    def undef_of(self, t):
        ai = arr_info(t)
        if ai and ai[1] <= 64:
            if strip_t(ai[0]) in self.recs or arr_info(ai[0]) or strip_t(ai[0]) in CPLX:
                return self.mkarr("arr", [self.undef_of(ai[0])] * ai[1])
        t = strip_t(t)
        if t in CPLX and self.cn:
            return ZERO
        if t in self.recs:
            return self.default_rec(t, St())
        if t.startswith("std::"):
            return self.zero_of(t)
        return mk("uninit", t)

    def evs_args(self, args, pts, st):
        """evaluate call arguments: Ref for reference parameters, values otherwise"""
        acc = [(st, [])]
        for j, a in enumerate(args):
            pt = pts[j] if j < len(pts) else None
            nxt = []
            for s, vs in acc:
                if pt is not None and is_ref_t(pt):
                    if a["k"] in ("lambda",):
                        for s2, v in self.ev(a, s):
                            nxt.append((s2, vs + [v]))
                        continue
                    for s2, l in self.lv(a, s):
                        nxt.append((s2, vs + [Ref(l)]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [self.copy_val(s2, v)]))
            acc = nxt
        return acc

    def bind_params(self, f, vs, st, frm):
        for j, p in enumerate(f["ps"]):
            key = ("v", p["d"], self.frame)
            frm.vars[p["d"]] = key
            v = vs[j] if j < len(vs) else mk("defarg", p["n"])
            if isinstance(v, Ref) and not is_ref_t(p["t"]):
                v = self.read(st, v.lv)
            st.env[key] = v

    def call_body(self, f, vs, this, st):
        """-> [(tag, value, state)]; tag ret/throw"""
        if len(self.stack) > 60:
            raise TooHard("call depth")
        self.functions_seen.add(f["qn"])
        saved = (self.frame, self.fmap, self.this) if self.stack else (0, None, None)
        self.nframes += 1
        self.frame = self.nframes
        frm = Frame(None)
        self.fmap = frm
        self.this = this
        self.stack.append(f)
        try:
            self.bind_params(f, vs, st, frm)
            out = []
            for tag, v, s in self.exec(f["body"], st):
                if tag == "next":
                    out.append(("ret", mk("none"), s))
                elif tag in ("ret", "throw"):
                    out.append((tag, v, s))
                else:
                    raise TooHard("stray " + tag)
            fr = self.frame
            for _, _, s in out:
                rv = _if_ref_root(_out_val(out, s))
            return out
        finally:
            self.stack.pop()
            self.frame, self.fmap, self.this = saved

    nframes = 0
    fmap = None
    this = None

    def call_closure(self, c, vs, st):
        node = c.node
        if node.get("body") is None:
            raise TooHard("generic lambda body")
        saved = (self.frame, self.fmap, self.this)
        self.nframes += 1
        self.frame = self.nframes
        frm = Frame(None)
        for d, v in c.caps.items():
            key = ("v", d, self.frame)
            frm.vars[d] = key
            st.env[key] = v
        self.fmap = frm
        self.this = c.fr[1]
        self.stack.append({"qn": (self.stack[-1]["qn"] if self.stack else "") + "::lambda", "id": -c.n, "name": "lambda", "ps": node["ps"]})
        if len(self.stack) > 60:
            raise TooHard("call depth")
        try:
            self.bind_params(node, vs, st, frm)
            out = []
            for tag, v, s in self.exec(node["body"], st):
                out.append(("ret" if tag == "next" else tag, v if v is not None else mk("none"), s))
            return out
        finally:
            self.stack.pop()
            self.frame, self.fmap, self.this = saved

    def lib_name(self, f):
        q = f["qn"]
        q = re.sub(r"<.*>(?=::)", "", q)
        return q

    def call(self, e, st, want_lv=False):
        """-> [(st, value or Ref)]"""
        f = e.get("f")
        k = e["k"]
        if f is None:
            out = []
            for s, fv in self.ev(e["fe"], st):
                for s2, vs in self.evs(e["a"], s):
                    out += self.apply(fv, vs, s2, e)
            return out
        # object expression
        obj = None
        argn = e["a"]
        if k == "mcall":
            obj = (e["b"], e["arrow"])
        elif k == "opcall" and e.get("memb"):
            obj = (e["a"][0], False)
            argn = e["a"][1:]
        if obj is not None and f["name"] == "operator()" and (f.get("cls") or "").startswith("(lambda"):
            out = []
            for s, l in self.eval_obj(obj, st):
                c = self.read(s, l)
                for s2, vs in self.evs(argn, s):
                    out += self.apply(c, vs, s2, e)
            return out
        fd = self.funcs.get(f.get("def")) if f.get("proj") else None
        mod = self.models.get(f["qn"]) or self.models.get(f["name"])
        if mod is not None:
            return mod(self, e, st, obj, argn)
        if self.cn:
            r = self.complex_model(e, f, st, obj, argn)
            if r is not None:
                return r
        if fd is not None and fd.get("implicit") and f["name"] == "operator=" and obj is not None:
            return self.m_assign(e, st, obj, argn)
        if f["name"] == "operator=" and obj is not None and strip_t(f.get("clsT") or f.get("cls") or "").startswith(("std::", "__gnu_cxx::__normal_iterator", "boost::fibers::")):
            return self.m_assign(e, st, obj, argn)
        if fd is None or fd.get("body") is None:
            r = self.library(e, f, st, obj, argn)
            if r is not None:
                return r
        if fd is not None and fd.get("body") is not None and not self.opaque(fd) and not any(g["id"] == fd["id"] for g in self.stack):
            return self.inline(e, fd, f, st, obj, argn)
        return self.opaque_call(e, f, st, obj, argn)

    def eval_obj(self, obj, st, cls=None):
        """-> [(st, LV)]"""
        b, arrow = obj
        if arrow:
            t = strip_t(b["t"])
            pt = strip_t(t[:-1]) if t.endswith("*") else t
            out = []
            for s, p in self.ev(b, st):
                out.append((s, self.deref(p, pt)))
            return out
        return self.lv(b, st)

    def inline(self, e, fd, f, st, obj, argn):
        out = []
        objs = self.eval_obj(obj, st) if obj is not None else [(st, None)]
        for s, l in objs:
            this = self.addr_of(s, l) if l is not None else None
            for s2, vs in self.evs_args(argn, f["pt"], s):
                for tag, v, s3 in self.call_body(fd, vs, this, s2):
                    if tag == "throw":
                        out.append((s3, THROW))
                    else:
                        out.append((s3, v))
        self.cap(out)
        return out

    def cap(self, xs):
        if len(xs) > self.max_states:
            raise TooHard("too many paths")

    def opaque_call(self, e, f, st, obj, argn):
        out = []
        objs = self.eval_obj(obj, st) if obj is not None else [(st, None)]
        for s, l in objs:
            for s2, vs in self.evs_args(argn, f["pt"], s):
                vals = []
                for v in vs:
                    vals.append(self.read(s2, v.lv) if isinstance(v, Ref) else v)
                if any(self.writes_back(v) for v in vals):
                    raise TooHard(f"line {e['l']}: {f['qn']} is handed a callable that can change local variables")
                ov = self.read(s2, l) if l is not None else None
                av = ([ov] if l is not None and not f.get("static") else []) + vals
                pure = f["qn"] in self.pure or f["name"] in self.pure or self.is_pure_lib(f)
                if pure:
                    res = mk("call", f["qn"], *av)
                else:
                    self.seq += 1
                    res = mk("call", f["qn"], *av, self.uniq(s2, e))
                ev = self.event(s2, "call", f["qn"], av, res, e["l"], x=tuple(vs), node=e)
                ev.obj = l
                if self.snap_calls is not None and self.snap_calls(f["qn"]):
                    snap = {}
                    for v in vs:
                        r = v.lv if isinstance(v, Ref) else (v.args[0], ()) if isinstance(v, T) and v.op == "addr" and isinstance(v.args[0], tuple) else None
                        if r is not None and r[0][0] in ("v", "t", "g"):
                            snap[r[0]] = self.read(s2, (r[0], ()))
                    ev.snap = snap
                if not pure:
                    for j, v in enumerate(vs):
                        pt = f["pt"][j] if j < len(f["pt"]) else ""
                        if isinstance(v, Ref) and is_ref_t(pt) and not const_ref_t(pt):
                            self.havoc_lv(s2, v.lv, mk("after", f["qn"], j, res))
                        elif isinstance(v, T) and v.op == "addr" and pt.endswith("*") and "const" not in pt and isinstance(v.args[0], tuple) and v.args[0] and v.args[0][0] in ("v", "t"):
                            self.havoc_lv(s2, (v.args[0], v.args[1]), mk("after", f["qn"], j, res))
                    if l is not None and not f.get("const") and not f.get("static"):
                        self.havoc_lv(s2, l, mk("after", f["qn"], "this", res))
                out.append((s2, res))
        return out

    def writes_back(self, v):
        if not isinstance(v, T):
            return False
        if v.op == "closure":
            refs = {d for d, c in v.args[0].caps.items() if isinstance(c, Ref)}
            return bool(refs) and may_change(v.args[0].node, refs)
        if v.op == "bindfn":
            return self.writes_back(v.args[0])
        return False

    def uniq(self, st, e):
        """distinguishes repeated evaluations of an effectful call on one path"""
        n = sum(1 for x in st.log if x.kind == "call")
        return n

    def is_pure_lib(self, f):
        return False

    def havoc_lv(self, st, l, v):
        try:
            root, path = l
            rv = st.env.get(root) if root[0] in ("v", "t") else None
            if isinstance(rv, Ref):
                return self.havoc_lv(st, (rv.lv[0], rv.lv[1] + path), v)
            cur = self.root_get(st, root)
            nv = self.set_sub(st, cur, path, v)
            if root[0] == "h":
                st.heap[root] = nv
            else:
                st.env[root] = nv
        except TooHard:
            pass

    binding = False

    def bindargs(self, argn, st):
        """arguments kept for a later call"""
        was, self.binding = self.binding, True
        try:
            return list(self.evs(argn, st))
        finally:
            self.binding = was

    def apply(self, fv, vs, st, e=None):
        """call a function value"""
        if isinstance(fv, Ref):
            fv = self.read(st, fv.lv)
        if isinstance(fv, T):
            if fv.op == "closure":
                out = []
                for tag, v, s in self.call_closure(fv.args[0], vs, st):
                    out.append((s, THROW if tag == "throw" else v))
                return out
            if fv.op == "fn":
                fd = self.funcs.get(fv.args[1])
                if fd is not None and fd.get("body") and not self.opaque(fd) and not any(g["id"] == fd["id"] for g in self.stack):
                    out = []
                    for tag, v, s in self.call_body(fd, vs, None, st):
                        out.append((s, THROW if tag == "throw" else v))
                    return out
                av = [self.copy_val(st, v) for v in vs]
                if fv.args[0] in self.pure:
                    res = mk("call", fv.args[0], *av)
                else:
                    res = mk("call", fv.args[0], *av, self.uniq(st, e))
                self.event(st, "call", fv.args[0], av, res, e["l"] if e else 0, x=tuple(vs), node=e)
                return [(st, res)]
            if fv.op == "bindfn":
                f0, bound = fv.args
                args = []
                for b in bound:
                    if isinstance(b, T) and b.op == "placeholder":
                        args.append(vs[b.args[0] - 1])
                    elif isinstance(b, T) and b.op == "refw":
                        args.append(Ref((b.args[0], b.args[1])))
                    else:
                        args.append(b)
                return self.apply(f0, args, st, e)
        av = tuple(self.copy_val(st, v) for v in vs)
        res = mk("apply", fv if isinstance(fv, T) else mk("obj", fv), av, self.uniq(st, e))
        self.event(st, "call", "?", (fv,) + av, res, e["l"] if e else 0, x=tuple(vs), node=e)
        return [(st, res)]

    def m_assign(self, e, st, obj, argn):
        out = []
        for s, v in self.ev(argn[0], st):
            v = self.copy_val(s, v)
            for s2, l in self.eval_obj(obj, s):
                self.write(s2, l, v, e["l"], e)
                out.append((s2, Ref(l)))
        return out

    # ------------------------------------------------------------ complex numbers
    def complex_model(self, e, f, st, obj, argn):
        nm = f["name"]
        cls = strip_t(f.get("clsT") or f.get("cls") or "")
        if obj is not None and (cls in CPLX):
            if nm in ("real", "imag", "mag2", "isZero", "isOne", "isApproximatelyZero", "isApproximatelyOne") and not argn:
                out = []
                for s, v in self.objval(obj, st):
                    out.append((s, {"real": real_part, "imag": imag_part, "mag2": self.mag2,
                                    "isZero": lambda x: self.az(x, "isz"), "isOne": lambda x: self.az(psub(x, ONE), "isz"),
                                    "isApproximatelyZero": self.az, "isApproximatelyOne": lambda x: self.az(psub(x, ONE))}[nm](v)))
                return out
            if nm == "isApproximatelyEqual":
                out = []
                for s, v in self.objval(obj, st):
                    for s2, w in self.ev(argn[0], s):
                        out.append((s2, self.az(psub(v, self.copy_val(s2, w)))))
                return out
            if nm in ("operator==", "operator!="):
                out = []
                for s, v in self.objval(obj, st):
                    for s2, w in self.ev(argn[0], s):
                        r = self.az(psub(v, self.copy_val(s2, w)), "isz")
                        out.append((s2, r if nm == "operator==" else bnot(r)))
                return out
            if nm in ("operator+=", "operator-=", "operator*=", "operator/="):
                out = []
                for s, w in self.ev(argn[0], st):
                    w = self.copy_val(s, w)
                    for s2, l in self.eval_obj(obj, s):
                        v = self.read(s2, l)
                        r = {"+": padd, "-": psub, "*": pmul, "/": pdiv}[nm[8]](v, w)
                        self.write(s2, l, r, e["l"], e)
                        out.append((s2, Ref(l)))
                return out
            if nm == "operator=":
                return self.m_assign(e, st, obj, argn)
        if obj is None and f.get("pt") and strip_t(f["pt"][0]) in CPLX:
            if nm in ("operator+", "operator-", "operator*", "operator/") and len(argn) == 2:
                out = []
                for s, vs in self.evs(argn, st):
                    a, b = [self.copy_val(s, v) for v in vs]
                    out.append((s, {"+": padd, "-": psub, "*": pmul, "/": pdiv}[nm[8]](a, b)))
                return out
            if nm == "operator-" and len(argn) == 1:
                return [(s, pneg(self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]
            if nm == "norm2":
                return [(s, self.mag2(self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]
            if nm in ("norm", "abs"):
                if f.get("qn") == "std::norm":
                    return [(s, self.mag2(self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]
                return [(s, self.cabs(self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]
            if nm == "conj":
                return [(s, mk("conj", self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]
            if nm in ("exp",):
                out = []
                for s, v in self.ev(argn[0], st):
                    v = self.copy_val(s, v)
                    r, i = real_part(v), imag_part(v)
                    if const(r) == 0:
                        out.append((s, padd(self.trig("cos", i), pmul(I, self.trig("sin", i)))))
                    else:
                        out.append((s, mk("cexp", v)))
                return out
            if nm in ("operator==", "operator!="):
                out = []
                for s, vs in self.evs(argn, st):
                    a, b = [self.copy_val(s, v) for v in vs]
                    r = self.az(psub(a, b), "isz")
                    out.append((s, r if nm == "operator==" else bnot(r)))
                return out
        # operators with a scalar on the left
        if obj is None and len(f.get("pt", [])) == 2 and strip_t(f["pt"][1]) in CPLX and nm in ("operator+", "operator-", "operator*", "operator/"):
            out = []
            for s, vs in self.evs(argn, st):
                a, b = [self.copy_val(s, v) for v in vs]
                out.append((s, {"+": padd, "-": psub, "*": pmul, "/": pdiv}[nm[8]](a, b)))
            return out
        return None

    def objval(self, obj, st):
        b, arrow = obj
        if not arrow and not b.get("lv"):
            return [(s, self.copy_val(s, v)) for s, v in self.ev(b, st)]
        return [(s, self.read(s, l)) for s, l in self.eval_obj(obj, st)]

    def az(self, v, op="az"):
        """approximately zero; decided for constants"""
        ri = re_im(v)
        if ri is not None:
            tol = Fraction(1, 2 ** 42) if op == "az" else Fraction(0)
            return boolc(abs(ri[0]) <= tol and abs(ri[1]) <= tol)
        # canonical sign
        items = v.args[0] if v.op == "poly" else None
        if items and items[0][1] < 0:
            v = pneg(v)
        return mk(op, v)

    def mag2(self, v):
        ri = re_im(v)
        if ri is not None:
            return num(ri[0] ** 2 + ri[1] ** 2)
        d = pdict(v)
        if len(d) == 1:
            (m, c), = d.items()
            r = num(c * c)
            for a, ex in m:
                if a is I:
                    continue
                x = mk("mag2", a)
                r = pmul(r, ppow(x, ex) if ex > 0 else ppow(pinv(x), -ex))
            return r
        return mk("mag2", v)

    def cabs(self, v):
        return self.sqrt(self.mag2(v))

    def sqrt(self, x):
        c = const(x)
        if c is not None and c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return num(Fraction(a, b))
        return mk("sqrt", x)

    def trig(self, fn, x):
        c = const(x)
        if c == 0:
            return ONE if fn == "cos" else ZERO
        # canonical sign
        items = x.args[0] if x.op == "poly" else None
        if items and items[0][1] < 0:
            y = mk(fn, pneg(x))
            return y if fn == "cos" else pneg(y)
        return mk(fn, x)

    # ------------------------------------------------------------ library
    def library(self, e, f, st, obj, argn):
        nm = f["name"]
        cls = strip_t(f.get("clsT") or f.get("cls") or "")
        q = f["qn"]
        if obj is not None and nm in ("wait", "wait_for", "wait_until") and "condition_variable" in cls and argn:
            out = []
            for s, l in self.eval_obj(obj, st):
                for s2, vs in self.evs_args(argn, f["pt"], s):
                    vals = [self.read(s2, v.lv) if isinstance(v, Ref) else v for v in vs]
                    pred = None
                    if isT(vals[-1], "closure") or isT(vals[-1], "fn") or isT(vals[-1], "bindfn"):
                        r = self.apply(vals[-1], [], s2.copy(), e)
                        pred = self.as_bool(r[0][1]) if len(r) == 1 and isinstance(r[0][1], T) else mk("pred")
                    self.event(s2, "wait", nm, (vals[0],), pred, e["l"], x=self.canon(s2, l), node=e)
                    if nm == "wait":
                        if pred is not None and isT(pred, "pred") is False:
                            s2.facts.assume(pred, True)
                        out.append((s2, mk("none")))
                    else:
                        self.seq += 1
                        out.append((s2, mk("call", f["qn"], self.seq)))
            return out
        if obj is not None and nm in ("lock", "unlock") and cls in ("std::mutex", "boost::fibers::mutex", "std::recursive_mutex", "boost::fibers::recursive_mutex") and not argn:
            out = []
            for s, l in self.eval_obj(obj, st):
                self.event(s, "lock", "acquire" if nm == "lock" else "release", (), None, e["l"], x=self.canon(s, l), node=e)
                out.append((s, mk("none")))
            return out
        if obj is not None and nm in ("lock", "unlock") and cls.startswith(LOCKS) and not argn:
            r = [(s, self.read(s, l)) for s, l in self.eval_obj(obj, st)]
            if all(isT(v, "lockof") for _, v in r):
                out = []
                for s, v in r:
                    self.event(s, "lock", "acquire" if nm == "lock" else "release", (), None, e["l"], x=(v.args[0], v.args[1]), node=e)
                    out.append((s, mk("none")))
                return out
        if obj is not None and nm in ("get", "wait", "join", "detach", "get_future", "operator()") and cls.startswith(("boost::fibers::", "std::future", "std::shared_future", "std::packaged_task", "std::thread", "std::jthread")):
            snap = (st.copy(), self.seq)
            r = self.task_member(nm, e, st, obj, argn)
            if r is not None:
                return r
            st, self.seq = snap
        if obj is None and q in ("boost::fibers::async", "std::async") and argn:
            out = []
            for s, vs in self.bindargs(argn, st):
                vs = [self.copy_val(s, v) for v in vs]
                fn = next((i for i, v in enumerate(vs) if isT(v, "closure") or isT(v, "fn") or isT(v, "bindfn")), None)
                if fn is None:
                    return None
                self.seq += 1
                t = mk("task", self.seq)
                self.tasks[t] = mk("bindfn", vs[fn], tuple(vs[fn + 1:])) if vs[fn + 1:] else vs[fn]
                self.event(s, "task", "spawn", (t, self.tasks[t]), None, e["l"], node=e)
                self.event(s, "task", "start", (t,), None, e["l"], node=e)
                out.append((s, mk("future", t)))
            return out
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "boost::ref", "boost::cref") and len(argn) == 1:
            if argn[0].get("lv"):
                if self.binding and q.endswith("ref"):
                    # a reference kept inside a callable: the value counts when the callable runs
                    return [(s, mk("refw", l[0], l[1])) for s, l in self.lv(argn[0], st)]
                return [(s, Ref(l)) for s, l in self.lv(argn[0], st)]
            return self.ev(argn[0], st)
        if obj is None:
            r = self.lib_free(e, f, nm, q, st, argn)
            if r is not None:
                return r
            return None
        return self.lib_member(e, f, nm, cls, st, obj, argn)

    def lib_free(self, e, f, nm, q, st, argn):
        one = len(argn) == 1

        def un(fn):
            return [(s, fn(s, self.copy_val(s, v))) for s, v in self.ev(argn[0], st)]

        def bi(fn):
            out = []
            for s, vs in self.evs(argn, st):
                a, b = [self.copy_val(s, v) for v in vs]
                out.append((s, fn(s, a, b)))
            return out
        if nm in ("epsilon", "max", "min", "lowest", "infinity") and not argn and "numeric_limits<" in (f.get("clsT") or q):
            t = (f.get("clsT") or q).split("numeric_limits<")[1].split(">")[0]
            if nm == "epsilon" and t == "double":
                return [(st, num(Fraction(1, 2 ** 52)))]
            return [(st, mk("limit", t, nm))]
        if nm in ("cos", "sin") and one:
            return un(lambda s, x: self.trig(nm, x))
        if nm == "sqrt" and one:
            return un(lambda s, x: self.sqrt(x))
        if nm in ("log2",) and one:
            return un(lambda s, x: self.log2(x))
        if nm in ("abs", "fabs") and one:
            return un(lambda s, x: num(abs(const(x))) if const(x) is not None else mk("abs", x))
        if nm in ("floor", "ceil", "round", "exp", "tan", "log", "acos", "asin", "atan") and one:
            return un(lambda s, x: mk(nm, x))
        if nm == "pow" and len(argn) == 2:
            def fpow(s, a, b):
                if cint(a) == 2:
                    return self.pow2(b)
                if cint(b) is not None and 0 <= cint(b) <= 8:
                    return ppow(a, cint(b))
                return mk("pow", a, b)
            return bi(fpow)
        if q in ("std::min", "std::max") and len(argn) == 2:
            out = []
            for s, vs in self.evs(argn, st):
                a, b = [self.copy_val(s, v) for v in vs]
                for b0, s2 in self.branch(s, blt(a, b)):
                    out.append((s2, (a if b0 else b) if nm == "min" else (b if b0 else a)))
            return out
        if q == "std::swap" or (nm == "swap" and len(argn) == 2):
            out = []
            for s, l1 in self.lv(argn[0], st):
                for s2, l2 in self.lv(argn[1], s):
                    a, b = self.read(s2, l1), self.read(s2, l2)
                    self.write(s2, l1, b, e["l"], e)
                    self.write(s2, l2, a, e["l"], e)
                    out.append((s2, mk("none")))
            return out
        if q in ("std::exchange",) and len(argn) == 2:
            out = []
            for s, l1 in self.lv(argn[0], st):
                for s2, b in self.ev(argn[1], s):
                    a = self.read(s2, l1)
                    self.write(s2, l1, self.copy_val(s2, b), e["l"], e)
                    out.append((s2, a))
            return out
        if q in ("std::make_pair",) and len(argn) == 2:
            return bi(lambda s, a, b: mk("pair", a, b))
        if q == "std::get" and one:
            i = None
            ta = f.get("targs") or []
            m = re.match(r"^(\d+)", ta[0]) if ta else None
            if m:
                i = int(m.group(1))
            t = strip_t(argn[0]["t"])
            if t.startswith("std::pair<"):
                return [(s, Ref((l[0], l[1] + (("f", ("first", "second")[i]),)))) for s, l in self.lv(argn[0], st)]
            ai = arr_info(t)
            if ai:
                return [(s, Ref((l[0], l[1] + (("i", num(i), ai[1]),)))) for s, l in self.lv(argn[0], st)]
            return [(s, Ref((l[0], l[1] + (("f", f"get{i}"),)))) for s, l in self.lv(argn[0], st)]
        if q in ("std::begin", "std::end", "std::cbegin", "std::cend") and one:
            return self.lib_member(e, dict(f, name=nm.lstrip("c"), clsT=argn[0]["t"]), nm.lstrip("c"), strip_t(argn[0]["t"]), st, (argn[0], False), [])
        if q in ("std::next", "std::prev"):
            out = []
            for s, vs in self.evs(argn, st):
                p = self.copy_val(s, vs[0])
                n = self.copy_val(s, vs[1]) if len(vs) > 1 else ONE
                if q == "std::prev":
                    n = pneg(n)
                out.append((s, self.it_add(p, n)))
            return out
        if q == "std::distance" and len(argn) == 2:
            return bi(lambda s, a, b: self.ptr_diff(b, a))
        if q in ("std::all_of", "std::any_of", "std::none_of", "std::max_element", "std::min_element", "std::for_each",
                 "std::accumulate", "std::find_if", "std::count_if", "std::fill", "std::copy", "std::transform", "std::find",
                 "std::sort", "std::stable_sort", "std::reverse", "std::iota"):
            r = self.algorithm(e, q[5:], st, argn)
            if r is not None:
                return r
        if q in ("std::bind", "boost::bind"):
            out = []
            for s, vs in self.bindargs(argn, st):
                vs = [self.copy_val(s, v) for v in vs]
                out.append((s, mk("bindfn", vs[0], tuple(vs[1:]))))
            return out
        if nm == "operator<<" and len(argn) == 2:
            out = []
            for s, l in self.lv(argn[0], st):
                for s2, v in self.ev(argn[1], s):
                    self.event(s2, "out", q, (self.copy_val(s2, v),), None, e["l"], x=l, node=e)
                    out.append((s2, Ref(l)))
            return out
        if nm in ("operator==", "operator!=") and len(argn) == 2:
            out = []
            for s, vs in self.evs(argn, st):
                a, b = [self.copy_val(s, v) for v in vs]
                tt = strip_t(argn[0]["t"])
                if arr_info(tt) or tt.startswith(("std::vector", "std::pair")):
                    for s2, r in self.seq_eq(s, a, b, tt, e):
                        out.append((s2, r if nm == "operator==" else bnot(r)))
                else:
                    r = self.eq_term(s, a, b)
                    out.append((s, r if nm == "operator==" else bnot(r)))
            return out
        if nm in ("operator+", "operator-") and len(argn) == 2 and "iterator" in f["pt"][0]:
            return bi(lambda s, a, b: self.it_add(a, b) if nm == "operator+" else self.ptr_diff(a, b))
        if q in ("std::to_string",):
            return un(lambda s, x: mk("to_string", x))
        if nm == "operator+" and "basic_string" in " ".join(f["pt"]):
            return bi(lambda s, a, b: mk("concat", a, b))
        if q in ("std::plus", "std::isnan", "std::isfinite"):
            return un(lambda s, x: mk(nm, x))
        return None

    def seq_eq(self, st, a, b, t, e):
        """element-wise equality of arrays using the element's operator== if in project"""
        ai = arr_info(t)
        if ai is None:
            return [(st, self.eq_term(st, a, b))]
        el = strip_t(ai[0])
        opf = [f for f in self.by_qn.get(el + "::operator==", []) if f.get("body")]
        acc = [(st, TRUE)]
        for j in range(ai[1]):
            nxt = []
            for s, r in acc:
                if r is FALSE:
                    nxt.append((s, r))
                    continue
                x, y = self.proj(s, a, ("i", num(j), ai[1])), self.proj(s, b, ("i", num(j), ai[1]))
                if opf and not self.opaque(opf[0]):
                    lx, ly = self.temp(s, x), self.temp(s, y)
                    rs = [(s2, self.as_bool(v)) for tag, v, s2 in self.call_body(opf[0], [Ref(ly)], mk("addr", lx[0], ()), s)]
                else:
                    rs = [(s, self.eq_term(s, x, y))]
                for s2, v in rs:
                    for bb, s3 in self.branch(s2, v):
                        nxt.append((s3, boolc(bb)))
            acc = nxt
        return acc

    def it_add(self, p, n):
        if p.op in ("addr", "padd"):
            return self.ptr_add(p, n)
        c = cint(n)
        if c is not None and 0 <= c <= 8:
            for _ in range(c):
                p = mk("itnext", p)
            return p
        return mk("itadd", p, n)

    def range_elems(self, st, b, e):
        """LVs between two addresses with constant distance"""
        if b.op == "addr" and e.op == "addr" and b.args[0] == e.args[0] and b.args[1] and b.args[1][-1][0] == "i":
            n = cint(self.ptr_diff(e, b))
            if n is not None and 0 <= n <= 64:
                return [((b.args[0], self.ptr_add(b, num(j)).args[1]) if True else None) for j in range(n)]
        return None

    def whole(self, st, b, e):
        """LV of the container whose first element and end are the two addresses"""
        if not (isT(b, "addr") and isT(e, "addr") and b.args[0] == e.args[0] and b.args[1] and b.args[1][-1][0] == "i"):
            return None
        if b.args[1][-1][1] is not ZERO or len(b.args[1]) != len(e.args[1]) or b.args[1][:-1] != e.args[1][:-1]:
            return None
        base = (b.args[0], b.args[1][:-1])
        v = self.read(st, base)
        if isinstance(v, T) and e.args[1][-1][0] == "i" and self.size_of(st, v) is e.args[1][-1][1]:
            return base
        return None

    def algorithm(self, e, name, st, argn):
        out = []
        for s, vs in self.evs(argn, st):
            vs = [self.copy_val(s, v) for v in vs]
            els = self.range_elems(s, vs[0], vs[1]) if len(vs) >= 2 else None
            if els is None and name == "accumulate" and len(vs) in (3, 4) and self.whole(s, vs[0], vs[1]) is not None:
                op = "plus" if len(vs) == 3 else "plus" if "plus" in show(vs[3]) else None
                if op is not None:
                    out.append((s, padd(vs[2], mk("sumof", self.read(s, self.whole(s, vs[0], vs[1]))))))
                    continue
            if els is None and name == "reverse" and self.whole(s, vs[0], vs[1]) is not None:
                base = self.whole(s, vs[0], vs[1])
                self.write(s, base, mk("rev", self.read(s, base)), e["l"], e)
                out.append((s, mk("none")))
                continue
            if els is None:
                if name == "for_each" and vs[0].op == "addr":
                    # element-wise map over a symbolic range
                    base = (vs[0].args[0], vs[0].args[1][:-1])
                    old = self.read(s, base)
                    self.seq += 1
                    elt = mk("elem", old, ("map", e["l"]))
                    l = self.temp(s, elt)
                    for s2, v in self.apply(vs[2], [Ref(l)], s, e):
                        new = self.read(s2, l)
                        self.havoc_lv(s2, base, mk("mapall", old, elt, new))
                        out.append((s2, mk("none")))
                    continue
                return None
            if name in ("all_of", "any_of", "none_of"):
                acc = [(s, None)]
                stop = name == "all_of"
                for l in els:
                    nxt = []
                    for s1, r in acc:
                        if r is not None:
                            nxt.append((s1, r))
                            continue
                        for s2, v in self.apply(vs[2], [Ref(l)], s1, e):
                            for bb, s3 in self.branch(s2, self.as_bool(v)):
                                if bb != stop:
                                    nxt.append((s3, boolc(name == "any_of")))
                                else:
                                    nxt.append((s3, None))
                    acc = nxt
                for s1, r in acc:
                    if r is None:
                        r = boolc(name != "any_of")
                    out.append((s1, r))
                continue
            if name in ("max_element", "min_element"):
                for j, l in enumerate(els):
                    s1 = s.copy()
                    ok = [s1]
                    for k2, l2 in enumerate(els):
                        if k2 == j:
                            continue
                        nxt = []
                        for s2 in ok:
                            a, b = (l, l2) if name == "max_element" else (l2, l)
                            # first maximal element: not cmp(chosen, other); cmp(other, chosen) for earlier ones
                            if len(vs) > 2:
                                r = self.apply(vs[2], [Ref(a), Ref(b)], s2, e)
                            else:
                                r = [(s2, blt(self.read(s2, a), self.read(s2, b)))]
                            for s3, v in r:
                                v = self.as_bool(v)
                                s4 = s3.copy()
                                if s4.facts.assume(v, False):
                                    nxt.append(s4)
                        ok = nxt
                    for s2 in ok:
                        out.append((s2, mk("addr", l[0], l[1])))
                continue
            if name == "for_each":
                acc = [s]
                for l in els:
                    acc = [s2 for s1 in acc for s2, v in self.apply(vs[2], [Ref(l)], s1, e)]
                out += [(s1, vs[2]) for s1 in acc]
                continue
            if name in ("sort", "stable_sort"):
                # insertion sort; every comparison must be decided
                xs = []
                for l in els:
                    v = self.read(s, l)
                    k = len(xs)
                    while k > 0:
                        if len(vs) > 2:
                            la, lb = self.temp(s, v), self.temp(s, xs[k - 1])
                            r = self.apply(vs[2], [Ref(la), Ref(lb)], s, e)
                        else:
                            r = [(s, blt(v, xs[k - 1]))]
                        if len(r) != 1 or s.facts.decide(self.as_bool(r[0][1])) is None:
                            return None
                        s = r[0][0]
                        if not s.facts.decide(self.as_bool(r[0][1])):
                            break
                        k -= 1
                    xs.insert(k, v)
                for l, v in zip(els, xs):
                    self.write(s, l, v, e["l"], e)
                out.append((s, mk("none")))
                continue
            if name == "reverse":
                xs = [self.read(s, l) for l in els]
                for l, v in zip(els, reversed(xs)):
                    self.write(s, l, v, e["l"], e)
                out.append((s, mk("none")))
                continue
            if name == "iota" and len(vs) == 3:
                for j, l in enumerate(els):
                    self.write(s, l, padd(vs[2], num(j)), e["l"], e)
                out.append((s, mk("none")))
                continue
            if name == "accumulate" and len(vs) == 3:
                t = vs[2]
                for l in els:
                    t = padd(t, self.read(s, l))
                out.append((s, t))
                continue
            if name == "fill" and len(vs) == 3:
                for l in els:
                    self.write(s, l, vs[2], e["l"], e)
                out.append((s, mk("none")))
                continue
            if name == "copy" and len(vs) == 3:
                for j, l in enumerate(els):
                    d = self.it_add(vs[2], num(j))
                    self.write(s, self.deref(d, ""), self.read(s, l), e["l"], e)
                out.append((s, self.it_add(vs[2], num(len(els)))))
                continue
            return None
        return out

    def lib_member(self, e, f, nm, cls, st, obj, argn):
        bt = strip_t(obj[0]["t"])
        ocls = cls
        if obj[1] and bt.endswith("*"):
            bt = strip_t(bt[:-1])
        if cls.startswith("std::") or True:
            pass
        ai = arr_info(ocls) or (arr_info(bt) if bt.startswith("std::array") else None)
        isvec = ocls.startswith(("std::vector<", "std::basic_string<")) or bt.startswith(("std::vector<", "std::basic_string<"))
        isvec = isvec and "iterator" not in ocls and "_Bit_reference" not in ocls
        isset = ocls.startswith(("std::set<", "std::unordered_set<"))
        ismap = ocls.startswith(("std::map<", "std::unordered_map<"))
        if ocls.startswith("Eigen::") and nm in ("operator()", "operator[]", "coeffRef", "coeff") and argn and all(is_int_t(a["t"]) for a in argn):
            out = []
            for s, l in self.eval_obj(obj, st):
                for s2, ix in self.evs(argn, s):
                    out.append((s2, Ref((l[0], l[1] + tuple(("i", self.copy_val(s2, i)) for i in ix)))))
            return out
        if ai or isvec:
            N = ai[1] if ai else None
            if nm in ("operator[]", "at"):
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, i in self.ev(argn[0], s):
                        i = self.copy_val(s2, i)
                        pe = ("i", i, N) if N else ("i", i)
                        if isvec:
                            self.event(s2, "vecidx", ocls, (self.read(s2, l), i), None, e["l"], x=l, node=e)
                        out.append((s2, Ref((l[0], l[1] + (pe,)))))
                return out
            if nm in ("begin", "cbegin", "data"):
                return [(s, mk("addr", l[0], l[1] + (("i", ZERO, N) if N else ("i", ZERO),))) for s, l in self.rlv(obj, st)]
            if nm in ("end", "cend"):
                out = []
                for s, l in self.rlv(obj, st):
                    n = num(N) if N is not None else self.size_of(s, self.read(s, l))
                    out.append((s, mk("addr", l[0], l[1] + (("i", n, N) if N else ("i", n),))))
                return out
            if nm in ("front", "back"):
                out = []
                for s, l in self.eval_obj(obj, st):
                    n = num(N) if N is not None else self.size_of(s, self.read(s, l))
                    i = ZERO if nm == "front" else psub(n, ONE)
                    out.append((s, Ref((l[0], l[1] + (("i", i, N) if N else ("i", i),)))))
                return out
            if nm in ("size", "length"):
                return [(s, num(N) if N is not None else self.size_of(s, v)) for s, v in self.objval(obj, st)]
            if nm == "empty":
                return [(s, beq(num(N) if N is not None else self.size_of(s, v), ZERO)) for s, v in self.objval(obj, st)]
            if nm == "fill" and N:
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, v in self.ev(argn[0], s):
                        self.write(s2, l, self.mkarr("arr", [self.copy_val(s2, v)] * N), e["l"], e)
                        out.append((s2, mk("none")))
                return out
            if nm in ("rbegin", "rend"):
                return [(s, mk("it" + nm, v)) for s, v in self.objval(obj, st)]
        if isvec:
            if nm in ("push_back", "emplace_back"):
                out = []
                elt = self.vec_elem(ocls if ocls.startswith("std::vector") else bt)
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        vs = [self.copy_val(s2, v) for v in vs]
                        if nm == "push_back" or (len(vs) == 1 and self.same_t(argn[0]["t"], elt)):
                            items = [(s2, vs[0])]
                        else:
                            items = self.construct(elt, vs, argn, s2)
                        for s3, x in items:
                            cur = self.read(s3, l)
                            self.write(s3, l, self.vpush(cur, x), e["l"], e)
                            sz = psub(self.size_of(s3, self.read(s3, l)), ONE)
                            out.append((s3, Ref((l[0], l[1] + (("i", sz),)))))
                return out
            if nm == "clear":
                out = []
                for s, l in self.eval_obj(obj, st):
                    self.write(s, l, mk("vec", ()), e["l"], e)
                    out.append((s, mk("none")))
                return out
            if nm in ("resize", "assign") and argn:
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        vs = [self.copy_val(s2, v) for v in vs]
                        cur = self.read(s2, l)
                        if nm == "resize" and isT(cur, "vec") and not cur.args[0] or nm == "assign" and len(vs) == 2 and is_int_t(argn[0]["t"]):
                            fill = vs[1] if len(vs) > 1 else self.zero_of(self.vec_elem(bt))
                            n = cint(vs[0])
                            v = mk("vec", tuple([fill] * n)) if n is not None and n <= 64 else mk("fill", fill, vs[0])
                        else:
                            if nm == "resize" and len(vs) == 1:
                                vs = vs + [self.zero_of(self.vec_elem(bt))]
                            v = mk(nm, cur, tuple(vs))
                        self.write(s2, l, v, e["l"], e)
                        out.append((s2, mk("none")))
                return out
            if nm in ("reserve", "shrink_to_fit"):
                return [(s2, mk("none")) for s2, _ in self.evs(argn, st)]
            if nm == "pop_back":
                out = []
                for s, l in self.eval_obj(obj, st):
                    cur = self.read(s, l)
                    if isT(cur, "push"):
                        v = cur.args[0]
                    elif isT(cur, "vec") and cur.args[0]:
                        v = mk("vec", cur.args[0][:-1])
                    else:
                        v = mk("popped", cur)
                    self.write(s, l, v, e["l"], e)
                    out.append((s, mk("none")))
                return out
            if nm == "swap":
                out = []
                for s, l1 in self.rlv(obj, st):
                    for s2, l2 in self.lv(argn[0], s):
                        a, b = self.read(s2, l1), self.read(s2, l2)
                        self.write(s2, l1, b, e["l"], e)
                        self.write(s2, l2, a, e["l"], e)
                        out.append((s2, mk("none")))
                return out
            if nm == "operator+=":
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, v in self.ev(argn[0], s):
                        v = self.copy_val(s2, v)
                        cur = self.read(s2, l)
                        self.write(s2, l, mk("concat", cur, v), e["l"], e)
                        out.append((s2, Ref(l)))
                return out
            if nm == "insert" and len(argn) == 3:
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        vs = [self.copy_val(s2, v) for v in vs]
                        cur = self.read(s2, l)
                        self.write(s2, l, mk("vinsert", cur, tuple(vs)), e["l"], e)
                        out.append((s2, mk("none")))
                return out
            if nm in ("c_str", "data"):
                return [(s, v) for s, v in self.objval(obj, st)]
        if ismap or isset:
            if nm == "operator[]":
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, k in self.ev(argn[0], s):
                        k = self.copy_val(s2, k)
                        self.event(s2, "mapidx", ocls, (self.read(s2, l), k), None, e["l"], x=l, node=e)
                        out.append((s2, Ref((l[0], l[1] + (("k", k),)))))
                return out
            if nm == "at":
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, k in self.ev(argn[0], s):
                        k = self.copy_val(s2, k)
                        self.event(s2, "mapat", ocls, (self.read(s2, l), k), None, e["l"], x=l, node=e)
                        out.append((s2, Ref((l[0], l[1] + (("k", k),)))))
                return out
            if nm in ("count", "contains"):
                out = []
                for s, l in self.rlv(obj, st):
                    for s2, k in self.ev(argn[0], s):
                        h = self.map_has(s2, self.read(s2, l), self.copy_val(s2, k))
                        if nm == "contains":
                            out.append((s2, h))
                        else:
                            for bb, s3 in self.branch(s2, h):
                                out.append((s3, num(bb)))
                return out
            if nm == "find":
                out = []
                for s, l in self.rlv(obj, st):
                    for s2, k in self.ev(argn[0], s):
                        out.append((s2, mk("itfind", self.read(s2, l), self.copy_val(s2, k), l)))
                return out
            if nm in ("end", "cend"):
                return [(s, mk("itend", v)) for s, v in self.objval(obj, st)]
            if nm in ("begin", "cbegin"):
                return [(s, mk("itbegin", v)) for s, v in self.objval(obj, st)]
            if nm in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        vs = [self.copy_val(s2, v) for v in vs]
                        cur = self.read(s2, l)
                        if isset:
                            if nm == "emplace" and len(vs) != 1:
                                continue
                            new = mk("setins", cur, vs[0])
                        else:
                            if len(vs) == 1:
                                k, v = self.proj(s2, vs[0], ("f", "first")), self.proj(s2, vs[0], ("f", "second"))
                            else:
                                k, v = vs[0], vs[1]
                            new = mk("mapset", cur, k, v)
                            if nm != "insert_or_assign":
                                h = s2.facts.decide(self.map_has(s2, cur, k))
                                if h is True:
                                    new = cur
                                elif h is None and not s2.facts.lits.get(self.map_has(s2, cur, k)) is False:
                                    # insert keeps an existing entry
                                    new = mk("mapins", cur, k, v)
                        self.write(s2, l, new, e["l"], e)
                        out.append((s2, mk("insres", cur, tuple(vs))))
                return out
            if nm == "clear":
                out = []
                for s, l in self.eval_obj(obj, st):
                    self.write(s, l, mk("emptymap"), e["l"], e)
                    self.event(s, "clear", ocls, (), None, e["l"], x=l, node=e)
                    out.append((s, mk("none")))
                return out
            if nm == "erase":
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        cur = self.read(s2, l)
                        self.write(s2, l, mk("maperase", cur, tuple(self.copy_val(s2, v) for v in vs)), e["l"], e)
                        out.append((s2, ONE))
                return out
            if nm == "size":
                return [(s, self.size_of(s, v)) for s, v in self.objval(obj, st)]
            if nm == "empty":
                return [(s, mk("isempty", v) if v.op != "emptymap" else TRUE) for s, v in self.objval(obj, st)]
        # iterators
        if nm in ("operator*", "operator->") and ("iterator" in ocls or "iterator" in bt):
            out = []
            for s, it in self.objval(obj, st):
                if it.op == "itfind":
                    m, k, l = it.args
                    if nm == "operator->":
                        pl = self.temp(s, mk("pair", k, self.map_get(s, m, k)))
                        out.append((s, mk("addr", pl[0], ())))
                    else:
                        out.append((s, mk("pair", k, self.map_get(s, m, k))))
                elif it.op in ("addr", "padd"):
                    if nm == "operator->":
                        out.append((s, it))
                    else:
                        out.append((s, Ref(self.deref(it, e["t"]))))
                else:
                    p = mk("itptr", it)
                    t = strip_t(e["t"])
                    if nm == "operator->":
                        out.append((s, p))
                    else:
                        out.append((s, Ref((("h", p, t), ()))))
            return out
        if nm in ("operator++", "operator--", "operator+=", "operator-=") and ("iterator" in ocls or "iterator" in bt):
            out = []
            for s, l in self.eval_obj(obj, st):
                n = ONE
                ss = [(s, ONE)]
                if nm.endswith("="):
                    ss = self.ev(argn[0], s)
                for s2, n in ss:
                    old = self.read(s2, l)
                    if "--" in nm or nm == "operator-=":
                        n = pneg(n)
                    new = self.it_add(old, n)
                    self.write(s2, l, new, e["l"], e)
                    out.append((s2, old if (argn and not nm.endswith("=")) else Ref(l)))
            return out
        if nm in ("operator==", "operator!=") and len(argn) == 1:
            out = []
            for s, a in self.objval(obj, st):
                for s2, b in self.ev(argn[0], s):
                    r = self.eq_term(s2, a, self.copy_val(s2, b))
                    out.append((s2, r if nm == "operator==" else bnot(r)))
            return out
        # smart pointers
        if ocls.startswith(("std::unique_ptr<", "std::shared_ptr<")):
            if nm == "get":
                return [(s, mk("f", v, "ptr") if v.op != "make" else (v.args[1][0] if v.args[1] else NULL)) for s, v in self.objval(obj, st)]
            if nm in ("operator[]", "operator*", "operator->"):
                out = []
                for s, v in self.objval(obj, st):
                    p = v.args[1][0] if v.op == "make" and v.args[1] else mk("f", v, "ptr")
                    if nm == "operator->":
                        out.append((s, p))
                    elif nm == "operator*":
                        out.append((s, Ref(self.deref(p, e["t"]))))
                    else:
                        for s2, i in self.ev(argn[0], s):
                            out.append((s2, Ref(self.ptr_index(p, i, e["t"]))))
                return out
        # queues
        if ocls.startswith(("std::queue<", "std::deque<", "std::stack<")):
            if nm in ("front", "back", "top"):
                return [(s, mk(nm, v)) for s, v in self.objval(obj, st)]
            if nm == "empty":
                return [(s, mk("isempty", v)) for s, v in self.objval(obj, st)]
            if nm in ("push", "pop", "emplace", "push_back", "pop_front"):
                out = []
                for s, l in self.eval_obj(obj, st):
                    for s2, vs in self.evs(argn, s):
                        cur = self.read(s2, l)
                        vs = [self.copy_val(s2, v) for v in vs]
                        self.write(s2, l, mk("q" + nm, cur, *vs), e["l"], e)
                        self.event(s2, "queue", nm, tuple(vs), None, e["l"], x=l, node=e)
                        out.append((s2, mk("none")))
                return out
        if "distribution" in ocls and nm == "operator()":
            out = []
            for s, v in self.objval(obj, st):
                for s2, vs in self.evs_args(argn, f["pt"], s):
                    res = mk("draw", v, self.uniq(s2, e))
                    self.event(s2, "call", "draw", (v,), res, e["l"], x=tuple(vs), node=e)
                    out.append((s2, res))
            return out
        if nm == "operator bool" or nm == "operator std::size_t":
            return None
        if "_Bit_reference" in ocls:
            if nm == "operator=":
                out = []
                for s, v in self.ev(argn[0], st):
                    for s2, l in self.eval_obj(obj, s):
                        self.write(s2, l, self.copy_val(s2, v), e["l"], e)
                        out.append((s2, Ref(l)))
                return out
            if nm == "operator bool":
                return [(s, v) for s, v in self.objval(obj, st)]
        if ocls.startswith(("std::plus<", "std::minus<", "std::multiplies<")):
            out = []
            for s, vs in self.evs(argn, st):
                a, b = [self.copy_val(s, v) for v in vs]
                out.append((s, {"p": padd, "m": pmul if "multi" in ocls else psub}[ocls[5]](a, b)))
            return out
        if ocls.startswith("std::equal_to<") and nm == "operator()":
            t = strip_t(f["pt"][0])
            opf = [g for g in self.by_qn.get(t + "::operator==", []) if g.get("body")]
            if opf:
                out = []
                for s, vs in self.evs_args(argn, f["pt"], st):
                    for tag, v, s2 in self.call_body(opf[0], [vs[1]], self.addr_of(s, vs[0].lv), s):
                        out.append((s2, v))
                return out
            return None
        if ocls.startswith("std::function<") and nm == "operator()":
            out = []
            for s, v in self.objval(obj, st):
                for s2, vs in self.evs_args(argn, f["pt"], s):
                    out += self.apply(v.args[1][0] if v.op == "make" and v.args[1] else v, vs, s2, e)
            return out
        if nm == "operator()" and obj[0]["t"].startswith("(lambda"):
            out = []
            for s, v in self.objval(obj, st):
                for s2, vs in self.evs_args(argn, f["pt"], s):
                    out += self.apply(v, vs, s2, e)
            return out
        return None

    def same_t(self, a, b):
        return strip_t(a) == strip_t(b)

    def vec_elem(self, t):
        t = strip_t(t)
        if t.startswith("std::vector<"):
            return strip_t(t[len("std::vector<"):-1])
        return ""

    def vpush(self, cur, x):
        if isT(cur, "vec") and len(cur.args[0]) < 64:
            return mk("vec", cur.args[0] + (x,))
        return mk("push", cur, x)

    def construct(self, t, vs, argn, st):
        """element constructed in place from argument values"""
        if t in CPLX and self.cn and len(vs) in (1, 2) and all(isinstance(v, T) for v in vs):
            return [(st, vs[0] if len(vs) == 1 else padd(vs[0], pmul(I, vs[1])))]
        if t in self.recs:
            cands = [f for f in self.by_qn.get(t + "::" + t.split("::")[-1], []) if f.get("ctor") and len(f["ps"]) == len(vs) and not f.get("implicit")]
            if cands:
                return self.run_ctor(cands[0], vs, st, t)
        if t.startswith("std::pair<") and len(vs) == 2:
            return [(st, mk("pair", vs[0], vs[1]))]
        if t in ("boost::fibers::fiber", "std::thread", "std::jthread") and vs:
            r = self.start_task(st, vs, argn[0])
            if r is not None:
                return [(st, r)]
        if t.startswith("std::vector<") and len(vs) == 1:
            n = cint(vs[0])
            z = self.zero_of(t[len("std::vector<"):-1])
            return [(st, mk("vec", tuple([z] * n)) if n is not None and n <= 64 else mk("fill", z, vs[0]))]
        return [(st, mk("make", t, tuple(vs)))]

    def rlv(self, obj, st):
        return self.eval_obj(obj, st)

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """-> [(tag, value, state)]"""
        self.tick()
        if s is None:
            return [("next", None, st)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise TooHard("statement " + s["k"])
        return m(s, st)

    def s_expr(self, s, st):
        out = []
        for s2, v in (self.lv_or_ev(s["e"], st)):
            if v is THROW:
                out.append(("throw", v, s2))
            else:
                out.append(("next", None, s2))
        return out

    def lv_or_ev(self, e, st):
        return self.ev(e, st)

    def s_label(self, s, st):
        return self.exec(s["s"], st)

    def s_block(self, s, st):
        decls = []
        outs = self.exec_list(s["s"], [st], decls)
        dts = [v for v in decls if self.needs_dtor(v)]
        if dts:
            res = []
            for tag, v, s2 in outs:
                sts = [s2]
                for d in reversed(dts):
                    key = self.fmap.vars.get(d["d"])
                    nxt = []
                    for s3 in sts:
                        if key is None or key not in s3.env or isinstance(s3.env[key], Ref):
                            nxt.append(s3)
                        else:
                            nxt += self.run_dtor(d, key, s3)
                    sts = nxt
                for s3 in sts:
                    res.append((tag, v, s3))
            outs = res
        return outs

    def needs_dtor(self, d):
        t = d["t"]
        if is_ref_t(t) or strip_t(t).endswith("*") or d.get("static"):
            return False
        t = strip_t(t)
        if t.startswith("std::") and not t.startswith(("std::array<", "std::complex<", "std::pair<", "std::initializer_list")):
            return t.startswith(("std::unique_", "std::lock_", "std::scoped_", "std::shared_", "std::thread", "std::vector<boost::mpi", "std::vector<std::unique", "std::vector<std::vector"))
        if t.startswith("boost::"):
            return True
        return bool([f for f in self.by_qn.get(t + "::~" + t.split("::")[-1], []) if f.get("body") is not None and not f.get("implicit")])

    def run_dtor(self, d, key, st):
        t = strip_t(d["t"])
        fs = [f for f in self.by_qn.get(t + "::~" + t.split("::")[-1], []) if f.get("body") is not None and not f.get("implicit")]
        if fs:
            out = []
            for tag, v, s in self.call_body(fs[0], [], mk("addr", key, ()), st):
                out.append(s)
            return out
        v = st.env.get(key)
        if isT(v, "lockof") and t.startswith(LOCKS):
            self.event(st, "lock", "leave", (), None, d.get("l", 0), x=(v.args[0], v.args[1]))
        self.event(st, "dtor", t, (v,), None, d.get("l", 0), x=key)
        return [st]

    def exec_list(self, stmts, sts, decls=None):
        outs = []
        cur = sts
        for x in stmts:
            nxt = []
            if x is not None and x["k"] == "decl" and decls is not None:
                decls.extend(x["v"])
            for st in cur:
                for tag, v, s in self.exec(x, st):
                    if tag == "next":
                        nxt.append(s)
                    else:
                        outs.append((tag, v, s))
            cur = self.merge(nxt)
            self.cap(cur)
            self.cap(outs)
            if not cur:
                break
        return outs + [("next", None, s) for s in cur]

    def merge(self, sts):
        """join states that differ only in branch literals"""
        if len(sts) < 2 or self.no_merge:
            return sts
        groups = []
        for s in sts:
            for g in groups:
                r = g[0]
                if r.log == s.log and r.env == s.env and r.heap == s.heap and r.ep == s.ep:
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            out += self.merge_facts(g)
        return out

    def merge_facts(self, g):
        # only merge when the literal sequences share a prefix and differ afterwards: keep the common part
        s = g[0]
        pre = list(s.facts.order)
        for o in g[1:]:
            n = 0
            for a, b in zip(pre, o.facts.order):
                if a == b:
                    n += 1
                else:
                    break
            pre = pre[:n]
        common = set(g[0].facts.order)
        for o in g[1:]:
            common &= set(o.facts.order)
        f = Facts()
        for lit, val in g[0].facts.order:
            if (lit, val) in common:
                f.assume(lit, val)
        s2 = s.copy()
        s2.facts = f
        return [s2]

    def s_decl(self, s, st):
        sts = [st]
        thrown = []
        for v in s["v"]:
            nxt = []
            for x in sts:
                for x2 in self.declare(v, x):
                    if isinstance(x2, tuple):
                        thrown.append(("throw", THROW, x2[0]))
                    else:
                        nxt.append(x2)
            sts = nxt
        return thrown + [("next", None, x) for x in sts]

    def declare(self, v, st):
        key = ("v", v["d"], self.frame)
        self.fmap.vars[v["d"]] = key
        out = []
        if v.get("static"):
            qn = f"static:{v['n']}:{v['d']}"
            st.env[key] = Ref((("g", qn), ()))
            return [st]
        if v.get("binds"):
            if v.get("init") is None:
                return [st]
            if is_ref_t(v["t"]):
                ls = self.lv(v["init"], st)
            else:
                ls = []
                for s, x in self.ev(v["init"], st):
                    s.env[key] = self.copy_val(s, x)
                    ls.append((s, (key, ())))
            for s, l in ls:
                for j, b in enumerate(v["binds"]):
                    bk = ("v", b["d"], self.frame)
                    self.fmap.vars[b["d"]] = bk
                    ai = arr_info(v["t"])
                    pe = ("i", num(j), ai[1]) if ai else ("f", ("first", "second")[j] if "pair<" in v["t"] and j < 2 else self.field_name(v["t"], j), strip_t(v["t"]))
                    s.env[bk] = Ref((l[0], l[1] + (pe,)))
                    if "hv" in b:
                        hk = ("v", b["hv"], self.frame)
                        self.fmap.vars[b["hv"]] = hk
                        s.env[hk] = s.env[bk]
                out.append(s)
            return out
        if is_ref_t(v["t"]) and v.get("init") is not None:
            for s, l in self.lv(v["init"], st):
                # reading THROW through a temp
                s.env[key] = Ref(l)
                out.append(s)
            return out
        if v.get("init") is None:
            st.env[key] = self.undef_of(v["t"])
            if self.track_sets:
                self.event(st, "set", None, (), None, v.get("l", 0), x=(key, ()))
            return [st]
        for s, x in self.ev(v["init"], st):
            if x is THROW:
                out.append((s,))
                continue
            s.env[key] = self.copy_val(s, x)
            if self.track_sets:
                self.event(s, "set", None, (), None, v.get("l", 0), x=(key, ()))
            out.append(s)
        return out

    def field_name(self, t, j):
        fl = self.fields(t)
        if fl and j < len(fl):
            return fl[j][0]
        return f"get{j}"

    def s_if(self, s, st):
        sts = [st]
        if s.get("init"):
            sts = [x for tag, v, x in self.exec(s["init"], st)]
        if s.get("cv"):
            sts = [x for y in sts for tag, v, x in self.exec(s["cv"], y)]
        outs = []
        for x in sts:
            for x2, c in self.ev(s["c"], x):
                if c is THROW:
                    outs.append(("throw", c, x2))
                    continue
                for b, x3 in self.branch(x2, self.as_bool(c)):
                    if b:
                        outs += self.exec(s["a"], x3)
                    elif s.get("b") is not None:
                        outs += self.exec(s["b"], x3)
                    else:
                        outs.append(("next", None, x3))
        return self.merge_outs(outs)

    def merge_outs(self, outs):
        nx = [s for t, v, s in outs if t == "next"]
        rest = [o for o in outs if o[0] != "next"]
        return rest + [("next", None, s) for s in self.merge(nx)]

    def s_ret(self, s, st):
        if s.get("e") is None:
            return [("ret", mk("none"), st)]
        f = self.stack[-1]
        rt = f.get("ret", "")
        out = []
        if is_ref_t(rt) and not s["e"]["k"] == "lambda":
            for s2, l in self.lv(s["e"], st):
                out.append(("ret", Ref(l), s2))
            return out
        for s2, v in self.ev(s["e"], st):
            if v is THROW:
                out.append(("throw", v, s2))
            else:
                out.append(("ret", self.copy_val(s2, v), s2))
        return out

    def s_break(self, s, st):
        return [("break", None, st)]

    def s_continue(self, s, st):
        return [("continue", None, st)]

    def s_try(self, s, st):
        out = []
        for tag, v, s2 in self.exec(s["s"], st):
            if tag == "throw" and s.get("h"):
                for h in s["h"]:
                    s3 = s2.copy()
                    if h.get("v"):
                        key = ("v", h["v"]["d"], self.frame)
                        self.fmap.vars[h["v"]["d"]] = key
                        s3.env[key] = s3.env.get(("exc",), mk("exc"))
                    out += self.exec(h["s"], s3)
                    break
            else:
                out.append((tag, v, s2))
        return out

    def s_switch(self, s, st):
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten case labels
        flat = []
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                flat.append(("label", x.get("c"), x["k"]))
                x = x["s"]
            flat.append(("stmt", x, None))
        out = []
        for s2, c in self.ev(s["c"], st):
            rest = s2
            default_at = None
            entries = []
            for j, (k, x, kind) in enumerate(flat):
                if k != "label":
                    continue
                if kind == "default":
                    default_at = j
                    continue
                for s3, cv in self.ev(x, rest):
                    alts = self.branch(s3, self.eq_term(s3, c, cv))
                    nr = None
                    for b, s4 in alts:
                        if b:
                            entries.append((j, s4))
                        else:
                            nr = s4
                    rest = nr
                if rest is None:
                    break
            if rest is not None:
                if default_at is not None:
                    entries.append((default_at, rest))
                else:
                    out.append(("next", None, rest))
            for j, s4 in entries:
                seq = [x for k, x, kind in flat[j:] if k == "stmt"]
                for tag, v, s5 in self.exec_list(seq, [s4]):
                    out.append(("next", None, s5) if tag == "break" else (tag, v, s5))
        return self.merge_outs(out)

    # --- loops
    def s_for(self, s, st):
        outs = []
        inits = self.exec(s["init"], st) if s.get("init") else [("next", None, st)]
        for tag, v, x in inits:
            if tag != "next":
                outs.append((tag, v, x))
            else:
                outs += self.loop(s, x, s.get("c"), s.get("inc"), s["body"])
        return self.merge_outs(outs)

    def s_while(self, s, st):
        return self.merge_outs(self.loop(s, st, s["c"], None, s["body"]))

    def s_do(self, s, st):
        outs = []
        for tag, v, x in self.exec(s["body"], st):
            if tag in ("next", "continue"):
                outs += self.loop(s, x, s["c"], None, s["body"])
            elif tag == "break":
                outs.append(("next", None, x))
            else:
                outs.append((tag, v, x))
        return self.merge_outs(outs)

    def loop(self, s, st, cond, inc, body):
        outs = []
        cur = [st]
        n = 0
        while cur:
            nxt = []
            undecided = []
            for x in cur:
                for x2, c in (self.ev(cond, x) if cond is not None else [(x, TRUE)]):
                    c = self.as_bool(c)
                    d = x2.facts.decide(c)
                    if cond is None:
                        d = None
                    if d is None:
                        undecided.append(x)
                        break
                    if not d:
                        outs.append(("next", None, x2))
                    else:
                        for tag, v, x3 in self.exec(body, x2):
                            if tag in ("next", "continue"):
                                if inc is not None:
                                    nxt += [x4 for x4, _ in self.ev(inc, x3)]
                                else:
                                    nxt.append(x3)
                            elif tag == "break":
                                outs.append(("next", None, x3))
                            else:
                                outs.append((tag, v, x3))
            for x in undecided:
                outs += self.abstract_loop(s, x, cond, inc, body)
            cur = self.merge(nxt)
            self.cap(cur)
            n += 1
            if n > self.unroll:
                for x in cur:
                    outs += self.abstract_loop(s, x, cond, inc, body)
                break
        return outs

    def written(self, *nodes):
        """syntactic over-approximation of what a loop body may write -> (var decl ids, globals, through_ptr)"""
        ids, globs = set(), set()
        flag = [False]
        seen = set()

        def target(e):
            while e is not None:
                k = e["k"]
                if k == "ref":
                    if "g" in e:
                        globs.add(e["g"])
                    else:
                        ids.add(e["d"])
                    return
                if k == "bind":
                    ids.add(e["d"])
                    return
                if k == "mem":
                    if e["arrow"]:
                        flag[0] = True
                        return
                    e = e["b"]
                elif k == "idx":
                    e = e["a"]
                    ptr = strip_t(e["t"]).endswith("*")
                    while e["k"] == "cast":
                        e = e["e"]
                    if ptr:
                        flag[0] = True
                        if strip_t(e["t"]).endswith("*"):
                            return
                elif k == "un" and e["op"] == "*":
                    flag[0] = True
                    return
                elif k in ("cast",):
                    e = e["e"]
                elif k == "mcall":
                    if e["arrow"]:
                        flag[0] = True
                        return
                    e = e["b"]
                elif k == "opcall":
                    e = e["a"][0] if e["a"] else None
                elif k == "cond":
                    target(e["a"])
                    e = e["b"]
                else:
                    return

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k in ("asg", "casg"):
                target(n["a"])
            elif k == "un" and n["op"] in ("++", "--"):
                target(n["e"])
            elif k in ("call", "mcall", "opcall", "ctor"):
                f = n.get("f")
                if f:
                    args = n["a"]
                    if k == "mcall":
                        if not f.get("const"):
                            if n["arrow"]:
                                flag[0] = True
                            else:
                                target(n["b"])
                    if k == "opcall" and n.get("memb"):
                        if not f.get("const"):
                            target(n["a"][0])
                        args = n["a"][1:]
                    for j, a in enumerate(args):
                        pt = f["pt"][j] if j < len(f["pt"]) else ""
                        if is_ref_t(pt) and not const_ref_t(pt):
                            target(a)
                        if pt.endswith("*") and a["k"] == "un" and a["op"] == "&":
                            target(a["e"])
                    fd = self.funcs.get(f.get("def"))
                    if fd is not None and fd["id"] not in seen and not self.opaque(fd):
                        seen.add(fd["id"])
                        b = fd.get("body")
                        if b is not None:
                            sub = self.gwrites(fd, seen)
                            globs.update(sub[0])
                            if sub[1]:
                                flag[0] = True
            elif k == "lambda":
                walk(n.get("body"))
                return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        for n in nodes:
            walk(n)
        return ids, globs, flag[0]

    def gwrites(self, fd, seen):
        """globals written by a function (transitively, in project), and whether it writes through pointers"""
        globs, flag = set(), [False]

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            t = None
            if k in ("asg", "casg"):
                t = n["a"]
            elif k == "un" and n["op"] in ("++", "--"):
                t = n["e"]
            elif k == "opcall" and n.get("memb") and not (n.get("f") or {}).get("const"):
                t = n["a"][0]
            elif k == "mcall" and not (n.get("f") or {}).get("const"):
                t = n["b"]
            while t is not None:
                if t["k"] == "ref":
                    if "g" in t:
                        globs.add(t["g"])
                    break
                if t["k"] == "mem":
                    if t["arrow"]:
                        if t["b"]["k"] != "this":
                            flag[0] = True
                        break
                    t = t["b"]
                elif t["k"] == "idx":
                    if strip_t(t["a"]["t"]).endswith("*"):
                        flag[0] = True
                    t = t["a"]
                elif t["k"] == "un":
                    if t["op"] == "*":
                        flag[0] = True
                    break
                elif t["k"] == "cast":
                    t = t["e"]
                elif t["k"] == "mcall":
                    t = t["b"]
                elif t["k"] == "opcall" and t["a"]:
                    t = t["a"][0]
                else:
                    break
            f = n.get("f")
            if isinstance(f, dict) and f.get("def") in self.funcs and f["def"] not in seen:
                g = self.funcs[f["def"]]
                if not self.opaque(g):
                    seen.add(f["def"])
                    sub = self.gwrites(g, seen)
                    globs.update(sub[0])
                    flag[0] = flag[0] or sub[1]
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        walk(fd.get("body"))
        return globs, flag[0]

    def abstract_loop(self, s, st, cond, inc, body, pre=None):
        """one abstract iteration from a head where everything the loop may change is unknown; writes that only
        show when the body is followed (through references bound inside it) extend that set until it is closed"""
        more, ptr = set(), False
        for k in range(6):
            mark = len(self.loops)
            outs, rec, head, known = self.abstract_loop1(s, st, cond, inc, body, pre, more, ptr)
            new, p = set(), False
            for tag, v, x in rec.steps:
                if tag != "next":
                    continue
                for key, v0 in head.env.items():
                    v1 = x.env.get(key)
                    if v1 is not v0 and key not in known and isinstance(v0, T) and isinstance(v1, T):
                        new.add(key)
                if not ptr:
                    p = p or any(x.heap.get(r) is not v0 for r, v0 in head.heap.items() if isinstance(v0, T))
            if not new and not (p and not rec.ptr):
                return outs
            more |= new
            ptr = ptr or p
            del self.loops[mark:]
        raise TooHard("loop")

    def abstract_loop1(self, s, st, cond, inc, body, pre, more, ptrx):
        known = set(more)
        rec = LoopRec(s, self.stack[-1]["qn"] if self.stack else "")
        rec.id = len(self.loops)
        self.loops.append(rec)
        rec.entry = st.copy()
        rec.range = cond.get("range") if cond is not None else None
        ids, globs, ptr = self.written(cond, inc, body)
        ptr = rec.ptr = ptr or ptrx
        h = st.copy()
        lid = mk("loop", s.get("l", 0), rec.id)
        rec.lid = lid
        for key in more:
            if key in h.env and isinstance(h.env[key], T):
                h.env[key] = self.havoc_val(h.env[key], lid, key[1] if key[0] == "v" else str(key))
        for d in ids:
            key = self.lookup_var(d, h)
            if key in h.env:
                v = h.env[key]
                if isinstance(v, Ref):
                    l = v.lv
                    cur = self.read(h, l)
                    hv = self.havoc_val(cur, lid, d)
                    self.havoc_lv(h, l, hv)
                    known.add(l[0])
                else:
                    known.add(key)
                    h.env[key] = self.havoc_val(v, lid, d)
        for g in globs:
            if ("g", g) in h.env or g in self.globals:
                h.env[("g", g)] = mk("hv", lid, g)
                known.add(("g", g))
        if ptr:
            for r in list(h.heap):
                h.heap[r] = mk("hv", lid, mk("deref", r[1]))
            for r in set(h.heap):
                h.ep[r[2]] = h.ep.get(r[2], 0) + 1 + rec.id
            # locals whose address escaped
            for k in list(h.env):
                v = h.env[k]
                if isinstance(k, tuple) and k[0] in ("v", "t") and not isinstance(v, Ref) and isinstance(v, T) and self.escaped(h, k):
                    h.env[k] = self.havoc_val(v, lid, str(k))
        self.event(h, "loop", rec.id, (), None, s.get("l", 0), x=rec)
        rec.head = h.copy()
        outs = []
        entries = []
        for x2, c in (self.ev(cond, h) if cond is not None else [(h, TRUE)]):
            if c is THROW:
                outs.append(("throw", c, x2))
                continue
            if cond is None:
                entries.append(x2.copy())
                continue
            for b, x3 in self.branch(x2, self.as_bool(c)):
                if b:
                    entries.append(x3)
                else:
                    self.event(x3, "loopend", rec.id, (), None, s.get("l", 0), x=rec)
                    outs.append(("next", None, x3))
        rec.exit = [o[2] for o in outs if o[0] == "next"]
        for x in entries:
            rec.conds.append(x.copy())
            for s0 in ([x] if pre is None else pre(x)):
                for tag, v, x3 in self.exec(body, s0):
                    if tag in ("next", "continue"):
                        for x4, _ in (self.ev(inc, x3) if inc is not None else [(x3, None)]):
                            rec.steps.append(("next", None, x4))
                    elif tag == "break":
                        rec.steps.append(("break", None, x3))
                        outs.append(("next", None, x3))
                    else:
                        rec.steps.append((tag, v, x3))
                        outs.append((tag, v, x3))
        return outs, rec, rec.head, known

    def escaped(self, st, key):
        for v in st.env.values():
            if isinstance(v, T) and v.op == "addr" and v.args[0] == key:
                return True
        for v in st.heap.values():
            if isinstance(v, T) and v.op == "addr" and v.args[0] == key:
                return True
        return False

    def havoc_val(self, v, lid, d):
        """unknown value at a loop head, keeping the shape of records and arrays"""
        if isinstance(v, T):
            if v.op == "rec":
                return mk("rec", v.args[0], tuple((n, self.havoc_val(x, lid, mk("f", sym(str(d)), n))) for n, x in v.args[1]))
            if v.op == "arr":
                return mk("arr", tuple(self.havoc_val(x, lid, mk("idx", sym(str(d)), j)) for j, x in enumerate(v.args[0])))
        return mk("hv", lid, d)

    def s_rfor(self, s, st):
        v = s["v"]
        rt = strip_t(s["r"]["t"])
        outs = []
        if rt.endswith("*"):
            raise TooHard("range")
        if s["r"].get("lv"):
            rs = self.lv(s["r"], st)
        else:
            rs = [(s2, self.temp(s2, self.copy_val(s2, x))) for s2, x in self.ev(s["r"], st)]
        for s2, l in rs:
            cont = self.read(s2, l)
            ai = arr_info(rt)
            n = ai[1] if ai else (len(cont.args[0]) if isT(cont, "vec") else None)
            if n is not None and n <= 64:
                cur = [s2]
                for j in range(n):
                    nxt = []
                    for x in cur:
                        key = ("v", v["d"], self.frame)
                        self.fmap.vars[v["d"]] = key
                        el = (l[0], l[1] + (("i", num(j), ai[1]) if ai else ("i", num(j)),))
                        x.env[key] = Ref(el) if is_ref_t(v["t"]) else self.read(x, el)
                        self.bind_rfor(v, x, el)
                        for tag, vv, x3 in self.exec(s["body"], x):
                            if tag in ("next", "continue"):
                                nxt.append(x3)
                            elif tag == "break":
                                outs.append(("next", None, x3))
                            else:
                                outs.append((tag, vv, x3))
                    cur = self.merge(nxt)
                    self.cap(cur)
                outs += [("next", None, x) for x in cur]
            else:
                def pre(x, l=l, cont=cont):
                    key = ("v", v["d"], self.frame)
                    self.fmap.vars[v["d"]] = key
                    c2 = self.read(x, l)
                    if is_ref_t(v["t"]) and not v["t"].startswith("const "):
                        i = mk("hv", x_lid[0], "rangeidx")
                        x.env[key] = Ref((l[0], l[1] + (("i", i),)))
                    else:
                        x.env[key] = mk("elem", c2, x_lid[0])
                    if v.get("binds"):
                        self.bind_rfor(v, x, (key, ()))
                    return [x]
                x_lid = [mk("loop", s.get("l", 0), len(self.loops))]
                cnd = {"k": "rangecond", "l": s.get("l", 0), "t": "bool"}
                self._rc = getattr(self, "_rc", 0) + 1
                cnd["n"] = self._rc
                cnd["range"] = l
                outs += self.abstract_loop(s, s2, cnd, None, s["body"], pre)
        return self.merge_outs(outs)

    def x_rangecond(self, e, st):
        return [(st, mk("more", len(self.loops) - 1, e["n"]))]

    def bind_rfor(self, v, st, el):
        if v.get("binds"):
            for j, b in enumerate(v["binds"]):
                bk = ("v", b["d"], self.frame)
                self.fmap.vars[b["d"]] = bk
                nmf = ("first", "second")[j] if "pair<" in v["t"] and j < 2 else self.field_name(v["t"], j)
                st.env[bk] = Ref((el[0], el[1] + (("f", nmf, strip_t(v["t"])),)))
                if "hv" in b:
                    self.fmap.vars[b["hv"]] = bk


class Frame:
    __slots__ = ("vars", "parent")

    def __init__(self, parent):
        self.vars = {}
        self.parent = parent


THROW = mk("throw!")


def _out_val(out, s):
    return None


def _if_ref_root(v):
    return None
