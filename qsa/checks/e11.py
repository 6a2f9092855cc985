"""Temporary buffers: every array allocated by, or received from, an export or print function is
deleted exactly once on every path, or handed to the caller.  Decided twice: on every abstract
path of every function (ownership typestate over the event trace), and by unfolding the summaries
for small registers, where rows of row arrays are counted one by one."""
from ..cxev import Interp
from ..terms import *
from ..summ import Summ, Node, Edge, Cell, Buf, Arr, Und
from .e02 import CONST
from .e10 import vtree, mtree

R = "every temporary buffer is deleted exactly once on every path or handed to the caller"
SKIP = ("fillVector", "fillMatrix", "printVector2", "printVector_sparse2", "printMatrix2")


def nodes(x):
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def isarrnew(n):
    return n.get("k") == "new" and (n.get("n") is not None or n.get("arr")) and any(c in str(n.get("at", "")) for c in ("omplex", "double", "Edge"))


def mentions(v, p, depth=0):
    if v is p:
        return True
    if isinstance(v, T):
        return any(mentions(a, p) for a in v.args) if v.op != "poly" else any(mentions(a, p) for m, _ in v.args[0] for a, _ in m)
    if isinstance(v, tuple):
        return any(mentions(a, p) for a in v)
    return False


class Replay:
    def __init__(self, ctx, key, wh, returners):
        self.ctx, self.key, self.wh, self.ret = ctx, key, wh, returners

    def path(self, r):
        tag, v, s = r
        own = {}          # ptr -> "own" / "freed"
        rows = {}         # ptr -> "own" / "freed"
        line = {}
        bad = None

        def step(log, inner=None):
            nonlocal bad
            local = {}
            for e in log:
                if e.kind == "new" and e.x:
                    (own if inner is None else local)[e.res] = "own"
                    line[e.res] = e.line
                elif e.kind == "call" and e.name in self.ret and inner is None:
                    own[e.res] = "own"
                    line[e.res] = e.line
                    if self.ret[e.name]:
                        rows[e.res] = "own"
                elif e.kind == "call" and e.name in self.ret:
                    local[e.res] = "own"
                    line[e.res] = e.line
                elif e.kind == "write" and isT(e.res) and e.res in local and e.x[0][0] == "h" and e.x[0][1] in own:
                    local.pop(e.res)
                    rows[e.x[0][1]] = "own"
                elif e.kind == "write" and isT(e.res) and e.res in own and e.x[0][0] in ("h", "g"):
                    own[e.res] = "escaped"
                elif e.kind == "delete":
                    p = e.args[0]
                    d = own if p in own else local if p in local else None
                    if d is not None:
                        if not e.x:
                            bad = f"buffer from line {line[p]} deleted without [] at line {e.line}"
                        elif d[p] == "freed":
                            bad = f"buffer from line {line[p]} deleted twice (line {e.line})"
                        elif inner is not None and d is own and inner:
                            bad = f"buffer from line {line[p]} deleted in a loop (line {e.line})"
                        d[p] = "freed"
                    elif isT(p, "idx"):
                        b = p.args[0]
                        while isT(b, "hv") or isT(b, "deref"):
                            b = b.args[1] if isT(b, "hv") else b.args[0]
                        if b in rows:
                            if own.get(b) == "freed":
                                bad = f"row of the buffer from line {line[b]} read after the row array was deleted"
                            rows[b] = "freed"
                elif e.kind == "loop":
                    k = len(e.x.head.log)
                    for t2, v2, s2 in e.x.steps:
                        loc = step(s2.log[k:], t2 in ("next", "continue"))
                        for p, st in (loc or {}).items():
                            if st == "own":
                                bad = f"buffer allocated at line {line[p]} in a loop is not deleted in the iteration"
                elif e.kind == "call" and inner is None:
                    for p in own:
                        if own[p] == "freed" and any(isinstance(a, T) and a is p for a in e.args):
                            bad = f"buffer from line {line[p]} used after delete (line {e.line})"
            return local
        step(s.log)
        und = None
        for p, st in own.items():
            if st == "own":
                if isinstance(v, T) and mentions(v, p):
                    continue
                if any(mentions(x, p) for k, x in s.heap.items() if isinstance(x, T) and x is not p and k[1] is not p) or \
                        any(e.kind == "call" and e.name not in SKIP and any(mentions(a, p) and a is not p for a in e.args) for e in s.log) or \
                        any(isT(a, "make") and mentions(a, p) for x in s.env.values() if isinstance(x, T) for a in [x]):
                    und = f"buffer from line {line[p]} is kept somewhere"
                    continue
                bad = bad or f"buffer allocated at line {line[p]} is never deleted on the path " + "; ".join(f"{show(c)[-60:]}={b}" for c, b in s.facts.order[-3:])
            elif st == "freed":
                if isinstance(v, T) and mentions(v, p):
                    bad = bad or f"buffer from line {line[p]} is deleted and returned"
                if rows.get(p) == "own":
                    bad = bad or f"rows of the buffer from line {line[p]} are never deleted"
        self.ctx.count("abstract paths")
        self.ctx.count("buffers", len(own))
        self.ctx.check(False if bad else None if und else True, self.key, self.wh, R, bad or und or "")


def check(ctx):
    done = set()
    for unit in ("def", "mpi", "defb", "mpib"):
        U = ctx.unit(unit)
        funcs = [f for f in U["funcs"] if f.get("body") is not None and ("dd.cpp" in f["file"] or "bindings" in f["file"] or "dd.h" in f["file"])]
        returners = {}
        cand = {f["id"]: f for f in funcs if any(isarrnew(n) for n in nodes(f["body"]))}
        for f in funcs:
            rt = f.get("rt", f.get("ret", "")) or ""
            if f["id"] in cand and str(rt).strip().endswith("*"):
                returners[f["qn"]] = str(rt).count("*") > 1
        for q in ("vEdge::getVector", "mEdge::getMatrix"):
            returners.setdefault(q, q.endswith("getMatrix"))
        for f in funcs:
            for n in nodes(f["body"]):
                if n.get("k") in ("call", "mcall", "opcall") and (n.get("f") or {}).get("qn") in returners:
                    cand[f["id"]] = f
        it = Interp(U, opaque=lambda fd: fd["name"] in SKIP or fd["qn"] in returners, const_globals=CONST)
        it.no_merge = True
        for f in cand.values():
            sig = (f["qn"], f["file"], f["l"], "MPI" if "mpi" in unit else "")
            if sig in done or f["name"].startswith("~"):
                continue
            done.add(sig)
            wh = f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']}"
            ctx.saw(wh)
            key = f["name"]

            def one():
                ps = [sym(f["name"] + "#" + str(i)) for i in range(len(f["ps"]))]
                kw = {"this": sym(f["name"] + "#this")} if f.get("cls") and not f.get("static") else {}
                rp = Replay(ctx, key, wh, returners)
                for r in it.run(f, ps, **kw):
                    if r[0] in ("ret", "throw"):
                        rp.path(r)
            ctx.guard(key, wh, R, one)
            if any("unique_ptr" in str(n.get("t", "")) or "shared_ptr" in str(n.get("t", "")) for n in nodes(f["body"])):
                ctx.und(key + ":unfolded", wh, R, "a smart pointer owns a buffer")
                continue
            ctx.guard(key + ":unfolded", wh, R, unfold, ctx, it, f, key + ":unfolded", wh)


class Count(Summ):
    """every buffer is counted: deletes, and uses after delete"""
    bad = None

    def on_delete(self, e, B):
        b = self.ev(e.args[0], B)
        if isT(b, "null"):
            return
        if not isinstance(b, Buf):
            raise Und("delete of " + show(e.args[0])[:100])
        b.freed = getattr(b, "freed", 0) + 1
        if b.freed > 1:
            self.bad = f"a buffer of {b.size} entries is deleted twice (line {e.line})"

    def subcall(self, e, B):
        if e.name.endswith(("::rank", "::size")) and "mpi" in e.name:
            B[e.res] = num(0 if e.name.endswith("rank") else 2)
            return
        if any(k in e.name for k in ("operator<<", "ostream", "::str", "communicator", "::send", "::recv", "basic_string")):
            return
        if e.name.endswith(("getVector", "getMatrix")) and self.by_name(e.name) is None:
            n = self.n
            b = Buf(2 ** n, "Complex")
            rows = [Buf(2 ** n, "Complex") for _ in range(2 ** n)] if e.name.endswith("getMatrix") else []
            for r in rows:
                r.mem = {k: sym(f"a{k}") for k in range(2 ** n)}
            b.mem = {k: (rows[k] if rows else sym(f"a{k}")) for k in range(2 ** n)}
            self.bufs = list(self.bufs) + [b] + rows
            B[e.res] = b
            B[mk("after", e.name, 0, e.res)] = num(2 ** n)
            return
        if e.name.endswith("Edge::isTerminal"):
            n = self.ev(e.args[0], B).n
            B[e.res] = mk("true") if n is self.tops[0] or n is self.tops[1] else mk("false")
            return
        if e.name == "boost::mpi::all_reduce":
            # the other processes hold parts of the same size
            B[e.res] = num(2 ** self.n)
            return
        if e.name == "boost::mpi::all_gather":
            B[mk("after", e.name, 2, e.res)] = [self.ev(e.args[1], B)] * 2
            return
        return super().subcall(e, B)


def unfold(ctx, it, f, key, wh):
    VT, MT = Node(num(-1)), Node(num(-1))
    this = f.get("cls") and not f.get("static")
    for n in (1, 2, 3):
        for kind in ("full", "zero"):
            S = Count(it, {"vNode": VT, "mNode": MT})
            S.bufs, S.steps, S.n, S.tops = [], 0, n, (VT, MT)
            stub = (lambda s: False) if kind == "full" else (lambda s: s == "0")
            ve, me = vtree(n - 1, "", VT, stub), mtree(n - 1, "", MT, lambda l, s: False, stub)
            args, outs = [], []
            for p in f["ps"]:
                t = p["t"]
                a = ve if "vEdge" in t else me if "mEdge" in t else Cell() if "*" in t and "long" in t else num(n) if t.replace("const ", "").strip("& ") in ("int", "char", "signed char", "short", "long", "unsigned long") else None
                args.append(a if a is not None else sym(p["n"]))
            tt = ve if f.get("cls") == "vEdge" else me if f.get("cls") == "mEdge" else sym("this")
            try:
                v, _, B = S.call(f, args, tt if this else None)
            except Und as x:
                ctx.und(key, wh, R, f"{n} qubits, {kind}: {x}"[:200])
                continue
            bad = S.bad
            keep = set()

            def reach(x):
                if isinstance(x, Buf) and id(x) not in keep:
                    keep.add(id(x))
                    for y in x.mem.values():
                        reach(y)
                elif isinstance(x, list):
                    for y in x:
                        reach(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        reach(y)
            reach(v)
            for b in S.bufs:
                if b.cls is None:
                    continue
                fr = getattr(b, "freed", 0)
                if fr == 0 and id(b) not in keep:
                    bad = bad or f"{n} qubits: a buffer of {b.size} entries is never deleted"
                if fr and id(b) in keep:
                    bad = bad or f"{n} qubits: a buffer is deleted and returned"
            ctx.count("unfolded buffers", len(S.bufs))
            ctx.check(not bad, key, wh, R, bad or "")
