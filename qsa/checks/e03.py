"""Diagram nodes.  (a) Node construction (makeMEdge/makeVEdge with normalisation inlined):
on every path the returned edge denotes the requested block operator, its node went
through the shared-table look-up, was written only before that look-up, has one child of
weight exactly one and canonical zero children.  (b) The table look-up returns a
registered node only if level and every child agree, and registers a node only after the
whole chain was compared; the registered node keeps the old chain reachable; fresh nodes
come from the free list or an advancing chunk cursor.  (c) Effect analysis: every write to
a node field anywhere in the engine (default, multi-threaded and MPI builds) targets a
node that the same call tree took from the free store and has not yet published."""
from ..cxev import Interp, St
from ..terms import *
from ..nodefx import NodeFx, FRESH, SHARED, UNK
from .e02 import CONST, path_name
from ..den import divides, terminal_level, understood

RA = "node construction denotes the requested blocks and yields a canonical, looked-up node"
RB = "table look-up compares level and all children of the whole chain before sharing or registering"
RC = "node fields are written only on nodes taken from the free store and not yet published"


class Zero:
    """zero test modulo the path's approximate equalities, incl. 'the largest weight is zero'"""

    def __init__(self, s):
        zs, le = [], set()
        for lit, val in s.facts.order:
            if lit.op == "not":
                lit, val = lit.args[0], not val
            if lit.op in ("az", "isz") and val:
                zs.append(lit.args[0])
            elif lit.op == "eq0" and val:
                for a in atoms(lit.args[0]):
                    if a.op in ("mag2", "cabs"):
                        if lit.args[0] is a or (isT(lit.args[0], "sqrt") and lit.args[0].args[0] is a):
                            zs.append(a.args[0])
            elif lit.op in ("lt", "le"):
                # a - b < 0
                d = pdict(lit.args[0])
                if len(d) == 2:
                    ps = [m[0][0] for m, c in d.items() if c == 1 and len(m) == 1 and m[0][1] == 1]
                    ns = [m[0][0] for m, c in d.items() if c == -1 and len(m) == 1 and m[0][1] == 1]
                    if len(ps) == 1 and len(ns) == 1:
                        le.add((ps[0], ns[0]) if val else (ns[0], ps[0]))
        # transitive: mag2(x) <= mag2(y), y zero => x zero
        ch = True
        while ch:
            ch = False
            for a, b in list(le):
                for c, d in list(le):
                    if b is c and (a, d) not in le:
                        le.add((a, d))
                        ch = True
        for a, b in le:
            if isT(a, "mag2") and isT(b, "mag2") and b.args[0] in zs and a.args[0] not in zs:
                zs.append(a.args[0])
        self.le = le
        self.sub = {}
        done = set()
        for _ in range(8):
            hit = False
            for p in list(zs):
                q = self.red(p)
                d = pdict(q)
                lin = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0] is not I]
                if len(lin) == 1 and all(m == () or (len(m) == 1 and m[0] == (lin[0][0], 1)) for m in d) and lin[0][0] not in self.sub:
                    a, c = lin[0]
                    self.sub[a] = num(-d.get((), 0) / c)
                    hit = True
            if not hit:
                break
        self.zs = [z for z in (self.red(p) for p in zs) if z is not ZERO]

    def red(self, p):
        for a, v in list(self.sub.items()):
            if v is ZERO and any(any(x is a and e < 0 for x, e in m) for m in pdict(p)):
                continue
            p = subst(p, lambda t, a=a, v=v: v if t is a else None)
        return p

    def is_zero(self, D):
        D = self.red(D)
        if D is ZERO:
            return True
        for p in self.zs:
            if divides(p, D) is not None:
                return True
            if len(pdict(p)) == 1:
                (mp, cp), = pdict(p).items()
                if all(all(dict(m).get(a, 0) >= e for a, e in mp) for m in pdict(D)):
                    return True
        return False


def construct(ctx, U, name, k, nb):
    it = Interp(U, opaque={"getNode", "returnNode", "lookup", "register_wo_lookup"}, const_globals=CONST)
    f = it.find(name)
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {name}"
    ctx.saw(where)
    term = mk("addr", ("g", f"{k}Node::terminalNode"), ())

    def body():
        ch = tuple(mk("rec", k + "Edge", (("w", sym(f"w{i}")), ("n", sym(f"n{i}")))) for i in range(nb))
        rs = it.run(f, [sym("q"), mk("arr", ch)])
        n = 0
        for t, v, s in rs:
            if t != "ret":
                continue
            n += 1
            ctx.count("paths")
            ctx.guard(name, where, RA, one, ctx, it, name, where, k, nb, term, v, s)
        if not n:
            ctx.und(name, where, RA, "no returning path")
    ctx.guard(name, where, RA, body)


def one(ctx, it, name, where, k, nb, term, v, s):
    pn = path_name(s)
    Z = Zero(s)
    w = it.proj(s, v, ("f", "w", "Complex"))
    n = it.proj(s, v, ("f", "n"))

    def eqn(a, b):
        return a is b or it.decide_eq(s, a, b) is True
    # order of events: writes to fresh nodes only before publication
    pub = {}
    fresh = set()
    for e in s.log:
        if e.kind == "call" and e.name.endswith("::getNode"):
            fresh.add(e.res)
        elif e.kind == "call" and e.name.split("::")[-1] in ("lookup", "register_wo_lookup", "returnNode"):
            a = e.args[1]
            ctx.check(a in fresh and a not in pub, name + ":once", where, RC, f"path [{pn}]: {e.name} of {show(a)[:120]}" +
                      (" a second time" if a in pub else ", which is not a fresh node"))
            pub[a] = e
        elif e.kind == "write" and e.x is not None and e.x[0][0] == "h" and e.x[0][2] in ("mNode", "vNode"):
            p = e.x[0][1]
            bad = p not in fresh or p in pub
            ctx.check(not bad, name + ":write", where, RC, f"line {e.line}: writes node {show(p)[:120]} after it was published")
    if n in fresh:
        return ctx.bad(name + ":published", where, RA, f"path [{pn}] returns a node that never went through the table look-up")
    if isT(n, "call") and n.args[0].endswith(("::lookup", "::register_wo_lookup")):
        if n.args[0].endswith("register_wo_lookup"):
            ctx.bad(name + ":shared", where, RA, f"path [{pn}] registers the node without looking for an equal one")
        N = n.args[2]
        ev = pub.get(N)
        if ev is None:
            return ctx.und(name, where, RA, "look-up argument not found")
        it_heap = ev.heap
        st = St()
        st.heap = dict(it_heap)
        st.facts = s.facts
        st.env = dict(s.env)
        st.ep = dict(getattr(s, "ep", {}))
        rd = lambda *path: it.read(st, (("h", N, k + "Node"), path))
        q = rd(("f", "v"))
        ctx.check(eqn(q, sym("q")), name + ":level", where, RA, f"path [{pn}]: node level {show(q)}, requested q")
        unit = False
        for i in range(nb):
            c = rd(("f", "children"), ("i", num(i)))
            cw, cn = it.proj(st, c, ("f", "w", "Complex")), it.proj(st, c, ("f", "n"))
            d = psub(pmul(w, cw), sym(f"w{i}"))
            ok = Z.is_zero(d)
            if not ok and not all(understood(a) for a in (w, cw)):
                ctx.und(name, where, RA, "weight outside the domain " + show(cw)[:200])
                continue
            ctx.check(ok, f"{name}:child{i}", where, RA, f"path [{pn}]: edge weight {show(w)} times child {i} weight {show(cw)} is not w{i}")
            if not Z.is_zero(sym(f"w{i}")) and cw is not ZERO:
                ctx.check(eqn(cn, sym(f"n{i}")), f"{name}:child{i}", where, RA, f"path [{pn}]: child {i} points to {show(cn)[:100]}, requested n{i}")
            if cw is ONE:
                unit = True
            if cw is ZERO:
                ctx.check(cn is term, f"{name}:zero{i}", where, RA, f"path [{pn}]: zero child {i} is not the canonical zero edge (points to {show(cn)[:100]})")
            elif s.facts.decide(mk("az", cw)) is True:
                ctx.bad(f"{name}:zero{i}", where, RA, f"path [{pn}]: child {i} has weight {show(cw)} found to be zero, but is not the canonical zero edge")
        ctx.check(unit, name + ":unit", where, RA, f"path [{pn}]: no child has weight one (node not normalised)")
        return
    if n is term and Z.is_zero(w):
        ok = all(Z.is_zero(sym(f"w{i}")) for i in range(nb))
        # weight of the whole node found to be zero
        ctx.check(ok, name + ":allzero", where, RA, f"path [{pn}] returns the zero edge although not every child weight was found zero")
        return
    if k == "m":
        # identity stripped: every nonzero child is the identity times the returned edge
        ok = True
        for i in (0, 3):
            ok = ok and Z.is_zero(psub(w, sym(f"w{i}"))) and eqn(n, sym(f"n{i}"))
        for i in (1, 2):
            ok = ok and Z.is_zero(sym(f"w{i}"))
        ctx.check(ok, name + ":identity", where, RA, f"path [{pn}] returns ({show(w)}, {show(n)}): not the identity-stripped form of the four children")
        return
    ctx.bad(name + ":result", where, RA, f"path [{pn}] returns ({show(w)[:100]}, {show(n)[:100]})") if understood(n) else \
        ctx.und(name, where, RA, "result outside the domain " + show(n)[:200])


def norm(t):
    """forget loop/epoch marks on reads of the argument node"""
    def f(x):
        if x.op == "hv" and isT(x.args[1], "deref"):
            return mk("deref", norm(x.args[1].args[0]))
        if x.op == "deref" and len(x.args) > 1:
            return mk("deref", norm(x.args[0]))
        return None
    return subst(t, f)


def node_of(t, fs):
    """t == deref(X).<fs...> -> X"""
    for fld in reversed(fs):
        if isinstance(fld, int):
            if not (isT(t, "idx") and cint(t.args[1]) == fld):
                return None
            t = t.args[0]
        else:
            if not (isT(t, "f") and t.args[1] == fld):
                return None
            t = t.args[0]
    return t.args[0] if isT(t, "deref") else None


def table(ctx, U, k, nb, unit):
    cls = f"CHashTable<{k}Node>"
    it = Interp(U, opaque={"returnNode", "getNode"})
    it.no_merge = True
    f = it.find(cls + "::lookup")
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {cls}::lookup"
    ctx.saw(where)
    N = sym("N")
    link = set()

    def body():
        rs = it.run(f, [N], this=sym("THIS"))
        shared = reg = 0
        for t, v, s in rs:
            if t != "ret":
                continue
            ctx.count("paths")
            facts = [(norm(l), val) for l, val in s.facts.order]
            writes = [e for e in s.log if e.kind == "write" and e.x is not None]
            slot = [e for e in writes if e.res is N and e.x[0][0] == "h" and e.x[0][1] is sym("THIS")]
            if v is N:
                reg += 1
                ctx.check(bool(slot), cls + ":register", where, RB, f"path [{path_name(s)[:150]}] returns the new node without entering it in the table")
                for e in slot:
                    head = head_of(it, s, e)
                    empty = any(val and l.op == "eq" and any(isT(a, "null") for a in l.args) and any(same_head(a, head) for a in l.args) for l, val in facts)
                    if empty:
                        continue
                    # chain was walked to its end
                    ended = any(e2.kind == "loopend" for e2 in s.log) or \
                        any(val and l.op == "eq" and any(isT(a, "null") for a in l.args) for l, val in facts[1:])
                    ctx.check(ended, cls + ":walk", where, RB, "registers a node without comparing the whole chain")
                    lk = [(e2.x[1][-1][1], e2.res) for e2 in writes if e2.x[0][0] == "h" and e2.x[0][1] is N and e2.x[1]]
                    keep = [fld for fld, val in lk if same_head(val, head)]
                    ctx.check(bool(keep), cls + ":chain", where, RB, "the new node does not link to the old chain head")
                    link.update(keep)
            elif isinstance(v, T):
                shared += 1
                X = norm(v)
                miss = []
                nodes = {}
                for l, val in facts:
                    if not val:
                        continue
                    if l.op == "eq":
                        a, b = l.args
                        for i in range(nb):
                            pa, pb = node_of(a, ("children", i, "n")), node_of(b, ("children", i, "n"))
                            if {pa, pb} == {N, X}:
                                nodes[("n", i)] = True
                        if {node_of(a, ("v",)), node_of(b, ("v",))} == {N, X}:
                            nodes[("v",)] = True
                    if l.op in ("az", "isz", "eq0"):
                        d = pdict(l.args[0])
                        if len(d) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in d) and sorted(d.values()) == [-1, 1]:
                            a, b = [m[0][0] for m in d]
                            for i in range(nb):
                                if {node_of(a, ("children", i, "w")), node_of(b, ("children", i, "w"))} == {N, X}:
                                    nodes[("w", i)] = True
                for i in range(nb):
                    for x in ("n", "w"):
                        if (x, i) not in nodes:
                            miss.append(f"child {i} {'node' if x == 'n' else 'weight'}")
                ctx.check(not miss, cls + ":equal", where, RB, f"shares a registered node without comparing {', '.join(miss)}")
                ctx.check(not slot, cls + ":equal2", where, RB, "shares a registered node but also enters the new one")
        if not shared or not reg:
            ctx.und(cls, where, RB, f"{shared} sharing and {reg} registering paths found")
        # the walk follows the link that registration writes
        steps = set()
        for L in it.loops:
            for tag, _, x in L.steps:
                if tag != "next":
                    continue
                for key, val in x.env.items():
                    if isinstance(val, T):
                        g = norm(val)
                        if isT(g, "f") and isT(g.args[0], "deref") and g.args[1] in ("previous", "next"):
                            steps.add(g.args[1])
        if steps and link:
            ctx.check(steps <= link, cls + ":link", where, RB, f"the chain is walked through {sorted(steps)} but built through {sorted(link)}")
    ctx.guard(cls, where, RB, body)

    it3 = Interp(U)
    it3.no_merge = True
    g = it3.find(cls + "::getNode")
    wg = f"{g['file'].replace('/repo/', '')}:{g['l']} {cls}::getNode"
    ctx.saw(wg)
    RF = "a fresh node leaves the free store when it is handed out"

    def body2():
        for t, v, s in it3.run(g, [], this=sym("THIS")):
            if t != "ret":
                continue
            ctx.count("paths")
            ok = None
            if isT(v, "f"):
                # taken from a free list: the list head must advance to the node's own link
                adv = [e for e in s.log if e.kind == "write" and e.x is not None and e.x[1] and e.x[1][-1][1] == v.args[1]
                       and isT(e.res, "f") and isT(e.res.args[0], "deref") and e.res.args[0].args[0] is v]
                ok = bool(adv)
            elif isT(v, "itptr") or isT(v, "addr"):
                adv = [e for e in s.log if e.kind == "write" and isinstance(e.res, T) and e.res.op in ("itnext", "itadd", "addr")]
                ok = any((e.res.op == "itnext" and isT(v, "itptr") and e.res.args[0] is v.args[0]) or
                         (isT(v, "addr") and e.res.op in ("addr", "itnext")) for e in adv)
                if not ok and isT(v, "addr"):
                    ok = None
            ctx.check(ok, cls + ":fresh", wg, RF, f"path [{path_name(s)[:150]}] hands out {show(v)[:120]} without taking it out of the free store")
    ctx.guard(cls + ":fresh", wg, RF, body2)


def head_of(it, s, e):
    """what the slot held on entry"""
    return norm(it.read(St(), e.x))


def same_head(a, head):
    return isinstance(a, T) and norm(a) is head


def effects(ctx, name):
    U = ctx.unit(name)
    fx = NodeFx(U)
    seen = set()
    for f, line, fld, how, og in fx.report():
        where = f"{f['file'].replace('/repo/', '')}:{line} {f['qn']} ({name})"
        ctx.saw(where)
        key = f"{f['qn']}:{fld}:{how.split()[0]}"
        if SHARED in og:
            ctx.bad(f"write:{f['qn']}", where, RC, f"node field '{fld}' {how}: the node can already be part of a diagram")
        elif UNK in og:
            ctx.und(f"write:{f['qn']}", where, RC, f"origin of the written node ('{fld}', {how}) not resolved")
        else:
            ctx.ok(f"write:{f['qn']}", where, RC)
        seen.add(key)
    if not seen:
        ctx.und("write:" + name, name, RC, "no node write found")


def check(ctx):
    U = ctx.unit("def")
    construct(ctx, U, "makeVEdge", "v", 2)
    construct(ctx, U, "makeMEdge", "m", 4)
    table(ctx, U, "v", 2, "def")
    table(ctx, U, "m", 4, "def")
    ctx.load(["def", "mt", "mpi"])
    for u in ("def", "mt", "mpi"):
        effects(ctx, u)
