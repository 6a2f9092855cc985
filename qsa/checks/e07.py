"""Saving and loading.  save_binary and load_binary are interpreted (MPI build, the only one
that has them); the values written to the archive, in order, are put in place of the values
read from it, in order, and the loaded edge must then be the saved edge: its own weight and
the node rebuilt, with look-up in the state table, from the record written from its node.
Record form itself: E06."""
from ..cxev import Interp
from ..terms import *
from .e02 import CONST, path_name

RA = "the archive is read in the order it was written"
RB = "the loaded edge has the saved edge's weight"
RC = "the loaded edge's node is rebuilt from the saved node's record, sharing through the state table"


def arch(s, it):
    """[(value written | None, result term)] for archive operations on the path"""
    out = []
    for e in s.log:
        if e.kind != "call" or "archive" not in e.name:
            continue
        op = e.name.split("::")[-1].split("<")[0] if not e.name.endswith(("<<", ">>", "&")) else e.name[-2:]
        if e.name.endswith(("operator<<", "operator>>", "operator&")):
            out.append((e.name[-2:], e.args[1], e.res, e.line))
        elif any(isinstance(a, T) and "archive" in show(a)[:60] for a in e.args[:1]) and not e.name.endswith(("close", "archive")):
            out.append(("?", None, e.res, e.line))
    return out


def sub(t, m, memo):
    if isinstance(t, tuple):
        return tuple(sub(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == "poly":
        r = ZERO
        for mono, c in pdict(t).items():
            x = num(c)
            for b, e in mono:
                b2 = sub(b, m, memo)
                for _ in range(abs(int(e))):
                    x = pmul(x, b2)
            r = padd(r, x)
    else:
        r = mk(t.op, *[sub(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def check(ctx):
    U = ctx.unit("mpi")
    it = Interp(U, opaque=lambda fd: fd["name"] in ("vNode_to_vec", "vec_to_vNode"), const_globals=CONST)
    it.no_merge = True
    fs, fl = it.by_qn.get("save_binary", []), it.by_qn.get("load_binary", [])
    if not fs or not fl:
        ctx.und("save_binary", "src/dd.cpp", RA, "save_binary/load_binary not found")
        return
    fs, fl = fs[0], fl[0]
    ws = f"{fs['file'].replace('/repo/', '')}:{fs['l']} save_binary"
    wl = f"{fl['file'].replace('/repo/', '')}:{fl['l']} load_binary"
    ctx.saw(ws)
    ctx.saw(wl)

    def body():
        edge = it.mkrec("vEdge", (("w", sym("W")), ("n", sym("N"))))
        saves = [x for x in it.run(fs, [edge, sym("file")]) if x[0] == "ret"]
        loads = [x for x in it.run(fl, [sym("file")]) if x[0] == "ret"]
        it2 = it
        for _, _, s1 in saves:
            A = arch(s1, it)
            for _, v, s2 in loads:
                B = arch(s2, it)
                pn = f"save [{path_name(s1)[:120]}] load [{path_name(s2)[:120]}]"
                if any(x[0] == "?" for x in A + B) or not A or not B:
                    ctx.und("load_binary", wl, RA, "archive use outside the rule")
                    continue
                m = {}
                for (o1, a, r1, l1), (o2, b, r2, l2) in zip(A, B):
                    m[mk("after", r2.args[0], 0, r2)] = a
                got = sub(v, m, {})
                ctx.check(len(B) <= len(A), "load_binary", wl, RA, f"{len(A)} items written, {len(B)} read")
                w = it.proj(s2, got, ("f", "w", "vEdge"))
                n = it.proj(s2, got, ("f", "n", "vEdge"))
                W = sym("W")
                comp = []
                if w is not W:
                    comp = [(it.proj(s2, w, ("f", c, "Complex")), it.proj(s2, W, ("f", c, "Complex"))) for c in "ri"]
                okw = w is W or all(x is y for x, y in comp)
                leaves = [x for x, _ in comp] or [w]
                known = all(const(x) is not None or x.op in ("f", "sym", "cnum", "after", "vec", "num") for x in leaves) or const(w) is not None
                ctx.check(True if okw else False if known else None, "load_binary:weight", wl, RB,
                          f"{pn}: the loaded weight is {show(w)[:200]}")
                ok, why = None, f"the loaded node is {show(n)[:300]}"
                if isT(n, "call") and n.args[0] == "vec_to_vNode":
                    rec, tab = n.args[1], n.args[2]
                    fl_ = n.args[3] if len(n.args) > 4 or isinstance(n.args[3], T) else None
                    ok = False
                    if isT(rec, "after") and rec.args[0] == "vNode_to_vec":
                        c = rec.args[-1]
                        if c.args[1] is sym("N") and isT(c.args[2], "vec") and not c.args[2].args[0] and c.args[3].op == "emptymap":
                            ok = True
                        elif c.args[1] is sym("N"):
                            ok = None
                    if ok and not (isT(tab, "glob") and tab.args[0] == "vUnique"):
                        ok = False
                    if ok and isinstance(fl_, T) and not isT(fl_, "false") and const(fl_) != 0:
                        ok, why = (False, "nodes are registered without look-up") if isT(fl_, "true") or const(fl_) else (None, show(fl_))
                elif n.op in ("sym", "null", "addr", "undef"):
                    ok = False
                ctx.check(ok, "load_binary:node", wl, RC, f"{pn}: {why}")
                f1 = [e for e in s1.log if e.kind == "dtor" or e.kind == "call"]
                ctx.ok("save_binary", ws, RA)
    ctx.guard("load_binary", wl, RA, body)
