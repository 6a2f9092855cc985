"""Distributed multiplication.  The two routines behind the bindings are unfolded for every process of worlds of 2, 4
and 8 (thorough 16) processes and every largest qubit of the operator: process r must have added the block (r, c)
times the part of process c exactly once for every c that differs from r in bits the operator can touch, at most once
otherwise, and nothing else.  The block taken from the operator's diagram is compared entry by entry, for every pattern
of skipped levels and zero parts of small operators; the initial states are held by the process their bits name."""
from ..cxev import Interp
from ..terms import *
from ..summ import Summ, Node, Edge, Und
from ..mpicheck import simulate, find, PRODUCT
from .e02 import CONST
from .e10 import mtree, mval, stubs, skips, known

RULE = "process r adds block (r,c) times the part of process c once for every c"
RULE2 = "the block of an operator for row r and column c holds the operator's entries there"
RULE3 = "a record table stays what was received"
NAMES = PRODUCT + ("makeZeroStateMPI", "makeOneStateMPI", "send_dd", "receive_dd")


def blocks(ctx):
    U = ctx.unit("mpi")
    fs = [f for f in U["funcs"] if f["name"].split("::")[-1] == "getMPIGate" and f.get("body") and len(f["ps"]) == 5]
    if len(fs) != 1:
        ctx.und("getMPIGate", "src/dd.cpp", RULE2, "getMPIGate with a top level not found")
        return
    f = fs[0]
    wh = "%s:%d getMPIGate" % (f["file"].split("/repo/")[-1], f["l"])
    ctx.saw(wh)
    it = Interp(U, opaque={"getMPIGate"}, const_globals=CONST)
    it.no_merge = True
    MT = Node(num(-1))

    class Blocks(Summ):
        def subcall(self, e, B):
            if e.name.endswith("__assert_fail"):
                return
            super().subcall(e, B)
    S = Blocks(it, {"mNode": MT})
    for n in range(1, (5 if ctx.thorough else 4)):
        for k in range(1, n + 1):
            if k == n and n > 1 and not ctx.thorough:
                continue
            size = 2 ** k
            for skip, kn in skips(n):
                for stub, sn in (stubs(n, 4) if n < 3 or kn == "levels skipped []" else [(lambda s: False, "full")]):
                    e = mtree(n - 1, "", MT, skip, stub)

                    def one():
                        for r in range(size):
                            for c in range(size):
                                S.bufs, S.steps = [], 0
                                try:
                                    v, outs, B = S.call(f, [e, num(r), num(c), num(size), num(n - 1)])
                                except Und as x:
                                    ctx.und("getMPIGate", wh, RULE2, ("%d qubits, %d processes, %s, %s: %s" % (n, size, kn, sn, x))[:300])
                                    return
                                if isinstance(v, dict):
                                    v = Edge(v["w"], v["n"])
                                if not isinstance(v, Edge):
                                    ctx.und("getMPIGate", wh, RULE2, "returns %s" % (v,))
                                    return
                                l = n - k
                                ctx.count("operator entries", 4 ** l)
                                for i in range(2 ** l):
                                    for j in range(2 ** l):
                                        a, b = mval(v, l - 1, i, j, MT), mval(e, n - 1, r << l | i, c << l | j, MT)
                                        if a is not b:
                                            ctx.check(False if a is None or known(a) else None, "getMPIGate", wh, RULE2,
                                                      "%d qubits, %s, %s: entry (%d,%d) of block (%d,%d) for %d processes is %s, expected %s" % (
                                                          n, kn, sn, i, j, r, c, size, show(a)[:80] if a is not None else None, show(b)[:80]))
                                            return
                        ctx.ok("getMPIGate", wh, RULE2)
                    ctx.guard("getMPIGate", wh, RULE2, one)


def table_kept(ctx):
    U = ctx.unit("mpi")
    f = find(U, "vec_to_vNode")
    if f is None:
        ctx.und("vec_to_vNode", "src/dd.cpp", RULE3, "not found")
        return
    wh = "%s:%d vec_to_vNode" % (f["file"].split("/repo/")[-1], f["l"])
    ctx.saw(wh)

    def one():
        it = Interp(U, opaque={"getNode", "lookup", "register_wo_lookup"})
        it.track_sets = True
        T0 = sym("table")
        rs = it.run(f, [T0] + [sym("P%d" % i) for i in range(1, len(f["ps"]))])
        for tag, v, s in rs:
            ks = [k for k in s.env if k[0] == "v" and k[1] == f["ps"][0]["d"]]
            ctx.check(all(s.env[k] is T0 or isT(s.env[k], "hv") and unchanged(it, s, k, T0) for k in ks) and bool(ks), "vec_to_vNode", wh, RULE3, "the table of records is changed while nodes are built from it")
    ctx.guard("vec_to_vNode", wh, RULE3, one)


def unchanged(it, s, k, T0):
    for L in it.loops:
        if L.head.env.get(k) is s.env[k]:
            return L.entry.env.get(k) is T0 and all(st.env.get(k) is L.head.env[k] for _, _, st in L.steps)
    return False


def check(ctx):
    simulate(ctx, ("value", "collective", "deadlock", "message"), NAMES, RULE)
    blocks(ctx)
    table_kept(ctx)
