"""Measuring one qubit.  measureOne, measureOneCollapsing and their distributed forms are
interpreted on every path.  On each returning path: the outcome is 0 exactly when the draw,
taken from its own range, falls below P(0)/(P(0)+P(1)); the projector handed to the
multiplication, the qubit it acts on and the factor put on the result's weight are those of
the outcome returned; the result replaces the caller's state.  A state whose total is off by
more than the tolerance reaches no return.  The outcome probabilities themselves are decided
by one arbitrary iteration of each loop of determineMeasurementProbabilities (breadth-first
sum of squared path weights down to the qubit's level, then the split over the two
children) and by the recursion of assignProbabilities.  In the distributed forms a local
qubit contributes the local pair, a global qubit the process's mass to the side named by the
rank bit standing for that qubit, and all processes use the value broadcast by the process
that drew."""
from ..cxev import Interp, Ref, St
from ..terms import *
from ..ratio import req, lin_in
from .e02 import CONST, path_name

RA = "outcome 0 is chosen exactly when the draw falls below the probability of 0"
RB = "the state is projected onto the reported value, on the measured qubit"
RC = "the projected state is rescaled by the reported outcome's own probability"
RD = "a state whose total probability is not one is refused"
RE = "the probability of an outcome is the sum of squared path weights through that value of the qubit"
RF = "in the distributed form a process adds its share to the side of the measured qubit it holds"
RG = "all processes use the value drawn by one of them"
MPI = "boost::mpi::"
OPQ = ("determineMeasurementProbabilities", "makeGate", "mv_multiply", "mv_multiply_MPI", "mv_multiply_MPI_bcast3", "assignProbabilities")


def where_of(f, u):
    return f"{f['file'].split('/repo/')[-1]}:{f['l']} {f['name']} [{u}]"


def dmp_pair(it, s):
    """(P0, P1, call event) of the path's probability call"""
    for e in s.log:
        if e.kind == "call" and e.name == "determineMeasurementProbabilities":
            return it.proj(s, e.res, ("f", "first", "pair")), it.proj(s, e.res, ("f", "second", "pair")), e
    return None


def draw_cond(s, p0, p1):
    """truth on this path of 'draw below P0/(P0+P1) of its range'; returns (True|False|None|'bad', text)"""
    tot = padd(p0, p1)
    found = None
    for lit, val in s.facts.order:
        if lit.op == "not":
            lit, val = lit.args[0], not val
        ds = [a for a in atoms(lit) if isT(a, "draw")]
        if not ds:
            continue
        if len(ds) != 1 or lit.op not in ("lt", "le"):
            return None, "comparison of the draw: " + show(lit)[:200]
        d = ds[0]
        dist = d.args[0]
        if not (isT(dist, "make") and "uniform_real" in str(dist.args[0])):
            return None, "distribution of the draw: " + show(dist)[:200]
        rng = dist.args[1] if len(dist.args) > 1 else ()
        lo, hi = (tuple(rng) + (ZERO, ONE))[:2] if len(rng) >= 2 else (ZERO, ONE)
        ab = lin_in(lit.args[0], d)
        if ab is None or ab[0] is ZERO:
            return None, "comparison of the draw: " + show(lit)[:200]
        a, b = ab
        # a*d + b < 0 ; sign of a
        ca = const(a)
        sg = 1 if ca is not None and ca > 0 else -1 if ca is not None else None
        if sg is None:
            cs = list(pdict(a).values())
            sg = 1 if all(c > 0 for c in cs) else -1 if all(c < 0 for c in cs) else None
        if sg is None:
            return None, "comparison of the draw: " + show(lit)[:200]
        x = pdiv(pneg(b), a)
        # threshold in units of the range
        u = pdiv(psub(x, lo), psub(hi, lo))
        below = (sg > 0) == val
        strict = (lit.op == "lt") == val if sg > 0 else (lit.op == "le") == val
        # 'below' is strict  <=>  (sg>0, lt true) or (sg<0, le false)
        strict_below = (lit.op == "lt") if sg > 0 else (lit.op == "le")
        if found is not None:
            return None, "several comparisons of the draw"
        if not req(u, pdiv(p0, tot)):
            return "bad", f"the draw is compared with {show(x)[:300]} in the range ({show(lo)[:60]}, {show(hi)[:120]})"
        if not strict_below:
            return "bad", "a draw equal to the probability of 0 gives outcome 0"
        found = below
    if found is None:
        return None, "no comparison of the draw on the path"
    return found, ""


def matrix_is(m, k):
    """m is the projector on value k: True/False/None"""
    if not isT(m, "arr") or len(m.args[0]) != 4:
        return None
    cs = [const(x) if isT(x, "poly") else None for x in m.args[0]]
    if any(c is None for c in cs):
        return None
    return cs == ([1, 0, 0, 0] if k == 0 else [0, 0, 0, 1])


def scaled(it, s, fin, mv, p0, p1, k):
    """(ok, text): fin.w == mv.w * sqrt(total or 1 / Pk), fin.n == mv.n"""
    w = it.proj(s, fin, ("f", "w", "vEdge"))
    n = it.proj(s, fin, ("f", "n", "vEdge"))
    if n is not it.proj(s, mv, ("f", "n", "vEdge")):
        return (False if n.op in ("f", "sym") else None), f"the state's node is {show(n)[:200]}"
    w0 = it.proj(s, mv, ("f", "w", "vEdge"))
    ab = None if w.op not in ("poly", "f", "call", "proj") else lin_in(w, w0)
    if ab is None or ab[0] is ZERO or ab[1] is not ZERO:
        if ab is not None and ab[1] is not ZERO or w is w0:
            return False, f"the weight is {show(w)[:300]}"
        return None, f"the weight is {show(w)[:300]}"
    c = ab[0]
    c2 = pmul(c, c)
    pk = p0 if k == 0 else p1
    if req(pmul(c2, pk), ONE) or req(pmul(c2, pk), padd(p0, p1)):
        if any(v < 0 for v in pdict(c).values()):
            return None, f"factor {show(c)[:200]}"
        return True, ""
    return False, f"the weight is multiplied by {show(c)[:300]} (square {show(c2)[:200]})"


def local_one(ctx, it, u):
    """measureOne and measureOneCollapsing"""
    for name in ("measureOneCollapsing", "measureOne"):
        for f in it.by_qn.get(name, []):
            wh = where_of(f, u)
            ctx.saw(wh)

            def body():
                R = ("v", "root", 0)
                st = St()
                st.env[R] = sym("rootEdge")
                ps = [p["n"] for p in f["ps"]]
                args = [Ref((R, ()))] + [sym(x) for x in ps[1:]]
                IDX = args[1]
                EPS = args[3] if len(args) > 3 else None
                n = 0
                for t, v, s in it.run(f, args, st=st):
                    if t != "ret" or any(e.kind == "call" and e.name == "__assert_fail" for e in s.log):
                        continue
                    pn = path_name(s)[-260:]
                    dp = dmp_pair(it, s)
                    if dp is None:
                        ctx.und(name, wh, RA, "no call of determineMeasurementProbabilities on a path")
                        continue
                    n += 1
                    p0, p1, ev = dp
                    ctx.check(ev.args[0] is sym("rootEdge") and ev.args[1] is IDX if all(understood(a) for a in ev.args[:2]) else None,
                              name + ":which", wh, RE, f"the probabilities are taken of {[show(a)[:80] for a in ev.args]}")
                    tot = padd(p0, p1)
                    # refusal
                    lo = hi = None
                    mention = []
                    for lit, val in s.facts.order:
                        if lit.op == "not":
                            lit, val = lit.args[0], not val
                        if any(isT(a, "draw") for a in atoms(lit)) or not ({p0, p1} & atoms(lit)):
                            continue
                        mention.append(lit)
                        if lit.op in ("lt", "le") and EPS is not None:
                            q = lit.args[0] if val else pneg(lit.args[0])   # q < 0 or <= 0
                            ab = [a for a in atoms(q) if isT(a, "abs")]
                            if len(ab) == 1 and q is psub(ab[0], EPS) and ab[0].args[0] in (psub(tot, ONE), psub(ONE, tot)):
                                lo = hi = True
                            if q is psub(psub(tot, ONE), EPS):
                                hi = True
                            if q is psub(psub(ONE, tot), EPS):
                                lo = True
                    if lo and hi:
                        ctx.ok(name + ":refuse", wh, RD)
                    elif EPS is None:
                        ctx.und(name + ":refuse", wh, RD, "no tolerance parameter")
                    else:
                        simple = all(m.op in ("lt", "le", "eq0") for m in mention)
                        ctx.check(False if simple else None, name + ":refuse", wh, RD,
                                  f"a path returns under [{pn}]")
                    if name == "measureOne":
                        ctx.check(True if req(v, pdiv(p0, tot)) else False if understood(v) else None, name + ":value", wh, RE,
                                  f"returns {show(v)[:300]}")
                        continue
                    collapsing(ctx, it, s, v, name, wh, p0, p1, IDX, R, pn)
                if not n:
                    ctx.und(name, wh, RA, "no path could be decided")
            ctx.guard(name, wh, RA, body)


def understood(t):
    return isinstance(t, T) and not any(a.op in ("unk", "undef", "hv", "oob") for a in atoms(t))


def outcome(it, s, v):
    """0 / 1 / None for the returned character on this path"""
    c = cint(v)
    if c in (48, 49):
        return c - 48
    if c is not None:
        return "bad"
    a, b = s.facts.decide(beq(v, num(48))), s.facts.decide(beq(v, num(49)))
    if a is True or b is False:
        return 0
    if b is True or a is False:
        return 1
    return None


def collapsing(ctx, it, s, v, name, wh, p0, p1, IDX, R, pn):
    k = outcome(it, s, v)
    if k == "bad":
        ctx.bad(name, wh, RA, f"returns the character {show(v)}")
        return
    if k is None:
        ctx.und(name, wh, RA, f"[{pn}]: returns {show(v)[:200]}")
        return
    if cint(v) is not None:
        c, txt = draw_cond(s, p0, p1)
        if c == "bad":
            ctx.bad(name, wh, RA, txt)
        elif c is None:
            ctx.und(name, wh, RA, txt)
        else:
            ctx.check(c == (k == 0), name, wh, RA, f"outcome {k} on the path where the draw is {'below' if c else 'not below'} the probability of 0")
    after_state(ctx, it, s, k, name, wh, p0, p1, IDX, R, pn)


def after_state(ctx, it, s, k, name, wh, p0, p1, IDX, R, pn):
    fin = it.root_get(s, R)
    mvs = [e for e in s.log if e.kind == "call" and e.name.startswith("mv_multiply")]
    if not mvs:
        ctx.check(False if fin is sym("rootEdge") else None, name + ":project", wh, RB, f"outcome {k}: no projection is applied")
        return
    if len(mvs) > 1:
        ctx.und(name + ":project", wh, RB, "several multiplications")
        return
    mv = mvs[0]
    g = mv.args[0]
    if not isT(g, "call") or g.args[0] != "makeGate":
        ctx.und(name + ":project", wh, RB, f"the projector is {show(g)[:200]}")
        return
    ge = [e for e in s.log if e.kind == "call" and e.res is g][0]
    m = matrix_is(ge.args[1], k)
    ctx.check(m, name + ":project", wh, RB, f"outcome {k}: the matrix applied is {show(ge.args[1])[:200]}")
    ctx.check(ge.args[2] is IDX if understood(ge.args[2]) else None, name + ":qubit", wh, RB, f"the projector acts on qubit {show(ge.args[2])[:100]}")
    full = sym("n_qubits") if "MPI" in name else padd(ONE, it.proj(s, mk("deref", it.proj(s, sym("rootEdge"), ("f", "n", "vEdge"))), ("f", "v", "vNode")))
    short = const(psub(ge.args[0], full))
    ctx.check(True if short is not None and short >= 0 else False if short is not None else None, name + ":width", wh, RB,
              f"the projector spans {show(ge.args[0])[:120]} qubits")
    if len(ge.args) > 3 and not (isT(ge.args[3], "emptyset") or isT(ge.args[3], "set") and not ge.args[3].args[0]):
        x = ge.args[3]
        if isT(x, "vec") and x.args[0]:
            ctx.bad(name + ":qubit", wh, RB, f"the projector has controls {show(x)[:100]}")
    ctx.check(mv.args[1] is sym("rootEdge") if understood(mv.args[1]) else None, name + ":state", wh, RB, f"the projector is applied to {show(mv.args[1])[:100]}")
    ok, txt = scaled(it, s, fin, mv.res, p0, p1, k)
    ctx.check(ok, name + ":rescale", wh, RC, f"outcome {k}: {txt}")


def bit_of(t):
    """eq0(X) argument X testing one bit -> (value, position) or None"""
    if isT(t, "band"):
        for a, b in (t.args, t.args[::-1]):
            if const(a) == 1 and isT(b, "shr"):
                return b.args[0], b.args[1]
            if const(a) == 1:
                return b, ZERO
            if isT(a, "pow2"):
                v, k = b, a.args[0]
                p = pdict(v)
                if len(p) == 1:
                    (m, c), = p.items()
                    sh = [x for x, e in m if isT(x, "pow2") and e == 1]
                    if c == 1 and len(sh) == 1:
                        rest = ONE
                        for x, e in m:
                            if x is not sh[0]:
                                rest = pmul(rest, ppow(x, e))
                        return rest, psub(k, sh[0].args[0])
                if isT(v, "shr"):
                    return v.args[0], padd(v.args[1], k)
                return v, k
    if isT(t, "bit"):
        return t.args[0], t.args[1]
    if isT(t, "mod") and const(t.args[1]) == 2:
        b = t.args[0]
        if isT(b, "shr"):
            return b.args[0], b.args[1]
        if isT(b, "idiv") and isT(b.args[1], "pow2"):
            return b.args[0], b.args[1].args[0]
        return b, ZERO
    return None


def distributed(ctx, it, u):
    roles = {}
    for name in ("measureOneCollapsingMPI", "measureOneMPI"):
        for f in it.by_qn.get(name, []):
            wh = where_of(f, u)
            ctx.saw(wh)

            def body():
                R = ("v", "root", 0)
                st = St()
                st.env[R] = sym("rootEdge")
                names = [p["n"] for p in f["ps"]]
                args = [Ref((R, ())) if i == 1 else sym(x) for i, x in enumerate(names)]
                IDX, NQ = args[2], args[3]
                paths = []
                for t, v, s in it.run(f, args, st=st):
                    if t != "ret" or any(e.kind == "call" and e.name == "__assert_fail" for e in s.log):
                        continue
                    paths.append((v, s))
                line_role = {}
                shares = []
                for v, s in paths:
                    red = [e for e in s.log if e.kind == "call" and e.name.startswith(MPI + "all_reduce")]
                    if len(red) != 2:
                        ctx.und(name, wh, RF, f"{len(red)} reductions on a path")
                        continue
                    rank = [e.res for e in s.log if e.kind == "call" and e.name == MPI + "communicator::rank"]
                    size = [e.res for e in s.log if e.kind == "call" and e.name == MPI + "communicator::size"]
                    if not rank or not size:
                        ctx.und(name, wh, RF, "no rank/size")
                        continue
                    loc = psub(NQ, mk("log2", size[0]))
                    isglob = s.facts.decide(ble(loc, IDX))
                    if isglob is None:
                        isglob = s.facts.decide(blt(psub(loc, ONE), IDX))
                    each = [e for e in s.log if e.kind == "call" and e.name == "assignProbabilities"]
                    A = [e.args[1] for e in red]
                    for e in red:
                        if "plus" not in show(e.args[2]):
                            ctx.check(False if any(x in show(e.args[2]) for x in ("maximum", "minimum", "multiplies", "minus")) else None,
                                      name + ":share", wh, RF, f"the shares are combined by {show(e.args[2])[:100]}")
                    if isglob is None:
                        diff = psub(IDX, loc)
                        lin = [a for a, b in s.facts.order if a.op in ("lt", "le") and const(padd(a.args[0], diff)) is not None or a.op in ("lt", "le") and const(psub(a.args[0], diff)) is not None]
                        how = "as a local one" if dmp_pair(it, s) else "as a global one" if any(isT(x, "bit") or isT(x, "band") for a, b in s.facts.order for x in atoms(a)) else None
                        ctx.check(False if lin and how else None, name + ":share", wh, RF,
                                  f"the border between local and global qubits: under [{path_name(s)[:200]}] a qubit is treated {how}")
                        continue
                    if not isglob:
                        dp = dmp_pair(it, s)
                        if dp:
                            p0, p1, ev = dp
                            if not (ev.args[0] is sym("rootEdge") and ev.args[1] is IDX):
                                ctx.bad(name + ":share", wh, RF, f"the probabilities are taken of {[show(a)[:80] for a in ev.args]}")
                            if {A[0], A[1]} == {p0, p1}:
                                for e in red:
                                    shares.append((e.line, 0 if e.args[1] is p0 else 1))
                                ctx.ok(name + ":share", wh, RF)
                            else:
                                ctx.check(False if all(understood(a) for a in A) else None, name + ":share", wh, RF, f"a local qubit contributes {[show(a)[:120] for a in A]}")
                        else:
                            nz = each and s.facts.decide(blt(ZERO, each[0].res))
                            z = A[0] is ZERO and A[1] is ZERO
                            ctx.check(True if z and nz is False else False if z or all(understood(a) for a in A) else None, name + ":share", wh, RF,
                                      f"a local qubit contributes {[show(a)[:120] for a in A]} without its probabilities")
                    else:
                        bit = None
                        for lit, val in s.facts.order:
                            if lit.op == "not":
                                lit, val = lit.args[0], not val
                            x, eqv = None, None
                            if lit.op == "eq0":
                                x, eqv = lit.args[0], 0
                                d = dict(pdict(x))
                                c = d.pop((), None)
                                if c is not None and len(d) == 1:
                                    (m, cc), = d.items()
                                    x = mk("poly", ((m, Fraction(1)),)) if not (len(m) == 1 and m[0][1] == 1) else m[0][0]
                                    eqv = -c / cc
                            if x is None or rank[0] not in atoms(x):
                                continue
                            if x is rank[0]:
                                continue
                            b = bit_of(x)
                            if b is None:
                                ctx.und(name + ":bit", wh, RF, f"rank test {show(x)[:200]}")
                                continue
                            if b[0] is not rank[0]:
                                ctx.und(name + ":bit", wh, RF, f"rank test {show(x)[:200]}")
                                continue
                            if b[1] is not psub(IDX, loc):
                                ctx.bad(name + ":bit", wh, RF, f"bit {show(b[1])[:120]} of the rank is taken for the measured qubit")
                                continue
                            ctx.ok(name + ":bit", wh, RF)
                            bit = (0 if val else 1) if eqv == 0 else (1 if val else 0)
                        if bit is None:
                            continue
                        if not each:
                            ctx.und(name + ":share", wh, RF, "no assignProbabilities")
                            continue
                        pe = each[0].res
                        if {A[0], A[1]} == {pe, ZERO}:
                            for e in red:
                                shares.append((e.line, bit if e.args[1] is pe else 1 - bit))
                            ctx.ok(name + ":share", wh, RF)
                        else:
                            ctx.check(False if all(understood(a) for a in A) else None, name + ":share", wh, RF, f"a global qubit contributes {[show(a)[:120] for a in A]}")
                for ln, r in shares:
                    if line_role.setdefault(ln, r) != r:
                        ctx.bad(name + ":share", wh, RF, f"the reduction at line {ln} collects the probability of 0 from one process and of 1 from another")
                if len(set(line_role.values())) != 2:
                    ctx.und(name, wh, RF, "roles of the reductions")
                    return
                for v, s in paths:
                    red = [e for e in s.log if e.kind == "call" and e.name.startswith(MPI + "all_reduce")]
                    if len(red) != 2 or any(e.line not in line_role for e in red):
                        continue
                    P = {line_role[e.line]: e.res for e in red}
                    p0, p1 = P[0], P[1]
                    pn = path_name(s)[-260:]
                    if name == "measureOneMPI":
                        ctx.check(True if req(v, pdiv(p0, padd(p0, p1))) else False if understood(v) else None, name + ":value", wh, RE, f"returns {show(v)[:300]}")
                        continue
                    bc = [e for e in s.log if e.kind == "call" and e.name == MPI + "broadcast"]
                    rank = [e.res for e in s.log if e.kind == "call" and e.name == MPI + "communicator::rank"][0]
                    if len(bc) != 1:
                        ctx.check(False if not bc else None, name + ":agree", wh, RG, f"{len(bc)} broadcasts")
                        continue
                    e = bc[0]
                    src = s.facts.decide(beq(rank, e.args[2]))
                    c, txt = draw_cond(s, p0, p1)
                    if src is True:
                        k = cint(e.args[1])
                        if c == "bad":
                            ctx.bad(name, wh, RA, txt)
                        elif c is None and "no comparison" in txt:
                            ctx.bad(name + ":agree", wh, RG, f"the process whose value is sent (rank {show(e.args[2])}) does not draw")
                        elif c is None or k not in (48, 49):
                            ctx.und(name, wh, RA, txt or show(e.args[1])[:100])
                        else:
                            ctx.check(c == (k == 48), name, wh, RA, f"sends '{chr(k)}' on the path where the draw is {'below' if c else 'not below'} the probability of 0")
                    elif src is None:
                        ctx.und(name + ":agree", wh, RG, f"[{pn}]")
                    got = mk("after", e.name, 1, e.res)
                    ctx.check(v is got if understood(v) else None, name + ":agree", wh, RG, f"returns {show(v)[:200]}")
                    if s.facts.decide(sym("collapse")) is False:
                        continue
                    k = outcome(it, s, got)
                    if k is None:
                        if any(x.kind == "call" and x.name.startswith("mv_mult") for x in s.log):
                            ctx.check(False if cint(e.args[1]) is not None else None, name + ":agree", wh, RG, f"the projection does not depend on the value received: [{pn}]")
                        continue
                    after_state(ctx, it, s, k, name, wh, p0, p1, IDX, R, pn)
            ctx.guard(name, wh, RA, body)


def chain(v, op):
    """[(args..)] of nested op terms, innermost base"""
    out = []
    while isT(v, op):
        out.append(v)
        v = v.args[0]
    return list(reversed(out)), v


def child_of(t, front, fld):
    """t is front->children[k].fld: k"""
    if isT(t, "f") and t.args[1] == fld and isT(t.args[0], "idx"):
        c, k = t.args[0].args
        if isT(c, "f") and c.args[1] == "children" and isT(c.args[0], "deref") and c.args[0].args[0] is front:
            return cint(k)
    return None


def is_front(t):
    return isT(t, "front")


def probabilities(ctx, it, u):
    name = "determineMeasurementProbabilities"
    for f in it.by_qn.get(name, []):
        wh = where_of(f, u)
        ctx.saw(wh)

        def body():
            n0 = len(it.loops)
            names = [p["n"] for p in f["ps"]]
            rs = it.run(f, [sym(x) for x in names])
            loops = it.loops[n0:]
            ROOT, IDX = sym(names[0]), sym(names[1])
            RN = it.proj(St(), ROOT, ("f", "n", "vEdge"))
            RW = it.proj(St(), ROOT, ("f", "w", "vEdge"))
            bfs = [l for l in loops if any(e.kind == "queue" and e.name == "push" and e not in l.head.log for t, v, s in l.steps for e in s.log)]
            if len(bfs) != 1:
                ctx.und(name, wh, RE, "no single breadth-first loop")
                return
            L = bfs[0]
            # the map of accumulated probabilities and the queue
            P = Q = V = None
            for t, v, s in L.steps:
                for r, x in s.env.items():
                    h = L.head.env.get(r)
                    if not isinstance(x, T) or h is x or not isinstance(h, T):
                        continue
                    base = x
                    while base.op in ("mapset", "setins", "qpush", "qpop"):
                        base = base.args[0]
                    if base is not h:
                        continue
                    if x.op == "mapset":
                        P = r
                    elif x.op in ("qpush", "qpop"):
                        Q = r
                    elif x.op == "setins":
                        V = r
            if P is None or Q is None:
                ctx.und(name, wh, RE, "no accumulated map or queue found")
                return
            e0 = L.entry
            ch, base = chain(it.root_get(e0, P), "mapset")
            ok = len(ch) == 1 and base.op == "emptymap" and ch[0].args[1] is RN and ch[0].args[2] is mk("mag2", RW)
            ctx.check(True if ok else False if understood(it.root_get(e0, P)) else None, name + ":start", wh, RE,
                      f"the search starts with {show(it.root_get(e0, P))[:200]}")
            HP, HQ = L.head.env[P], L.head.env[Q]
            for t, v, s in L.steps:
                if t not in ("next", "continue"):
                    continue
                pn = path_name(s)[-300:]
                q = s.env[Q]
                pushes, qb = chain(q, "qpush")
                if not (isT(qb, "qpop") and qb.args[0] is HQ):
                    ctx.und(name + ":step", wh, RE, f"queue {show(q)[:200]}")
                    continue
                front = mk("front", HQ)
                lv = [(a, b) for a, b in s.facts.order if a.op in ("eq", "eq0", "not") and IDX in atoms(a)]
                pushed = [child_of(p.args[1], front, "n") for p in pushes]
                upd, mb = chain(s.env[P], "mapset")
                if mb is not HP:
                    ctx.und(name + ":step", wh, RE, "map outside the rule")
                    continue
                done = []
                bad = None
                for x in upd:
                    prev, key, val = x.args
                    k = child_of(key, front, "n")
                    if k is None:
                        if val is mapget(prev, key):
                            continue
                        bad = ("und", f"entry {show(key)[:100]}")
                        break
                    done.append(k)
                    wk = [a for a in atoms(val) if isT(a, "mag2")]
                    inc = None
                    for a in wk:
                        if child_of(a.args[0], front, "w") == k:
                            inc = pmul(mapget_front(val, HP, front, prev), a)
                    seen = None
                    for a, b in s.facts.order:
                        if a.op == "not":
                            a, b = a.args[0], not b
                        if a.op == "has" and a.args[1] is key:
                            seen = b
                    old = mk("mapget", prev, key)
                    if inc is None:
                        bad = ("bad" if understood(strip(val)) else "und", f"child {k} gets {show(val)[-200:]}")
                        break
                    fresh, more = inc, padd(old, inc)
                    if seen is True and val is not more or seen is False and val is not fresh and val is not more:
                        bad = ("bad", f"child {k}, {'seen before' if seen else 'not seen before'}, gets {show(val)[-260:]}")
                        break
                    if seen is None and val is not more:
                        bad = ("und", f"child {k} gets {show(val)[-200:]}")
                        break
                    np = pushed.count(k)
                    if seen is True and np or seen is False and np != 1:
                        bad = ("bad", f"child {k}, {'seen before' if seen else 'not seen before'}, is queued {np} times")
                        break
                if bad is None:
                    for k in (0, 1):
                        az = None
                        for a, b in s.facts.order:
                            if a.op == "not":
                                a, b = a.args[0], not b
                            if a.op == "az" and child_of(a.args[0], front, "w") == k:
                                az = b
                        c = done.count(k)
                        if c > 1 or c == 0 and az is not True:
                            bad = ("bad", f"child {k} is added {c} times on [{pn}]")
                ctx.check(True if bad is None else False if bad[0] == "bad" else None, name + ":step", wh, RE, bad[1] if bad else "")
            # the split
            for t, v, s in rs:
                if t != "ret":
                    continue
                a, b = it.proj(s, v, ("f", "first", "pair")), it.proj(s, v, ("f", "second", "pair"))
                ls = [l for l in loops if l is not L]
                src = [l for l in ls if any(l.head.env.get(r) in (a, b) for r in l.head.env if isinstance(l.head.env.get(r), T))]
                if len(src) != 1 or a is b:
                    ctx.und(name + ":split", wh, RE, f"returns {show(v)[:200]}")
                    continue
                l = src[0]
                roots = []
                for x in (a, b):
                    rr = [r for r, y in l.head.env.items() if y is x]
                    roots.append(rr[0] if rr else None)
                if None in roots:
                    ctx.und(name + ":split", wh, RE, f"returns {show(v)[:200]}")
                    continue
                for x, r in zip((a, b), roots):
                    if it.root_get(l.entry, r) is not ZERO:
                        ctx.check(False if understood(it.root_get(l.entry, r)) else None, name + ":split", wh, RE, "a sum does not start at 0")
                for tt, vv, ss in l.steps:
                    if tt not in ("next", "continue"):
                        continue
                    fr = [x for e in ss.log if e.kind == "queue" for x in e.args] or []
                    for k, (x, r) in enumerate(zip((a, b), roots)):
                        d = psub(ss.env[r], x)
                        az = None
                        for y, bb in ss.facts.order:
                            if y.op == "not":
                                y, bb = y.args[0], not bb
                            if y.op == "az":
                                fc = y.args[0]
                                if isT(fc, "f") and isT(fc.args[0], "idx") and cint(fc.args[0].args[1]) == k:
                                    az = bb
                        if d is ZERO:
                            ctx.check(True if az is True else False, name + ":split", wh, RE, f"the probability of {k} does not grow although child {k} counts")
                            continue
                        p = pdict(d)
                        ok = None
                        if len(p) == 1:
                            (m, c), = p.items()
                            fac = [z for z, e in m for _ in range(e if e > 0 else 0)]
                            if c == 1 and len(fac) == 3:
                                mg = [z for z in fac if isT(z, "mag2")]
                                mp = [z for z in fac if isT(z, "mapget")]
                                if len(mg) == 1 and len(mp) == 2:
                                    frs = [z for z in atoms(d) if isT(z, "front")]
                                    if len(frs) == 1:
                                        ks = child_of(mg[0].args[0], frs[0], "w")
                                        acc = [z for z in mp if z.args[1] is frs[0]]
                                        sub = [z for z in mp if child_of(z.args[1], frs[0], "n") is not None]
                                        ok = bool(ks == k and len(acc) == 1 and len(sub) == 1 and child_of(sub[0].args[1], frs[0], "n") == k)
                                        if ok:
                                            pm, gm = acc[0].args[0], sub[0].args[0]
                                            ok = ("probs" in show(gm) and "probs" not in show(pm)) or None
                        if ok is None and understood2(d):
                            ok = False
                        ctx.check(ok, name + ":split", wh, RE, f"the probability of {k} grows by {show(d)[:300]}")
                pc = [e for e in s.log if e.kind == "call" and e.name == "assignProbabilities"]
                has = None
                for x, bb in s.facts.order:
                    if x.op == "not":
                        x, bb = x.args[0], not bb
                    if x.op == "has" and x.args[1] is RN:
                        has = bb
                ctx.check(True if has is True or (pc and pc[0].args[0] is ROOT) else False if not pc else None, name + ":below", wh, RE,
                          "the probabilities below the qubit are read without having been computed for this state")
        ctx.guard(name, wh, RE, body)

    name = "assignProbabilities"
    for f in it.by_qn.get(name, []):
        wh = where_of(f, u)
        ctx.saw(wh)

        def body2():
            E = sym("edge")
            n, w = it.proj(St(), E, ("f", "n", "vEdge")), it.proj(St(), E, ("f", "w", "vEdge"))
            m2 = mk("mag2", w)
            for t, v, s in it.run(f, [E]):
                if t != "ret":
                    continue
                ch, base = chain(s.env.get(("g", "probs"), mk("glob", "probs")), "mapset")
                rec = [e for e in s.log if e.kind == "call" and e.name == name]
                pn = path_name(s)[:200]
                if rec:
                    ks = [a for a in (arg_child(e.args[0], n) for e in rec)]
                    want = ZERO
                    for e in rec:
                        want = padd(want, e.res)
                    if None in ks:
                        ctx.und(name, wh, RE, f"recursion on {[show(e.args[0])[:80] for e in rec]}")
                        continue
                    if sorted(ks) != [0, 1]:
                        ctx.bad(name, wh, RE, f"recursion on the children {ks}")
                        continue
                else:
                    hit = mk("mapget", mk("glob", "probs"), n)
                    if v is pmul(m2, hit) and not ch:
                        ctx.ok(name, wh, RE)
                        continue
                    term = [b for a, b in s.facts.order if a.op == "eq" and n in a.args and any(isT(x, "addr") and "terminal" in show(x) for x in a.args)]
                    if term and term[0] is False:
                        ctx.check(False if understood(v) else None, name, wh, RE, f"[{pn}]: returns {show(v)[:200]}")
                        continue
                    want = ONE
                ok = v is pmul(m2, want)
                ctx.check(True if ok else False if understood(v) else None, name, wh, RE, f"[{pn}]: returns {show(v)[:200]}")
                for x in ch:
                    ctx.check(x.args[1] is n and x.args[2] is want if understood(x.args[2]) and understood(x.args[1]) else None, name + ":memo", wh, RE,
                              f"[{pn}]: remembers {show(x.args[2])[:150]} for {show(x.args[1])[:80]}")
        ctx.guard(name, wh, RE, body2)


def arg_child(t, n):
    if isT(t, "idx"):
        c, k = t.args
        if isT(c, "f") and c.args[1] == "children" and isT(c.args[0], "deref") and c.args[0].args[0] is n:
            return cint(k)
    return None


def strip(t):
    return subst(t, lambda x: mk("sym", "h") if x.op == "hv" else None)


def understood2(t):
    return understood(strip(t))


def mapget_front(val, HP, front, prev):
    """the accumulated probability of the node taken from the queue"""
    return mk("mapget", HP, front)


def mapget(m, k):
    return mk("mapget", m, k)


def check(ctx):
    U = ctx.unit("def")
    it = Interp(U, opaque=lambda fd: fd["name"] in OPQ, const_globals=CONST)
    it.no_merge = True
    local_one(ctx, it, "default")
    it2 = Interp(U, opaque=lambda fd: False, const_globals=CONST)
    it2.no_merge = True
    it3 = Interp(U, opaque=lambda fd: fd["name"] == "assignProbabilities", const_globals=CONST)
    it3.no_merge = True
    probabilities(ctx, it3, "default")
    M = ctx.unit("mpi")
    it4 = Interp(M, opaque=lambda fd: fd["name"] in OPQ, const_globals=CONST)
    it4.no_merge = True
    distributed(ctx, it4, "mpi")
