"""Sums, products and tensor products of decision diagrams.  Each recursion function is
interpreted abstractly over symbolic operands; on every path the returned edge is turned
into its denotation (recursive calls denote their contract - induction on the level -, a
built node denotes its block operator, a memo hit what its key denotes) and compared with
the denotation the operation must have, block by block, for every way the operands can
look at that level (node at this level, or identity skipped for matrices).  The recursion
level handed down is compared too, and the public entry points must start the recursion
at the operands' top level."""
from ..cxev import Interp, St, TooHard
from ..terms import *
from ..facts import Facts
from ..den import *
from .arith import arithmetic

CONST = {"mEdge::one", "mEdge::zero", "vEdge::one", "vEdge::zero"}
OPAQUE = set(ADD) | set(MUL) | set(KRON) | set(MAKE) | {"find", "set", "find_in_bucket", "set_in_bucket"}
RULE = "on every path the returned edge denotes the operation's block recursion"


def opaque_fd(fd):
    n, q = fd["name"], fd["qn"]
    if "Cache" in (fd.get("cls") or ""):
        return n in ("find", "set")
    return q in OPAQUE


def operands(it, f):
    ps = f["ps"]
    args = [sym("l"), sym("r")] + ([sym("L")] if len(ps) > 2 else [])
    return args


def path_name(s):
    return "; ".join((("" if v else "not ") + show(t)) for t, v in s.facts.order)[:300]


def recursion(ctx, it, name, kind, lk, rk, tag=""):
    f = it.find(name)
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {name}"
    ctx.saw(where + tag)
    key = name + tag
    args = operands(it, f)

    def body():
        rs = it.run(f, args)
        ctx.count("paths", len(rs))
        n = 0
        for t, v, s in rs:
            if t != "ret":
                continue
            n += 1
            k = f"{key}#{n}"

            def one():
                D = Den(it, s)
                op = Op(it, kind, lk, rk)
                if kind == "kron":
                    if D.eq(D.N(sym("l")), TERMS[lk]) is True:
                        L = None
                    else:
                        L = padd(padd(D.var(D.N(sym("l")), lk), D.var(D.N(sym("r")), rk)), ONE)
                else:
                    L = args[2] if len(args) > 2 else None
                    if L is not None and (D.eq(L, num(-1)) is True or s.facts.decide(blt(L, ZERO)) is True):
                        # levels run from the top down to -1, where both operands are terminal
                        for e, kk in ((sym("l"), lk), (sym("r"), rk)):
                            D.uf[D.rep(D.N(e))] = TERMS[kk]
                w = op.denotes(D, v, L, s.log)
                ctx.check(w is None, key, where, RULE, f"path [{path_name(s)}]: {w}")
                for X in D.used_find:
                    if D.eq(D.N(X), mk("null")) is not False:
                        ctx.bad(key + ":nullhit", where, "a memo entry is used only when the look-up found one", show(X)[:200])
            ctx.guard(key, where, RULE, one)
        if not n:
            ctx.und(key, where, RULE, "no returning path")
    ctx.guard(key, where, RULE, body)


TRULE = "entry point starts the recursion on its own operands at their top level"


def entry(ctx, it, name, inner, kind, lk, rk):
    """public function: scalar case or recursion at the operands' top level"""
    f = it.find(name)
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {name}"
    ctx.saw(where)

    def body():
        for t, v, s in it.run(f, [sym("l"), sym("r")]):
            if t != "ret":
                continue
            ctx.count("paths")

            def one():
                D = Den(it, s)
                op = Op(it, kind, lk, rk)
                w = op.denotes(D, v, None, s.log)
                ctx.check(w is None, name, where, RULE, f"path [{path_name(s)}]: {w}")
                for X, lvl, k in D.levels:
                    if lvl is None:
                        continue
                    ok = level_ok(it, D, lvl, lk, rk, kind)
                    ctx.check(ok, name + ":level", where, TRULE, f"recursion starts at level {show(lvl)}")
            ctx.guard(name, where, RULE, one)
    ctx.guard(name, where, RULE, body)


def level_ok(it, D, lvl, lk, rk, kind):
    vl, vr = D.var(D.rep(D.N(sym("l"))), lk), D.var(D.rep(D.N(sym("r"))), rk)
    if rk == "v":
        # the vector operand always has a node at the top level
        ok = lvl is vr or (kind == "add" and lvl is vl)
        if ok:
            return True
        return False if understood(lvl) else None
    # matrices: not below either operand
    for x, o in ((vl, "l"), (vr, "r")):
        if lvl is x or D.eq(D.N(sym(o)), TERMS["m"]) is True:
            continue
        r = D.facts.decide(ble(x, lvl))
        if r is True:
            continue
        if isT(lvl, "call") or not understood(lvl):
            return None
        return False
    return True


def check(ctx):
    U = ctx.unit("def")
    arithmetic(ctx, U)
    it = Interp(U, opaque=opaque_fd, const_globals=CONST)
    it.axiom = terminal_level
    recursion(ctx, it, "mm_add2", "add", "m", "m")
    recursion(ctx, it, "vv_add2", "add", "v", "v")
    recursion(ctx, it, "mm_multiply2", "mul", "m", "m")
    recursion(ctx, it, "mv_multiply2", "mul", "m", "v")
    recursion(ctx, it, "mm_kronecker2", "kron", "m", "m")
    recursion(ctx, it, "vv_kronecker2", "kron", "v", "v")
    entry(ctx, it, "mm_add", "mm_add2", "add", "m", "m")
    entry(ctx, it, "vv_add", "vv_add2", "add", "v", "v")
    entry(ctx, it, "mm_multiply", "mm_multiply2", "mul", "m", "m")
    entry(ctx, it, "mv_multiply", "mv_multiply2", "mul", "m", "v")
    entry(ctx, it, "mm_kronecker", "mm_kronecker2", "kron", "m", "m")
    entry(ctx, it, "vv_kronecker", "vv_kronecker2", "kron", "v", "v")
