"""Reuse of memoised results.  (a) In the recursion functions, on every path, what is
stored in a memo table denotes exactly what a look-up with the same key is taken to
denote (sum of the two key edges; product of the two key nodes with unit weights), and a
look-up result is used only after it was found to be non-null.  (b) Inside the tables
(public find/set, every instantiation), on every path a non-null result is returned only
when the path established that *both* arguments equal the key fields stored beside that
very result, and a store puts both keys and the result into one entry, in the fields
find compares."""
from ..cxev import Interp
from ..terms import *
from ..den import *
from .e02 import opaque_fd, CONST, path_name, operands

R4 = "a result taken from the memo table is the operation's result for the operands at hand"
R1 = "a stored memo entry denotes what its key denotes"
R2 = "a memo hit is returned only if both stored keys equal both arguments"
R3 = "a store writes both keys and the result into one entry, in the fields the look-up compares"


def stored(ctx, it, name, kind, lk, rk):
    f = it.find(name)
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {name}"
    ctx.saw(where)

    def body():
        args = operands(it, f)
        n = 0
        for t, v, s in it.run(f, args):
            ctx.count("paths")
            for ev in s.log:
                if ev.kind == "call" and ev.name.endswith("Cache::find"):
                    n += 1
                if ev.kind != "call" or not ev.name.endswith("Cache::set"):
                    continue
                n += 1

                def one():
                    D = Den(it, s)
                    ks = ev.args[1:]
                    if len(ks) != 3:
                        return ctx.und(name + ":set", where, R1, "unexpected signature")
                    a, b, res = ks
                    L = args[2] if len(args) > 2 else None
                    op = Op(it, kind, lk, rk)
                    if kind == "add":
                        sd = lin_add(D.edge(a), D.edge(b))
                        if not D.same(sd, op.top(D)):
                            w = None if D.same(D.edge(res), sd) else f"key denotes {showlin(sd)}, stored {showlin(D.edge(res))}"
                        else:
                            w = op.denotes(D, res, L, s.log)
                    else:
                        la, lb = D.rep(D.N(args[0])), D.rep(D.N(args[1]))
                        if D.rep(a) is la and D.rep(b) is lb:
                            lo = unit(it, a, lk)
                            ro = unit(it, b, rk)
                            w = op.denotes(D, res, L, s.log, node_spec=(lo, ro))
                        else:
                            sd = D.key("MulCache", a, b)
                            w = None if D.same(D.edge(res), sd) else f"key denotes {showlin(sd)}, stored {showlin(D.edge(res))}"
                    ctx.check(w is None, name + ":set", where, R1, f"line {ev.line}, path [{path_name(s)}]: {w}")
                ctx.guard(name + ":set", where, R1, one)
            if t != "ret":
                continue

            def hit():
                D = Den(it, s)
                D.edge(v)
                for e in s.log:
                    if e.kind == "call" and e.name in MAKE:
                        for i in range(MAKE[e.name]):
                            D.edge(it.proj(s, e.args[1], ("i", num(i))))
                for X in D.used_find:
                    if D.eq(D.N(X), mk("null")) is not False:
                        ctx.bad(name + ":nullhit", where, "a memo entry is used only when the look-up found one", show(X)[:200])
                    else:
                        ctx.ok(name + ":nullhit", where, "a memo entry is used only when the look-up found one")
                if D.used_find and len(args) > 2:
                    D2 = Den(it, s)
                    w = Op(it, kind, lk, rk).denotes(D2, v, args[2], s.log)
                    ctx.check(w is None, name + ":hit", where, R4, f"path [{path_name(s)}]: {w}")
            ctx.guard(name + ":nullhit", where, R1, hit)
        if not n:
            ctx.und(name, where, R1, "no memo table use on any path")
    ctx.guard(name, where, R1, body)


def unit(it, n, kind):
    cls = kind + "Edge"
    return it.mkrec(cls, (("w", ONE), ("n", n)))


def split(t):
    """term -> (object reached by pointer/index, field names below it)"""
    names = []
    while isT(t, "f"):
        names.append(t.args[1])
        t = t.args[0]
    return t, tuple(reversed(names))


def split_lv(x):
    root, path = x
    cut = 0
    for i, p in enumerate(path):
        if p[0] != "f":
            cut = i + 1
    return (root, path[:cut]), tuple(p[1] for p in path[cut:])


def table(ctx, it, cls, kind):
    finds = [f for f in it.by_qn.get(cls + "::find", []) if len(f["ps"]) == 2]
    sets = [f for f in it.by_qn.get(cls + "::set", []) if len(f["ps"]) == 3]
    for f in finds:
        ta = f.get("targs") or []
        tag = f"{cls}::find<{','.join(ta)}>"
        where = f"{f['file'].replace('/repo/', '')}:{f['l']} {tag}"
        ctx.saw(where)
        roles = {}

        def body():
            a = [sym("a0"), sym("a1")]
            hits = 0
            for t, v, s in it.run(f, a, this=sym("THIS")):
                if t != "ret":
                    continue
                ctx.count("paths")
                if it.decide_eq(s, it.proj(s, v, ("f", "n")), mk("null")) is True:
                    continue
                if not isinstance(v, T) or not isT(v, "f"):
                    ctx.und(tag, where, R2, "returned value outside the domain: " + show(v)[:200])
                    continue
                hits += 1
                base, rp = split(v)
                got = []
                for i, x in enumerate(a):
                    ks = matched(s, x, base, kind)
                    got.append(ks - {rp})
                roles.setdefault("res", set()).add(rp)
                if kind == "add":
                    good = any(k0 != k1 for k0 in got[0] for k1 in got[1])
                else:
                    good = any(k0 != k1 for k0 in got[0] for k1 in got[1])
                if good:
                    roles.setdefault("keys", []).append([sorted(g) for g in got])
                miss = [str(i) for i in (0, 1) if not got[i]]
                ctx.check(good, tag, where, R2,
                          f"path [{path_name(s)}] returns {'.'.join(rp)} of an entry without having established that argument {' and '.join(miss) or '0 and 1'} "
                          f"equal{'s' if miss else ' different'} stored key{'s' if not miss else ''}")
            if not hits:
                ctx.und(tag, where, R2, "no path returns a stored result")
        ctx.guard(tag, where, R2, body)
        for g in sets:
            if (g.get("targs") or [])[:len(ta)] != ta and (g.get("targs") or []) != ta:
                continue
            tg = f"{cls}::set<{','.join(g.get('targs') or [])}>"
            wg = f"{g['file'].replace('/repo/', '')}:{g['l']} {tg}"
            ctx.saw(wg)

            def body2():
                a = [sym("a0"), sym("a1"), sym("a2")]
                n = 0
                for t, v, s in it.run(g, a, this=sym("THIS")):
                    if t == "throw":
                        continue
                    ctx.count("paths")
                    put = {}
                    for e in s.log:
                        if e.kind != "write" or e.x is None:
                            continue
                        for i, x in enumerate(a):
                            if e.res is x:
                                b, p = split_lv(e.x)
                                put.setdefault(b, {}).setdefault(p, []).append(i)
                    ents = {b: m for b, m in put.items()}
                    if not ents:
                        continue
                    n += 1
                    for b, m in ents.items():
                        last = {p: i[-1] for p, i in m.items()}
                        inv = {}
                        for p, i in last.items():
                            inv.setdefault(i, []).append(p)
                        miss = [i for i in range(3) if i not in inv]
                        ctx.check(not miss, tg, wg, R3, f"path [{path_name(s)}] writes an entry without argument {miss}")
                        if miss or "keys" not in roles:
                            continue
                        ok = any(p in roles["res"] for p in inv[2])
                        ctx.check(ok, tg + ":result", wg, R3, f"result stored in {['.'.join(p) for p in inv[2]]}, the look-up returns {['.'.join(p) for p in roles['res']]}")
                        for ks in roles["keys"]:
                            k0, k1 = set(map(tuple, ks[0])), set(map(tuple, ks[1]))
                            s0, s1 = set(inv[0]), set(inv[1])
                            good = bool(k0 & s0) and bool(k1 & s1)
                            if kind == "add":
                                good = good or (bool(k0 & s1) and bool(k1 & s0))
                            ctx.check(good, tg + ":keys", wg, R3, f"keys stored as {[['.'.join(q) for q in z] for z in (s0, s1)]}, compared as {[['.'.join(q) for q in z] for z in (k0, k1)]}")
                if not n:
                    ctx.und(tg, wg, R3, "no path stores the arguments")
            ctx.guard(tg, wg, R3, body2)
    if not finds or not sets:
        ctx.und(cls, cls, R2, "public find/set not found")


def matched(s, x, base, kind):
    """field paths below base the path found equal to x"""
    out = set()
    if kind == "mul":
        for lit, val in s.facts.order:
            if val and lit.op == "eq":
                for p, q in (lit.args, lit.args[::-1]):
                    if p is x:
                        b, fs = split(q)
                        if b is base:
                            out.add(fs)
        return out
    nodes, weights = set(), set()
    xn, xw = mk("f", x, "n"), mk("f", x, "w")
    for lit, val in s.facts.order:
        if not val:
            continue
        if lit.op == "eq":
            for p, q in (lit.args, lit.args[::-1]):
                if p is xn:
                    b, fs = split(q)
                    if b is base and fs[-1:] == ("n",):
                        nodes.add(fs[:-1])
                if p is xw:
                    b, fs = split(q)
                    if b is base and fs[-1:] == ("w",):
                        weights.add(fs[:-1])
        elif lit.op in ("az", "isz", "eq0"):
            for sg in (ONE, num(-1)):
                r = padd(xw, pmul(sg, lit.args[0]))
                # az(x.w - key.w)
                b, fs = split(r)
                if b is base and fs[-1:] == ("w",):
                    weights.add(fs[:-1])
    return nodes & weights


def check(ctx):
    U = ctx.unit("def")
    it = Interp(U, opaque=opaque_fd, const_globals=CONST)
    it.axiom = terminal_level
    stored(ctx, it, "mm_add2", "add", "m", "m")
    stored(ctx, it, "vv_add2", "add", "v", "v")
    stored(ctx, it, "mm_multiply2", "mul", "m", "m")
    stored(ctx, it, "mv_multiply2", "mul", "m", "v")
    it2 = Interp(U, opaque={"getBucket"}, pure={"hash", "murmur_hash", "hash_combine", "AddCache::hash"})
    it2.no_merge = True
    table(ctx, it2, "AddCache", "add")
    table(ctx, it2, "MulCache", "mul")
