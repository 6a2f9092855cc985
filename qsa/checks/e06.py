"""Flat record form of diagrams.  The writer (vNode_to_vec / mNode_to_vec) and the reader
(vec_to_vNode / vec_to_mNode) are interpreted; the reader's loop by one arbitrary
iteration.  Writer, on every path for an unseen node: exactly one record is appended,
after all children were written, its fields are the node's level, each child's weight and
the number the recursion returned for that child, and the node is remembered under (and
reported as) the position of that record; a seen node is reported by its remembered
number; an empty table first receives one filler and the terminal is number 0.  Reader:
the k-th child gets exactly the fields the writer filled from child k (the pairing is taken
from the writer, field by field), the node is complete before it is shared, record i is
remembered under i, numbering starts behind the filler, and the last record's node is
returned."""
from ..cxev import Interp, Ref, St
from ..terms import *
from .e02 import CONST, path_name

RA = "a node's record holds its level and, per child, the weight and the number of that child"
RB = "a node is remembered under the position of its own record"
RC = "an already written node is reported by its remembered number; the terminal is number 0"
RD = "the reader gives every child the fields its writer filled from that child"
RE = "the reader remembers record i under i, starts behind the terminal's and returns the last"
RF = "every field of a record is serialised"


def rpath(t, base):
    """access path of t below base, as tuple of steps, or None"""
    p = []
    while t is not base:
        if isT(t, "f"):
            p.append(t.args[1])
        elif isT(t, "idx"):
            p.append(t.args[1])
        else:
            return None
        t = t.args[0]
    return tuple(reversed(p))


def flat(it, s, v, pre=()):
    """leaves of a record value: {path: term}"""
    out = {}
    if isT(v, "rec"):
        for n, x in v.args[1]:
            out.update(flat(it, s, x, pre + (n,)))
    elif isT(v, "arr") or isT(v, "list"):
        for i, x in enumerate(v.args[0] if isinstance(v.args[0], tuple) else v.args):
            out.update(flat(it, s, x, pre + (num(i),)))
    else:
        out[pre] = v
    return out


def encoder(ctx, it, kind, un):
    """returns the pairing {path: 'v' | ('w',k) | ('n',k)} or None"""
    fn = kind + "Node_to_vec"
    N = 2 if kind == "v" else 4
    pairing = None
    for f in it.by_qn.get(fn, []):
        where = f"{f['file'].replace('/repo/', '')}:{f['l']} {fn} [{un}]"
        ctx.saw(where)
        st = St()
        tab, mp = ("v", "tab", 0), ("v", "map", 0)
        st.env[tab], st.env[mp] = sym("table"), sym("map")
        node = sym("node")
        TERM = mk("addr", ("g", kind + "Node::terminalNode"), ())
        ncls = kind + "Node"
        nlv = ("h", node, ncls)

        def nd(*path):
            return it.read(s0, (nlv, tuple(path)))
        s0 = St()
        lvl = nd(("f", "v", ncls))
        chw = [it.proj(s0, it.proj(s0, nd(("f", "children", ncls)), ("i", num(k))), ("f", "w", kind + "Edge")) for k in range(N)]
        chn = [it.proj(s0, it.proj(s0, nd(("f", "children", ncls)), ("i", num(k))), ("f", "n", kind + "Edge")) for k in range(N)]
        got = []

        def body():
            for t, v, s in it.run(f, [node, Ref((tab, ())), Ref((mp, ()))], st=st):
                pn = path_name(s)[:300]
                if t != "ret":
                    ctx.und(fn, where, RA, f"path ends by {t}")
                    continue
                T1, M1 = it.root_get(s, tab), it.root_get(s, mp)
                calls = [e for e in s.log if e.kind == "call" and e.name == fn]
                # the table and map this call starts to work on, after a possible first filler
                T0, M0 = sym("table"), sym("map")
                empty = None
                for a, b in s.facts.order:
                    if a is mk("eq0", mk("size", T0)) or a is mk("isempty", T0):
                        empty = b
                    if a.op == "not" and a.args[0] in (mk("eq0", mk("size", T0)), mk("isempty", T0)):
                        empty = not b
                first = T1
                chain = []
                while isT(first, "push"):
                    chain.append(first.args[1])
                    first = first.args[0]
                if calls:
                    a0 = calls[0].args
                    T0_, M0_ = a0[1], a0[2]
                else:
                    T0_, M0_ = T1, M1
                if empty is None:
                    if isT(T0_, "push"):
                        ctx.bad(fn + ":terminal", where, RC, f"[{pn}]: a filler is appended although the table may already have one")
                        continue
                    ctx.und(fn + ":terminal", where, RC, f"[{pn}]: emptiness test outside the rule")
                elif empty:
                    if not calls and isT(T1, "push") and len(chain) == 1 or calls and isT(T0_, "push") and T0_.args[0] is T0:
                        r = it.map_get(s, M0_, TERM) if hasattr(it, "map_get") else mapget(M0_, TERM)
                        ctx.check(True if r is num(0) else False if r is not None else None, fn + ":terminal", where, RC,
                                  f"[{pn}]: the terminal's number is {show(r) if r is not None else '?'}")
                    else:
                        ctx.bad(fn + ":terminal", where, RC, f"[{pn}]: an empty table does not start with the terminal's record")
                        continue
                else:
                    if T0_ is not T0 or M0_ is not M0:
                        ctx.bad(fn + ":terminal", where, RC, f"[{pn}]: a filler is appended to a non-empty table")
                        continue
                    ctx.ok(fn + ":terminal", where, RC)
                seen = None
                for a, b in s.facts.order:
                    if a.op in ("has", "not"):
                        aa, bb = (a.args[0], not b) if a.op == "not" else (a, b)
                        if aa.op == "has" and aa.args[1] is node:
                            seen = bb
                if seen is True:
                    if calls or len(chain) > (1 if empty else 0):
                        ctx.bad(fn + ":seen", where, RC, f"[{pn}]: a node already written is written again")
                    else:
                        want = mapget(M0_, node)
                        ctx.check(v is want if understood(v) else None, fn + ":seen", where, RC, f"[{pn}]: reports {show(v)[:200]}")
                    continue
                if seen is None:
                    if calls:
                        ctx.bad(fn + ":seen", where, RC, f"[{pn}]: the node is written without testing whether it was written before")
                    else:
                        ctx.und(fn + ":seen", where, RC, f"[{pn}]")
                    continue
                # unseen
                if len(calls) < N:
                    ctx.bad(fn, where, RA, f"[{pn}]: only {len(calls)} of {N} children are written")
                    continue
                ids = {}
                cur_t, cur_m = T0_, M0_
                good = True
                for e in calls:
                    if e.args[1] is not cur_t or e.args[2] is not cur_m:
                        good = False
                    cur_t, cur_m = mk("after", fn, 1, e.res), mk("after", fn, 2, e.res)
                    ids[e.res] = e.args[0]
                if not good:
                    ctx.und(fn, where, RA, f"[{pn}]: table or map change between the recursive calls")
                    continue
                if not (isT(T1, "push") and T1.args[0] is cur_t):
                    if any(isT(x, "push") for x in [T1]) and len(chain) != 1:
                        ctx.bad(fn, where, RA, f"[{pn}]: {len(chain)} records appended for one node")
                    elif T1 is cur_t:
                        ctx.bad(fn, where, RA, f"[{pn}]: no record appended")
                    else:
                        ctx.und(fn, where, RA, f"[{pn}]: table afterwards {show(T1)[:200]}")
                    continue
                rec = T1.args[1]
                P, bad, odd = {}, [], False
                for p, x in flat(it, s, rec).items():
                    if x is lvl:
                        P[p] = ("v",)
                    elif x in chw:
                        P[p] = ("w", chw.index(x))
                    elif x in ids and ids[x] in chn:
                        P[p] = ("n", chn.index(ids[x]))
                    else:
                        bad.append(f"{p[0]} holds {show(x)[:120]}")
                        odd = odd or not plain(x, ids)
                miss = [q for q in [("v",)] + [("w", k) for k in range(N)] + [("n", k) for k in range(N)] if q not in P.values()]
                name = {"v": "the level", "w": "the weight of child", "n": "the number of child"}
                if miss:
                    (ctx.bad if isT(rec, "rec") and not odd else ctx.und)(fn, where, RA, f"[{pn}]: the record lacks " +
                            ", ".join(f"{name[q[0]]} {q[1] if len(q) > 1 else ''}" for q in miss) + (f"; {'; '.join(bad)}" if bad else ""))
                    continue
                ctx.ok(fn, where, RA)
                got.append(P)
                szs = {mk("size", cur_t)}
                pos = mk("size", cur_t)
                ctx.check(True if v is pos else False if poly_like(v) else None, fn + ":number", where, RB, f"[{pn}]: the node is reported as {show(v)[:160]}")
                r = mapget(M1, node)
                ctx.check(True if r is pos else False if M1 is cur_m or poly_like(r) else None, fn + ":number", where, RB,
                          f"[{pn}]: the node is remembered as {show(r)[:160]}")
        ctx.guard(fn, where, RA, body)
        if got and all(p == got[0] for p in got):
            pairing = got[0]
        elif got:
            ctx.bad(fn, where, RA, "different paths fill the record differently")
    return pairing


def mapget(m, k):
    while isT(m, "mapset"):
        if m.args[1] is k:
            return m.args[2]
        if const(m.args[1]) is not None and const(k) is not None:
            m = m.args[0]
            continue
        break
    return mk("mapget", m, k)


def understood(v):
    return bases(v) is not None and all(a.op in ("mapget", "size", "call") for a in bases(v))


def poly_like(v):
    return all(a.op in ("size", "call") for a in bases(v))


def bases(v):
    """the terms a polynomial is made of"""
    return {t for m in pdict(v) for t, _ in m}


def decoder(ctx, it, kind, un, P):
    fn = f"vec_to_{kind}Node"
    N = 2 if kind == "v" else 4
    ncls = kind + "Node"
    inv = {}
    for p, q in P.items():
        inv.setdefault(q, []).append(p)
    for f in it.by_qn.get(fn, []):
        where = f"{f['file'].replace('/repo/', '')}:{f['l']} {fn} [{un}]"
        ctx.saw(where)

        def body():
            st = St()
            tab = ("v", "tab", 0)
            st.env[tab] = sym("table")
            uq = ("v", "uniq", 0)
            st.env[uq] = sym("uniq")
            n0 = len(it.loops)
            rs = it.run(f, [Ref((tab, ())), Ref((uq, ())), sym("nolookup")], st=st)
            loops = it.loops[n0:]
            if len(loops) != 1:
                return ctx.und(fn, where, RD, f"{len(loops)} loops")
            L = loops[0]
            nsteps = 0
            cont = idxv = None
            for t, v, s in L.steps:
                pn = path_name(s)[:200]
                if t != "next":
                    ctx.bad(fn, where, RE, f"[{pn}]: the reader can leave the loop early") if t == "break" else ctx.und(fn, where, RE, t)
                    continue
                gets = [e for e in s.log if e.kind == "call" and e.name.endswith("::getNode")]
                looks = [e for e in s.log if e.kind == "call" and e.name.split("::")[-1] in ("lookup", "register_wo_lookup")]
                if len(gets) != 1 or len(looks) != 1:
                    (ctx.bad if len(looks) == 0 and gets else ctx.und)(fn, where, RD, f"[{pn}]: {len(gets)} fresh nodes, {len(looks)} table look-ups per record")
                    continue
                nsteps += 1
                p = gets[0].res
                if looks[0].args[1] is not p:
                    ctx.bad(fn, where, RD, f"[{pn}]: shares {show(looks[0].args[1])[:100]} instead of the node just read")
                    continue
                li = s.log.index(looks[0])
                late = [e for i, e in enumerate(s.log) if i > li and e.kind == "write" and e.x[0][0] == "h" and e.x[0][1] is p]
                ctx.check(not late, fn + ":complete", where, RD, f"line {late[0].line if late else 0}: the node is changed after it was shared")
                nlv = ("h", p, ncls)
                lv = it.read(s, (nlv, (("f", "v", ncls),)))
                ch = it.read(s, (nlv, (("f", "children", ncls),)))
                # the record: idx(table, i)
                R = None
                x = lv
                while isinstance(x, T) and x.op in ("f", "idx"):
                    if x.op == "idx" and isT(x.args[0], "hv"):
                        R = x
                        break
                    x = x.args[0]
                if R is None:
                    if const(lv) is not None or lv.op == "undef" or isT(lv, "f") and isT(lv.args[0], "deref") and lv.args[0].args[0] is p:
                        ctx.bad(fn, where, RD, f"[{pn}]: the node's level is {show(lv)[:100]}")
                    else:
                        ctx.und(fn, where, RD, f"[{pn}]: level {show(lv)[:100]}")
                    continue
                i = R.args[1]
                bad = []
                if rpath(lv, R) not in inv[("v",)]:
                    bad.append(f"level from {show(lv)[-60:]}")
                M = None
                und = None
                for k in range(N):
                    e = it.proj(s, ch, ("i", num(k)))
                    w = it.proj(s, e, ("f", "w", kind + "Edge"))
                    n = it.proj(s, e, ("f", "n", kind + "Edge"))
                    if rpath(w, R) is None:
                        if any(a.op == "idx" for a in [w]) or const(w) is not None or w.op in ("cnum", "undef", "f"):
                            bad.append(f"weight of child {k} is {show(w)[-80:]}")
                        else:
                            und = f"weight {show(w)[:100]}"
                    elif rpath(w, R) not in inv[("w", k)]:
                        bad.append(f"weight of child {k} is read from {show(w)[-60:]}, which the writer fills differently")
                    if n.op in ("mapget", "idx") and len(n.args) == 2:
                        M = n.args[0]
                        q = rpath(n.args[1], R)
                        if q is None:
                            und = f"child number {show(n.args[1])[:100]}"
                        elif q not in inv[("n", k)]:
                            bad.append(f"child {k} is read from {show(n.args[1])[-60:]}, which the writer fills differently")
                    else:
                        und = f"child {k} {show(n)[:100]}"
                if bad:
                    ctx.bad(fn, where, RD, f"[{pn}]: " + "; ".join(bad))
                    continue
                if und:
                    ctx.und(fn, where, RD, f"[{pn}]: {und}")
                    continue
                ctx.ok(fn, where, RD)
                # remembered
                m1 = None
                for r, val in s.env.items():
                    if isinstance(val, T) and val.op == "mapset" and val.args[0] is M:
                        m1 = val
                if m1 is None:
                    st_ = [val for val in s.env.values() if val is M]
                    (ctx.bad if st_ else ctx.und)(fn + ":map", where, RE, f"[{pn}]: record is not remembered")
                    continue
                res = looks[0].res
                if m1.args[1] is not i:
                    ctx.bad(fn + ":map", where, RE, f"[{pn}]: record {show(i)[-40:]} remembered under {show(m1.args[1])[-60:]}")
                elif m1.args[2] is not res:
                    ctx.bad(fn + ":map", where, RE, f"[{pn}]: remembers {show(m1.args[2])[:120]} instead of the shared node")
                else:
                    ctx.ok(fn + ":map", where, RE)
                cont, idxv = M, i
            if cont is None:
                return
            # start, step, bound, result
            hvs = {}
            for r, val in L.head.env.items():
                if isinstance(val, T):
                    hvs[val] = r
            ir, mr = hvs.get(idxv), hvs.get(cont)
            if ir is None or mr is None:
                return ctx.und(fn + ":range", where, RE, "loop variables not found")
            e0 = L.entry.env.get(ir)
            m0 = L.entry.env.get(mr)
            ctx.check(e0 is num(1), fn + ":range", where, RE, f"reading starts at record {show(e0)[:60]}")
            TERM = mk("addr", ("g", kind + "Node::terminalNode"), ())
            z = mapget(m0, num(0))
            ctx.check(True if z is TERM else False if isT(m0, "emptymap") or isT(m0, "mapset") else None, fn + ":range", where, RE, f"number 0 stands for {show(z)[:100]}")
            for t, v, s in L.steps:
                if t == "next":
                    nx = s.env.get(ir)
                    want = padd(idxv, ONE)
                    # the for-increment runs after the body; accept the value with or without it
                    ctx.check(True if nx in (want,) else None if nx is idxv else False, fn + ":range", where, RE, f"next record after {show(idxv)[-40:]} is {show(nx)[-60:]}")
            for t, v, s in rs:
                ex = s.facts.order
                tv = [x for x in s.env.values() if isT(x, "hv")]
                ok = None
                if t == "ret":
                    if v.op in ("mapget", "idx") and v.args[0] is cont:
                        k = v.args[1]
                        ok = any(k is padd(mk("size", hv), num(-1)) for hv in tv) or k is padd(mk("size", sym("table")), num(-1))
                        ok = ok or k is padd(idxv, num(-1))
                    elif v.op in ("hv", "call"):
                        ok = None
                    else:
                        ok = False
                ctx.check(ok, fn + ":result", where, RE, f"returns {show(v)[:200]}")
            # loop bound: exit only when i >= size
            for t, v, s in rs:
                okb = None
                szs = {mk("size", x) for x in list(s.env.values()) + [sym("table")] if isinstance(x, T)}
                for a, b in s.facts.order:
                    if a.op == "not":
                        a, b = a.args[0], not b
                    ts = None
                    if a.op in ("lt", "le", "eq0"):
                        ts = a.args[0]
                    elif a.op == "eq":
                        ts = padd(a.args[0], pmul(num(-1), a.args[1]))
                    if ts is None or idxv not in bases(ts):
                        continue
                    # ts = +-(i - size) + c ; at exit i == size must be forced, given steps of one
                    k = pdict(ts).get(((idxv, 1),))
                    if k not in (1, -1):
                        continue
                    rest = padd(pmul(num(k), ts), pmul(num(-1), idxv))
                    for z in szs:
                        if z in bases(rest):
                            c = const(padd(rest, z))
                            if c is None:
                                continue
                            if k == 1:
                                okb = a.op == "lt" and b is False and c == 0 or a.op == "le" and b is False and c == 1 or \
                                    a.op in ("eq0", "eq") and b is True and c == 0
                            else:
                                okb = a.op == "le" and b is True and c == 0 or a.op == "lt" and b is True and c == 1 or \
                                    a.op in ("eq0", "eq") and b is True and c == 0
                ctx.check(okb, fn + ":range", where, RE, "the loop does not run to the last record")
        ctx.guard(fn, where, RD, body)


def serial(ctx, U, un):
    from .e05 import walk
    recs = {r["qn"]: r for r in U["records"]}
    for f in U["funcs"]:
        if f["name"] != "serialize" or f.get("cls") not in ("vContent", "mContent", "Complex", "vNode", "vEdge", "mNode", "mEdge") and f["qn"].split("::")[0] not in ("vContent", "mContent", "Complex"):
            continue
        cls = f["qn"].split("::")[0]
        where = f"{f['file'].replace('/repo/', '')}:{f['l']} {f['qn']} [{un}]"
        ctx.saw(where)
        used = {d.get("n") for d in walk(f["body"]) if d.get("k") == "mem"}
        for x in recs[cls]["f"]:
            ctx.check(x["n"] in used, f"{cls}:serialize", where, RF, f"field {x['n']} is not transferred")


def opaque_fd(fd):
    return fd["name"] in ("vNode_to_vec", "mNode_to_vec") or \
        fd["name"] in ("getNode", "lookup", "register_wo_lookup") and "Table" in fd["qn"]


def plain(x, ids):
    if x in ids:
        return plain(ids[x], {})
    if const(x) is not None or x.op in ("cnum", "sym", "null", "size"):
        return True
    if x.op in ("f", "idx", "deref"):
        return all(plain(a, {}) for a in x.args if isinstance(a, T))
    return False


def check(ctx):
    units = ["def", "mpi"] + (["mt"] if ctx.thorough else [])
    for un, U in zip(units, ctx.load(units)):
        for kind in "vm":
            it = Interp(U, opaque=opaque_fd, const_globals=CONST)
            it.no_merge = True
            P = encoder(ctx, it, kind, un)
            if P is None:
                ctx.und(f"vec_to_{kind}Node", f"{kind}Node", RD, "the writer's record layout is not known")
                continue
            decoder(ctx, it, kind, un, P)
        serial(ctx, U, un)
