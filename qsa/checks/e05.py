"""Collection.  gc and gc_mat are interpreted for lists of up to K states (K = 3; 5 in
thorough mode) plus their single-state forms.  On every path: either nothing global
changes and the states come back untouched, which must be exactly the not-forced,
below-threshold path; or every state comes back in its place with its own weight and a
node rebuilt from the record written from its own node before the table was replaced,
and everything else that can still mention old nodes (any global whose type reaches a
node: memo tables, identity table, cached probabilities) was emptied.  The memo tables'
own emptying is decided on its loops: every slot of every table."""
from ..cxev import Interp, Ref
from ..terms import *
from .e02 import CONST, path_name

RA = "a collection returns every state in place: own weight, node rebuilt from its own record"
RB = "records are written before the node table is replaced and read after"
RC = "everything else that mentions nodes is emptied on a collecting path"
RD = "below the threshold and not forced, nothing changes; otherwise the collection happens"
RE = "emptying a memo table clears every slot of every table and restarts its pool"

OPQ = {"vNode_to_vec", "vec_to_vNode", "mNode_to_vec", "vec_to_mNode", "get_allocations"}


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def reaches(unit, t, want, seen=None):
    """does type text t mention, directly or through record fields, one of `want`?"""
    import re
    seen = set() if seen is None else seen
    ids = set(re.findall(r"[A-Za-z_][\w:]*(?:<[^<>]*>)?", t)) | set(re.findall(r"[A-Za-z_][\w:]*", t))
    if ids & want:
        return True
    for r in unit["records"]:
        q = r["qn"]
        if q in ids and q not in seen and not q.startswith("std::"):
            seen.add(q)
            for f in r["f"]:
                if reaches(unit, f["t"], want, seen):
                    return True
    return False


def relevant(unit, kind):
    used = set()
    for f in unit["funcs"]:
        for d in walk(f.get("body")):
            if d.get("k") == "ref" and "g" in d:
                used.add(d["g"])
            elif d.get("k") == "decl":
                pass
    want = {kind + "Node", kind + "Edge"}
    out = {}
    for g in unit["globals"]:
        t = g["t"].replace("const ", "")
        if g["qn"] not in used or g.get("constexpr"):
            continue
        bt = t.rstrip("*& ")
        if bt in ("vNode", "mNode", "vEdge", "mEdge"):
            # node/edge constants, or a cached edge/pointer
            if g["qn"].split("::")[-1] in ("one", "zero", "terminal", "terminalNode"):
                continue
            out[g["qn"]] = g
            continue
        if g["qn"] in ("vUnique", "mUnique"):
            continue
        if reaches(unit, t, want):
            out[g["qn"]] = g
    return out


def table_emptied(ctx, it, unit, cls, uname):
    """clearAll of one memo class; True / False / None"""
    fs = it.by_qn.get(cls + "::clearAll", [])
    for f in fs:
        where = f"{f['file'].replace('/repo/', '')}:{f['l']} {cls}::clearAll [{uname}]"
        key = f"{cls}:{f['name']}"
        ctx.saw(where)

        def body():
            n0 = len(it.loops)
            rs = it.run(f, [], this=sym("this"))
            loops = it.loops[n0:]
            arr = None
            for r in unit["records"]:
                if r["qn"] == cls + "::Table":
                    for fl in r["f"]:
                        if fl["t"].endswith("]"):
                            arr = (fl["n"], int(fl["t"][fl["t"].rindex("[") + 1:-1]), fl["t"])
            src = [d for d in walk(f["body"]) if d.get("k") == "mem" and d.get("n") == "_tables"]
            if not src:
                calls = [d for d in walk(f["body"]) if d.get("k") in ("mcall", "call")]
                mine = [d for d in calls if (d.get("f") or {}).get("qn", "").startswith(cls + "::")]
                if mine:
                    return ctx.und(key, where, RE, "slots reached through helpers")
                return ctx.bad(key, where, RE, "the slots of the table are not touched at all")
            # whole-member assignment
            for t, v, s in rs:
                for e in s.log:
                    if e.kind == "write" and e.x[1] and e.x[1][0][1] == "_tables" and len(e.x[1]) == 1:
                        return ctx.und(key, where, RE, "tables replaced as a whole")
            for t, v, s in rs:
                # outer loop must be entered unconditionally
                lp = [e for e in s.log if e.kind == "loop"]
                if not lp:
                    return ctx.bad(key, where, RE, f"path [{path_name(s)}] clears no slot")
            rf = [l for l in loops if l.node.get("k") == "rfor"]
            if len(rf) != len(loops) or len(rf) != 2:
                return ctx.und(key, where, RE, "loop shape outside the rule")
            lo, li = rf[0], rf[1]
            if any(t != "next" for t, _, _ in lo.steps):
                return ctx.bad(key, where, RE, "the loop over the levels can stop early")
            if any(t != "next" for t, _, _ in li.steps):
                return ctx.bad(key, where, RE, "the loop over the tables of a level can stop early")
            for t, v, s in lo.steps:
                if not any(e.kind == "loop" and e.name == li.id for e in s.log):
                    return ctx.bad(key, where, RE, f"a level is skipped when [{path_name(s)}]")
            for t, v, s in li.steps:
                ms = [e for e in s.log if e.kind == "call" and e.name in ("memset", "std::memset")]
                if not ms:
                    w = [e for e in s.log if e.kind in ("write", "call") and e.kind == "write" or e.name and "fill" in str(e.name)]
                    if w:
                        return ctx.und(key, where, RE, "slots cleared in a form outside the rule")
                    return ctx.bad(key, where, RE, f"a table is skipped when [{path_name(s)}]")
                e = ms[0]
                tgt, val, size = e.args[:3]
                if "_table" not in show(tgt) or "rangeidx" not in show(tgt):
                    return ctx.und(key, where, RE, "memset target outside the rule")
                if val is not num(0):
                    return ctx.bad(key, where, RE, f"slots are set to {show(val)}")
                if arr and size is not num(8 * arr[1]):
                    return ctx.bad(key, where, RE, f"only {show(size)} of {8 * arr[1]} bytes of slots cleared (line {e.line})")
            # pool
            for t, v, s in rs:
                w = {}
                for i, e in enumerate(s.log):
                    if e.kind == "write" and len(e.x[1]) == 2 and e.x[1][0][1] == "c":
                        w.setdefault(e.x[1][1][1], []).append((i, e))
                if "chunks" in w:
                    for fn in ("chunkIt", "chunkEndIt"):
                        if fn not in w or w[fn][-1][0] < w["chunks"][0][0]:
                            return ctx.bad(key + ":pool", where, RE, f"{fn} still points into the released chunk")
                    cid = w.get("chunkID")
                    if cid is None or cid[-1][1].res is not num(0):
                        return ctx.bad(key + ":pool", where, RE, "chunkID does not restart with the chunks")
                    b, e = w["chunkIt"][-1][1].res, w["chunkEndIt"][-1][1].res
                    ok = isT(b, "addr") and isT(e, "addr")
                    if ok:
                        pb, pe = b.args[-1], e.args[-1]
                        try:
                            def iv(x):
                                return x if isinstance(x, int) else int(show(x))
                            same = pb[:-1] == pe[:-1] and iv(pb[-2][1]) == 0 and iv(pb[-1][1]) == 0
                            full = w["chunks"][-1][1].res
                            if same and isT(full, "vec") and isT(full.args[0][0], "fill") and iv(full.args[0][0].args[1]) != iv(pe[-1][1]):
                                same = False
                            if same is False:
                                return ctx.bad(key + ":pool", where, RE, f"pool cursor after emptying: {show(b)[-80:]} .. {show(e)[-80:]}")
                        except (IndexError, AttributeError, ValueError):
                            pass
            ctx.ok(key, where, RE)
        ctx.guard(key, where, RE, body)


def glob_of(t):
    return t.args[0] if isT(t, "glob") else None


def one_gc(ctx, it, f, kind, K, uname, rel):
    vec = "vector" in f["ps"][0]["t"]
    name = f["name"]
    where = f"{f['file'].replace('/repo/', '')}:{f['l']} {name}({'list' if vec else 'one'}) [{uname}]"
    ctx.saw(where)
    key = name + (":list" if vec else ":one")
    sym_e = [it.mkrec(kind + "Edge", (("w", sym(f"w{i}")), ("n", sym(f"n{i}")))) for i in range(K)]
    arg = mk("vec", tuple(sym_e)) if vec else sym_e[0]
    force = sym("force")
    n = K if vec else 1
    to, back = f"{kind}Node_to_vec", f"vec_to_{kind}Node"
    U = ("g", kind + "Unique")

    def body():
        for t, v, s in it.run(f, [arg, force]):
            ctx.count("paths")
            if t != "ret":
                ctx.und(key, where, RA, f"path ends by {t}")
                continue
            pn = path_name(s)
            gw = [(i, e) for i, e in enumerate(s.log)
                  if e.kind in ("write", "clear") and e.x and e.x[0][0] == "g"]
            reset = [i for i, e in gw if e.x[0] == U and e.kind in ("write", "clear") and not e.x[1]]
            ucalls = [e for e in s.log if e.kind == "call" and e.args and glob_of(e.args[0]) == kind + "Unique"
                      and not e.name.endswith("get_allocations")]
            fv = [b for a, b in s.facts.order if a is force or (a.op == "not" and a.args[0] is force)]
            forced = s.facts.known(force) if hasattr(s.facts, "known") else None
            for a, b in s.facts.order:
                if a is force:
                    forced = b
                elif a.op == "not" and a.args[0] is force:
                    forced = not b
            # threshold: below iff allocations - threshold < 0
            below = None
            for a, b in s.facts.order:
                if "get_allocations" in show(a):
                    aa, bb = (a.args[0], not b) if a.op == "not" else (a, b)
                    p = pdict(aa.args[0]) if aa.op in ("lt", "le") else {}
                    c = [c for m, c in p.items() if any("get_allocations" in show(x[0]) for x in m)]
                    if len(c) == 1 and aa.op in ("lt", "le"):
                        below = bb if c[0] > 0 else not bb
            if not reset:
                if ucalls:
                    ctx.und(key, where, RD, f"[{pn}]: table changed by calls outside the rule")
                    continue
                ok = v is arg
                if gw and not ok:
                    pass
                lost = [e.x[0][1] for i, e in gw if e.x[0][1] in rel]
                if not ok:
                    ctx.bad(key, where, RD, f"[{pn}]: no collection, yet the states come back as {show(v)[:200]}")
                elif forced is True:
                    ctx.bad(key, where, RD, f"[{pn}]: a forced call does not collect")
                elif below is False:
                    ctx.bad(key, where, RD, f"[{pn}]: above the threshold nothing is collected")
                elif below is None and forced is None:
                    ctx.und(key, where, RD, f"[{pn}]: condition outside the rule")
                else:
                    ctx.ok(key, where, RD)
                continue
            if forced is False and below is True:
                ctx.bad(key, where, RD, f"[{pn}]: collects although not forced and below the threshold")
            else:
                ctx.ok(key, where, RD)
            r0 = reset[0]
            # records before, rebuild after
            bad = None
            for i, e in enumerate(s.log):
                if e.kind == "call" and e.name == to and i > r0:
                    bad = f"line {e.line}: a record is written after the table was replaced"
                if e.kind == "call" and e.name == back and i < reset[-1]:
                    bad = f"line {e.line}: a state is rebuilt before the table is replaced"
                if e.kind == "call" and e.name == back and not (e.x and isinstance(e.x[1], Ref) and e.x[1].lv[0] == U):
                    bad = f"line {e.line}: a state is rebuilt into another table"
            ctx.check(bad is None, key + ":order", where, RB, f"[{pn}]: {bad}")
            outs = v.args[0] if isT(v, "vec") else (v,) if not vec else None
            if outs is None or len(outs) != n:
                ctx.bad(key, where, RA, f"[{pn}]: returns {show(v)[:200]} for {n} states")
                continue
            first = True
            for i, o in enumerate(outs):
                w = it.proj(s, o, ("f", "w", kind + "Edge"))
                nd = it.proj(s, o, ("f", "n", kind + "Edge"))
                if w is not sym(f"w{i}"):
                    ctx.bad(key, where, RA, f"[{pn}]: state {i} comes back with weight {show(w)[:100]}")
                    continue
                if not (isT(nd, "call") and nd.args[0] == back):
                    if nd is sym(f"n{i}"):
                        ctx.bad(key, where, RA, f"[{pn}]: state {i} still refers to a node of the discarded table")
                    elif understood_(nd):
                        ctx.bad(key, where, RA, f"[{pn}]: state {i} comes back as {show(nd)[:150]}")
                    else:
                        ctx.und(key, where, RA, f"[{pn}]: state {i} node {show(nd)[:150]}")
                    continue
                rec = nd.args[1]
                src = None
                if isT(rec, "after") and rec.args[0] == to:
                    c = rec.args[-1]
                    if isT(c, "call") and c.args[0] == to:
                        src = (c.args[1], c.args[2], c.args[3])
                if src is None:
                    if rec.op in ("vec", "after", "oob"):
                        ctx.bad(key, where, RA, f"[{pn}]: state {i} is rebuilt from {show(rec)[:150]}")
                    else:
                        ctx.und(key, where, RA, f"[{pn}]: record {show(rec)[:150]}")
                    continue
                if src[0] is not sym(f"n{i}"):
                    ctx.bad(key, where, RA, f"[{pn}]: state {i} is rebuilt from the record of {show(src[0])[:100]}")
                elif not (isT(src[1], "vec") and not src[1].args[0]) or src[2].op != "emptymap":
                    ctx.bad(key, where, RA, f"[{pn}]: the record of state {i} starts from used containers (index map or table of another state)")
                else:
                    fl = nd.args[3] if len(nd.args) > 3 else None
                    ctx.ok(key, where, RA)
            # no_lookup only while the table is still empty
            nb = 0
            for e in s.log:
                if e.kind == "call" and e.name == back:
                    fl = e.args[2] if len(e.args) > 2 else None
                    if nb > 0 and fl is not None and fl is not mk("false") and fl is not num(0):
                        if isT(fl, "true") or const(fl) is not None:
                            ctx.bad(key + ":lookup", where, RA, f"line {e.line}: state {nb} is rebuilt without looking nodes up, although earlier states are in the table")
                        else:
                            ctx.und(key + ":lookup", where, RA, show(fl)[:100])
                    else:
                        ctx.ok(key + ":lookup", where, RA)
                    nb += 1
            # the rest
            for g in rel:
                hit = [i for i, e in gw if e.x[0] == ("g", g) and not e.x[1]]
                hit += [i for i, e in enumerate(s.log) if e.kind == "call" and e.args and glob_of(e.args[0]) == g
                        and e.name.split("::")[-1] in ("clear", "clearAll")]
                # stores after the last emptying are suspicious only before the table reset
                if hit:
                    ctx.ok(f"{name}:{g}", where, RC)
                else:
                    touched = [e for e in s.log if e.kind == "call" and any(glob_of(a) == g for a in e.args)] or \
                              [e for i, e in gw if e.x[0] == ("g", g)]
                    if touched:
                        ctx.und(f"{name}:{g}", where, RC, f"[{pn}]: {g} changed in a form outside the rule")
                    else:
                        ctx.bad(f"{name}:{g}", where, RC, f"[{pn}]: {g} ({rel[g]['t']}) still mentions nodes of the discarded table")
    ctx.guard(key, where, RA, body)


def understood_(t):
    return t.op in ("call", "null", "sym", "addr", "vec")


def check(ctx):
    units = ["def", "mt", "mpi"]
    for un, U in zip(units, ctx.load(units)):
        stops = set(OPQ)
        it = Interp(U, opaque=lambda fd: fd["name"] in stops or fd["name"] == "clearAll", const_globals=CONST)
        it.no_merge = True
        for f in U["funcs"]:
            if f["name"] not in ("gc", "gc_mat") or f.get("cls") or not f["ps"]:
                continue
            kind = "v" if "vEdge" in f["ps"][0]["t"] else "m"
            rel = relevant(U, kind)
            vec = "vector" in f["ps"][0]["t"]
            for K in ((0, 1, 2, 3) if not ctx.thorough else (0, 1, 2, 3, 4, 5)) if vec else (1,):
                one_gc(ctx, it, f, kind, K, un, rel)
        it2 = Interp(U, const_globals=CONST)
        for cls in ("AddCache", "MulCache"):
            table_emptied(ctx, it2, U, cls, un)
