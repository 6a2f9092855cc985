"""Effect analysis: which functions write fields of diagram nodes, and where the written
node came from.  Interprocedural origin tracking over the resolved AST: the origin of a
node pointer is FRESH (taken from a table's free store in the same call tree), SHARED
(reached through another node, a global, or an edge a caller already owns) or the
parameters it may come from."""
from .cxev import strip_t, is_ref_t, const_ref_t as _crt



def const_ref_t(t):
    return _crt(t) or t.rstrip("& ").endswith("const")


NODES = {"mNode", "vNode"}
EDGES = {"mEdge", "vEdge"}
FRESH, SHARED, UNK = "fresh", "shared", "unknown"


def is_table(cls):
    return (cls or "").split("<")[0].endswith("HashTable")


class NodeFx:
    def __init__(self, unit, table_classes=None):
        self.u = unit
        self.fs = [f for f in unit["funcs"] if f.get("body")]
        self.by_id = {f["id"]: f for f in self.fs}
        self.loc = {}
        self.at = {}
        self.calls = {}       # callee id -> [(caller, arg exprs)]
        for f in self.fs:
            self.scan(f)
        # per function: parameter i is written as an lvalue / node reached from parameter i is written
        self.wref = {}
        self.wnode = {}
        self.sites = {}
        self.ret = {}
        self.solve()

    # ------------------------------------------------------------ collect local definitions and calls
    def scan(self, f):
        defs = {}
        writes, calls, rets = [], [], []
        ctr = [0]
        loops = []            # enclosing loop ids
        at = self.at          # id(expression) -> (position, loops)
        pidx = {p["d"]: i for i, p in enumerate(f["ps"]) if "d" in p}

        def walk(n, inlam):
            if isinstance(n, list):
                for x in n:
                    walk(x, inlam)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            ctr[0] += 1
            at[id(n)] = (ctr[0], tuple(loops))
            isloop = k in ("for", "while", "do", "rfor")
            if isloop:
                loops.append(ctr[0])
            if k == "decl":
                for v in n["v"]:
                    if v.get("d") is not None:
                        defs.setdefault(v["d"], []).append(("ref" if is_ref_t(v.get("t", "")) else "val", v.get("init"), v))
                        at[id(v)] = (ctr[0], tuple(loops))
            elif k == "rfor":
                v = n.get("v")
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict) and x.get("d") is not None:
                        defs.setdefault(x["d"], []).append(("elem", n.get("r") or n.get("range"), x))
            elif k in ("asg", "casg"):
                writes.append((n["a"], n))
                b = base(n["a"])
                if b is not None and b["k"] == "ref" and "g" not in b:
                    defs.setdefault(b["d"], []).append(("val" if b is n["a"] else "part", n["b"], n))
            elif k == "un" and n["op"] in ("++", "--"):
                writes.append((n["e"], n))
            elif k in ("call", "mcall", "opcall", "ctor"):
                fn = n.get("f") or {}
                args = n.get("a") or []
                if k == "opcall" and n.get("op") == "=" and args:
                    writes.append((args[0], n))
                    b = base(args[0])
                    if b is not None and b["k"] == "ref" and "g" not in b:
                        defs.setdefault(b["d"], []).append(("val" if b is args[0] else "part", args[1], n))
                else:
                    objs = None
                    a2 = args
                    if k == "mcall":
                        objs = n.get("b")
                    elif k == "opcall" and n.get("memb"):
                        objs, a2 = args[0], args[1:]
                    calls.append((fn, a2, objs, n))
            elif k == "ret" and not inlam:
                rets.append(n.get("e"))
            for kk, v in n.items():
                if kk in ("f",):
                    continue
                if isinstance(v, (dict, list)):
                    walk(v, inlam or k == "lambda")
            if isloop:
                loops.pop()
            if k in ("asg", "casg", "opcall"):
                ctr[0] += 1
                at[("end", id(n))] = ctr[0]
            if k == "lambda":
                for i, p in enumerate(n.get("ps") or []):
                    if p.get("d") is not None:
                        defs.setdefault(p["d"], []).append(("lam", None, p))

        def base(e):
            while e is not None:
                if e["k"] in ("mem",):
                    if e["arrow"]:
                        return None
                    e = e["b"]
                elif e["k"] == "idx":
                    e = e["a"]
                elif e["k"] == "opcall" and e.get("op") == "[]":
                    e = e["a"][0]
                elif e["k"] == "cast":
                    e = e["e"]
                else:
                    return e
            return None
        walk(f["body"], False)
        for ini in f.get("inits") or []:
            walk(ini, False)
        self.loc[f["id"]] = (defs, writes, calls, rets, pidx)
        for fn, a, o, n in calls:
            if fn.get("def") is not None:
                self.calls.setdefault(fn["def"], []).append((f, a, n))

    # ------------------------------------------------------------ origins
    def origin(self, f, e, seen=()):
        """origins of the node a pointer/edge/reference expression leads to"""
        if e is None or not isinstance(e, dict):
            return {UNK}
        k = e["k"]
        defs, _, _, _, pidx = self.loc[f["id"]]
        if k in ("cast", "stmtexpr", "temp"):
            return self.origin(f, e.get("e"), seen)
        if k == "null":
            return set()
        if k in ("ref", "bind"):
            if "g" in e:
                return {SHARED}
            d = e["d"]
            if d in pidx:
                out = {("p", pidx[d])}
            else:
                out = set()
            if (f["id"], d) in seen:
                return out
            s2 = seen + ((f["id"], d),)
            for kind, init, n in self.reaching(defs.get(d, ()), e):
                if kind == "lam":
                    out |= {SHARED}
                elif init is None:
                    continue
                else:
                    out |= self.origin(f, init, s2)
            return out or (set() if d in defs else {UNK})
        if k == "mem":
            rec = e.get("rec")
            if rec in NODES:
                # something stored inside a node: its children lead to shared nodes
                return {SHARED}
            return self.origin(f, e["b"], seen)
        if k == "idx":
            return self.origin(f, e["a"], seen)
        if k == "un":
            return self.origin(f, e["e"], seen)
        if k == "cond":
            return self.origin(f, e["a"], seen) | self.origin(f, e["b"], seen)
        if k in ("ilist",):
            out = set()
            for x in e.get("a") or e.get("e") or []:
                out |= self.origin(f, x, seen)
            return out
        if k == "new":
            return {FRESH}
        if k in ("int", "flt", "bool", "str", "zero", "sizeof"):
            return set()
        if k == "asg":
            return self.origin(f, e["b"], seen)
        if k in ("call", "mcall", "opcall", "ctor"):
            fn = e.get("f") or {}
            nm = fn.get("name", "")
            cls = strip_t(fn.get("clsT") or fn.get("cls") or "")
            if k == "mcall" and is_table(cls):
                if nm == "getNode":
                    return {FRESH}
                return {SHARED}
            g = self.by_id.get(fn.get("def"))
            if k == "mcall" and strip_t(cls) in EDGES:
                return self.origin(f, e["b"], seen)
            if k == "mcall" and strip_t(cls) in NODES:
                return {SHARED}
            if k == "opcall" and e.get("op") in ("=", "[]", "*", "->"):
                return self.origin(f, e["a"][1 if e["op"] == "=" else 0], seen)
            if g is not None and (strip_t(g.get("cls") or "") not in EDGES | NODES):
                return self.result(g, f, e.get("a") or [], seen)
            # library: whatever flows in may come out (containers, iterators, std::move, min/max ...)
            out = set()
            for x in (e.get("a") or []):
                out |= self.origin(f, x, seen)
            if k == "mcall":
                out |= self.origin(f, e["b"], seen)
            return out
        return {UNK}

    def reaching(self, ds, use):
        """definitions that can come before this use (order of statements, loops repeat)"""
        ds = list(ds)
        u = self.at.get(id(use))
        if u is None:
            return ds
        decl = [self.at.get(id(n)) for kind, i, n in ds if "n" in n and "t" in n and n.get("k") is None]
        dl = decl[0][1] if decl and decl[0] else ()
        out = []
        for x in ds:
            a = self.at.get(id(x[2]))
            if a is None:
                out.append(x)
                continue
            pos = self.at.get(("end", id(x[2])), a[0])
            if pos < u[0] or any(l in u[1] and l not in dl for l in a[1]):
                out.append(x)
        return out

    def result(self, g, f, args, seen):
        key = ("ret", g["id"])
        if key in seen or len(seen) > 40:
            return set()
        rt = strip_t(g.get("ret") or "")
        if not any(x in rt for x in ("Edge", "Node", "auto")):
            return set()
        out = set()
        for r in self.loc[g["id"]][3]:
            if r is None:
                continue
            for o in self.origin(g, r, seen + (key,)):
                if isinstance(o, tuple):
                    if o[1] < len(args):
                        out |= self.origin(f, args[o[1]], seen + (key,))
                else:
                    out.add(o)
        return out

    # ------------------------------------------------------------ write targets
    def target(self, f, e):
        """classify an lvalue: ('node', origins, field) | ('param', i) | ('ref', ...) | None (not node memory)"""
        defs, _, _, _, pidx = self.loc[f["id"]]
        field = None
        depth = 0
        while isinstance(e, dict) and depth < 60:
            depth += 1
            k = e["k"]
            if k == "mem":
                if e.get("rec") in NODES:
                    b = e["b"]
                    if e["arrow"]:
                        return [("node", self.origin(f, b), e["n"])]
                    # node object lvalue
                    t = self.target(f, b)
                    o = self.objorigin(f, b)
                    return [("node", o, e["n"])]
                if e["arrow"]:
                    b = e["b"]
                    if b["k"] == "this":
                        return []
                    # pointer to an edge (or other record): address of something?
                    return self.ptr_target(f, b)
                e = e["b"]
            elif k == "idx":
                t = strip_t(e["a"].get("t", ""))
                if t.endswith("*"):
                    return self.ptr_target(f, e["a"])
                e = e["a"]
            elif k == "un" and e["op"] == "*":
                return self.ptr_target(f, e["e"])
            elif k == "cast":
                e = e["e"]
            elif k == "opcall" and e.get("op") in ("[]", "=", "*", "->"):
                a = e["a"][0]
                if e["op"] in ("*", "->"):
                    return self.ptr_target(f, a)
                if strip_t(a.get("t", "")) in NODES:
                    return [("node", self.objorigin(f, a), "children")]
                e = a
            elif k == "mcall":
                c = strip_t((e.get("f") or {}).get("clsT") or "")
                if c in NODES or strip_t((e.get("f") or {}).get("cls") or "") in NODES:
                    o = self.origin(f, e["b"]) if e["arrow"] else self.objorigin(f, e["b"])
                    return [("node", o, "children")]
                if e["arrow"]:
                    return []
                e = e["b"]
            elif k == "cond":
                return self.target(f, e["a"]) + self.target(f, e["b"])
            elif k in ("ref", "bind"):
                if "g" in e:
                    return []
                d = e["d"]
                if d in pidx:
                    p = f["ps"][pidx[d]]
                    return [("param", pidx[d])] if is_ref_t(p["t"]) else []
                out = []
                for kind, init, n in defs.get(d, ()):
                    if kind in ("ref", "elem") and init is not None and is_ref_t(n.get("t", "") if isinstance(n, dict) else ""):
                        out += self.target(f, init)
                return out
            else:
                return []
        return []

    def objorigin(self, f, b):
        while isinstance(b, dict) and b["k"] == "cast":
            b = b["e"]
        if b["k"] == "un" and b["op"] == "*":
            return self.origin(f, b["e"])
        if b["k"] == "this":
            return {FRESH}
        if b["k"] in ("ref", "bind"):
            if "g" in b:
                return {SHARED}
            defs, _, _, _, pidx = self.loc[f["id"]]
            if b["d"] in pidx:
                return {("p", pidx[b["d"]])} if is_ref_t(f["ps"][pidx[b["d"]]]["t"]) else {FRESH}
            out = set()
            for kind, init, n in defs.get(b["d"], ()):
                if kind == "ref" and init is not None:
                    out |= self.objorigin(f, init)
                else:
                    out.add(FRESH)
            return out
        if b["k"] == "idx" or (b["k"] == "opcall" and b.get("op") == "[]"):
            return {UNK}
        return {UNK}

    def ptr_target(self, f, p, seen=()):
        """lvalue *p where p is a pointer/iterator: only matters when it can point into a node"""
        while isinstance(p, dict) and p["k"] == "cast":
            p = p["e"]
        if not isinstance(p, dict):
            return []
        k = p["k"]
        t = strip_t(p.get("t", ""))
        if strip_t(t.rstrip("*").strip()) in NODES:
            return [("node", self.origin(f, p), "*")]
        if k == "un" and p["op"] == "&":
            return self.target(f, p["e"])
        if k in ("ref", "bind") and "g" not in p:
            d = p["d"]
            if d in seen:
                return []
            defs, _, _, _, pidx = self.loc[f["id"]]
            out = [("param", pidx[d])] if d in pidx else []
            for kind, init, n in defs.get(d, ()):
                if init is not None:
                    out += self.ptr_target(f, init, seen + (d,))
            return out
        if k in ("bin",):
            return self.ptr_target(f, p.get("a"), seen) + self.ptr_target(f, p.get("b"), seen)
        if k in ("call", "mcall", "opcall"):
            fn = p.get("f") or {}
            if self.by_id.get(fn.get("def")) is not None:
                return []
            out = []
            if k == "mcall" and fn.get("name") in ("begin", "end", "data", "rbegin", "rend", "front", "back", "at"):
                return self.target(f, p["b"]) if not p["arrow"] else self.ptr_target(f, p["b"], seen)
            for x in p.get("a") or []:
                out += self.ptr_target(f, x, seen)
            return out
        if k == "cond":
            return self.ptr_target(f, p["a"], seen) + self.ptr_target(f, p["b"], seen)
        return []

    # ------------------------------------------------------------ fixpoint
    def solve(self):
        for f in self.fs:
            self.sites[f["id"]] = []
        for _ in range(12):
            changed = False
            for f in self.fs:
                if is_table(f.get("cls")) or strip_t(f.get("cls") or "") in NODES:
                    continue
                defs, writes, calls, rets, pidx = self.loc[f["id"]]
                res = []
                for lv, n in writes:
                    for t in self.target(f, lv):
                        res.append((t, n, "write"))
                for fn, args, obj, n in calls:
                    g = self.by_id.get(fn.get("def"))
                    cls = strip_t(fn.get("clsT") or fn.get("cls") or "")
                    for i, a in enumerate(args):
                        pt = fn["pt"][i] if i < len(fn.get("pt", ())) else ""
                        if g is not None:
                            if i in self.wref.get(g["id"], ()):
                                for t in self.target(f, a) if is_ref_t(pt) else self.ptr_target(f, a):
                                    res.append((t, n, "through " + g["name"]))
                            for fld in self.wnode.get(g["id"], {}).get(i, ()):
                                res.append((("node", self.origin(f, a), fld), n, "through " + g["name"]))
                        elif is_ref_t(pt) and not const_ref_t(pt) and not pt.endswith("&&"):
                            for t in self.target(f, a):
                                res.append((t, n, "passed to " + fn.get("name", "")))
                    if is_table(cls) and fn.get("name") == "returnNode" and args:
                        res.append((("node", self.origin(f, args[0]), "(freed)"), n, "returned to the free store"))
                    if obj is not None and fn.get("name") in ("fill", "swap", "assign", "push_back", "clear", "resize", "emplace_back") and g is None:
                        if n["k"] == "mcall" and not n["arrow"]:
                            for t in self.target(f, obj):
                                res.append((t, n, fn["name"]))
                for t, n, how in res:
                    if t[0] == "param":
                        s = self.wref.setdefault(f["id"], set())
                        if t[1] not in s:
                            s.add(t[1])
                            changed = True
                    else:
                        for o in t[1]:
                            if isinstance(o, tuple):
                                s = self.wnode.setdefault(f["id"], {}).setdefault(o[1], set())
                                if t[2] not in s:
                                    s.add(t[2])
                                    changed = True
                self.sites[f["id"]] = [(t, n, how) for t, n, how in res if t[0] == "node"]
            if not changed:
                break

    def report(self):
        """[(function, line, field, how, origins)] for every node write site; a parameter origin of a function
        nobody in the unit calls counts as SHARED (its caller already owns the node)"""
        out = []
        for f in self.fs:
            for t, n, how in self.sites[f["id"]]:
                og = set()
                for o in t[1]:
                    if isinstance(o, tuple):
                        cs = [c for c in self.calls.get(f["id"], ()) if c[0] is not f]
                        if not cs:
                            og.add(SHARED)
                    else:
                        og.add(o)
                out.append((f, n.get("l", 0), t[2], how, og))
        return out
