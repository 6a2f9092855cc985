"""The seam between the Python layer and the compiled engine.  The evaluation of circuits is interpreted for
every kind of instruction in every mode; each engine call that is reached is matched against the bindings of
the builds that mode runs on (name, number of arguments, kinds that are known).  Every advertised gate name is
traced to a path that executes it.  The routines bound in qdd/bindings.cpp are interpreted: what they hand to
the engine is their own arguments, unchanged, in order."""
import ast, os
from ..binds import table, walk
from ..runjob import RunJob, flat
from ..pyback import Backend, MODES, ONE, TWO, OTHER, NAMES, main_loops, alllogs
from ..pyev import T, mk, sym, show, Ref, isconst, subterms
from ..cxev import Interp as CX, St
from .. import terms as ct
from ..terms import isT
from ..summ import Summ, Und, Edge, Node, Cell
from .b01 import mkpart, run_part, merge_run, WH
from . import e01

R1 = "every engine entry point the Python layer names is bound in the builds the mode runs on"
R2 = "an engine call passes the number and kinds of arguments its binding takes"
R3 = "an advertised gate is executed, not refused"
R4 = "a gate name passed to the engine is one the engine has a matrix for"
R5 = "a bound routine hands its own arguments on to the engine routine of its name, unchanged and in order, and hands back its result"
R6 = "the routine bound under a matrix name computes the standard matrix of that name"

# Qiskit's name -> the operation classes that bear it
CLASSES = {}
for k, n in NAMES.items():
    CLASSES.setdefault(n, []).append(k)
CLASSES["qdd"] = ["QDDGate"]
CLASSES["unitary"] = ["UnitaryGate"]


def repo():
    return os.environ.get("QSA_REPO", "/repo")


# ------------------------------------------------------------------ names in the source
def named(path):
    """attributes of the compiled module used in a file -> {name: line}"""
    tree = ast.parse(open(path).read())
    alias, out = set(), {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom):
            if n.module and n.module.split(".")[-1] == "pyQDD":
                for a in n.names:
                    if a.name != "*":
                        out.setdefault(a.name, n.lineno)
            for a in n.names:
                if a.name == "pyQDD":
                    alias.add(a.asname or a.name)
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[-1] == "pyQDD":
                    alias.add(a.asname or a.name.split(".")[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
            out.setdefault(n.attr, n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 \
                and isinstance(n.args[0], ast.Name) and n.args[0].id in alias and isinstance(n.args[1], ast.Constant):
            out.setdefault(n.args[1].value, n.lineno)
    return out


def classes(U):
    """Python names of bound classes and other attributes of the module"""
    out = set()
    for f in U["funcs"]:
        if f["name"].startswith("pybind11_init_") and f.get("body") is not None:
            for n in walk(f["body"]):
                if n.get("k") == "ctor" and "class_<" in str(n.get("cls", "")) + str(n.get("t", "")):
                    for a in n.get("a", []):
                        if isinstance(a, dict) and a.get("k") == "str":
                            out.add(a["v"])
                fn = n.get("f") or {}
                if fn.get("name") in ("attr",) and n.get("a") and n["a"][0].get("k") == "str":
                    out.add(n["a"][0]["v"])
    return out


# ------------------------------------------------------------------ calls
def strip(t):
    t = (t or "").strip()
    for x in ("const ", "&", "&&"):
        t = t.replace(x, "")
    return t.strip()


def kind(t, binds, lists=("list", "append", "map", "flatmap", "concat")):
    if isinstance(t, bool):
        return "bool"
    if isinstance(t, int):
        return "int"
    if isinstance(t, float):
        return "float"
    if isinstance(t, str):
        return "str"
    if t is None:
        return "None"
    if not isinstance(t, T):
        return None
    if t.op in lists:
        return "list"
    if t.op in ("dict", "dictmap"):
        return "dict"
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pyQDD."):
        rs = {strip(b.ret) for b in binds if b.owner == "" and b.name == t.a[0][6:] and b.ret}
        return ("cx", rs.pop()) if len(rs) == 1 else None
    if t.op == "idx" and isinstance(t.a[0], T) and t.a[1] in (0, 1):
        k = kind(t.a[0], binds)
        if isinstance(k, tuple) and k[1].startswith("std::pair<"):
            a = k[1][10:-1]
            return ("cx", strip(a.split(",", 1)[0])) if t.a[1] == 0 else ("cx", strip(a.split(",", 1)[1]))
    if t.op == "mcall" and t.a[1] == "to_matrix":
        return "matrix"
    if t.op == "attr" and t.a[1] in ("global_phase",):
        return "float"
    if t.op == "op":
        return "python"
    return None


INTS = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "std::size_t", "unsigned char", "signed char", "bool")


def compat(k, ty):
    """may a value of this kind be converted to the C++ parameter type; None when not known"""
    ty = strip(ty)
    vec = ty.startswith(("std::vector", "std::array", "std::list"))
    if k is None:
        return None
    if isinstance(k, tuple):
        if k[1] == ty:
            return True
        if k[1].startswith("std::array") and vec or k[1].startswith("std::vector") and vec:
            return k[1].replace("std::array", "std::vector").split("<")[1] == ty.replace("std::array", "std::vector").split("<")[1] or None
        return False if k[1] in ("vEdge", "mEdge") or ty in ("vEdge", "mEdge") else None
    if ty in ("vEdge", "mEdge"):
        return False
    if k == "str":
        return "string" in ty or ty == "char"
    if k in ("int", "bool"):
        return ty in INTS or ty in ("double", "float")
    if k == "float":
        return ty in ("double", "float")
    if k == "list":
        return vec or ty.startswith("std::set")
    if k == "None":
        return False
    if k == "matrix":
        return None if vec or "Eigen" in ty or "Matrix" in ty else False
    if k in ("dict", "python"):
        return False
    return None


def match(ctx, key, where, ev, binds, unit):
    n = ev.name[6:]
    bs = [b for b in binds if b.owner == "" and b.name == n]
    if not bs:
        ctx.bad(key, where, R1, "%s is not bound in the %s build" % (n, unit))
        return False
    if ev.kw:
        ctx.check(None, key, where, R2, "named arguments of %s" % n)
        return None
    if any(isinstance(a, T) and a.op == "star" for a in ev.args):
        ctx.check(None, key, where, R2, "unpacked arguments of %s" % n)
        return None
    ks = [kind(a, binds) for a in ev.args]
    why = None
    for b in bs:
        if b.pt is None:
            return None
        if not b.nmin() <= len(ks) <= b.nmax():
            why = why or "%s takes %s arguments, %d are passed" % (n, " or ".join(str(len(x.pt)) for x in bs if x.pt is not None), len(ks))
            continue
        r = [compat(k, t) for k, t in zip(ks, b.pt)]
        if any(x is False for x in r):
            i = [x is False for x in r].index(True)
            why = "argument %d of %s is %s, the engine takes %s" % (i + 1, n, show(ev.args[i])[:40] if not isinstance(ks[i], tuple) else ks[i][1], b.pt[i])
            continue
        return True
    ctx.bad(key, where, R2, why)
    return False


UNITS = {"mpi": ["mpib"], "one": ["defb", "mtb"], "mt": ["mtb"]}
UNAME = {"mpib": "distributed", "defb": "plain", "mtb": "multi-threaded"}


def names_in(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, T) and t.op in ("ite", "cond", "phi"):
        for x in t.a:
            yield from names_in(x)


def run_calls(ctx, job):
    k, nq, nc, mode, stable, fac = job
    key = "%s on %d qubits, %s%s" % (k, nq, mode, {True: "", False: ", per shot", None: ", exact"}[stable])
    ctx.guard(key, WH, R2, run_calls1, ctx, k, nq, nc, mode, stable, fac, key)


def run_calls1(ctx, k, nq, nc, mode, stable, fac, key):
    tabs, gates = fac
    B = Backend()
    if mode == "merged":
        run, _ = merge_run(B, k, nq, nc)
    elif stable is None:
        run = run_part(B, mkpart(k, nq, nc), mode, False, shots=False)
    else:
        run = run_part(B, mkpart(k, nq, nc), mode, stable)
    evs = []
    for p in run.paths:
        evs += [e for e in alllogs(p.snap.log)]
    for info in run.hooks.swap_calls.values():
        for p in info.get("paths", []):
            evs += [e for e in alllogs(p.snap.log)]
    done, res = set(), True
    for e in evs:
        if e.kind != "call" or not isinstance(e.name, str) or not e.name.startswith("pyQDD."):
            continue
        s = (e.name, e.line, e.args, e.kw)
        if s in done:
            continue
        done.add(s)
        for u in UNITS["one" if mode == "merged" else "mpi" if MODES[mode][0] else "one"]:
            r = match(ctx, key, "%s:%s" % (WH, e.line), e, tabs[u], UNAME[u])
            if r is False:
                return
        if e.name == "pyQDD.makeGate" and len(e.args) > 1 and gates is not None:
            for g in names_in(e.args[1]):
                if g not in gates:
                    ctx.bad(key, "%s:%s" % (WH, e.line), R4, "the engine has no gate named %r" % g)
                    return
    ctx.count("engine calls matched", len(done))
    if done:
        ctx.ok(key, WH, R2)


def run_mt(ctx, job):
    n, tabs = job
    key = "run with %s threads" % n
    ctx.guard(key, WH, R1, run_mt1, ctx, n, tabs, key)


def run_mt1(ctx, n, tabs, key):
    R = RunJob()
    it = R.interp("list")
    it.heap[R.optobj.o].items["n_threads"] = n
    it.heap[R.optobj.o].items["shots"] = 1024
    for p in R.run({}):
        for e in flat(p.snap.log):
            if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("pyQDD."):
                for u in UNITS["mt" if n > 1 else "one"]:
                    if match(ctx, key, "%s:%s" % (WH, e.line), e, tabs[u], UNAME[u]) is False:
                        return
    ctx.ok(key, WH, R1)


# ------------------------------------------------------------------ advertised gates
def gate(ctx, job):
    name, k, nq = job
    key = "%s (%s on %d qubits)" % (name, k, nq)
    ctx.guard(key, WH, R3, gate1, ctx, name, k, nq, key)


def gate1(ctx, name, k, nq, key):
    B = Backend()
    tot = 0
    for mode in ("one process", "distributed"):
        for stable in ((True, False) if k != "Reset" else (False,)):
            run = run_part(B, mkpart(k, nq), mode, stable)
            ms = main_loops(run)
            if not ms:
                if all(p.kind == "raise" for p in run.paths):
                    ctx.bad(key, WH, R3, "every circuit with it is refused")
                    return
                ctx.und(key, WH, R3, "loop over the instructions not found")
                return
            ends = [e for m in ms for e in m.rec.ends]
            if not any(e.kind == "next" for e in ends):
                ctx.bad(key, WH, R3, "it is refused (%s)" % mode)
                return
            tot += 1
    ctx.ok(key, WH, R3)
    ctx.count("advertised gate, class and mode combinations", tot)


def advertised(B):
    it = B.interp({"cls": None, "nq": 0})
    c = B.B.vars.get("_DEFAULT_CONFIG")
    l = it.subscript(c, "basis_gates")
    l = it.tolist(l) if not isinstance(l, list) else l
    if l is None or not all(isinstance(x, str) for x in l):
        return None
    return l


# ------------------------------------------------------------------ bound routines
class Called:
    def __init__(self, name, args):
        self.name, self.args = name, args


class After:
    def __init__(self, c, i):
        self.c, self.i = c, i


class MapGet:
    def __init__(self, m, k):
        self.m, self.k = m, k


class W(Summ):
    """engine calls stand for themselves"""

    def subcall(self, e, B):
        c = Called(e.name, [])
        for a in e.args:
            if isinstance(a, T_) and a.op == "addr":
                c.args.append(("addr", ct.show(a)))
            else:
                c.args.append(self.ev(a, B))
        B[e.res] = c
        for i in range(len(e.args)):
            B[ct.mk("after", e.name, i, e.res)] = After(c, i)
            B[ct.mk("after", e.name, i + 1, e.res)] = After(c, i + 1) if i + 1 >= len(e.args) else None
        for i in range(len(e.args)):
            B[ct.mk("after", e.name, i, e.res)] = After(c, i)
        self.called.append(c)

    def _ev(self, t, B):
        if t.op == "pair":
            return ("pair", self.ev(t.args[0], B), self.ev(t.args[1], B))
        if t.op in ("emptymap", "emptyset"):
            return frozenset()
        if t.op == "setins":
            s = self.ev(t.args[0], B)
            x = self.ev(t.args[1], B)
            if not isinstance(s, (frozenset, list)):
                raise Und("insertion into " + ct.show(t.args[0])[:60])
            return frozenset(s) | {tuple(sorted(x.items(), key=lambda y: y[0])) if isinstance(x, dict) else x}
        if t.op == "mapget":
            return MapGet(ct.show(t.args[0]), self.ev(t.args[1], B))
        if t.op == "glob":
            return t
        if t.op == "num":
            return t
        if t.op == "poly" and any(isinstance(B.get(a), (Called, After)) for a in ct.atoms(t)):
            return ("computed", ct.show(t))
        return super()._ev(t, B)


T_ = ct.T


def elems(s):
    """controls as {(qubit, type)}"""
    out = set()
    for x in s:
        d = dict(x) if isinstance(x, tuple) else None
        if d is None or "qubit" not in d:
            return None
        out.add((d["qubit"], d.get("type")))
    return out


def wrappers(ctx, job):
    unit, used = job
    U = ctx.unit(unit)
    bs = table(U)
    by = {f["id"]: f for f in U["funcs"] if f.get("body") is not None}
    it = CX(U, opaque=lambda fd: not str(fd.get("file", "")).endswith("bindings.cpp"), const_globals=())
    it.no_merge = True
    mats = matnames()
    main = ctx.unit(unit[:-1]) if any(b.name in mats for b in bs) else None
    for b in bs:
        if b.owner != "" or b.name not in used or not b.fn:
            continue
        d = by.get(b.fn.get("def")) or by.get(b.fn.get("id"))
        if b.name in mats:
            key = "%s, %s" % (b.name, UNAME[unit])
            ctx.guard(key, "qdd/bindings.cpp:%s" % b.line, R6, matrix, ctx, U, main, b, d, mats[b.name], key)
            continue
        if d is None or not d["file"].endswith("bindings.cpp"):
            # the engine routine itself is bound
            key = "%s/%d, %s" % (b.name, len(b.pt or ()), UNAME[unit])
            same = b.fn.get("name", "").lstrip("_") == b.name
            known = {x.name for x in bs}
            if same:
                ctx.ok(key, "qdd/bindings.cpp:%s" % b.line, R5)
            elif b.fn.get("name") in known:
                ctx.bad(key, "qdd/bindings.cpp:%s" % b.line, R5, "%s is bound under this name" % b.fn["name"])
            continue
        key = "%s/%d, %s" % (b.name, len(d["ps"]), UNAME[unit])
        ctx.saw(d["name"])
        if b.name in ("getVector", "getVectorMPI", "applyGlobal", "setSeed", "initMT") or not any(p for p in d["ps"]):
            continue                     # copies: E10, phase: below, seeding: B12
        ctx.guard(key, "qdd/bindings.cpp:%s" % b.line, R5, wrapper, ctx, unit, it, b, d, key, bs)
    for b in bs:
        if b.owner == "" and b.name == "applyGlobal" and b.fn:
            d = by.get(b.fn.get("def")) or by.get(b.fn.get("id"))
            if d is not None:
                ctx.guard("applyGlobal", "qdd/bindings.cpp:%s" % b.line, R5, phase, ctx, unit, it, b, d)


def matnames():
    one, two, _ = e01.refs()
    out = {}
    for k, v in {**one, **two}.items():
        out[k.replace("_matrix", "mat") if "_" in k else (k + "mat" if k in ("rx", "ry", "rz") else k)] = v
    return out


def matrix(ctx, U, main, b, d, ref, key):
    """the function bound under a matrix name computes that matrix"""
    wh = "qdd/bindings.cpp:%s" % b.line
    V = U
    if d is None:
        V = main
        fs = [f for f in main["funcs"] if f["name"].split("::")[-1] == b.fn.get("name", "").split("::")[-1] and f.get("body") is not None
              and len(f["ps"]) == len(b.pt or ())]
        if len(fs) != 1:
            ctx.und(key, wh, R6, "function %s not found" % b.fn.get("name"))
            return
        d = fs[0]
    it = CX(V)
    bad, n = None, 0
    for tag, v, s in it.run(d, [ct.sym("real:p%d" % i) for i in range(len(d["ps"]))]):
        if tag != "ret":
            bad = "it does not return"
            break
        xs = e01.flat(v)
        if xs is None or len(xs) != len(ref):
            ctx.und(key, wh, R6, "matrix not resolved: " + ct.show(v)[:100])
            return
        for j, (x, r) in enumerate(zip(xs, ref)):
            l = e01.to_laurent(x)
            n += 1
            if not l.close(r):
                bad = "entry %d is %s, standard value is %s" % (j, l, e01.lift(r))
                break
    ctx.check(bad is None, key, wh, R6, bad)
    ctx.count("matrix entries compared", n)


def phase(ctx, unit, it, b, d):
    key = "applyGlobal(%s), %s" % (strip(b.pt[0]), UNAME[unit])
    wh = "qdd/bindings.cpp:%s" % b.line
    P = [ct.sym("P0"), ct.sym("P1")]
    for r in it.run(d, P):
        if r[0] != "ret":
            ctx.bad(key, wh, R5, "it does not return")
            return
        v = r[1]
        if not (isinstance(v, T_) and v.op == "rec"):
            ctx.und(key, wh, R5, "returns " + ct.show(v)[:80])
            return
        f = dict(v.args[1])
        w = ct.mk("f", P[0], "w")
        ph = ct.padd(ct.mk("cos", P[1]), ct.pmul(ct.I, ct.mk("sin", P[1])))
        want = ct.pmul(w, ph)
        if f.get("n") is not ct.mk("f", P[0], "n"):
            ctx.bad(key, wh, R5, "another node is returned: " + ct.show(f.get("n"))[:60])
            return
        if f.get("w") is not want:
            known = all(a is w or a is ct.I or a.op in ("cos", "sin") and a.args[0] is P[1] or a.op in ("sym", "poly") for a in ct.atoms(f["w"]))
            ctx.check(False if known else None, key, wh, R5, "the weight becomes %s" % ct.show(f["w"])[:100])
            return
    ctx.ok(key, wh, R5)


def wrapper(ctx, unit, it, b, d, key, bs):
    wh = "qdd/bindings.cpp:%s" % d["l"]
    S = W(it, {"vNode": Node(ct.num(-1)), "mNode": Node(ct.num(-1))})
    S.bufs, S.called = [], []
    vals, controls = [], {}
    for i, p in enumerate(d["ps"]):
        t = strip(p["t"])
        if t.startswith("std::vector<int") or t.startswith("std::vector<long") or t.startswith("std::vector<unsigned"):
            vals.append([ct.num(5), ct.num(2), ct.num(9)])
            controls[i] = {5, 2, 9}
        else:
            vals.append(ct.sym("P%d" % i))
    outs = []
    for v in range(2):
        S.bufs, S.called, S.steps = [], [], 0
        vv = [([] if v and i in controls else x) for i, x in enumerate(vals)]
        try:
            r, o, B = S.call(d, vv)
        except Und as x:
            ctx.und(key, wh, R5, str(x)[:200])
            return
        eng = [c for c in S.called if c.name.split("::")[-1].rstrip("0123456789") in {x.name.rstrip("0123456789") for x in bs}]
        if len(eng) != 1:
            ctx.check(None if not S.called or eng else False, key, wh, R5, "engine calls made: %s" % [c.name for c in S.called])
            return
        c = eng[0]
        n = c.name.split("::")[-1].rstrip("0123456789")
        if n != b.name.rstrip("0123456789"):
            ctx.bad(key, wh, R5, "the engine's %s is called" % c.name)
            return
        seq = []
        for a in c.args:
            if isinstance(a, MapGet) and a.m == "glob(gateMap)" and a.k in vv:
                seq.append(vv.index(a.k))
            elif isinstance(a, T_) and a.op == "sym" and a in vv:
                seq.append(vv.index(a))
            elif isinstance(a, (frozenset, list)):
                es = elems(a)
                k = [i for i in controls]
                if es is None or len(k) != 1:
                    ctx.und(key, wh, R5, "list handed to the engine")
                    return
                want = set() if v else controls[k[0]]
                if {ct.cint(q) for q, _ in es} != want:
                    ctx.bad(key, wh, R5, "controls %s reach the engine as %s" % (sorted(want), sorted(ct.cint(q) for q, _ in es)))
                    return
                if any(ct.cint(t) != 1 for _, t in es):
                    ctx.bad(key, wh, R5, "controls reach the engine with another type")
                    return
                seq.append(k[0])
            elif isinstance(a, (Called, After, tuple, MapGet)):
                ctx.und(key, wh, R5, "argument of another form")
                return
            elif isinstance(a, T_) and a.op == "poly" and any(x in vv for x in ct.atoms(a)):
                ctx.bad(key, wh, R5, "the engine is given %s" % ct.show(a)[:60])
                return
        if seq != list(range(len(vv))):
            ctx.bad(key, wh, R5, "arguments reach the engine as %s of %d" % (seq, len(vv)))
            return
        # what comes back
        if r is not c:
            if isinstance(r, tuple) and r[0] == "pair":
                st = [i for i, a in enumerate(c.args) if a is vv[0]]
                if r[2] is not c:
                    ctx.bad(key, wh, R5, "the outcome handed back is not the engine's")
                    return
                if not (isinstance(r[1], After) and r[1].c is c and r[1].i in st):
                    ctx.check(False if r[1] is vv[0] else None, key, wh, R5, "the state handed back is not the one after the call")
                    return
            else:
                ctx.check(False if isinstance(r, tuple) or isinstance(r, T_) and (r in vv or ct.const(r) is not None) else None, key, wh, R5, "hands back something else than the engine's result")
                return
    ctx.ok(key, wh, R5)
    ctx.count("bound routines interpreted")


def gatemap(ctx):
    """names in the engine's gate table"""
    it = CX(ctx.unit("defb"), const_globals={"gateMap"})
    gm = it.global_val(St(), "gateMap")
    out = set()
    while isT(gm, "mapset"):
        k = gm.args[1]
        if not isT(k, "str"):
            return None
        out.add(k.args[0])
        gm = gm.args[0]
    return out if isT(gm, "emptymap") else None


def check(ctx):
    ctx.explanation = "engine calls of every instruction kind and mode against the bindings of three builds; advertised gates; the routines of qdd/bindings.cpp"
    tabs = {u: table(ctx.unit(u)) for u in ("defb", "mtb", "mpib")}
    attrs = {u: classes(ctx.unit(u)) for u in tabs}
    gates = gatemap(ctx)
    if not gates:
        ctx.und("gate table", "qdd/bindings.cpp", R4, "the engine's table of gate names was not found")
        gates = None
    used = {}
    for f in sorted(os.listdir(os.path.join(repo(), "qdd"))):
        if f.endswith(".py"):
            for n, l in named(os.path.join(repo(), "qdd", f)).items():
                used.setdefault(n, "qdd/%s:%s" % (f, l))
    for n, wh in sorted(used.items()):
        if n.startswith("__"):
            continue
        us = [u for u in tabs if any(b.owner == "" and b.name == n for b in tabs[u]) or n in attrs[u]]
        if not us:
            ctx.bad(n, wh, R1, "%s is not bound in any build" % n)
        else:
            ctx.ok(n, wh, R1)
    B = Backend()
    adv = advertised(B)
    jobs = []
    if adv is None:
        ctx.und("basis gates", WH, R3, "the list of advertised gates is not a list of names")
    else:
        for n in adv:
            if n not in CLASSES:
                ctx.und(n, WH, R3, "no operation of that name is known here")
                continue
            for k in CLASSES[n]:
                nqs = (ONE.get(k) or TWO.get(k) or (0, 0, {"QDDGate": [3]}.get(k, [1])))[2]
                for q in nqs:
                    jobs.append((n, k, q))
    ctx.spread(gate, jobs)
    fac = (tabs, gates)
    jobs = []
    for mode in MODES:
        for k, v in list(ONE.items()) + list(TWO.items()):
            nqs = v[2] if ctx.thorough else v[2][:2]
            for nq in nqs:
                jobs.append((k, nq, 0, mode, True, fac))
                if ctx.thorough:
                    jobs.append((k, nq, 0, mode, False, fac))
        for k, nq, nc in [("UnitaryGate", 1, 0), ("UnitaryGate", 2, 0), ("QDDGate", 3, 0), ("Measure", 1, 1), ("Reset", 1, 0), ("Barrier", 2, 0)]:
            for stable in (True, False, None):
                if k == "Reset" and stable:
                    continue
                jobs.append((k, nq, nc, mode, stable, fac))
    for k, v in list(ONE.items()) + list(TWO.items()):
        jobs.append((k, v[2][0], 0, "merged", True, fac))
    for k, nq in (("UnitaryGate", 2), ("QDDGate", 3), ("Barrier", 2), ("Measure", 1)):
        jobs.append((k, nq, 1 if k == "Measure" else 0, "merged", True, fac))
    ctx.spread(run_calls, jobs)
    ctx.spread(run_mt, [(n, tabs) for n in (1, 2)])
    for u in tabs:
        wrappers(ctx, (u, set(used) | {x.name for x in tabs[u] if x.owner == ""} & set(used)))
