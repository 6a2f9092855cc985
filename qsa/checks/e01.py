"""Every fixed and parameterised gate matrix of the engine is interpreted abstractly over
symbolic angles, each entry is normalised to a sum of exponentials exp(i*linear form), and
the result is compared, entry by entry and for all angles at once, with the standard unitary
of that name.  Covered: matrix-returning functions, the constants, the name table of the
Python module and the matrices handed on by the RX/RY/... wrappers."""
from ..cxev import Interp, St
from ..dump import AnalysisError
from ..terms import *
from ..laurent import *

R2 = 2 ** -0.5
C = lambda k=1, p="p0": cosL({p: Fraction(k) / 2})
S = lambda k=1, p="p0": sinL({p: Fraction(k) / 2})
E = lambda **kw: expi({k: Fraction(v) for k, v in kw.items()})


def _h(p, q):
    return Fraction(p, q)


def refs():
    c, s = C(), S()
    ep = expi({"p0": _h(1, 2)})
    em = expi({"p0": _h(-1, 2)})

    def u(th, ph, la, ga=None):
        g = ga if ga is not None else lift(1)
        # th: (cos(th/2), sin(th/2))
        ct, st = th
        return [g * ct, -1 * (g * la * st), g * ph * st, g * ph * la * ct]
    one = {
        "rx": [c, -1j * s, -1j * s, c],
        "ry": [c, -1 * s, s, c],
        "rz": [em, 0, 0, ep],
        "p": [1, 0, 0, E(p0=1)],
        "u1": [1, 0, 0, E(p0=1)],
        "u2": [R2, -R2 * E(p1=1), R2 * E(p0=1), R2 * (E(p0=1) * E(p1=1))],
        "u3": u((c, s), E(p1=1), E(p2=1)),
        "u": u((c, s), E(p1=1), E(p2=1), E(p3=1)),
        "r": [c, -1j * (E(p1=-1) * s), -1j * (E(p1=1) * s), c],
    }
    z = 0
    two = {
        "rxx_matrix": [c, z, z, -1j * s, z, c, -1j * s, z, z, -1j * s, c, z, -1j * s, z, z, c],
        "ryy_matrix": [c, z, z, 1j * s, z, c, -1j * s, z, z, -1j * s, c, z, 1j * s, z, z, c],
        "rzz_matrix": [em, z, z, z, z, ep, z, z, z, z, ep, z, z, z, z, em],
        # index = (bit of target0, bit of target1); Z on target1, X on target0
        "rzx_matrix": [c, z, -1j * s, z, z, c, z, 1j * s, -1j * s, z, c, z, z, 1j * s, z, c],
        "swap_matrix": [1, z, z, z, z, z, 1, z, z, 1, z, z, z, z, z, 1],
        "iswap_matrix": [1, z, z, z, z, z, 1j, z, z, 1j, z, z, z, z, z, 1],
    }
    h = 0.5
    fixed = {
        "I": [1, 0, 0, 1], "H": [R2, R2, R2, -R2], "X": [0, 1, 1, 0], "Y": [0, -1j, 1j, 0], "Z": [1, 0, 0, -1],
        "S": [1, 0, 0, 1j], "Sdag": [1, 0, 0, -1j], "T": [1, 0, 0, R2 + R2 * 1j], "Tdag": [1, 0, 0, R2 - R2 * 1j],
        "SX": [h + h * 1j, h - h * 1j, h - h * 1j, h + h * 1j], "SXdag": [h - h * 1j, h + h * 1j, h + h * 1j, h - h * 1j],
        "V": [R2, -R2 * 1j, -R2 * 1j, R2], "Vdag": [R2, R2 * 1j, R2 * 1j, R2],
    }
    return one, two, fixed


def flat(v):
    if isT(v, "arr") or isT(v, "vec"):
        out = []
        for x in v.args[0]:
            f = flat(x)
            if f is None:
                return None
            out += f
        return out
    if isinstance(v, T):
        return [v]
    return None


def entries(ctx, key, where, val, ref, rule):
    xs = flat(val)
    if xs is None or len(xs) != len(ref):
        ctx.und(key, where, rule, "matrix shape not resolved: " + show(val)[:200])
        return
    for j, (x, r) in enumerate(zip(xs, ref)):
        def one():
            l = to_laurent(x)
            ctx.check(l.close(r), f"{key}[{j}]", where, rule, f"entry {j} is {l}, standard value is {lift(r)}")
        ctx.guard(f"{key}[{j}]", where, rule, one)


def check(ctx):
    U, B = ctx.load(["def", "defb"])
    one, two, fixed = refs()
    it = Interp(U)
    rule = "matrix entry equals the standard unitary for every angle"
    for name, ref in {**one, **two}.items():
        f = it.find(name)
        where = f"{f['file']}:{f['l']} {name}"
        ctx.saw(where)

        def body():
            rs = it.run(f, [sym(f"real:p{i}") for i in range(len(f["ps"]))])
            ctx.count("paths", len(rs))
            for tag, v, s in rs:
                if tag != "ret":
                    ctx.bad(name, where, rule, "function throws")
                    continue
                entries(ctx, name, where, v, ref, rule)
        ctx.guard(name, where, rule, body)
    # constants
    for name, ref in fixed.items():
        g = name + "mat"
        if g not in it.globals:
            raise AnalysisError("constant not found: " + g)
        v = it.global_val(St(), g)
        where = f"include/common.h {g}"
        ctx.saw(where)
        entries(ctx, g, where, v, ref, rule)
    # name table
    i2 = Interp(B, const_globals={"gateMap"})
    gm = i2.global_val(St(), "gateMap")
    tab = {}
    while isT(gm, "mapset"):
        k = gm.args[1]
        tab.setdefault(k.args[0] if isT(k, "str") else show(k), gm.args[2])
        gm = gm.args[0]
    if not isT(gm, "emptymap"):
        ctx.und("gateMap", "qdd/bindings.cpp gateMap", rule, "table initialiser not resolved")
    ctx.saw("qdd/bindings.cpp gateMap")
    for name, v in sorted(tab.items()):
        if name in fixed:
            entries(ctx, f"gateMap[{name}]", "qdd/bindings.cpp gateMap", v, fixed[name], rule)
    for name in fixed:
        if name not in tab and isT(gm, "emptymap"):
            ctx.bad(f"gateMap[{name}]", "qdd/bindings.cpp gateMap", "every named gate is in the table", f"no entry for {name}")
    # wrappers: matrix passed to the gate builder
    X = fixed["X"]
    wr = {"RX": one["rx"], "RY": one["ry"], "RZ": one["rz"], "CX": X, "RXX": two["rxx_matrix"], "RYY": two["ryy_matrix"],
          "RZZ": two["rzz_matrix"], "RZX": two["rzx_matrix"], "ISWAP": two["iswap_matrix"], "CSWAP": two["swap_matrix"]}
    i3 = Interp(U, opaque={"makeGate", "makeTwoQubitGate", "makeLargeGate", "mm_multiply", "mm_kronecker"})
    for name, ref in wr.items():
        f = i3.find(name)
        where = f"{f['file']}:{f['l']} {name}"
        ctx.saw(where)

        def body():
            ps = [sym("n"), sym("t")] + [sym(f"x{i}") for i in range(2, len(f["ps"]))]
            if len(ps) and f["ps"][-1]["t"] == "double":
                ps[len(f["ps"]) - 1] = sym("real:p0")
            for tag, v, s in i3.run(f, ps[:len(f["ps"])]):
                calls = [e for e in s.log if e.kind == "call" and e.name in ("makeGate", "makeTwoQubitGate")]
                if len(calls) != 1:
                    ctx.und(name, where, rule, f"{len(calls)} builder calls")
                    continue
                entries(ctx, name, where, calls[0].args[1], ref, rule)
        ctx.guard(name, where, rule, body)
