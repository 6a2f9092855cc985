"""complex arithmetic and tolerance predicates of the engine, decided on the real component formulas"""
import itertools
from ..cxev import Interp, St, Ref, TooHard
from ..terms import *

RULE_A = "complex operator computes the complex operation on its components, also when both operands are the same object"
RULE_P = "tolerance predicate holds exactly when both components are within the tolerance"


def R(x):
    return sym("real:" + x)


def rec(x):
    return mk("rec", "Complex", (("r", R(x + "r")), ("i", R(x + "i"))))


def parts(it, st, v):
    if isinstance(v, Ref):
        v = it.read(st, v.lv)
    return it.proj(st, v, ("f", "r")), it.proj(st, v, ("f", "i"))


def inv_norm(t):
    """clear inv(x) atoms: returns (numerator-like poly, {inv args})"""
    return t


def ref_op(op, a, b):
    (ar, ai), (br, bi) = a, b
    if op == "+":
        return padd(ar, br), padd(ai, bi)
    if op == "-":
        return psub(ar, br), psub(ai, bi)
    if op == "*":
        return psub(pmul(ar, br), pmul(ai, bi)), padd(pmul(ar, bi), pmul(ai, br))
    n = padd(pmul(br, br), pmul(bi, bi))
    return pdiv(padd(pmul(ar, br), pmul(ai, bi)), n), pdiv(psub(pmul(ai, br), pmul(ar, bi)), n)


def arithmetic(ctx, U):
    it = Interp(U, complex_native=False)
    it.no_merge = True

    def where(f):
        w = f"{f['file'].replace('/repo/', '')}:{f['l']} {f['qn']}"
        ctx.saw(w)
        return w
    for op in "+-*/":
        for f in [f for f in it.by_qn.get(f"Complex::operator{op}=", []) if f.get("body")]:
            w = where(f)
            for alias in (False, True):
                def body():
                    st = St()
                    key = ("h", sym("A"), "Complex")
                    st.heap[key] = rec("a")
                    a = (R("ar"), R("ai"))
                    b = a if alias else (R("br"), R("bi"))
                    arg = Ref((key, ())) if alias else rec("b")
                    for t, v, s in it.run(f, [arg], this=sym("A"), st=st):
                        got = parts(it, s, s.heap[key])
                        exp = ref_op(op, a, b)
                        ok = got == exp
                        if not ok and op == "/":
                            n = padd(pmul(b[0], b[0]), pmul(b[1], b[1]))
                            ok = all(pmul(g, n) is pmul(e, n) for g, e in zip(got, exp))
                            if not ok:
                                ok = all(clear(g, n) is clear(e, n) for g, e in zip(got, exp))
                        ctx.check(ok, f"Complex{op}=" + ("@alias" if alias else ""), w, RULE_A, f"components {got[0]}, {got[1]}; expected {exp[0]}, {exp[1]}")
                ctx.guard(f"Complex{op}=", w, RULE_A, body)
        for f in [f for f in it.by_qn.get(f"operator{op}", []) if f.get("body") and len(f["ps"]) == 2 and all("Complex" in p["t"] for p in f["ps"])]:
            w = where(f)

            def body():
                for t, v, s in it.run(f, [rec("a"), rec("b")]):
                    got = parts(it, s, v)
                    exp = ref_op(op, (R("ar"), R("ai")), (R("br"), R("bi")))
                    n = padd(pmul(R("br"), R("br")), pmul(R("bi"), R("bi")))
                    ok = got == exp or all(clear(g, n) is clear(e, n) for g, e in zip(got, exp))
                    ctx.check(ok, f"Complex{op}", w, RULE_A, f"components {got[0]}, {got[1]}; expected {exp[0]}, {exp[1]}")
            ctx.guard(f"Complex{op}", w, RULE_A, body)
    m2 = padd(pmul(R("ar"), R("ar")), pmul(R("ai"), R("ai")))
    for qn, exp in (("Complex::mag2", m2), ("norm2", m2), ("norm", mk("sqrt", m2)), ("Complex::real", R("ar")), ("Complex::imag", R("ai"))):
        for f in [f for f in it.by_qn.get(qn, []) if f.get("body")]:
            w = where(f)

            def body():
                st = St()
                key = ("h", sym("A"), "Complex")
                st.heap[key] = rec("a")
                for t, v, s in it.run(f, [] if f.get("cls") else [rec("a")], this=sym("A") if f.get("cls") else None, st=st):
                    v = it.read(s, v.lv) if isinstance(v, Ref) else v
                    ctx.check(v is exp, qn, w, RULE_A, f"computes {v}, expected {exp}")
            ctx.guard(qn, w, RULE_A, body)
    preds = {"Complex::isApproximatelyZero": 0, "Complex::isApproximatelyEqual": 1, "Complex::isApproximatelyOne": 0,
             "Complex::isZero": 0, "Complex::isOne": 0, "Complex::operator==": 1}
    for qn in preds:
        for f in [f for f in it.by_qn.get(qn, []) if f.get("body")]:
            if f["ps"] and "Complex" not in f["ps"][0]["t"]:
                continue
            w = where(f)
            near = "Approx" in qn
            dr, di = R("ar"), R("ai")
            if f["ps"]:
                dr, di = psub(dr, R("br")), psub(di, R("bi"))
            elif qn.endswith("One"):
                dr = psub(dr, ONE)
            ctx.guard(qn, w, RULE_P, predicate, ctx, it, f, qn, w, near, dr, di)


def clear(g, n):
    """multiply by n until no inverse of n is left"""
    i = pinv(n)
    return _clear(g, i, n)


def _clear(g, i, n):
    if isT(i, "inv"):
        if i not in atoms(g):
            return pmul(g, n)
        out = ZERO
        for m, c in pdict(g).items():
            d = dict(m)
            e = d.pop(i, 0)
            from ..terms import _norm_poly
            rest = _norm_poly({tuple(sorted(d.items(), key=lambda x: x[0].uid)): c})
            out = padd(out, pmul(rest, ppow(n, max(0, 1 - e))))
        return out
    return pmul(g, n)


def canon(x):
    a, b = x, pneg(x)
    return min(a, b, key=repr)


def predicate(ctx, it, f, qn, w, near, dr, di):
    st = St()
    key = ("h", sym("A"), "Complex")
    st.heap[key] = rec("a")
    rs = it.run(f, [rec("b")] if f["ps"] else [], this=sym("A"), st=st)
    names = {canon(dr): "r", canon(di): "i"}

    def atom(t):
        """-> (name, kind) with kind E exact / N near"""
        if t.op in ("eq", "eq0"):
            x = psub(t.args[0], t.args[1]) if t.op == "eq" else t.args[0]
            n = names.get(canon(x))
            if n is None:
                raise TooHard("predicate compares " + show(t))
            return n, "E"
        if t.op in ("le", "lt"):
            d = pdict(t.args[0])
            c = d.pop((), 0)
            if len(d) == 1:
                (m, k), = d.items()
                if len(m) == 1 and m[0][0].op == "abs" and m[0][1] == 1 and k > 0 and c < 0:
                    n = names.get(canon(m[0][0].args[0]))
                    if n is None:
                        raise TooHard("predicate compares " + show(t))
                    if -c / k > Fraction(1, 10 ** 6):
                        raise TooHard("tolerance is large: " + show(t))
                    return n, "N"
        raise TooHard("predicate tests " + show(t))
    forms = []
    for t, v, s in rs:
        lits = [(atom(l if l.op != "not" else l.args[0]), b == (l.op != "not")) for l, b in s.facts.order]
        if v is TRUE or v is FALSE:
            forms.append((lits, v is TRUE))
        else:
            neg = v.op == "not"
            a = atom(v.args[0] if neg else v)
            forms.append((lits + [(a, True)], not neg))
            forms.append((lits + [(a, False)], neg))
    for Er, Nr, Ei, Ni in itertools.product((False, True), repeat=4):
        if (Er and not Nr) or (Ei and not Ni):
            continue
        val = {("r", "E"): Er, ("r", "N"): Nr, ("i", "E"): Ei, ("i", "N"): Ni}
        exp = (Nr and Ni) if near else (Er and Ei)
        got = {res for lits, res in forms if all(val[a] == b for a, b in lits)}
        desc = f"component differences: real {'zero' if Er else 'near zero' if Nr else 'large'}, imaginary {'zero' if Ei else 'near zero' if Ni else 'large'}"
        if len(got) != 1:
            # merged paths may over-approximate; a definite answer must not contradict
            ctx.check(None if exp in got else False, qn, w, RULE_P, f"{desc}: answers {got}")
        else:
            ctx.check(got == {exp}, qn, w, RULE_P, f"{desc}: answers {got.pop()}, expected {exp}")
