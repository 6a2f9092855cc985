"""Estimator bookkeeping: an estimator is built and called (once, and again on the same object) on lists of
circuits, observables and values.  Circuits, values, counts and coefficients are symbols; the value
returned for every entry is extracted as a term over the counts of the experiments handed to the backend
and compared with the term the entry's own circuit, observable and values call for."""
import itertools
from ..est import Est, Circ, Obs, Sy, sy, sroot
from ..hostval import Arr
from ..pyev import T, sym, show, MV, TooHard

WH = "qdd/qdd_estimator.py"
R1 = "entry i is the expectation of observable i in circuit i bound with values i"
R2 = "values of the wrong number are refused before anything is run"
R3 = "run options reach the backend; the seed option seeds the simulator unless seed_simulator is given"
R4 = "the variance reported, and the spread of a normal approximation, belong to the same entry"
R5 = "backend and transpiler options given to the estimator reach the backend and the transpiler"

PAR = {"circA": ["a0"], "circB": ["b0", "b1"], "circC": ["c0", "c1"], "circD": []}
OBS = {"obsP": ["ZZ", "XX", "IZ", "II"], "obsQ": ["XI", "ZI", "YY"], "obsR": ["II"], "obsS": ["IZ", "ZI"], "obsU": ["XI", "IX", "XX", "XX"], "obsV": ["YI", "IY", "XY"]}
OBS3 = {"obsK": ["ZIZ", "IXI", "YIX", "III"], "obsL": ["IIY", "ZZI", "XIX"], "obsM": ["XYZ", "ZYX"]}
OBS9 = {"obsW": ["ZZZZZZZZZ", "ZIIIIIIII", "IIIIIIIIZ"]}


def world():
    W = {}
    for n, ps in PAR.items():
        W[n] = lambda n=n, ps=ps: Circ(2, 0, n, ps)
    W["circT"] = lambda: Circ(3, 0, "circT", ["t0"])
    W["circN"] = lambda: Circ(9, 0, "circN", [])
    for d in (OBS, OBS3, OBS9):
        for n, l in d.items():
            W[n] = lambda n=n, l=l: Obs(n, l)
    return W


LABELS = {**OBS, **OBS3, **OBS9}
NPAR = {**{k: len(v) for k, v in PAR.items()}, "circT": 1, "circN": 0}
PNAMES = {**PAR, "circT": ["t0"], "circN": []}


def check1(ctx, job):
    ctx.guard(job[0], WH, R1, one, ctx, *job)


def host(x, it):
    return it.tohost(x)


def one(ctx, key, calls, ctor, late, wrong):
    """calls: [(circuits, observables, value names, options)]; a value list named v holds v.0, v.1, ..."""
    P = Est(world())
    cs = [(c, o, [tuple("%s.%d" % (v, j) for j in range(NPAR[n] + (wrong if k == len(calls) - 1 and i == 0 else 0))) for i, (n, v) in enumerate(zip(c, vs))], opts)
          for k, (c, o, vs, opts) in enumerate(calls)]
    ps = P.go(ctor, cs, late)
    for q in P.it.reached:
        ctx.saw(q)
    if len(ps) != 1:
        ctx.und(key, WH, R1, "%d ways through the call" % len(ps))
        return
    p = ps[0]
    if wrong:
        if p.kind != "raise" or p.val[2] or p.val[1] != len(calls) - 1:
            ctx.bad(key, WH, R2, "%d values for a circuit with %d parameters are accepted" % (NPAR[calls[-1][0][0]] + wrong, NPAR[calls[-1][0][0]]))
        else:
            ctx.ok(key, WH, R2)
        return
    if p.kind == "raise":
        r = p.val[0]
        ctx.bad(key, "%s:%s" % (WH, r.line or ""), R1, "the call raises %s %s" % (r.cls if isinstance(r.cls, str) else show(r.cls), str(r.val or "")[:150]))
        return
    out, marks, exps, runs, draws, setopts, topts, untarget = p.val
    apx = ctor.get("approximation", False)
    ends = [m for m in marks[1:]] + [(len(exps), len(runs), len(draws))]
    used_draws = 0
    for k, ((cn, on, vs, opts), m0, m1) in enumerate(zip(cs, marks, ends)):
        r = out[k]
        if not isinstance(getattr(r, "values", None), (Arr, list, tuple)):
            ctx.und(key, WH, R1, "result of another form")
            return
        vals = list(r.values)
        md = [P.it.tohost(x) for x in (r.metadata if isinstance(r.metadata, (list, tuple)) else P.it.tolist(r.metadata))]
        if len(vals) != len(cn) or len(md) != len(cn):
            ctx.bad(key, WH, R1, "%d entries give %d values and %d metadata" % (len(cn), len(vals), len(md)))
            return
        mine = exps[m0[0]:m1[0]]
        # options
        for o in runs[m0[1]:m1[1]]:
            got = dict(o)
            want = {a: b for a, b in opts.items() if a != "seed"}
            if opts.get("seed") is not None:
                want.setdefault("seed_simulator", opts["seed"])
            if apx:
                want["shots"] = None
            elif want.get("shots") is None:
                want["shots"] = got.get("shots")
                if not isinstance(want["shots"], int) or want["shots"] <= 0:
                    ctx.bad(key, WH, R3, "no number of shots is given to the backend")
                    return
            if got.get("seed", 0) is None:
                got.pop("seed")
            if got != want:
                ctx.bad(key, WH, R3, "options %s reach the backend as %s" % (opts, got))
                return
        for e in mine:
            if e.c.transpiled == bool(ctor.get("skip_transpilation")):
                ctx.bad(key, WH, R5, "%s is run %s" % (e.c.base, "transpiled although that is switched off" if e.c.transpiled else "without being transpiled"))
                return
        for i, (c, o, v) in enumerate(zip(cn, on, vs)):
            labels = LABELS[o]
            bind = dict(zip(PNAMES[c], v))
            cand = []
            for lb in labels:
                if set(lb) == {"I"}:
                    cand.append([sy(1)])
                    continue
                l = []
                for e in mine:
                    if e.c.base == c and e.b == bind:
                        x = e.mean(lb, apx)
                        if x is not None and not any(x.equals(y) for y in l):
                            l.append(x)
                if not l:
                    ctx.bad(key, WH, R1, "entry %d: no experiment of %s with %s measures %s (run were %s)" % (i, c, bind, lb, [e.key for e in mine][:6]))
                    return
                cand.append(l)
            cf = [Sy("%s.c%d" % (o, j)) for j in range(len(labels))]
            hit = None
            n = 0
            got = sy(vals[i])
            if got is None:
                ctx.und(key, WH, R1, "entry %d is %s" % (i, vals[i]))
                return
            nd = ctor.get("approximation") and (ctor.get("run_options") or {}).get("shots")
            for xs in itertools.product(*cand):
                n += 1
                if n > 256:
                    break
                e = sum_([a * b for a, b in zip(cf, xs)])
                va = sum_([a * a * (1 - b * b) for a, b in zip(cf, xs)])
                want = e
                if nd:
                    d = [x for x in draws[m0[2]:m1[2]] if sy(x[1]).equals(e)]
                    for sd, loc, sc in d:
                        if sy(sc).equals(sroot(va / nd)):
                            want = Sy("normal[%s;%s;%s]" % (sd if not isinstance(sd, T) else show(sd), sy(loc).v, sy(sc).v))
                            if sd != opts.get("seed"):
                                ctx.bad(key, WH, R3, "the normal draw is seeded by %s, the call by %s" % (sd, opts.get("seed")))
                                return
                            break
                    else:
                        if d:
                            hit = "sd"
                        continue
                if want.equals(got):
                    hit = (xs, va)
                    break
            if n > 256:
                ctx.und(key, WH, R1, "too many ways to measure the terms")
                return
            if hit == "sd":
                ctx.bad(key, WH, R4, "entry %d is drawn with another spread than its standard error" % i)
                return
            if hit is None:
                ctx.bad(key, WH, R1, "entry %d (%s, %s, %s): the value returned is not the coefficient-weighted sum of the terms' expectations: %s" % (i, c, o, bind, got))
                return
            if isinstance(md[i], dict) and md[i].get("variance") is not None:
                if not sy(md[i]["variance"]).equals(hit[1]):
                    ctx.bad(key, WH, R4, "entry %d reports another variance than its own" % i)
                    return
                ctx.ok(key, WH, R4)
            ctx.count("entries")
    bo = ctor.get("backend_options")
    if bo is not None:
        if not setopts or not all(setopts[0].get(a) == b for a, b in bo.items()):
            ctx.bad(key, WH, R5, "backend options are set to %s" % (setopts,))
            return
    for a, b in (ctor.get("transpile_options") or {}).items():
        if any(t.get(a) != b for t in topts) or not topts:
            ctx.bad(key, WH, R5, "option %s=%s reaches the transpiler as %s" % (a, b, [t.get(a) for t in topts][:3]))
            return
    if ctor.get("skip_transpilation") and topts:
        ctx.bad(key, WH, R5, "circuits are transpiled although that is switched off")
        return
    if untarget:
        ctx.bad(key, WH, R5, "circuits are not transpiled for the backend")
        return
    ctx.count("experiments", len(exps))
    for R in (R1, R3, R5):
        ctx.ok(key, WH, R)


def sum_(l):
    r = sy(0)
    for x in l:
        r = r + x
    return r


def words(n, letters, cur=""):
    """words up to renaming"""
    if len(cur) == n:
        yield cur
        return
    for x in letters[:len(set(cur)) + 1]:
        yield from words(n, letters, cur + x)


def values(c):
    """value names with every pattern of equal values among entries with equally many parameters"""
    n = len(c)
    for w in words(n, "uvwx"[:n]):
        # entries with different numbers of parameters may share a name: their lists differ anyway
        yield list(w)


def jobs(deep):
    S = {"shots": 100}
    C = {x: "circ" + x for x in "ABCDTN"}
    O = {x: "obs" + x for x in "PQRSUVKLMW"}

    def job(tag, cs, ctor=None, late=False, wrong=0):
        calls = [([C[x] for x in c], [O[x] for x in o], list(v), dict(op)) for c, o, v, op in cs]
        t = " | ".join("%s/%s/%s" % (c, o, "".join(v)) for c, o, v, op in cs)
        return ("%s%s%s%s" % (tag, t, ", %s" % {k: v for k, v in (ctor or {}).items()} if ctor else "", ", run later" if late else ""), calls, ctor or {}, late, wrong)
    modes = [{}, {"abelian_grouping": False}, {"skip_transpilation": True}, {"approximation": True}, {"approximation": True, "run_options": {"shots": 50}},
             {"approximation": True, "skip_transpilation": True, "abelian_grouping": False}]
    for m in modes:
        for o in "PQRSUV":
            for c in "AD" if o != "P" else "ABD":
                yield job("", [(c, o, "u", S)], m)
        for o in "KLM":
            yield job("", [("T", o, "u", S)], m)
        yield job("", [("TT", "KL", "uv", S)], m)
        yield job("", [("TTT", "KLM", "uuv", S)], m)
    yield job("", [("N", "W", "u", S)])
    if deep:
        yield job("", [("N", "W", "u", S)], {"approximation": True})
    for cw, ow in itertools.product(words(2, "AB"), words(2, "PQ")):
        for cm in ("AB", "BC", "DA") if cw == "AB" else ("AA", "DD"):
            for vw in values(cm):
                for m in modes if deep or vw == ["u", "v"] else modes[:1]:
                    yield job("", [(cm, ow, vw, S)], m)
    for cm in ("AAA", "AAB", "ABA", "BAA", "BCB", "DAD") + (("ABC", "CBA", "BBC", "DDA") if deep else ()):
        for ow in ("PPP", "PQP", "PQU", "RPQ", "QQS", "PRR") + (("SUV", "UUQ", "RRR", "VPV") if deep else ()):
            for vw in values(cm):
                for m in modes[:4] if deep else modes[:1]:
                    yield job("", [(cm, ow, vw, S)], m)
    # several calls on one estimator
    hist = [[("A", "P", "u", S), ("A", "P", "v", S)], [("A", "P", "u", S), ("A", "Q", "u", S)], [("AB", "PQ", "uv", S), ("BA", "QP", "wx", S)],
            [("AB", "PQ", "uv", S), ("BA", "PQ", "uv", S)], [("AA", "PQ", "uv", S), ("AA", "PQ", "vv", S)], [("B", "Q", "u", S), ("AB", "QP", "uv", S)],
            [("A", "R", "u", S), ("AB", "RP", "uv", S), ("B", "P", "w", S)], [("AA", "PQ", "uu", S), ("A", "P", "u", S), ("AA", "QP", "uv", S)],
            [("D", "P", "u", S), ("DA", "PP", "uv", S)], [("AB", "PP", "uv", S), ("AB", "PP", "vu", S), ("AC", "PU", "uv", S)]]
    for h in hist:
        for late in (False, True):
            for m in modes[:4] if deep else modes[:1] + modes[3:4]:
                yield job("calls ", h, m, late)
    # options
    for op in [{}, {"shots": 7, "seed": 11}, {"seed": 0, "shots": 7}, {"seed": 11, "seed_simulator": 5, "shots": 3}, {"seed_simulator": 5, "shots": 9}, {"shots": 100, "memory": True}, {"shots": None}]:
        for m in (modes[0], modes[3], modes[4]):
            yield job("options %s: " % op, [("AB", "PQ", "uv", op)], m)
            if "seed" in op:
                yield job("options %s: " % op, [("AB", "PQ", "uv", S), ("AB", "PQ", "vu", op)], m)
    yield job("", [("AB", "PQ", "uv", S)], {"backend_options": {"seed_simulator": 3, "method": "opt"}})
    yield job("", [("AB", "PQ", "uv", S)], {"transpile_options": {"optimization_level": 3, "seed_transpiler": 9}})
    yield job("", [("AB", "PQ", "uv", S), ("C", "P", "u", S)], {"transpile_options": {"seed_transpiler": 9}})
    for c in "ABD":
        for d in (-1, 1):
            if NPAR[C[c]] + d >= 0:
                yield job("wrong number %+d: " % d, [(c, "P", "u", S)], wrong=d)
                yield job("wrong number %+d: " % d, [(c, "P", "u", S), (c, "P", "v", S)], wrong=d)
                yield job("wrong number %+d: " % d, [(c + "A", "PQ", "uv", S)], wrong=d)
                yield job("wrong number %+d: " % d, [(c, "P", "u", S)], modes[3], wrong=d)


def check(ctx):
    ctx.explanation = "Estimator built and called on lists of circuits, observables and values in every pattern of repetition, fresh and after earlier calls, grouped and not, transpiled with a permuting layout and not, sampled and exact"
    ctx.spread(check1, list(jobs(ctx.thorough)))
    ctx.saw("Estimator._compute")
