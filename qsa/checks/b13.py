"""Sampler bookkeeping: a sampler is built and called (once, and again on the same object) with lists of
symbolic circuits and values; what it hands to the backend and how it reads the result are extracted as
terms and evaluated for concrete parameter counts, values and counts."""
import itertools
from ..prim import Prim, last
from ..pyev import T, mk, sym, show, isext, subterms
from ..pyval import Model, Unk, Err

WH = "qdd/qdd_sampler.py"
R1 = "entry i is the distribution of circuit i run with values i"
R2 = "values of the wrong number are refused before anything is run"
R3 = "run options reach the backend; the seed option seeds the simulator unless seed_simulator is given"
R4 = "counts are divided by their sum, and the shots reported are that sum; without shots the exact probabilities are given"
R5 = "backend and transpiler options given to the sampler reach the backend and the transpiler"

NPAR = {"circA": 1, "circB": 2, "circC": 2, "circD": 0}


class Obj:
    def __init__(self, tag, **k):
        self.tag, self.k = tag, k

    def __eq__(self, o):
        return isinstance(o, Obj) and (self.tag, self.k) == (o.tag, o.k)

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return "%s%s" % (self.tag, self.k or "")


class M(Model):
    """values of the terms for one choice of the lengths of the value lists"""

    def __init__(self, lens):
        super().__init__(self._leaf)
        self.lens, self.seen = lens, []

    def counts(self, e):
        """an arbitrary distinct result per (circuit, bindings, options)"""
        if e not in self.seen:
            self.seen.append(e)
        j = self.seen.index(e)
        return {"1 %d" % 0: 3 + 2 * j, "0 1": 5 + 3 * j * j, "1 1": 7}

    def _leaf(self, t, pos, m):
        if t.op == "sym":
            n = t.a[0]
            if n.startswith("val"):
                return ["%s[%d]" % (n, i) for i in range(self.lens[n])]
            return Obj(n)
        if t.op == "transpiled":
            return m.ev(t.a[0], pos)
        if t.op == "attr":
            if isinstance(t.a[0], T) and t.a[0].op == "sym" and t.a[0].a[0].startswith("circ"):
                if t.a[1] == "parameters":
                    return ["%s.p%d" % (t.a[0].a[0], i) for i in range(NPAR[t.a[0].a[0]])]
            o = m.ev(t.a[0], pos)
            if isinstance(o, Obj):
                if o.tag == "result" and t.a[1] == "results":
                    return [Obj("experiment result", run=o.k["run"], i=i) for i in range(len(o.k["run"].k["circuits"]))]
                return Obj("attr", of=o, n=t.a[1])
            raise Unk(show(t)[:80])
        if t.op == "mcall":
            o, n = t.a[0], t.a[1]
            rest = [x for x in t.a[2:] if not (isinstance(x, T) and x.op in ("kw", "n"))]
            kw = {x.a[0]: m.ev(x.a[1], pos) for x in t.a[2:] if isinstance(x, T) and x.op == "kw"}
            o = m.ev(o, pos)
            if isinstance(o, Obj) and o.tag == "backend" and n == "run":
                cs = m.ev(rest[0], pos) if rest else kw.pop("circuits")
                star = kw.pop("**", None)
                if isinstance(star, dict):
                    kw.update(star)
                if not isinstance(cs, list):
                    cs = [cs]
                return Obj("run", circuits=list(cs), opts=kw)
            if isinstance(o, Obj) and o.tag == "run" and n == "result":
                return Obj("result", run=o)
            if isinstance(o, Obj) and o.tag == "result" and n in ("get_counts", "data"):
                i = m.ev(rest[0], pos) if rest else kw.get("experiment")
                cs = o.k["run"].k["circuits"]
                if i is None:
                    if len(cs) > 1:
                        if n == "get_counts":
                            return [self.exp(o, j)["counts"] for j in range(len(cs))]
                        raise Err("several experiments")
                    i = 0
                if not isinstance(i, int) or not -1 < i < len(cs):
                    raise Err("no experiment %s" % i)
                return self.exp(o, i)["counts"] if n == "get_counts" else self.exp(o, i)
            if isinstance(o, str) and n in ("replace", "strip", "join", "split", "zfill"):
                return getattr(o, n)(*[m.ev(x, pos) for x in rest])
            raise Unk(show(t)[:80])
        if t.op == "call" and isinstance(t.a[0], str):
            n = last(t.a[0])
            if n in ("QuasiDistribution", "SamplerResult"):
                kw = {k: m.ev(v, pos) for k, v in t.a[2]}
                return Obj(n, args=[m.ev(x, pos) for x in t.a[1]], kw=kw)
        return NotImplemented

    def exp(self, res, i):
        run = res.k["run"]
        b = run.k["opts"].get("parameter_binds")
        e = (run.k["circuits"][i], None if b is None else tuple(sorted(b[i].items())))
        c = self.counts(e)
        return {"counts": c, "probabilities": {"exact " + k: v for k, v in c.items()}}


def shape(x, f):
    """a quasi distribution in whatever form"""
    if not (isinstance(x, Obj) and x.tag == "QuasiDistribution"):
        raise Unk("distribution of another form: %s" % (x,))
    return x.k["args"][0] if x.k["args"] else x.k["kw"].get("data")


def check1(ctx, job):
    names, opts, ctor, hist, late, key = job[:6]
    ctx.guard(key, WH, R1, one, ctx, names, opts, ctor, hist, late, key, job[6] if len(job) > 6 else None)


def one(ctx, names, opts, ctor, hist, late, key, same=None):
    P = Prim("qdd.qdd_sampler", "Sampler")
    it = P.it
    calls, vals = [], []
    for k, ns in enumerate(hist + [names]):
        vs = ["val%d_%d" % (k, i) for i in range(len(ns))] if same is None else ["val%d_%d" % (k, i) for i in same]
        vals.append(vs)
        calls.append((([sym(n) for n in ns], [sym(v) for v in vs]), opts))
    ps = P.run(ctor, calls, late)
    for q in it.reached:
        ctx.saw(q)
    good = {v: NPAR[n] for ns, vs in zip(hist + [names], vals) for n, v in zip(ns, vs)}
    trials = [(dict(good), None)]
    if not hist and same is None:
        for v in vals[-1]:
            for d in (-1, 1):
                if good[v] + d >= 0:
                    g = dict(good)
                    g[v] += d
                    trials.append((g, v))
    for lens, wrong in trials:
        m = M(lens)
        hit = []
        for p in ps:
            ok = True
            for c in p.snap.pc:
                v = m.ev(c, {})
                if not v:
                    ok = False
                    break
            if ok:
                hit.append(p)
        if len(hit) != 1:
            ctx.und(key, WH, R1, "%d ways through the call" % len(hit))
            return
        p = hit[0]
        if wrong is not None:
            ran = [e for e in p.snap.log if e.kind == "mcall" and e.name == "run" and e.args and e.args[0] is sym("backend")]
            if p.kind != "raise" or ran:
                ctx.bad(key, WH, R2, "%d values for a circuit with %d parameters are accepted" % (lens[wrong], good[wrong]))
                return
            ctx.ok(key, WH, R2)
            continue
        if p.kind == "raise":
            r = p.val[0]
            ctx.bad(key, "%s:%s" % (WH, r.line), R1, "the call raises %s" % show(r.cls))
            return
        for k, (ns, vs) in enumerate(zip(hist + [names], vals)):
            if not entries(ctx, m, it, p, p.val[k], ns, vs, opts, key):
                return
    wiring(ctx, p=None, ps=ps, ctor=ctor, key=key)
    ctx.ok(key, WH, R1)
    ctx.ok(key, WH, R3)
    ctx.ok(key, WH, R4)


def entries(ctx, m, it, p, v, ns, vs, opts, key):
    f = it.freeze(v, p.snap.heap)
    try:
        r = m.ev(f, {})
    except Err as x:
        ctx.bad(key, WH, R1, "the result has no value: %s" % x)
        return False
    if not (isinstance(r, Obj) and r.tag == "SamplerResult"):
        ctx.und(key, WH, R1, "result of another form: %s" % show(f)[:80])
        return False
    a = dict(zip(("quasi_dists", "metadata"), r.k["args"]))
    a.update(r.k["kw"])
    qs, md = a["quasi_dists"], a["metadata"]
    if len(qs) != len(ns) or len(md) != len(ns):
        ctx.bad(key, WH, R1, "%d circuits give %d distributions and %d metadata" % (len(ns), len(qs), len(md)))
        return False
    exact = "shots" in opts and opts["shots"] is None
    for i, (n, vl) in enumerate(zip(ns, vs)):
        d = shape(qs[i], None)
        bind = tuple(sorted(("%s.p%d" % (n, j), "%s[%d]" % (vl, j)) for j in range(NPAR[n])))
        want = (Obj(n), bind)
        c = m.counts(want) if want in m.seen else None
        if c is None:
            ctx.bad(key, WH, R1, "entry %d: %s with its own values is never run (run were %s)" % (i, n, m.seen))
            return False
        tot = sum(c.values())
        wants = {"exact " + k: v for k, v in c.items()} if exact else {k.replace(" ", ""): v / tot for k, v in c.items()}
        if d != wants and not close(d, wants):
            own = [e for e in m.seen if close(d, {"exact " + k: v for k, v in m.counts(e).items()} if exact else {k.replace(" ", ""): v / sum(m.counts(e).values()) for k, v in m.counts(e).items()})]
            if own:
                ctx.bad(key, WH, R1, "entry %d of %s is the distribution of %s with %s" % (i, ns, own[0][0], dict(own[0][1] or ())))
            else:
                ctx.bad(key, WH, R4, "counts %s give %s" % (c, d))
            return False
        if not exact:
            sh = qs[i].k["kw"].get("shots", qs[i].k["args"][1] if len(qs[i].k["args"]) > 1 else None)
            if sh is not None and sh != tot:
                ctx.bad(key, WH, R4, "shots of the distribution %s, counted %s" % (sh, tot))
                return False
        if not isinstance(md[i], dict) or md[i].get("shots", "missing") != (None if exact else tot):
            ctx.bad(key, WH, R4, "entry %d reports %s shots, counted %s" % (i, md[i].get("shots", "no") if isinstance(md[i], dict) else "?", tot))
            return False
    # options
    runs = []
    for t in subterms(f):
        if t.op == "mcall" and t.a[1] == "run" and t.a[0] is sym("backend"):
            runs.append(m.ev(t, {}))
    want = {k: (Obj(v.a[0]) if isinstance(v, T) else v) for k, v in opts.items() if k != "seed"}
    if opts.get("seed") is not None:
        want.setdefault("seed_simulator", Obj(opts["seed"].a[0]) if isinstance(opts["seed"], T) else opts["seed"])
    for r in runs:
        got = {k: v for k, v in r.k["opts"].items() if k != "parameter_binds"}
        if got.get("seed", 0) is None:
            got.pop("seed")
        if got != want:
            ctx.bad(key, WH, R3, "options %s reach the backend as %s" % (want, got))
            return False
    return True


def close(a, b):
    return isinstance(a, dict) and set(a) == set(b) and all(isinstance(a[k], (int, float)) and abs(a[k] - b[k]) < 1e-9 for k in a)


def wiring(ctx, p, ps, ctor, key):
    """options of the constructor"""
    for p in ps:
        so = [e for e in p.snap.log if e.kind == "call" and e.name == "set_options"]
        tr = [e for e in p.snap.log if e.kind == "call" and e.name == "transpile"]
        bo = ctor.get("backend_options")
        if bo is not None:
            if not so:
                ctx.bad(key, WH, R5, "backend options are not set")
                return
            e = so[0]
            if not any(isinstance(x, T) and any(y is bo for y in subterms(x)) for _, x in e.kw):
                ctx.bad(key, WH, R5, "backend options are set to %s" % (e.kw,))
                return
        if ctor.get("skip_transpilation") and tr:
            ctx.bad(key, WH, R5, "circuits are transpiled although that is switched off")
            return
        for e in tr:
            to = ctor.get("transpile_options")
            if not ctor.get("skip_transpilation") and to is not None and not any(isinstance(x, T) and any(y is to for y in subterms(x)) for _, x in e.kw):
                ctx.bad(key, WH, R5, "the transpiler options are not used")
                return
            if not any(x is sym("backend") for x in list(e.args) + [x for _, x in e.kw]):
                ctx.bad(key, WH, R5, "circuits are not transpiled for the backend")
                return
        if not ctor.get("skip_transpilation"):
            for e in p.snap.log:
                if e.kind == "mcall" and e.name == "run" and e.args and e.args[0] is sym("backend"):
                    c = e.args[1] if len(e.args) > 1 else dict(e.kw).get("circuits")
                    raw = [x for x in (c.a if isinstance(c, T) and c.op == "list" else ()) if isinstance(x, T) and x.op == "sym"]
                    if raw:
                        ctx.bad(key, "%s:%s" % (WH, e.line), R5, "%s is run without being transpiled" % show(raw[0]))
                        return
    ctx.ok(key, WH, R5)


def patterns(n, names, cur=""):
    """words up to renaming of the letters"""
    if len(cur) == n:
        yield cur
        return
    for x in names[:len(set(cur)) + 1]:
        yield from patterns(n, names, cur + x)


def check(ctx):
    ctx.explanation = "Sampler built and called on lists of circuits with repetitions in every pattern, fresh and after an earlier call, with and without shots, seeds and options"
    deep = ctx.thorough
    jobs = []
    pats = {1: [("A",)], 2: [("A", "A"), ("A", "B"), ("B", "A")],
            3: [("A", "A", "B"), ("A", "B", "A"), ("B", "A", "A"), ("A", "B", "C"), ("C", "B", "A"), ("A", "D", "A")]}
    if deep:
        pats[4] = [p for p in itertools.product("ABD", repeat=4)]
    for n, l in pats.items():
        for p in l:
            ns = ["circ" + x for x in p]
            for opts in [{}, {"shots": 1024}, {"shots": None}]:
                jobs.append((ns, opts, {}, [], False, "%s, %s" % ("".join(p), opts or "no options")))
    S, S2, X = sym("the_seed"), sym("the_seed_simulator"), sym("opt_x")
    for opts in [{"seed": S}, {"seed": S, "seed_simulator": S2}, {"seed_simulator": S2}, {"shots": 1024, "memory": X}, {"seed": 0, "shots": 7}, {"seed": S, "shots": None}]:
        jobs.append((["circA", "circB"], opts, {}, [], False, "AB, %s" % {k: show(v) if isinstance(v, T) else v for k, v in opts.items()}))
    for ctor in [{"skip_transpilation": True}, {"backend_options": sym("opt_backend")}, {"transpile_options": sym("opt_transpile")}]:
        jobs.append((["circA", "circB", "circA"], {"shots": 10}, ctor, [], False, "ABA, sampler with %s" % sorted(ctor)))
    for h, n in [("A", "A"), ("A", "B"), ("B", "AB"), ("AB", "BA"), ("AB", "CA"), ("BA", "BAC")]:
        for late in (False, True):
            jobs.append((["circ" + x for x in n], {"shots": 10}, {}, [["circ" + x for x in h]], late, "%s after %s%s" % (n, h, ", run later" if late else "")))
    # every way to spread up to four (five) circuits, in every pattern of repetitions, over up to three (four) calls
    for n in range(2, 6 if deep else 5):
        for pat in patterns(n, "ABCD"):
            for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, n), k) for k in range(1, 4 if deep else 3)):
                at = (0,) + cuts + (n,)
                cs = [["circ" + x for x in pat[a:b]] for a, b in zip(at, at[1:])]
                jobs.append((cs[-1], {"shots": 10}, {}, cs[:-1], False, "calls " + "|".join(pat[a:b] for a, b in zip(at, at[1:]))))
    for p, same in [("AA", (0, 0)), ("BC", (0, 0)), ("AAA", (0, 1, 0)), ("BCB", (0, 0, 0)), ("BCB", (0, 1, 1)), ("ABA", (0, 1, 0)), ("BBC", (0, 1, 0))]:
        for opts in ({"shots": 10}, {"shots": None}):
            jobs.append((["circ" + x for x in p], opts, {}, [], False, "%s with values %s, %s" % (p, same, opts), same))
    ctx.spread(check1, jobs)
    ctx.saw("Sampler._call")
