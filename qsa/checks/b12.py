"""Seeding.  Front end: run() is interpreted with a seed given, configured or absent; the engine's seeding
entry point is called before the first circuit with a value that depends on the seed alone.  Engine: every
draw uses the generator handed down from the one object that entry point seeds; nothing else makes random
numbers or seeds that object again."""
from ..binds import table, walk
from ..runjob import RunJob, flat
from ..pyev import T, mk, sym, show, subterms
from ..pyval import Model, Unk, Err

WH = "qdd/qdd_backend.py"
R1 = "with a seed the generator is seeded from it, and from nothing else, before the first circuit is simulated"
R2 = "without a seed the generator is not seeded"
R3 = "the engine's seeding entry point sets the state of the generator from its argument alone"
R4 = "every random number is drawn from the generator that was seeded"
R5 = "nothing but the seeding entry point sets that generator again"

ENG = ("mersenne_twister_engine", "linear_congruential_engine", "subtract_with_carry_engine", "discard_block_engine",
       "shuffle_order_engine", "independent_bits_engine", "random_device")
STATELESS = ("uniform_real_distribution", "uniform_int_distribution", "bernoulli_distribution", "discrete_distribution")
FOREIGN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "rand_r", "time", "clock", "clock_gettime", "gettimeofday", "getpid", "getrandom"}


def iseng(t):
    return isinstance(t, str) and any(("std::" + e) in t for e in ENG) and "random_device" not in t


def own(f):
    p = f.get("file") or ""
    return any(x in p for x in ("/src/", "/include/", "/qdd/")) and not p.startswith("/usr")


def rel(f):
    p = f.get("file") or "?"
    for x in ("/src/", "/include/", "/qdd/"):
        if x in p:
            return p[p.rindex(x) + 1:]
    return p


def generator(n, params, locs):
    """what an expression of generator type denotes"""
    while isinstance(n, dict) and n.get("k") in ("cast", "paren", "mat", "implicit") and "e" in n:
        n = n["e"]
    if not isinstance(n, dict) or n.get("k") != "ref":
        if isinstance(n, dict) and n.get("k") == "call" and (n.get("f") or {}).get("name") in ("ref", "move", "forward", "get"):
            return generator(n["a"][0], params, locs)
        return None
    if n.get("g"):
        return ("global", n["g"])
    if n.get("d") in params:
        return ("param", params[n["d"]])
    if n.get("d") in locs:
        return ("local", locs[n["d"]])
    return None


def scan(ctx, unit, engine):
    """the translation unit of the bindings together with the engine it is linked with"""
    U = ctx.unit(unit)
    B = table(U)
    V = ctx.unit(engine)
    for f in U["funcs"]:
        if f.get("name", "").startswith("pybind11_init"):
            break
    else:
        ctx.und(unit, "qdd/bindings.cpp", R3, "no module initialiser")
        return None
    # seeding entry points: bound functions that seed or assign a global generator
    seeders = {}
    bodies = [f for f in U["funcs"] if f.get("body") is not None]
    here = {(f["qn"], tuple(p["t"] for p in f["ps"]), rel(f), f.get("line")) for f in bodies}
    bodies += [f for f in V["funcs"] if f.get("body") is not None and (f["qn"], tuple(p["t"] for p in f["ps"]), rel(f), f.get("line")) not in here]
    seeds_by = {}
    for f in bodies:
        if not own(f):
            continue
        ctx.saw(f["name"])
        params = {p["d"]: p for p in f["ps"] if iseng(p["t"])}
        locs = {}
        key = "%s (%s)" % (f["name"], unit)
        wh = rel(f)
        nm = f.get("qn", f["name"])
        draws = 0
        if "lambda" in nm or "anonymous class" in nm or nm == "operator()":
            continue                     # read where it is written
        for n in walk(f["body"]):
            if n.get("k") == "lambda":
                for p in n.get("ps", []):
                    if iseng(p.get("t")):
                        params[p["d"]] = p
                for c in n.get("caps", []):
                    g = params.get(c.get("d")) or locs.get(c.get("d"))
                    if g and not c.get("ref") and "init" not in c:
                        ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "a copy of the generator is drawn from")
            if n.get("k") == "decl":
                for v in n.get("v", []):
                    if iseng(v.get("t")):
                        if "&" in v["t"] and isinstance(v.get("init"), dict):
                            g = generator(v["init"], params, locs)
                            if g:
                                locs[v["d"]] = {"alias": g, "n": v["n"]}
                                continue
                        locs[v["d"]] = v
                    t = v.get("t", "")
                    if v.get("static") and "_distribution" in t and not any(s in t for s in STATELESS):
                        ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "%s keeps values between runs" % v["n"])
        for n in walk(f["body"]):
            fn = n.get("f") or {}
            if n.get("k") in ("call",) and fn.get("name") in FOREIGN and fn.get("qn") in (fn.get("name"), "std::" + fn.get("name", "")):
                ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "%s() is used" % fn["name"])
            if n.get("k") == "ctor" and n.get("cls") == "std::random_device":
                ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "a random device is made")
            if fn.get("cls") == "std::random_device" and fn.get("name") == "operator()":
                ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "numbers are drawn from the random device")
            # generators handed on or drawn from
            args = list(n.get("a", []))
            if n.get("k") in ("call", "mcall", "opcall", "ctor"):
                if n.get("k") == "ctor" and iseng(n.get("t", "")) and n.get("a"):
                    continue
                for a, pt in zip(args, fn.get("pt", []) if len(fn.get("pt", [])) == len(args) else [None] * len(args)):
                    if not (isinstance(a, dict) and iseng(a.get("t", ""))):
                        continue
                    g = generator(a, params, locs)
                    while g and g[0] == "local" and "alias" in g[1]:
                        g = g[1]["alias"]
                    if g is None:
                        if n.get("k") == "opcall" and fn.get("name") in ("operator=", "operator<<", "operator>>", "operator=="):
                            continue
                        ctx.und(key, "%s:%s" % (wh, n.get("l")), R4, "generator of unknown origin")
                        continue
                    draws += 1
                    if g[0] == "local":
                        ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "%s draws from its own generator %s" % (nm, g[1]["n"]))
                    elif g[0] == "param" and "&" not in params_type(f, g[1]):
                        ctx.bad(key, "%s:%s" % (wh, n.get("l")), R4, "the generator is a copy: every call draws the same numbers again")
                    elif g[0] == "global":
                        seeds_by.setdefault(("used", g[1]), set()).add(nm)
            # seeding
            s = None
            if n.get("k") == "mcall" and fn.get("name") in ("seed", "discard") and iseng(fn.get("clsT", fn.get("cls", ""))):
                g = generator(n.get("b"), params, locs)
                s = (g, args, n.get("l"))
            elif n.get("k") in ("opcall", "assign") and (fn.get("name") == "operator=" or n.get("k") == "assign"):
                l = args[0] if args else n.get("x") or n.get("lhs")
                if isinstance(l, dict) and iseng(l.get("t", "")):
                    s = (generator(l, params, locs), args[1:] or [n.get("rhs") or n.get("y")], n.get("l"))
            if s:
                g = s[0]
                while g and g[0] == "local" and "alias" in g[1]:
                    g = g[1]["alias"]
                seeds_by.setdefault(("set", g[1] if g and g[0] == "global" else "?" if not g else g[0]), []).append((f, s[1], s[2], fn.get("name")))
        if draws:
            ctx.count("uses of a generator", draws)
            ctx.ok(key, wh, R4)
    used = {k[1] for k in seeds_by if k[0] == "used"}
    if len(used) != 1:
        ctx.check(False if used else None, unit + ": generator", "qdd/bindings.cpp", R4, "draws from %s" % (sorted(used) or "no global generator"))
        return None
    G = used.pop()
    # the seeding entry point
    names = set()
    for k, lst in seeds_by.items():
        if k[0] != "set":
            continue
        for f, args, line, how in lst:
            bound = [b for b in B if b.owner == "" and (b.fn and b.fn.get("id") == f["id"])]
            if not bound:
                ctx.bad("%s (%s)" % (f["name"], unit), "%s:%s" % (rel(f), line), R5, "%s sets the generator's state" % f["name"])
                continue
            key = "%s (%s)" % (bound[0].name, unit)
            if k[1] != G:
                ctx.bad(key, "qdd/bindings.cpp:%s" % line, R3, "another object than the one drawn from is seeded")
                continue
            ps = {p["d"] for p in f["ps"]}
            refs = [r for a in args for r in walk(a) if r.get("k") == "ref"]
            calls = [c for a in args for c in walk(a) if c.get("k") in ("call", "mcall") or c.get("k") == "opcall" and (c.get("f") or {}).get("cls") == "std::random_device"]
            if how == "discard" or not refs or any(r.get("d") not in ps for r in refs) or calls:
                ctx.bad(key, "qdd/bindings.cpp:%s" % line, R3, "the generator's state is not set from the argument alone")
                continue
            if conditional(f["body"]):
                ctx.und(key, "qdd/bindings.cpp:%s" % line, R3, "the generator is seeded under a condition")
                continue
            ctx.ok(key, "qdd/bindings.cpp", R3)
            names.add(bound[0].name)
    if not names:
        # a lambda may be bound
        for b in B:
            if b.lam is not None and b.owner == "":
                for n in walk(b.lam):
                    fn = n.get("f") or {}
                    if n.get("k") == "mcall" and fn.get("name") == "seed" and (n.get("b") or {}).get("g") == G:
                        names.add(b.name)
    if not names:
        ctx.bad(unit + ": seeding", "qdd/bindings.cpp", R3, "no entry point seeds the generator that is drawn from")
    return names


def conditional(body):
    return any(n.get("k") in ("if", "for", "while", "do", "switch", "cond") for n in walk(body))


def params_type(f, p):
    return p.get("t", "")


def front(ctx, job):
    arg, src, val, names, opts = job
    key = "%s, seed %s%s%s" % (arg, "absent" if src is None else src, "" if val == "any" or src is None else "=%r" % (val,),
                               "".join(", %s=%r" % o for o in opts.items()))
    ctx.guard(key, WH, R1, front1, ctx, arg, src, val, names, key, opts)


def front1(ctx, arg, src, val, names, key, opts):
    R = RunJob()
    it = R.interp(arg)
    S = sym("the_seed")
    v = S if val == "any" else val
    h = it.heap[R.optobj.o].items
    h["shots"], h["n_threads"] = 1024, 1
    h["seed_simulator"] = v if src == "configured" else None if src is None else sym("default_seed")
    h.update(opts)
    for p in R.run({"seed_simulator": v} if src == "given" else {}):
        pc = [c for c in p.snap.pc]
        if any(isinstance(c, T) and c.op == "isnone" and c.a[0] is S for c in pc):
            continue                     # the seed is a number here
        if p.kind != "return" or not show(p.val[1]).endswith("DONE"):
            ctx.bad(key, WH, R1, "the run fails: " + "; ".join(show(c)[:50] for c in pc))
            return
        evs = [e for e in flat(p.snap.log) if e.kind == "call" and (e.name == "evaluated" or e.name in ["pyQDD." + n for n in names])]
        sd = [e for e in evs if e.name != "evaluated"]
        if src is None:
            if sd:
                ctx.bad(key, WH, R2, "the generator is seeded with %s" % show(sd[0].args))
                return
            continue
        if not sd:
            ctx.bad(key, WH, R1, "the generator is not seeded" + (" when " + "; ".join(show(c)[:60] for c in pc if occurs_(S, c)) if val == "any" else ""))
            return
        if evs[0].name == "evaluated":
            ctx.bad(key, WH, R1, "a circuit is simulated before the generator is seeded")
            return
        for e in sd:
            if len(e.args) != 1:
                ctx.bad(key, WH, R1, "seeded with %s" % show(e.args))
                return
            a = e.args[0]
            free = {x.a[0] for x in subterms(a) if x.op in ("sym", "call", "n", "lv", "pos")} if isinstance(a, T) else set()
            if val == "any":
                if free - {"the_seed"}:
                    ctx.bad(key, WH, R1, "seeded with %s, which is no function of the seed alone" % show(a)[:80])
                    return
                odd = [x for x in subterms(a) if isinstance(x, T) and x.op in ("bi_hash", "bi_id") and x.a[0] is not S]
                if odd:
                    ctx.bad(key, WH, R1, "seeded with %s, which differs from one process to the next" % show(a)[:80])
                    return
                vals = []
                for s in (0, 1, 2, 5, 80, 2**31, 2**40 + 3):
                    try:
                        vals.append(Model(lambda t, pos, m: s if t is S else NotImplemented).ev(a))
                    except (Unk, Err) as x:
                        ctx.und(key, WH, R1, "seed value %s: %s" % (show(a)[:60], x))
                        return
                if len(set(vals)) < len(vals):
                    ctx.bad(key, WH, R1, "different seeds give the same state: %s" % show(a)[:60])
                    return
            elif a != val and not isinstance(a, T):
                ctx.bad(key, WH, R1, "seeded with %s" % show(a)[:60])
                return
    ctx.ok(key, WH, R1 if src else R2)


def occurs_(s, c):
    return isinstance(c, T) and any(x is s for x in subterms(c))


def check(ctx):
    ctx.explanation = "run() with a seed given, configured and absent; every use of a random generator in the engine and the bindings of every build configuration"
    names = None
    for u, e in (("defb", "def"), ("mtb", "mt"), ("mpib", "mpi")):
        n = scan(ctx, u, e)
        if n is not None:
            names = n if names is None else names & n
    if not names:
        names = set()
    jobs = [(a, s, v, names, {}) for a in ("one", "list") for s in ("given", "configured") for v in ("any", 0, 1, 2**40)] + [(a, None, None, names, {}) for a in ("one", "list")]
    others = [{"n_threads": 4}, {"use_mpi": True}, {"use_mpi": True, "use_bcast": True}, {"shots": 1}, {"memory": True}, {"use_auto_swap": False}, {"swap_ver": "v2"}, {"show_progress": True}]
    jobs += [("one", s, v, names, o) for o in others for s, v in (("given", "any"), ("configured", 1), (None, None))]
    ctx.spread(front, jobs)
    ctx.saw("QddBackend.run")
