"""Simulated distributed runs of the routines (see mpisum) and what is demanded of their results.
One run of `simulate` serves M01-M04: problems are sorted by kind."""
from fractions import Fraction
import math
from .cxev import Interp, Ref
from .summ import Summ, Und, Node, Edge, Cell
from .mpisum import *
from .terms import *

OPAQUE = {"mv_multiply", "vv_add", "getMPIGate", "vNode_to_vec", "vec_to_vNode", "assignProbabilities", "measureAll",
          "probabilities", "determineMeasurementProbabilities", "makeGate", "mv_multiply_MPI", "mv_multiply_MPI_bcast3",
          "printVector2", "makeZeroState", "makeOneState"}
PRODUCT = ("mv_multiply_MPI", "mv_multiply_MPI_bcast3")


def interp(U, root):
    it = Interp(U, opaque=OPAQUE - {root})
    it.no_merge = True
    it.track_sets = True
    it.snap_calls = lambda qn: qn.startswith(MP)
    return it


def find(U, name):
    fs = [f for f in U["funcs"] if f["name"].split("::")[-1] == name and f.get("body")]
    return fs[0] if len(fs) == 1 else None


# ------------------------------------------------------------ contracts
def value(where, what):
    return Problem("value", where, what)


class Env:
    """one simulated situation"""

    def __init__(self, size, total, index=None, P=None, Q=None, Z=None, us=None, zeros=()):
        self.size, self.total, self.index = size, total, index
        self.P, self.Z, self.us, self.zeros = P, Z, us, set(zeros)
        self.local = total - (size.bit_length() - 1)
        self.known = False


def k_getMPIGate(p, e, B):
    a = [p.ev(x, B) for x in e.args]
    if not isinstance(a[0], Gate):
        raise Und("operator")
    r, c, n = (p._int(x) for x in a[1:4])
    if n != p.world.size:
        raise value(e.line, "block of a division by %d instead of %d processes" % (n, p.world.size))
    if not (0 <= r < n and 0 <= c < n):
        raise value(e.line, "block (%d,%d) of %d x %d" % (r, c, n, n))
    if len(a) < 5:
        raise value(e.line, "the division starts at the operator's own top level, not the register's")
    if p._int(a[4]) != p.env.total - 1:
        raise value(e.line, "the division starts at level %d of a register of %d qubits" % (p._int(a[4]), p.env.total))
    return Blk(a[0], r, c)


def lin(terms):
    return Lin(terms, tuple(sorted(terms.items(), key=str)))


def k_mv_multiply(p, e, B):
    g, v = p.ev(e.args[0], B), p.state(p.ev(e.args[1], B))
    if not isinstance(g, Blk) or isinstance(v, (Lin, Scaled)):
        raise Und("local product")
    return lin({(g.gate.what, g.r, g.c, v.key): 1})


def k_vv_add(p, e, B):
    a, b = (p.state(p.ev(x, B)) for x in e.args[:2])
    ts = []
    for x in (a, b):
        if isinstance(x, Lin):
            ts.append(x.terms)
        elif x.key in p.env.zeros:
            ts.append({})
        else:
            raise Und("local sum")
    t = dict(ts[0])
    for k, n in ts[1].items():
        t[k] = t.get(k, 0) + n
    return lin(t)


def k_vNode_to_vec(p, e, B):
    n = p.ev(e.args[0], B)
    if not isinstance(getattr(n, "of", None), St):
        raise Und("node to send")
    for x in e.args[1:3]:
        y = p.ev(x, B)
        if isinstance(y, Table) or isinstance(y, list) and y or isinstance(y, Tok) and y.name != "empty" or isinstance(y, Got):
            raise value(e.line, "the record table is not empty at the start")
    p.after(e, 1, Table(n), B)
    p.after(e, 2, Tok("filled"), B)
    return num(1)


def k_vec_to_vNode(p, e, B):
    t = p.ev(e.args[0], B)
    if isinstance(t, Tok) and t.name == "empty" or isinstance(t, list) and not t:
        raise value(e.line, "a node is built from an empty record table")
    if not isinstance(t, Table):
        raise Und("record table")
    p.after(e, 0, t, B)
    return t.n


def k_assign(p, e, B):
    s = p.state(p.ev(e.args[0], B))
    if isinstance(s, (Lin, Scaled)):
        raise Und("probability of a computed state")
    return num(p.env.P[s.key])


def k_measureAll(p, e, B):
    s = p.state(p.ev(e.args[0], B))
    p.after(e, 0, s, B)
    return ("str", "<%s>" % (s.key,))


def k_probabilities(p, e, B):
    s = p.state(p.ev(e.args[0], B))
    if s.key in p.env.zeros:
        return [num(1)]
    return [mk("sym", "p<%s,%d>" % (s.key, i)) for i in range(2 ** p.env.local)]


def k_dmp(p, e, B):
    s = p.state(p.ev(e.args[0], B))
    i = p._int(p.ev(e.args[1], B))
    if s.key in p.env.zeros:
        raise value(e.line, "the outcome probabilities of a part that is zero are asked for")
    if not 0 <= i < p.env.local:
        raise value(e.line, "qubit %d of a part of %d qubits" % (i, p.env.local))
    if i != p.env.index:
        raise value(e.line, "qubit %d instead of %d" % (i, p.env.index))
    z = p.env.Z[s.key]
    return ("pair", num(z), num(p.env.P[s.key] - z))


def k_makeGate(p, e, B):
    a = [p.ev(x, B) for x in e.args]
    n, m, t = p._int(a[0]), a[1], p._int(a[2])
    if isinstance(m, list):
        m = tuple(m)
    if len(a) > 3 and not (isinstance(a[3], Tok) or isinstance(a[3], list) and not a[3]):
        raise Und("controls")
    return Gate(("gate", n, tuple(const(x) for x in m), t))


def k_product(p, e, B):
    g, s = p.ev(e.args[0], B), p.state(p.ev(e.args[1], B))
    if not isinstance(g, Gate) or isinstance(s, Lin):
        raise Und("distributed product")
    t, l = p._int(p.ev(e.args[3], B)), p._int(p.ev(e.args[4], B))
    vals = p.world.meet(p.rank, p.meet_no(), "distributed product", None, "", None, (g.what, t, l), e.line)
    if len(set(vals.values())) > 1:
        raise value(e.line, "processes multiply by different operators: %s" % sorted(set(map(str, vals.values())))[:2])
    if t != p.env.total:
        raise value(e.line, "a register of %d qubits instead of %d" % (t, p.env.total))
    if g.what[0] == "gate" and l < g.what[3]:
        raise value(e.line, "largest qubit %d of an operator on qubit %d" % (l, g.what[3]))
    v = lin({(g.what, p.rank, "*", "*"): 1})
    if s.key != p.rank:
        raise value(e.line, "the part of process %s is multiplied" % (s.key,))
    if isinstance(s, Scaled):
        f = numeric(s.w, {}) / numeric(s.of.w, {})
        g2 = Scaled(v, v.w)
        g2.factor = f
        return g2
    return v


def k_state(which):
    def k(p, e, B):
        return St((which, p._int(p.ev(e.args[0], B))))
    return k


def k_print(p, e, B):
    s = p.state(p.ev(e.args[0], B))
    return Tok("void")


CONTRACTS = {"getMPIGate": k_getMPIGate, "mv_multiply": k_mv_multiply, "vv_add": k_vv_add, "vNode_to_vec": k_vNode_to_vec,
             "vec_to_vNode": k_vec_to_vNode, "assignProbabilities": k_assign, "measureAll": k_measureAll,
             "probabilities": k_probabilities, "determineMeasurementProbabilities": k_dmp, "makeGate": k_makeGate,
             "mv_multiply_MPI": k_product, "mv_multiply_MPI_bcast3": k_product, "makeZeroState": k_state("zero"),
             "makeOneState": k_state("one"), "printVector2": k_print}


class Sim:
    """a routine, its paths extracted once, run in worlds"""

    def __init__(self, U, fd):
        self.U, self.fd = U, fd
        self.name = fd["name"].split("::")[-1]
        self.it = interp(U, self.name)
        self.cache = {}

    def summary(self):
        w = Proc(self.it, World(1), 0, {})
        w.cache = self.cache
        w.summary(self.fd)

    def run(self, env, args, this=None):
        return together(env, [self] * env.size, args, this)


def together(env, sims, args, this=None):
    """process r runs sims[r] with args(r); -> (world, [(value, proc, B)], procs)"""
    W = World(env.size)
    procs = []
    for r in range(env.size):
        S = sims[r]
        p = Proc(S.it, W, r, {k: v for k, v in CONTRACTS.items() if k != S.name}, total=env.total,
                 us=env.us[r] if env.us else (Fraction(1, 3),), zero=r in env.zeros)
        p.cache, p.env, p.sim = S.cache, env, S
        if env.P:
            p.data = {"Q": {}, "M": {}, "known": env.known}
            for k, x in enumerate(env.P):
                q = Fraction(1) if k in env.zeros else Fraction(7, 5)
                p.data["Q"][k] = num(q)
                p.data["M"][sym("W<%s>" % k)] = num(x / q)
        procs.append(p)

    def job(p):
        def go():
            v, _, B = p.call(p.sim.fd, args(p.rank), this(p.rank) if this else None)
            p.finish()
            return v, p, B
        return go
    res = W.run([job(p) for p in procs])
    finish_world(W)
    return W, res, procs


# ------------------------------------------------------------ what is demanded
FLOAT = 1e-9


def fr(x):
    c = const(x) if isinstance(x, T) else None
    return c


def close(a, b):
    return abs(a - b) < FLOAT


def num_of(x):
    return numeric(x, {})


class Out:
    """findings of one scenario: [(kind, where line, text)] and counts"""

    def __init__(self):
        self.found = []

    def bad(self, kind, what, line=None):
        self.found.append((kind, line, what))


def s_product(S, name, size, lq, zeros=()):
    k = size.bit_length() - 1
    total = k + 2
    env = Env(size, total, zeros=zeros)
    W, res, procs = S.run(env, lambda r: [Gate("G"), state_of(r, env), Tok("world"), num(total), num(lq)])
    o = problems(W)
    if W.problems:
        return o
    local = total - k
    for r in range(size):
        v = res[r][0]
        if isinstance(v, Tok) and "zero" in v.name:
            v = lin({})
        v = procs[r].state(v)
        if not isinstance(v, Lin) and v.key in env.zeros:
            v = lin({})     # a part that is zero stands for a zero product
        if not isinstance(v, Lin):
            raise Und("result of the product")
        for (g, rr, c, key), n in v.terms.items():
            if rr != r:
                o.bad("value", "process %d of %d adds row %d of the operator" % (r, size, rr))
            elif c != key:
                o.bad("value", "process %d of %d multiplies block (%d,%d) with the part of process %s" % (r, size, rr, c, key))
            elif n != 1:
                o.bad("value", "process %d of %d adds block (%d,%d) %d times" % (r, size, rr, c, n))
        need = [c for c in range(size) if (c ^ r) >> max(lq - local + 1, 0) == 0]
        miss = [c for c in need if ("G", r, c, c) not in v.terms and c not in env.zeros]
        if miss:
            o.bad("value", "process %d of %d leaves out block (%d,%d), largest qubit %d of %d" % (r, size, r, miss[0], lq, total))
    return o


def problems(W):
    o = Out()
    for p in W.problems:
        o.bad(p.kind, p.what, p.where)
    return o


F = Fraction
# probabilities of the processes' parts (of a state that need not be normalised) and of outcome 0 within them
WEIGHTS = {2: ([F(3, 8), F(5, 8)], [F(0), F(1)], [F(1), F(0)], [F(1, 4), F(3, 2)]),
           4: ([F(1, 8), F(1, 2), F(1, 8), F(1, 4)], [F(0), F(0), F(3, 4), F(1, 4)], [F(0), F(0), F(0), F(1)], [F(1, 3), F(2, 3), F(1, 6), F(1)]),
           8: ([F(k, 36) for k in range(1, 9)], [F(0)] * 5 + [F(1, 2), F(0), F(1, 2)]),
           16: ([F(k, 136) for k in range(1, 17)],)}


def zparts(P):
    return [p * F((i * 5 + 3) % 7 + 1, 9) for i, p in enumerate(P)]


def zero_state(r):
    s = St(r)
    s.w = ZERO
    s.n = Tok("terminal")
    s.n.of = s
    return s


def state_of(r, env):
    return zero_state(r) if r in env.zeros else St(r)


GRID = 24


def grid(same, size):
    """draws of the processes: the same everywhere, or different on every process"""
    for i in range(GRID):
        u = F(2 * i + 1, 2 * GRID)
        if same:
            yield u, [[u]] * size
        else:
            yield u, [[(u + F(7 * r, 2 * size + 1)) % 1, F(1, 5), F(4, 5)] for r in range(size)]


def final_param(S, p, i):
    """the caller's object behind the i-th (reference) parameter at the end"""
    s, B = p.final
    ids = [k for k in s.env if k[0] == "v" and k[1] == S.fd["ps"][i]["d"]]
    if len(ids) != 1:
        raise Und("parameter %d" % i)
    x = s.env[ids[0]]
    if isinstance(x, Ref):
        x = S.it.read(s, x.lv)
    return p.state(p.ev(x, dict(B)))


def chars(v):
    """text value as a list of parts"""
    return list(strv(v)[1:])


def s_collapse(S, size, index, P, same, collapse):
    k = size.bit_length() - 1
    total = k + 2
    local = total - k
    o = Out()
    tot = sum(P)
    Z = zparts(P)
    pz = sum(p for r, p in enumerate(P) if not (r >> (index - local)) & 1) if index >= local else sum(Z)
    po = tot - pz
    seen = []
    for u, us in grid(same, size):
        env = Env(size, total, index, P=P, Z=Z, us=us, zeros=[r for r, p in enumerate(P) if p == 0])
        W, res, procs = S.run(env, lambda r: [Tok("world"), state_of(r, env), num(index), num(total), Tok("generator"),
                                              mk("true") if collapse else mk("false"), num(F(1, 10 ** 8))])
        if W.problems:
            return problems(W)
        got = []
        for v, p, B in res:
            c = cint(v) if isinstance(v, T) else None
            if c is None or chr(c) not in "01":
                raise Und("outcome")
            got.append(chr(c))
        if len(set(got)) > 1:
            o.bad("value", "the processes of a run with %d processes return different outcomes %s for qubit %d" % (size, "".join(got), index))
            return o
        seen.append(got[0])
        pr = pz if got[0] == "0" else po
        if pr == 0:
            o.bad("value", "qubit %d is measured as %s, which has probability 0 (%d processes)" % (index, got[0], size))
            return o
        for r in range(size):
            st = final_param(S, procs[r], 1)
            if not collapse:
                if not (isinstance(st, St) and not isinstance(st, (Lin, Scaled)) and st.key == r):
                    o.bad("value", "the state of process %d changes although no collapse is asked for" % r)
                    return o
                continue
            base, f = st, 1
            env_ = {}
            while isinstance(base, Scaled):
                if base.w is not base.of.w:
                    f *= numeric(base.w, env_) / numeric(base.of.w, env_)
                f *= getattr(base, "factor", 1)
                base = base.of
            if not isinstance(base, Lin):
                o.bad("value", "the state of process %d is not projected on the outcome" % r)
                return o
            (g, row, c, key), n = list(base.terms.items())[0]
            want = ("gate", total, (1, 0, 0, 0) if got[0] == "0" else (0, 0, 0, 1), index)
            if g != want or len(base.terms) != 1:
                o.bad("value", "outcome %s of qubit %d is projected by the operator %s on qubit %d of %d" % (
                    got[0], index, [str(x) for x in g[2]] if g[0] == "gate" else g, g[3], g[1]))
                return o
            if not close(f, math.sqrt(tot / pr)):
                o.bad("value", "the state of process %d of %d is scaled by %.6f instead of %.6f after outcome %s of qubit %d" % (
                    r, size, f.real if isinstance(f, complex) else f, math.sqrt(tot / pr), got[0], index))
                return o
    if same:
        n0 = seen.count("0")
        if abs(F(n0, GRID) - pz / tot) > F(1, GRID):
            o.bad("value", "qubit %d is measured as 0 for %d of %d evenly spread draws; its probability is %s (%d processes)" % (
                index, n0, GRID, pz / tot, size))
    return o


def s_one(S, size, index, P):
    k = size.bit_length() - 1
    total = k + 2
    local = total - k
    Z = zparts(P)
    pz = sum(p for r, p in enumerate(P) if not (r >> (index - local)) & 1) if index >= local else sum(Z)
    env = Env(size, total, index, P=P, Z=Z, us=[[F(r + 1, size + 2)] for r in range(size)], zeros=[r for r, p in enumerate(P) if p == 0])
    W, res, procs = S.run(env, lambda r: [Tok("world"), state_of(r, env), num(index), num(total), Tok("generator"), num(F(1, 10 ** 8))])
    o = problems(W)
    if not W.problems:
        for r in range(size):
            x = num_of(res[r][0])
            if not close(x, float(pz / sum(P))):
                o.bad("value", "process %d of %d reports %.6f as the probability of 0 on qubit %d instead of %s" % (r, size, x.real, index, pz / sum(P)))
                break
    return o


def s_all(S, size, P, same, known):
    k = size.bit_length() - 1
    total = k + 2
    o = Out()
    seen = {}
    for u, us in grid(same, size):
        env = Env(size, total, P=P, us=us, zeros=[r for r, p in enumerate(P) if p == 0])
        env.known = known
        W, res, procs = S.run(env, lambda r: [Tok("world"), state_of(r, env), mk("false"), Tok("generator"), num(F(1, 10 ** 8))])
        if W.problems:
            return problems(W)
        got = [tuple(chars(v)) for v, p, B in res]
        if len(set(got)) > 1:
            o.bad("value", "the processes of a run with %d processes return different outcomes: %s" % (size, ", ".join("".join(x) for x in dict.fromkeys(got))))
            return o
        pre, tail = got[0][:-1], got[0][-1]
        hit = [r for r in range(size) if tail == "<%d>" % r]
        if len(hit) != 1 or "".join(pre) != format(hit[0], "0%db" % k):
            o.bad("value", "the outcome %s does not consist of the number of a process and that process's own outcome (%d processes)" % ("".join(got[0]), size))
            return o
        if P[hit[0]] == 0:
            o.bad("value", "process %d is selected although its part of the state is zero" % hit[0])
            return o
        seen[hit[0]] = seen.get(hit[0], 0) + 1
    if same:
        for r in range(size):
            if abs(F(seen.get(r, 0), GRID) - P[r] / sum(P)) > F(1, GRID):
                o.bad("value", "process %d of %d is selected for %d of %d evenly spread draws; its share is %s" % (r, size, seen.get(r, 0), GRID, P[r] / sum(P)))
                break
    return o


def s_probs(S, size, P):
    k = size.bit_length() - 1
    total = k + 2
    env = Env(size, total, P=P, zeros=[r for r, p in enumerate(P) if p == 0])
    W, res, procs = S.run(env, lambda r: [Tok("world"), state_of(r, env)])
    o = problems(W)
    if not W.problems:
        for r in range(size):
            x = res[r][0]
            if not isinstance(x, list):
                raise Und("list of probabilities")
            if len(x) != 2 ** total:
                o.bad("value", "process %d of %d returns %d probabilities for %d qubits (parts that are zero: %s)" % (r, size, len(x), total, sorted(env.zeros)))
                return o
            ev = {}
            for i, y in enumerate(x):
                q, b = divmod(i, 2 ** env.local)
                want = 0 if P[q] == 0 else numeric(mk("sym", "p<%s,%d>" % (q, b)), ev) * float(P[q] / sum(P))
                if not close(numeric(y, ev), want):
                    o.bad("value", "entry %d of the probabilities on process %d of %d is %s" % (i, r, size, show(y)[:120]))
                    return o
    return o


def s_print(S, size, zeros):
    env = Env(size, size.bit_length() - 1 + 1, zeros=zeros)
    W, res, procs = S.run(env, lambda r: [Tok("world")], this=lambda r: state_of(r, env))
    return problems(W)


def s_transfer(S1, S2, sb, rb):
    env = Env(2, 3)
    W, res, procs = together(env, [S1, S2], lambda r: [Tok("world"), St(0), num(1), mk("true" if sb else "false")] if r == 0 else
                             [Tok("world"), num(0), mk("true" if rb else "false")])
    o = problems(W)
    if not W.problems:
        v = procs[1].state(res[1][0])
        if isinstance(v, (Lin, Scaled)) or v.key != 0:
            o.bad("value", "the state received is not the one sent")
    return o


def s_make(S, size, which):
    k = size.bit_length() - 1
    total = k + 2
    env = Env(size, total)
    W, res, procs = S.run(env, lambda r: [num(total), Tok("world")])
    o = problems(W)
    if not W.problems:
        for r in range(size):
            x = res[r][0]
            own = r == (0 if which == "zero" else size - 1)
            if isinstance(x, St):
                if not own:
                    o.bad("value", "process %d of %d also holds the |%s> state" % (r, size, "0..0" if which == "zero" else "1..1"))
                elif x.key != (which, total - k):
                    o.bad("value", "process %d of %d holds %s state of %d qubits of a register of %d" % (r, size, x.key[0], x.key[1], total))
            elif own:
                o.bad("value", "process %d of %d does not hold its part of the state" % (r, size))
            elif not (isinstance(x, Tok) and "zero" in x.name):
                raise Und("state of process %d: %r" % (r, x))
    return o


def s_adjust(S, size, P):
    env = Env(size, size.bit_length() + 1, 0, P=P, Z=zparts(P), zeros=[])
    W, res, procs = S.run(env, lambda r: [Tok("world"), St(r)])
    return problems(W)


# ------------------------------------------------------------ all situations
def scenarios(thorough):
    """[(routine(s), key, what, function of the simulations)]"""
    out = []
    sizes = (2, 4, 8, 16) if thorough else (2, 4, 8)

    def add(names, what, fn):
        out.append((names, what, fn))
    for nm in PRODUCT:
        for size in sizes:
            for lq in range(size.bit_length() - 1 + 2):
                add((nm,), "%d processes, largest qubit %d" % (size, lq), lambda S, nm=nm, size=size, lq=lq: s_product(S[nm], nm, size, lq))
                if lq >= 2:
                    for zeros in ([0], [size - 1], list(range(1, size, 2)), list(range(size // 2))):
                        add((nm,), "%d processes, largest qubit %d, zero parts %s" % (size, lq, zeros),
                            lambda S, nm=nm, size=size, lq=lq, z=zeros: s_product(S[nm], nm, size, lq, z))
    for size in sizes:
        for pi, P in enumerate(WEIGHTS[size]):
            for index in range(size.bit_length() - 1 + 2):
                for same in (True, False):
                    if size > 4 and not thorough and (not same and index not in (1, size.bit_length())):
                        continue
                    add(("measureOneCollapsingMPI",), "%d processes, qubit %d, parts %d, %s draws" % (size, index, pi, "equal" if same else "different"),
                        lambda S, a=(size, index, P, same, True): s_collapse(S["measureOneCollapsingMPI"], *a))
                if size <= 4:
                    add(("measureOneCollapsingMPI",), "%d processes, qubit %d, parts %d, without collapse" % (size, index, pi),
                        lambda S, a=(size, index, P, True, False): s_collapse(S["measureOneCollapsingMPI"], *a))
                add(("measureOneMPI",), "%d processes, qubit %d, parts %d" % (size, index, pi), lambda S, a=(size, index, P): s_one(S["measureOneMPI"], *a))
            for same in (True, False):
                for known in (True, False):
                    add(("measureAllMPI",), "%d processes, parts %d, %s draws, probabilities %s" % (size, pi, "equal" if same else "different", "known" if known else "computed"),
                        lambda S, a=(size, P, same, known): s_all(S["measureAllMPI"], *a))
            add(("probabilitiesMPI",), "%d processes, parts %d" % (size, pi), lambda S, a=(size, P): s_probs(S["probabilitiesMPI"], *a))
        for zeros in ([], [0], [size - 1], list(range(1, size))):
            add(("printVectorMPI",), "%d processes, zero parts %s" % (size, zeros), lambda S, a=(size, zeros): s_print(S["printVectorMPI"], *a))
        add(("makeZeroStateMPI",), "%d processes" % size, lambda S, size=size: s_make(S["makeZeroStateMPI"], size, "zero"))
        add(("makeOneStateMPI",), "%d processes" % size, lambda S, size=size: s_make(S["makeOneStateMPI"], size, "one"))
        add(("adjust_weight",), "%d processes" % size, lambda S, size=size: s_adjust(S["adjust_weight"], size, WEIGHTS[size][0]))
    for sb in (True, False):
        for rb in (True, False):
            add(("send_dd", "receive_dd"), "sent %s, received %s" % tuple("blocking" if x else "non-blocking" for x in (sb, rb)),
                lambda S, sb=sb, rb=rb: s_transfer(S["send_dd"], S["receive_dd"], sb, rb))
    return out


def simulate(ctx, kind, names, rule):
    """run the situations of these routines; report the findings of these kinds"""
    U = ctx.unit("mpi")
    S = {}
    for n in sorted({x for ns, _, _ in scenarios(False) for x in ns}):
        fd = find(U, n)
        if fd is not None:
            S[n] = Sim(U, fd)
            ctx.saw("%s:%d %s" % (fd["file"].split("/repo/")[-1], fd["l"], n))
    todo = [x for x in scenarios(ctx.thorough) if set(x[0]) <= set(names)]
    # the longest first, so that the workers end together
    todo.sort(key=lambda x: ("measureOneC" not in x[0][0], -int(x[1].split()[0]) if x[1][0].isdigit() else 0))
    for n in sorted({n for x in todo for n in x[0]} & set(S)):
        ctx.guard(n, "src/dd.cpp", rule, lambda: S[n].summary())
    jobs = [todo[i::28] for i in range(28)] if len(todo) > 20 else [todo]

    def work(c, job):
        for x in job:
            situation(c, S, kind, rule, *x)
    ctx.spread(work, [j for j in jobs if j])


def situation(ctx, S, kind, rule, ns, what, fn):
    lost = [n for n in ns if n not in S]
    key = "/".join(ns)
    if lost:
        ctx.und(key, "src/dd.cpp", rule, "%s not found" % lost[0])
        return
    fd = S[ns[0]].fd
    wh = "%s:%d %s" % (fd["file"].split("/repo/")[-1], fd["l"], ns[0])

    def one():
        try:
            o = fn(S)
        except Und as x:
            ctx.und(key, wh, rule, ("%s: %s" % (what, x))[:400])
            return
        ctx.count("situations")
        mine = [f for f in o.found if f[0] in kind]
        if mine:
            ln = mine[0][1]
            ctx.bad(key, wh if not ln else "%s:%s %s" % (fd["file"].split("/repo/")[-1], ln, ns[0]), rule, "%s: %s" % (what, mine[0][2]))
        elif o.found:
            ctx.count("situations cut short by a finding of another kind")
        else:
            ctx.ok(key, wh, rule)
    ctx.guard(key, wh, rule, one)
