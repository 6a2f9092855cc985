"""Evaluation of extracted terms over small finite models.

The abstract interpreter leaves terms whose shape depends on how the source is
written (a loop with an index, a comprehension, a join of a reversed list...).
Whether such a term means what the specification says is decided by evaluating
both over every model of a small finite family (registers of one to three
bits, permutations of three qubits...).  Unknown operators make the term
undecided."""
from .pyev import T, mk, isconst, show


class Unk(Exception):
    pass


class Err(Exception):
    """the term has no value (KeyError, IndexError ... in the source)"""


class Model:
    """leaf(t) -> value for symbols; call(name,args,kw) for external calls"""

    def __init__(self, leaf, call=None):
        self.leaf, self.callf = leaf, call

    def ev(self, t, pos=None):
        pos = pos or {}
        if isinstance(t, tuple):
            return tuple(self.ev(x, pos) for x in t)
        if not isinstance(t, T):
            return t
        r = self.leaf(t, pos, self)
        if r is not NotImplemented:
            return r
        try:
            f = getattr(self, "o_" + t.op, None)
            if f is None and t.op.startswith("bi_"):
                return self.bi(t.op[3:], t, pos)
            if f is None:
                raise Unk(show(t)[:160])
            return f(t, pos)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            raise Err("%s in %s" % (type(e).__name__, show(t)[:120]))

    def seq(self, s, pos):
        v = self.ev(s, pos)
        if isinstance(v, dict):
            v = list(v)
        if isinstance(v, (set, frozenset)):
            v = sorted(v, key=repr)
        return list(v)

    def o_ext(self, t, pos):
        return ("ext", t.a[0])

    def o_cls(self, t, pos):
        return ("cls", t.a[0])

    def o_pos(self, t, pos):
        if t.a[0] not in pos:
            raise Unk("free position")
        return pos[t.a[0]]

    def o_lin(self, t, pos):
        r = t.a[0]
        for x, c in t.a[1]:
            v = self.ev(x, pos)
            if isinstance(v, str):
                raise Err("arithmetic on text")
            r += c * v
        return r

    def o_mul(self, t, pos):
        r = 1
        for x in t.a:
            r *= self.ev(x, pos)
        return r

    def o_idx(self, t, pos):
        o = self.ev(t.a[0], pos)
        k = self.ev(t.a[1], pos)
        if isinstance(o, (set, frozenset)):
            o = sorted(o, key=repr)
        if isinstance(o, dict):
            try:
                return o[k]
            except TypeError:
                raise Err("key")
        return o[k]

    def o_get(self, t, pos):
        o = self.ev(t.a[0], pos)
        k = self.ev(t.a[1], pos)
        return o[k] if k in o else self.ev(t.a[2], pos)

    def o_list(self, t, pos):
        return [self.ev(x, pos) for x in t.a]

    def o_set(self, t, pos):
        return set(self.ev(x, pos) for x in t.a)

    def o_dict(self, t, pos):
        return {self.ev(k, pos): self.ev(v, pos) for k, v in t.a}

    def o_rep(self, t, pos):
        return [self.ev(t.a[0], pos)] * self.ev(t.a[1], pos)

    def o_store(self, t, pos):
        o = self.ev(t.a[0], pos)
        o = dict(o) if isinstance(o, dict) else list(o)
        o[self.ev(t.a[1], pos)] = self.ev(t.a[2], pos)
        return o

    def o_append(self, t, pos):
        return list(self.ev(t.a[0], pos)) + [self.ev(t.a[1], pos)]

    def o_add(self, t, pos):
        return set(self.ev(t.a[0], pos)) | {self.ev(t.a[1], pos)}

    def o_union(self, t, pos):
        r = set()
        for x in t.a:
            v = self.ev(x, pos)
            r |= set(v)
        return r

    def o_setof(self, t, pos):
        return set(self.seq(t.a[0], pos))

    def o_setdiff(self, t, pos):
        return set(self.ev(t.a[0], pos)) - set(self.ev(t.a[1], pos))

    def o_del(self, t, pos):
        o = dict(self.ev(t.a[0], pos))
        o.pop(self.ev(t.a[1], pos), None)
        return o

    def o_merge(self, t, pos):
        o = dict(self.ev(t.a[0], pos))
        o.update(self.ev(t.a[1], pos))
        return o

    def trip(self, sq, pos):
        d, s = sq.a
        return d, len(self.seq(s, pos))

    def o_seq(self, t, pos):
        return self.seq(t.a[1], pos)

    def o_ite(self, t, pos):
        return self.ev(t.a[1] if self.ev(t.a[0], pos) else t.a[2], pos)

    def o_map(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return [self.ev(t.a[1], {**pos, d: i}) for i in range(n)]

    def o_filtermap(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return [self.ev(t.a[2], {**pos, d: i}) for i in range(n) if self.ev(t.a[1], {**pos, d: i})]

    def o_flatmap(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        out = []
        for i in range(n):
            p = {**pos, d: i}
            if len(t.a) == 3 and not self.ev(t.a[1], p):
                continue
            out += list(self.ev(t.a[-1], p))
        return out

    def o_setmap(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return {self.ev(t.a[-1], {**pos, d: i}) for i in range(n)
                if len(t.a) == 2 or self.ev(t.a[1], {**pos, d: i})}

    def o_unionmap(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        r = set()
        for i in range(n):
            if len(t.a) == 2 or self.ev(t.a[1], {**pos, d: i}):
                r |= set(self.ev(t.a[-1], {**pos, d: i}))
        return r

    def o_dictmap(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return {self.ev(t.a[1], {**pos, d: i}): self.ev(t.a[2], {**pos, d: i}) for i in range(n)}

    def o_storemap(self, t, pos):
        o = self.ev(t.a[0], pos)
        o = dict(o) if isinstance(o, dict) else list(o)
        d, n = self.trip(t.a[1], pos)
        for i in range(n):
            p = {**pos, d: i}
            if len(t.a) == 5 and not self.ev(t.a[2], p):
                continue
            o[self.ev(t.a[-2], p)] = self.ev(t.a[-1], p)
        return o

    def o_sum(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return sum(self.ev(t.a[1], {**pos, d: i}) for i in range(n))

    def o_sumof(self, t, pos):
        return sum(self.seq(t.a[0], pos), self.ev(t.a[1], pos))

    def o_any(self, t, pos):
        d, n = self.trip(t.a[0], pos)
        return any(self.ev(t.a[1], {**pos, d: i}) for i in range(n))

    def o_truthy(self, t, pos):
        return bool(self.ev(t.a[0], pos))

    def o_nonempty(self, t, pos):
        return len(self.ev(t.a[0], pos)) > 0

    def o_eq(self, t, pos):
        return self.ev(t.a[0], pos) == self.ev(t.a[1], pos)

    def o_not(self, t, pos):
        return not self.ev(t.a[0], pos)

    def o_and(self, t, pos):
        return all(self.ev(x, pos) for x in t.a)

    def o_lt(self, t, pos):
        return self.ev(t.a[0], pos) < self.ev(t.a[1], pos)

    def o_in(self, t, pos):
        return self.ev(t.a[0], pos) in self.ev(t.a[1], pos)

    def o_isnone(self, t, pos):
        return self.ev(t.a[0], pos) is None

    def o_len(self, t, pos):
        return len(self.ev(t.a[0], pos))

    def o_range(self, t, pos):
        return list(range(*[self.ev(x, pos) for x in t.a]))

    def o_list_of(self, t, pos):
        return self.seq(t.a[0], pos)

    def o_copyof(self, t, pos):
        return self.ev(t.a[0], pos)

    def o_keys(self, t, pos):
        return list(self.ev(t.a[0], pos))

    def o_values(self, t, pos):
        return list(self.ev(t.a[0], pos).values())

    def o_items(self, t, pos):
        return list(self.ev(t.a[0], pos).items())

    def o_enumerate(self, t, pos):
        return list(enumerate(self.seq(t.a[0], pos), self.ev(t.a[1], pos)))

    def o_zip(self, t, pos):
        return list(zip(*[self.seq(x, pos) for x in t.a]))

    def o_reversed(self, t, pos):
        v = self.ev(t.a[0], pos)
        return v[::-1] if isinstance(v, str) else list(v)[::-1]

    def o_sorted(self, t, pos):
        if len(t.a) > 1:
            raise Unk("sorted with key")
        return sorted(self.seq(t.a[0], pos))

    def o_slice(self, t, pos):
        v = self.ev(t.a[0], pos)
        return v[slice(*[self.ev(x, pos) for x in t.a[1:]])]

    def o_concat(self, t, pos):
        r = self.ev(t.a[0], pos)
        for x in t.a[1:]:
            v = self.ev(x, pos)
            r = r + v if isinstance(r, str) else list(r) + list(v)
        return r

    def o_join(self, t, pos):
        return self.ev(t.a[0], pos).join(self.seq(t.a[1], pos))

    def o_str(self, t, pos):
        return str(self.ev(t.a[0], pos))

    def o_fmt(self, t, pos):
        return str(self.ev(t.a[0], pos))

    def o_fstr(self, t, pos):
        return "".join(str(self.ev(x, pos)) for x in t.a)

    def o_int(self, t, pos):
        return int(*[self.ev(x, pos) for x in t.a])

    def o_float(self, t, pos):
        return float(self.ev(t.a[0], pos))

    def o_max(self, t, pos):
        vs = [self.ev(x, pos) for x in t.a]
        return max(vs) if len(vs) > 1 else (max(vs[0]) if isinstance(vs[0], (list, tuple, set)) else vs[0])

    def o_min(self, t, pos):
        vs = [self.ev(x, pos) for x in t.a]
        return min(vs) if len(vs) > 1 else (min(vs[0]) if isinstance(vs[0], (list, tuple, set)) else vs[0])

    def o_pow2(self, t, pos):
        return 2 ** self.ev(t.a[0], pos)

    def o_BitAnd(self, t, pos):
        return self.ev(t.a[0], pos) & self.ev(t.a[1], pos)

    def o_BitOr(self, t, pos):
        return self.ev(t.a[0], pos) | self.ev(t.a[1], pos)

    def o_BitXor(self, t, pos):
        return self.ev(t.a[0], pos) ^ self.ev(t.a[1], pos)

    def o_RShift(self, t, pos):
        return self.ev(t.a[0], pos) >> self.ev(t.a[1], pos)

    def o_LShift(self, t, pos):
        return self.ev(t.a[0], pos) << self.ev(t.a[1], pos)

    def o_FloorDiv(self, t, pos):
        return self.ev(t.a[0], pos) // self.ev(t.a[1], pos)

    def o_Mod(self, t, pos):
        return self.ev(t.a[0], pos) % self.ev(t.a[1], pos)

    def o_Div(self, t, pos):
        return self.ev(t.a[0], pos) / self.ev(t.a[1], pos)

    def o_Pow(self, t, pos):
        return self.ev(t.a[0], pos) ** self.ev(t.a[1], pos)

    def o_neg(self, t, pos):
        return -self.ev(t.a[0], pos)

    def o_indexof(self, t, pos):
        return list(self.ev(t.a[0], pos)).index(self.ev(t.a[1], pos))

    def o_bitpos(self, t, pos):
        c = self.ev(t.a[0], pos)
        b = self.ev(t.a[1], pos)
        if b in c["qubits"]:
            return c["qubits"].index(b)
        return c["clbits"].index(b)

    def o_attr(self, t, pos):
        o = self.ev(t.a[0], pos)
        if isinstance(o, dict) and t.a[1] in o:
            return o[t.a[1]]
        raise Unk("attribute " + show(t)[:80])

    def o_strm(self, t, pos):
        s = self.ev(t.a[0], pos)
        return getattr(s, t.a[1])(*[self.ev(x, pos) for x in t.a[2:]])

    def o_next(self, t, pos):
        v = self.seq(t.a[0], pos)
        if v:
            return v[0]
        if len(t.a) > 1:
            return self.ev(t.a[1], pos)
        raise Err("StopIteration")

    def o_countof(self, t, pos):
        v = self.ev(t.a[0], pos)
        return (v if isinstance(v, str) else list(v)).count(self.ev(t.a[1], pos))

    def o_insert(self, t, pos):
        v = list(self.ev(t.a[0], pos))
        v.insert(self.ev(t.a[1], pos), self.ev(t.a[2], pos))
        return v

    def o_popped(self, t, pos):
        v = self.ev(t.a[0], pos)
        if isinstance(v, (set, frozenset)):
            raise Unk("element popped from a set")
        if isinstance(v, dict):
            v = dict(v)
            v.pop(self.ev(t.a[1], pos))
            return v
        v = list(v)
        v.pop(*[self.ev(x, pos) for x in t.a[1:]])
        return v

    def o_removed(self, t, pos):
        v = self.ev(t.a[0], pos)
        x = self.ev(t.a[1], pos)
        if isinstance(v, (set, frozenset)):
            return set(v) - {x}
        v = list(v)
        v.remove(x)
        return v

    def o_setBitAnd(self, t, pos):
        return set(self.ev(t.a[0], pos)) & set(self.ev(t.a[1], pos))

    def o_isdisjoint(self, t, pos):
        return not set(self.ev(t.a[0], pos)) & set(self.ev(t.a[1], pos))

    def o_issubset(self, t, pos):
        return set(self.ev(t.a[0], pos)) <= set(self.ev(t.a[1], pos))

    def o_invert(self, t, pos):
        return ~self.ev(t.a[0], pos)

    def o_all(self, t, pos):
        return all(self.seq(t.a[0], pos))

    def o_mcall(self, t, pos):
        name = t.a[1]
        args = [x for x in t.a[2:] if not (isinstance(x, T) and x.op in ("n", "kw"))]
        if any(isinstance(x, T) and x.op == "kw" for x in t.a[2:]) or name.startswith("_"):
            raise Unk("call of " + name)
        o = self.ev(t.a[0], pos)
        ok = {str: ("zfill", "rjust", "ljust", "count", "index", "find", "replace", "strip", "lower", "upper", "split",
                    "startswith", "endswith", "join", "format", "rstrip", "lstrip"),
              int: ("bit_length", "bit_count"), list: ("index", "count"), tuple: ("index", "count"),
              dict: ("get", "keys", "values", "items")}
        for ty, ns in ok.items():
            if isinstance(o, ty) and name in ns:
                r = getattr(o, name)(*[self.ev(x, pos) for x in args])
                return list(r) if ty is dict and name != "get" else r
        raise Unk("call of " + name)

    def bi(self, name, t, pos):
        fn = {"bin": bin, "hex": hex, "oct": oct, "abs": abs, "round": round, "ord": ord, "chr": chr, "divmod": divmod,
              "tuple": tuple, "format": format, "frozenset": frozenset, "complex": complex}.get(name)
        if fn is None:
            raise Unk(show(t)[:160])
        return fn(*[self.ev(x, pos) for x in t.a])

    def o_call(self, t, pos):
        if self.callf is None:
            raise Unk("call " + show(t.a[0]))
        args = [self.ev(x, pos) for x in t.a[1]]
        kw = {k: self.ev(v, pos) for k, v in t.a[2]}
        r = self.callf(t.a[0], args, kw, t)
        if r is NotImplemented:
            if isinstance(t.a[0], str) and t.a[0] in ("math.log2",):
                import math
                return math.log2(*args)
            raise Unk("call " + show(t.a[0]))
        return r
