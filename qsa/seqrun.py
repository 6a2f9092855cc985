"""Evaluates extracted summaries (paths, loop step relations) over one concrete finite input:
a loop's symbols take the values its step relation gives them, position by position.  Nothing of
the source is executed; what cannot be evaluated makes the obligation undecided."""
from .pyev import T, Ref, show, isconst, subterms
from .pyval import Model, Unk, Err
from .pyback import loops


def unbound(t, bound=frozenset()):
    """pos terms not bound by an enclosing seq"""
    if isinstance(t, tuple):
        for x in t:
            yield from unbound(x, bound)
        return
    if not isinstance(t, T):
        return
    if t.op == "pos":
        if t.a[0] not in bound:
            yield t
        return
    b = bound
    for x in t.a:
        if isinstance(x, T) and x.op == "seq":
            b = b | {x.a[0]}
    for x in t.a:
        if isinstance(x, T) and x.op == "seq":
            yield from unbound(x.a[1:], b - {x.a[0]})
        else:
            yield from unbound(x, b)


class SeqModel(Model):
    """a Model whose loop symbols are simulated"""

    def __init__(self, it, leaf, call=None, limit=64):
        super().__init__(self._leaf, call)
        self.it, self.user, self.limit = it, leaf, limit
        self.env = {}        # loop id -> {lv name: value}
        self.recs = {}
        self.depthpos = {}
        self.steps = 0
        self.cache = {}

    def _leaf(self, t, pos, m):
        if t.op == "lv":
            vals = self.env.get(t.a[0])
            if vals is None:
                raise Unk("loop symbol " + show(t)[:60])
            if t.a[1] not in vals:
                raise Unk("loop symbol " + show(t)[:60])
            v = vals[t.a[1]]
            if isinstance(v, Unk):
                raise v
            return v
        if t.op == "pos" and t.a[0] not in pos and t.a[0] in self.depthpos:
            return self.depthpos[t.a[0]]
        return self.user(t, pos, m)

    # values of locations
    def locval(self, loc, snap):
        it = self.it
        ls = it.locs(snap)
        if loc not in ls:
            return Unk("unset variable")
        v = ls[loc]
        x = it.freeze_h(v, snap.heap) if loc[0] == "h" else it.freeze(v, snap.heap) if isinstance(v, (T, Ref, tuple)) or isconst(v) else Unk("value")
        if isinstance(x, Unk):
            return x
        try:
            return self.ev(x, dict(self.depthpos))
        except Unk as u:
            return u

    def lvn(self, loc):
        return loc[2] if loc[0] == "v" else "." + loc[2] if loc[0] == "a" else "obj%d" % loc[1]

    def simulate(self, rec):
        """-> ("exit", values) | ("early", number of the end, index, values)"""
        if not self.env and not self.depthpos:
            k = (rec.lid, rec.line, tuple(id(c) if isinstance(c, T) else c for c in rec.entry.pc))
            if k not in self.cache:
                try:
                    self.cache[k] = self.simulate1(rec)
                except (Unk, Err) as x:
                    self.cache[k] = x
            if isinstance(self.cache[k], Exception):
                raise self.cache[k]
            return self.cache[k]
        return self.simulate1(rec)

    def simulate1(self, rec):
        vals = {}
        for loc, how in rec.hv.items():
            vals[self.lvn(loc)] = self.locval(loc, rec.entry)
        saved = dict(self.env), dict(self.depthpos)
        iswhile = isinstance(rec.seq, T) and rec.seq.op == "while"
        try:
            seq = range(self.limit) if iswhile else self.seq(rec.seq, dict(self.depthpos))
            for i in range(len(seq)):
                self.steps += 1
                self.env = dict(saved[0])
                self.depthpos = dict(saved[1])
                self.env[rec.lid] = vals
                self.depthpos[rec.depth] = i
                e = self.pick(rec.ends, len(rec.head.log), rec.npc)
                if e.kind == "next":
                    vals = {self.lvn(loc): self.locval(loc, e.snap) for loc in rec.hv}
                    continue
                return "early", [x is e for x in rec.ends].index(True), i, vals
            if iswhile:
                raise Unk("loop that does not end on the model")
            return "exit", vals
        finally:
            self.env, self.depthpos = saved

    def pick(self, ends, nlog, npc):
        """the one end whose conditions hold now"""
        hit, unk = [], None
        for e in ends:
            sv = dict(self.env), dict(self.depthpos)
            r = self.feasible(e.snap, nlog, npc)
            if r is True:
                hit.append((e, (dict(self.env), dict(self.depthpos))))
            elif isinstance(r, Unk):
                unk = r
            self.env, self.depthpos = sv
        if len(hit) == 1 and unk is None:
            self.env, self.depthpos = hit[0][1]
            return hit[0][0]
        if not hit and unk is None:
            raise Err("no way through the step")
        if unk is not None:
            raise unk
        # several ends may hold when they differ in things the model leaves open
        raise Unk("several ways through the step")

    def feasible(self, snap, nlog=0, npc=0):
        """follow the loops of this segment; then its conditions -- sets env/depthpos for evaluation"""
        for c in snap.pc[npc:]:
            if any(t.a[0] not in self.depthpos for t in unbound(c)):
                continue
            try:
                v = self.ev(c, dict(self.depthpos))
            except (Unk, Err):
                continue
            if v is False or not v and v is not True:
                return False
        for ev in snap.log[nlog:]:
            if ev.kind != "loop":
                continue
            rec = ev.res
            key = id(rec)
            try:
                r = self.simulate(rec)
            except Unk as u:
                return u
            if r[0] == "exit":
                if ev.x != "exit":
                    return False
                self.env[rec.lid] = r[1]
            else:
                if ev.x == "exit":
                    return False
                e = rec.ends[r[1]]
                if e is not ev.end and not (e.kind == "raise" and ev.end.kind == "raise" and
                                            (show(e.val.cls), e.val.line) == (show(ev.end.val.cls), ev.end.val.line)):
                    return False
                self.env[rec.lid] = r[3]
                self.depthpos[rec.depth] = r[2]
        for c in snap.pc[npc:]:
            if any(t.a[0] not in self.depthpos for t in unbound(c)):
                continue          # the witness of an "any" that is itself among the conditions
            try:
                v = self.ev(c, dict(self.depthpos))
            except Unk as u:
                return u
            except Err as u:
                return Unk(str(u))
            if v is False or not v and v is not True:
                return False
        return True

    def run(self, paths):
        """(path) taken for this input, with loop symbols bound"""
        hit, unk = [], None
        for p in paths:
            self.env, self.depthpos = {}, {}
            r = self.feasible(p.snap)
            if r is True:
                hit.append((p, dict(self.env), dict(self.depthpos)))
            elif isinstance(r, Unk):
                unk = r
        if unk is not None:
            raise unk
        if len(hit) != 1:
            raise Unk("%d ways through" % len(hit)) if hit else Err("no way through")
        p, self.env, self.depthpos = hit[0]
        return p
