"""python3 -m qsa.run <property id>: run one check, write its evidence, print the verdict."""
import importlib, json, os, sys, time, traceback
from .dump import VERIF, REPO, AnalysisError, load_units
from .cxev import TooHard

LEVEL = "other"
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    """collects the obligations one check decides"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.items = []          # (status, key, where, rule, note)
        self.units = {}
        self.analysed = set()
        self.counts = {}
        self.explanation = ""
        self.thorough = tier == "thorough"

    def unit(self, name):
        if name not in self.units:
            self.units.update(load_units([name]))
        return self.units[name]

    def load(self, names):
        need = [n for n in names if n not in self.units]
        if need:
            self.units.update(load_units(need))
        return [self.units[n] for n in names]

    def saw(self, what):
        self.analysed.add(what)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, key, where, rule):
        self.items.append(("ok", key, where, rule, ""))

    def bad(self, key, where, rule, msg):
        self.items.append(("bad", key, where, rule, msg))

    def und(self, key, where, rule, why):
        self.items.append(("und", key, where, rule, why))

    def check(self, cond, key, where, rule, msg=""):
        """cond: True / False / None (undecided)"""
        if cond is True:
            self.ok(key, where, rule)
        elif cond is False:
            self.bad(key, where, rule, msg)
        else:
            self.und(key, where, rule, msg)
        return cond

    def spread(self, fn, jobs, workers=7):
        """fn(ctx, job) for every job in forked workers; items and counts are merged in order of the jobs"""
        jobs = list(jobs)
        if len(jobs) < 2:
            return [fn(self, j) for j in jobs]
        import multiprocessing as mp
        global _SPREAD
        _SPREAD = (fn, jobs, self)
        with mp.get_context("fork").Pool(min(workers, len(jobs))) as pool:
            res = pool.map_async(_spread_one, range(len(jobs)), 1).get(840)
        out = []
        for items, counts, analysed, swd, r, err in res:
            if err:
                raise AnalysisError(err)
            self.items += items
            for k, v in counts.items():
                self.count(k, v)
            self.analysed |= analysed
            out.append(r)
        return out

    def guard(self, key, where, rule, fn, *a):
        """run fn; a construct outside the analysis leaves the obligation undecided"""
        try:
            return fn(*a)
        except TooHard as x:
            self.und(key, where, rule, "outside the analysis: " + str(x))
        except RecursionError:
            self.und(key, where, rule, "outside the analysis: recursion depth")
        except AnalysisError:
            raise
        except Exception as x:
            if os.environ.get("QSA_DEBUG"):
                raise
            fr = traceback.extract_tb(x.__traceback__)[-1]
            self.und(key, where, rule, f"outside the analysis: {type(x).__name__} {x} ({os.path.basename(fr.filename)}:{fr.lineno})"[:300])
        return None


_SPREAD = None


def _spread_one(i):
    fn, jobs, ctx = _SPREAD
    ctx.items, ctx.counts, ctx.analysed = [], {}, set()
    try:
        r = fn(ctx, jobs[i])
        return ctx.items, ctx.counts, ctx.analysed, None, r, None
    except Exception:
        return ctx.items, ctx.counts, ctx.analysed, None, None, traceback.format_exc()


def known(pid):
    ks = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding: property=" + pid + " "):
                rest = ln.split(" ", 2)[2]
                k, _, txt = rest.partition(" | ")
                ks[k.strip()] = txt.strip()
    return ks


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("qsa.checks." + pid.lower())
    err = None
    try:
        mod.check(ctx)
    except AnalysisError as x:
        err = str(x)
    except Exception as x:
        if any(i[0] != "und" for i in ctx.items) and not os.environ.get("QSA_DEBUG"):
            fr = traceback.extract_tb(x.__traceback__)[-1]
            ctx.und("rest of the check", "-", "-", f"outside the analysis: {type(x).__name__} {x} ({os.path.basename(fr.filename)}:{fr.lineno})"[:300])
        else:
            err = traceback.format_exc()
    ks = known(pid)
    oks = [i for i in ctx.items if i[0] == "ok"]
    bads = [i for i in ctx.items if i[0] == "bad"]
    unds = [i for i in ctx.items if i[0] == "und"]
    news = [i for i in bads if i[1] not in ks]
    olds = [i for i in bads if i[1] in ks]
    if err is None and not ctx.items:
        err = "the check found nothing to analyse"
    elif err is None and not oks and not bads:
        err = "no obligation could be decided: " + unds[0][4]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rules = sorted({i[3] for i in ctx.items})
    cov = {
        "explanation": (ctx.explanation or (mod.__doc__ or "")).strip(),
        "obligations_total": len(ctx.items),
        "obligations_held": len(oks),
        "obligations_undecided": len(unds),
        "obligations_violated": len(bads),
        "functions_analysed": sorted(ctx.analysed),
        "rules": rules,
        "counts": ctx.counts,
        "held": [f"{i[1]} @ {i[2]}" for i in oks][:400],
        "undecided": [f"{i[1]} @ {i[2]}: {i[4]}"[:600] for i in unds][:100],
        "violated": [f"{i[1]} @ {i[2]}: {i[4]}"[:1500] for i in bads][:50],
        "known_findings": [i[1] for i in olds],
        "source_root": REPO,
    }
    if err:
        cov["error"] = err[-3000:]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - t0, 3)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i in {i[1]: i for i in olds}.values():
        print(f"KNOWN-FINDING: property={pid} {i[1]} at {i[2]}: {ks[i[1]]}")
    if news:
        rp = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(VERIF, rp), "w") as f:
            for i in news:
                f.write(f"{pid} {i[1]}\n  where: {i[2]}\n  rule:  {i[3]}\n  found: {i[4]}\n\n")
        seen = set()
        for i in news:
            if i[1] in seen:
                continue
            seen.add(i[1])
            if len(seen) > 15:
                break
            print(f"  {i[1]} at {i[2]}: rule: {i[3]}; found: {i[4]}"[:2000])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if err:
        print(f"ERROR property={pid}: {err}")
        return 2
    print(f"OK property={pid}: {len(oks)} obligations held, {len(unds)} undecided, {len(olds)} known findings "
          f"({len(ctx.analysed)} functions, {ev['wall_s']} s)")
    for i in unds[:12]:
        print(f"  undecided {i[1]} at {i[2]}: {i[4]}"[:400])
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
