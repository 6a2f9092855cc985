"""Point-to-point messages.  The same systems of processes as in M01: a receive is matched by source, tag and type;
what a non-blocking receive delivers exists only after it has been waited for; a buffer of a message under way is
neither changed nor left behind; every message is received; sends are taken to wait for their receive, so no run may
depend on buffering.  The records that travel are serialised field by field, each field once."""
from ..cxev import Interp
from ..terms import *
from ..mpicheck import simulate

RULE = "messages are matched, complete before their data or buffer is used, and none is left over"
RULE2 = "a record sent between processes carries every field exactly once"
NAMES = ("mv_multiply_MPI", "mv_multiply_MPI_bcast3", "printVectorMPI", "send_dd", "receive_dd", "measureAllMPI", "measureOneCollapsingMPI")


def fields_sent(ctx):
    U = ctx.unit("mpi")
    recs = {r["qn"]: [f["n"] for f in r["f"]] for r in U["records"]}
    fs = [f for f in U["funcs"] if f["name"] == "serialize" and f.get("cls") in recs and f.get("body")]
    for want in ("Complex", "vContent"):
        if not any(f["cls"] == want for f in fs):
            ctx.und("serialize:" + want, "include/dd.h", RULE2, "no serialisation of %s is instantiated" % want)
    for f in fs:
        cls = f["cls"]
        ar = f["ps"][0]["t"].split("::")[-1].strip(" &")
        wh = "%s:%d %s::serialize<%s>" % (f["file"].split("/repo/")[-1], f["l"], cls, ar)
        ctx.saw(wh)

        def one():
            it = Interp(U, opaque=set())
            rs = it.run(f, [sym("AR"), sym("V")], this=sym("THIS"))
            for tag, v, s in rs:
                if tag != "ret":
                    ctx.und("serialize:" + cls, wh, RULE2, "ends by " + tag)
                    continue
                got = []
                for e in s.log:
                    if e.kind == "loop":
                        ctx.und("serialize:" + cls, wh, RULE2, "loop")
                        return
                    if e.kind == "call" and e.name.split("::")[-1] in ("operator&", "operator<<", "operator>>"):
                        got.append(show(e.args[1]))
                names = []
                for g in got:
                    n = [x for x in recs[cls] if g.endswith("deref(THIS)." + x)]
                    if cls == "Complex":
                        n = ["r"] if g.startswith("re(") else ["i"] if g.startswith("im(") else []
                    if len(n) != 1:
                        ctx.und("serialize:" + cls, wh, RULE2, "transfers " + g[:120])
                        return
                    names.append(n[0])
                ctx.check(sorted(names) == sorted(recs[cls]), "serialize:" + cls, wh, RULE2,
                          "transfers %s of the fields %s" % (", ".join(names) or "nothing", ", ".join(recs[cls])))
        ctx.guard("serialize:" + cls, wh, RULE2, one)


def check(ctx):
    simulate(ctx, ("message", "deadlock"), NAMES, RULE)
    fields_sent(ctx)
