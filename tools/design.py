#!/usr/bin/env python3
"""fills the tables of DESIGN.md from properties.jsonl, the checks' own descriptions, seeded/ and known-findings.txt"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COST = json.load(open(V + "/tools/cost.json"))
MISSED = {"B05-first-measure": "missed at first; rule on the recorded qubits (R7) added",
          "B06-stale-bits": "missed at first; the start of a shot is now part of the explored system",
          "B13-call-index": "missed at first; every split of a request over several calls added",
          "M04-group-offset": "missed at first; eight processes and hanging systems added",
          "T02-shared-operands": "missed at first; std::ref arguments are read when the task runs"}


def wrap(s):
    return re.sub(r"\s+", " ", s or "").strip()


def main():
    head = open(V + "/tools/design_head.md").read()
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    man = json.load(open(V + "/MANIFEST.json"))
    ck = {c["property"]: c for c in man["checks"]}
    na = {n["property"]: n["reason"] for n in man["not_applicable"]}
    out = []
    for p in props:
        i = p["id"]
        if i not in ck:
            continue
        d = wrap(ast.get_docstring(ast.parse(open("%s/qsa/checks/%s.py" % (V, i.lower())).read())))
        n, t = COST.get(i, ("?", "?"))
        out.append("### %s: %s\n\n%s\n\n*Method*: %s. *Bounds and trust*: %s *Size*: %s obligations, about %s s (quick). *Beyond the tests*: %s\n" % (
            i, p["title"], d, ck[i]["technique"], ck[i]["level_note"].strip(), n, t, wrap(p["why_tests_cant"])))
    out.append("### Not applicable\n")
    for i, r in na.items():
        out.append("* %s (%s): %s." % (i, next(p["title"] for p in props if p["id"] == i), r))
    seeds = ["Each change compiles, passes the stable tests and has a demonstration that fails with it. Each is reported by the check of its own property.",
             "", "| change | breaks | needs | history |", "|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
        seeds.append("| %s | %s (%s) | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], MISSED.get(n, "caught from the start")))
    defects = ["Each was shown on the real code (a failing program or run) and repaired by one commit; two are left as known findings (below).", ""]
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            defects.append("* %s, `%s`: %s" % m.groups())
    defects += ["", "Known findings (shown on the real code; their repair would be a new simulation mode, not a small patch: the run would have to follow every branch of outcomes):", ""]
    seen = {}
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) (.*?) \| (.*)", l)
        if m:
            seen.setdefault((m.group(1), m.group(3)), []).append(m.group(2))
    for (pid, what), keys in seen.items():
        defects.append("* %s: %s. Listed once per execution mode (%d obligations, e.g. `%s`)." % (pid, what.strip(), len(keys), keys[0]))
    s = head.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds) + "\n").replace("@@DEFECTS@@", "\n".join(defects) + "\n")
    open(V + "/DESIGN.md", "w").write(s)


main()
