"""writes MANIFEST.json from the claims below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the clang-resolved AST (value numbering, path facts), no execution"
CLAIMS = {
    "E01": ("abstract interpretation + normal form of matrix entries",
            "Every entry of every gate matrix, for all angles at once, up to 1e-9 on coefficients (floating-point rounding is outside). Trusts clang's AST and the interpreter in qsa/."),
}
CLAIMS.update({
    "E02": (AI + "; recursive results denote their contract, block equations compared as polynomials",
            "All operands, by induction on the level. Recursion levels skipped by the library's identity/terminal conventions are part of the trusted base."),
    "E03": ("interprocedural effect and origin analysis of node writes + abstract interpretation of the unique tables",
            "All call histories: every write to a node field is traced to the allocation it can reach. The pool's recycling and the table's comparison are decided per path."),
    "E05": (AI + "; type-reachability closure of the globals that can mention nodes",
            "All list lengths up to 3 (thorough: 5), all contents and thresholds; the recursion writing a record is decided under E06."),
    "E06": (AI + "; writer/reader field pairing on one arbitrary recursion step and one arbitrary loop iteration",
            "All diagrams, by induction on the record; trusts the standard containers' models."),
    "E07": (AI + "; archive write sequence substituted into the read sequence",
            "All states; the archive library's own encoding is trusted."),
    "E08": (AI + "; step relations of the level loops, block trees compared with the specification; matrices of composed wrappers as polynomials",
            "makeGate/makeTwoQubitGate: all register widths, targets and controls, by induction on the level. makeLargeGate: recursion for all ranges, index permutation for every ordering of up to 4 targets and some of 5 (thorough: all) with a symbolic matrix."),
    "E09": (AI + "; outcome, projector and rescaling factor compared per path as rational functions; step relations of the probability loops",
            "All states, qubits and draws; the multiplication itself is E02/E08's, floating-point rounding is outside."),
    "E10": (AI + "; the extracted recurrences (paths, recursive calls, buffer writes, loop steps) are unfolded over diagrams with symbolic weights",
            "All weights; register widths up to 4 for vectors and 3 for matrices (thorough: 6 and 4) with every set of skipped operator levels and zero edges at every place; widths up to 8 and 5 (thorough: 10 and 5) for full diagrams and some sets of skipped levels."),
    "E11": (AI + "; ownership typestate over the event trace of every path, plus unfolding of the summaries for small registers",
            "Every function of the engine and its bindings that allocates or receives an array, every normal and throwing path; allocation failure inside the standard library is outside."),
    "E13": (AI + "; step relation of the level loop, path conditions decided on finite models",
            "All register widths by induction on the level (start, step and end of the loop), widths up to 10 unfolded as well (thorough: 16); the distributed builders for 1 to 8 processes."),
    "T01": (AI + "; typestate of the slot's lock over the event trace of every path of look-up and insertion",
            "All interleavings, by mutual exclusion: every access to a slot happens between that slot's lock and unlock on every normal and throwing path. std::mutex and atomic are trusted; nodes published by insertion are read without the lock (they never change, E03)."),
    "T02": (AI + "; task typestate, thread-affinity of thread-specific objects over the call graph, parallel results compared with the sequential contract",
            "All schedules: results are taken where they are awaited and the tasks share nothing mutable but the locked table (T01) and thread-bound caches. Fibers' own scheduling is trusted."),
    "T03": (AI + "; models of threads, locks and condition variables; the stopper's path checked against the waiters' condition",
            "All interleavings of one pool's start and stop, by the monitor discipline (condition re-tested, set under the waiters' mutex, signalled to all, joined without it). The fiber scheduler itself is trusted."),
    "E04": (AI + "; key/result field agreement and path facts at every table hit and store",
            "All keys and table contents; hash values are arbitrary. Equality of edge weights is the library's own tolerance."),
})
PYAI = "abstract interpretation of the Python syntax tree (value numbering, trace partitioning, loop step relations), no execution"
CLAIMS.update({
    "B01": (PYAI + "; gate class table and argument terms compared with Qiskit's definitions, loop fixpoints over the control-flow seeds, call sequences of engine entry points",
            "Every gate class the dispatcher accepts, in every execution mode, for any circuit length by induction on the instruction loop. Qiskit's data model (operation, qubits, params) is modelled, the engine's entry points are decided under E01/E08/E02."),
    "B02": (PYAI + "; path facts of each loop iteration that applies nothing",
            "Every path of the instruction loops in every mode: an iteration without effect is reachable only for a barrier or for a measurement where the property allows it."),
    "B03": (PYAI + "; every engine call reached for each instruction kind and mode is matched against the pybind11 bindings extracted from the compiled source of the three builds; bound routines interpreted symbolically, arguments and results traced through",
            "all instruction kinds, arities and modes; all bindings named by the Python layer in plain, multi-threaded and distributed builds"),
    "B04": (PYAI + "; symbolic outcome, event sequence of each reset iteration compared with collapse-then-flip at the tracked position",
            "Every path of a reset instruction in every mode, either outcome, any qubit position. The engine's collapse is decided under E09."),
    "B05": (PYAI + "; reachable contents of every classical location in step with a reference bit, final placement by evaluating the extracted terms on symbolic layouts",
            "All histories of measurements by induction on the instruction loop (state = classical location contents), bit layouts up to the stated widths; a sampled circuit's final-value map likewise."),
    "B06": (PYAI + "; condition test evaluated for all register contents and required values in step with the reference condition",
            "All instruction histories by induction on the loop; registers of the stated widths and positions, every content and value; bit conditions likewise."),
    "B07": (PYAI + "; the classification loop as a finite transition system over (instruction kind, which qubits are already measured), and the repetition count as a term",
            "All instruction sequences by induction: classification state explored to a fixpoint over instruction kinds and measured/unmeasured qubits."),
})
SYS = AI + "; the extracted paths unfolded as a system of communicating processes (matching of messages, completion, collectives as meetings)"
CLAIMS.update({
    "E12": (AI + "; the extracted walk and product recurrences unfolded over diagrams with exact weights",
            "Registers of up to 3 qubits (thorough: 4, in all three builds), full diagrams, zero edges at every place, shared nodes at every set of levels, every outcome, draws on both sides of every decision. Trusts that a draw is uniform on its range; node masses are decided under E09."),
    "M01": (SYS + "; deadlock and mismatch detection",
            "Worlds of 2, 4 and 8 processes (thorough: 16), every qubit, zero and non-zero parts, draws that differ between processes. MPI's own guarantees are trusted; calls into the local engine are taken by contract."),
    "M02": (SYS + "; request typestate and buffer ownership along every process's events; fields of transmitted records",
            "The same worlds; sends are taken to block until received, so nothing relies on buffering. Boost's serialisation of standard containers is trusted."),
    "M03": (SYS + "; exact probabilities, results of all processes compared for evenly spread draws",
            "The same worlds with given exact probabilities of the parts, including zero parts and unnormalised states; the local probabilities are E09's."),
    "M04": (SYS + "; the set of products added by every process compared with the row of the block matrix; the block recursion unfolded over diagrams with symbolic weights",
            "The same worlds, every largest qubit; operator blocks for up to 3 qubits (thorough: 4), every pattern of skipped levels. Local products and sums are E02's."),
})
CLAIMS.update({
    "B08": (PYAI + "; the options that reach the evaluation of a circuit compared as terms with the given or configured value, the shot range decided at its boundaries",
            "All combinations of given and absent options, of any value including falsy ones; every engine entry point used per mode is compared with the one the options ask for."),
    "B09": (PYAI + " with every step able to raise; job and result reachable on each exceptional path",
            "Every raising point of run() down to the evaluation of a circuit and inside it; the job classes are interpreted too, concurrent.futures is modelled."),
    "B10": (PYAI + " with every step able to raise; start/stop typestate of the worker threads on every path",
            "Every exit of a run: normal, and an exception at any point after the start."),
    "B11": (PYAI + "; the result list evaluated by a finite model on lists of circuits and bindings, one entry field by field as terms",
            "Pairing by evaluating the extracted sequence terms on lists up to the stated length; fields for arbitrary circuits with registers of the stated layouts."),
    "B12": (PYAI + "; generator provenance: every draw in the engine and its bindings traced to the object the seeding entry point sets",
            "All seeds and runs; the generator's own algorithm is trusted. In a distributed run the ranks' generators are seeded alike by each rank's own run."),
})
CLAIMS["B13"] = (PYAI + "; calls on concrete lists of symbolic circuits and values unrolled, the extracted bookkeeping terms evaluated for concrete parameter counts, values and counts",
    "Lists of up to 3 circuits (thorough: 4) in every repetition pattern, fresh and after earlier calls on the same sampler, jobs run at once or later; values, options and counts symbolic. Qiskit's transpile, Result and BaseSampler.run are trusted.")
CLAIMS["B14"] = (PYAI + "; estimator construction and calls unrolled on lists of model circuits and observables, counts, values and coefficients being symbols; every returned value is extracted as a rational term over the counts of the experiments handed to the backend and compared with the term the entry calls for",
    "1 to 3 circuits with 1 to 3 observables (2, 3 and 9 qubits) in every repetition pattern, fresh and after earlier calls, six modes (grouped or not, transpiled with a permuting layout or not, sampled, exact, normal approximation); terms compared at generic rational points. Qiskit's transpile, PassManager, PauliList, numpy and Options are modelled in qsa/hostval.py and qsa/est.py and trusted to behave like the models.")
CLAIMS["B15"] = (PYAI + "; backends and provider constructed from source, requests at and around every advertised limit followed to the (opaque) simulation or a refusal",
    "Qubit and shot counts at, just below and just above the limits of both backends and of a configuration handed in; lists of up to 3 circuits with the offending one at any place; nine ways of asking for a backend, with and without earlier providers in the process. Qiskit's BackendV1, ProviderV1, BackendConfiguration and Options are modelled and trusted.")
CLAIMS["B16"] = (PYAI + "; the loops that build the distribution extracted as step relations and folded on small registers, the state being a free unit vector",
    "Registers of 3 qubits with 4 or 5 classical bits (more bits than qubits), seven bit assignments, every permutation of the qubits' places in the distributed modes, generic real amplitudes. Two known findings (joint distribution and resets with mid-circuit measurements), per execution mode.")
NA = {
    "N01": "bounds accumulated floating-point error over arbitrary circuits; no sound static rounding argument in reach for data-dependent diagram operations with tolerance-based sharing",
    "N02": "a statement about the distribution of random outcomes; the static part (draw compared with the outcome's weight, coupled projection) is decided under E09/B12, the frequencies themselves are not a source-level fact",
    "N03": "canonicity under rounding depends on which floating-point values arise at run time and how they fall relative to the tolerance",
    "N04": "diagram size and running time depend on run-time data; no static resource bound in reach",
    "N05": "exactness of probabilities is a floating-point accuracy statement over run-time amplitudes",
}
PENDING = "check not built yet"


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in CLAIMS:
            t, note = CLAIMS[i]
            checks.append({"property": i, "quick_cmd": f"python3 -m qsa.run {i}", "thorough_cmd": f"python3 -m qsa.run {i} --thorough",
                           "technique": t, "level": "other", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, PENDING)})
    m = {"version": 1, "setup_cmd": "python3 -m qsa.setup", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: the checks read /repo's sources, build nothing of /repo and run nothing of it. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
