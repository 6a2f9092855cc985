#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
BE = "qdd/qdd_backend.py"; DD = "src/dd.cpp"

# ---------------------------------------------------------------- Python front end
p("B01", "Every gate acts as its own operator on its own qubits, in every mode",
  "When a circuit is run, every supported gate instruction is applied to the state exactly once and in circuit order, as the operator that Qiskit defines for that gate: with the instruction's parameters in order, its control qubits as controls and its target qubits in the gate's own order. This holds in each execution mode (one process, distributed with point-to-point or broadcast exchange) and when a circuit is merged into one operator.",
  ["inputs", "programs", "configurations"], "all circuits over the supported gates, all parameter values and qubit placements, all execution modes",
  "The tests run sampled circuits in the one-process mode only; distributed modes of the Python front end and operator merging are not run by any test, and 30+ gate types times roles of qubits and parameters are sampled.",
  [BE], [("dispatch tables and per-gate branches", BE + "::_evaluate_circuit"), ("operator merging", BE + "::merge_circuit")],
  [("current", "the simulated state (or merged operator)", BE)], ["counts, statevector and merged operator of a run"])
p("B02", "Unsupported instructions are refused, never silently skipped",
  "Running or merging a circuit that contains an instruction the simulator cannot apply ends in an error; no instruction other than a barrier (and measurements where nothing depends on the collapse: when shots are sampled from one final state, and when a circuit is merged into an operator) is passed over without effect.",
  ["programs", "configurations"], "all circuits, including ones with instruction types outside the supported set, in every execution mode",
  "Tests feed a few unsupported circuits to the one-process path; the set of instruction types is open-ended and merging is not tested.",
  [BE], [("final else branches that raise", BE + "::_evaluate_circuit, merge_circuit")])
p("B03", "Every advertised gate is executable and bound with the right arity",
  "Each basis gate the backends advertise to the transpiler is one the simulator can execute, and every engine entry point, gate name and parameter list the Python layer uses for it exists in the compiled engine with the matching number and kind of arguments. A bound routine does what its name says: it hands its arguments on to the engine routine of that name unchanged and in order (lists of controls as positive controls on exactly those qubits), hands back that routine's result together with the state after the call, and computes the matrix of its name.",
  ["programs", "configurations"], "all advertised gates and all engine calls in every build configuration (plain, multi-threaded, distributed)",
  "A gate missing on one side only fails when a circuit happens to use it in that build; distributed and multi-threaded bindings are not even built by the test configuration.",
  [BE, "qdd/bindings.cpp", "include/dd.h"], [("basis_gates list", BE), ("dispatch tables", BE), ("pybind11 module", "qdd/bindings.cpp")])
p("B04", "Reset leaves its qubit in |0> in every shot and every mode",
  "A reset instruction measures its qubit with collapse and flips that same qubit exactly when the outcome was 1, wherever the qubit currently lies after swaps in a distributed run; it leaves the other qubits as that outcome implies, writes no classical bit, and changes nothing else.",
  ["inputs", "programs", "configurations"], "all circuits with reset instructions, all positions of the qubit, all outcomes, every execution mode",
  "Tests reset a qubit in a few one-process circuits; a reset that flips on the wrong outcome or the wrong qubit shows only for particular states, and distributed modes are not tested.",
  [BE], [("reset branch: collapse and conditional flip", BE + "::_evaluate_circuit")])
p("B05", "Each classical bit reports the qubit last measured into it",
  "In every shot, the value returned for a classical bit is the measurement outcome of the qubit that was last measured into that bit, bit 0 being the rightmost character; bits never measured read 0; counts and memory describe the same list of exactly the requested number of shots.",
  ["inputs", "programs"], "all circuits and all assignments of qubits to classical bits, both for circuits sampled at the end and for circuits re-simulated per shot",
  "Tests use a handful of layouts; the mapping quantifies over every permutation, repeated measurement and unused bits.",
  [BE], [("final-value map and bit placement", BE + "::_evaluate_circuit"), ("counts and memory assembled from one list", BE)])
p("B06", "A conditional instruction acts exactly when its condition holds",
  "An instruction conditioned on a classical bit or register is applied in a shot if and only if that bit, or that register read as an integer with its own bit 0 least significant, currently holds the required value; this includes registers that do not start at the circuit's first classical bit and conditional measurements and resets.",
  ["inputs", "programs", "histories"], "all circuits with classical conditions, all register layouts and values",
  "Tests condition on the first register only; position of a register, width and value form an unbounded space.",
  [BE], [("condition test before dispatch", BE + "::_evaluate_circuit")])
p("B07", "Circuits whose state can differ between shots are simulated per shot",
  "A circuit with any conditional instruction, reset, channel instruction, or operation on an already measured qubit is simulated anew for every shot; sampling many shots from one final state is done only when no such instruction occurs anywhere in the circuit, regardless of where it stands.",
  ["programs", "histories"], "all circuits, all positions and orders of measurements and dynamic instructions",
  "Tests sample a few dynamic circuits; the classification depends on the whole instruction history.",
  [BE], [("circuit classification", BE + "::_validate_and_get_circuit_property"), ("number of repetitions", BE + "::_evaluate_circuit")])
p("B08", "Run options override backend defaults and reach their consumer",
  "Every documented option takes the value given to run() if present and otherwise the backend's configured value, and that value (not another option's) controls the run; a shot count that is not positive or exceeds the advertised maximum is refused before anything is simulated.",
  ["inputs", "configurations"], "all combinations of options given per run and per backend",
  "Tests set one or two options at a time; most options have no test.",
  [BE], [("option merging", BE + "::_run_internal"), ("validation", BE + "::_validate_run_options")])
p("B09", "A failed run is always reported as a failed job, never as success",
  "Whatever goes wrong while circuits are validated, bound or simulated, run() returns a job whose status is an error and whose result says so; a job reported as done carries the complete result of a run that raised nothing.",
  ["inputs", "fault_sequences"], "every error raised at any point of a run",
  "Tests trigger a few errors; every raise site and every engine error would have to be hit.",
  [BE, "qdd/qdd_job.py", "qdd/qdd_failed_job.py"], [("catch-all in run()", BE + "::run"), ("job status", "qdd/qdd_job.py")])
p("B10", "Worker threads started for a run are stopped on every exit",
  "A run that starts the engine's worker threads stops them before it ends, also when simulating a circuit fails, so that the next run starts from a clean engine.",
  ["inputs", "fault_sequences", "configurations"], "every run with more than one thread, including those that raise at any point",
  "No test runs the Python layer multi-threaded.",
  [BE], [("start/stop pairing", BE + "::_run_experiment")])
p("B11", "A result has one complete entry per circuit, in submission order",
  "The result of a run holds exactly one entry per submitted circuit in the same order, each evaluated from that circuit with that circuit's parameter binding and own properties, reporting the shots used, the classical and quantum register sizes of that circuit, and (for the state-vector backend) the final state vector.",
  ["inputs", "programs"], "all lists of circuits, bindings and register layouts",
  "Tests submit one or two circuits; pairing errors need lists with different properties.",
  [BE], [("per-circuit evaluation", BE + "::_run_internal, _run_experiment"), ("header", BE + "::_create_experiment_header")])
p("B12", "A given seed determines the sampled results",
  "If a seed is given for a run, the simulator's random numbers are a function of that seed alone, so that repeating the run with the same seed gives the same counts; without a seed the generator is not reset.",
  ["inputs", "histories"], "all circuits, shot counts and seeds",
  "Existing tests pass a seed but never compare two runs.",
  [BE, "qdd/bindings.cpp"], [("seed_simulator option", BE), ("engine generator", "qdd/bindings.cpp")])
p("B13", "Each sampler result belongs to the circuit and values it was asked for",
  "For every list of circuits and parameter values, entry i of a sampler result is the distribution of circuit i run with parameter values i, whether or not circuits or values repeat; wrong-length values are refused.",
  ["inputs"], "all lists of circuits and parameter values, with repetitions",
  "Tests use short lists; repetition and ordering form an unbounded space.",
  ["qdd/qdd_sampler.py"], [("experiment bookkeeping", "qdd/qdd_sampler.py")])

p("B14", "Each estimator result belongs to its circuit, observable and values",
  "For every list of circuits, observables and parameter values, entry i of an estimator result is the coefficient-weighted sum over observable i's terms of the mean parity of the measured bits of the term's qubits in circuit i bound with values i, each qubit measured in the term's own basis wherever transpilation placed it, identity terms contributing their coefficient; this holds whether or not circuits, observables or values repeat, terms are grouped, or earlier calls were made, and the variance reported belongs to the same entry. Values of the wrong length are refused before anything is run; shots, seed, backend and transpiler options reach the backend and transpiler (seed seeds the simulator unless seed_simulator is given; approximate mode runs without shots).",
  ["inputs", "history"], "all lists of circuits, observables and parameter values, with repetitions, over several calls",
  "Tests use a few short requests with one or two observables; repetition, grouping, caching between calls and qubit placement form an unbounded space.",
  ["qdd/qdd_estimator.py"], [("request bookkeeping", "qdd/qdd_estimator.py"), ("measurement of the terms", "qdd/qdd_estimator.py")])

p("B15", "Backends keep to their advertised limits and are found by their names",
  "The provider gives the backend whose name was asked for, the counts backend by default, and refuses unknown names. A circuit with more qubits than the backend's own configuration advertises, or a shot count that is not positive or exceeds it, is refused before any circuit of the request is simulated; everything within the limits is accepted and every circuit simulated once. The counts backend refuses circuits without measurements, the state-vector backend accepts them.",
  ["inputs"], "all requests and configurations",
  "Tests try one size beyond the limit of one backend; limits are per backend, per configuration and per place in a list.",
  [BE, "qdd/qdd_sv_backend.py", "qdd/qdd_provider.py"], [("validation of requests", BE), ("backend configurations", "qdd/qdd_sv_backend.py"), ("lookup by name", "qdd/qdd_provider.py")])

p("B16", "A run without shots reports the exact distribution of the classical bits",
  "A run whose shots are None reports, for every value of the classical bits read as an integer (bit 0 least significant), the probability that the measurements give it: each bit has the value of the qubit last measured into it, wherever that qubit lies after swaps in a distributed run, probabilities of outcomes that agree on the measured bits are added, and a bit never measured reads 0. A circuit without measurements is given the probabilities of its qubits' values. When measurements happen while the circuit goes on the bits keep their joint distribution, and nothing in the distribution is drawn by chance. A circuit with a conditional instruction is refused.",
  ["inputs"], "all circuits, bit assignments, swap histories and states",
  "Tests compare a few small circuits, mostly with one bit per qubit in order; the bit assignment, register sizes and swap history are unbounded.",
  [BE], [("distribution without shots", BE)])

# ---------------------------------------------------------------- engine, algebra
p("E01", "Engine gate matrices equal the standard definitions",
  "Every fixed and parameterised gate matrix the engine offers equals, for all parameter values, the standard unitary of that name.",
  ["inputs"], "all real parameter values",
  "Tests sample angles; equality must hold on a continuum and for every entry.",
  ["include/common.h", DD, "qdd/bindings.cpp"], [("matrix constants", "include/common.h"), ("parametric constructors", DD), ("name table", "qdd/bindings.cpp")])
p("E02", "Products, sums and tensor products follow the block recursion",
  "Adding or multiplying operators and states, and forming tensor products, yields at every level of the diagram the corresponding blocks of the mathematical result (sum over the inner index, row and column roles kept, weights of both operands multiplied in exactly once, levels that are skipped treated as identity for operators), so operands and results denote the same matrices as in linear algebra.",
  ["inputs"], "all operators and states of any size",
  "Tests multiply a few small gates; a role mix-up that cancels for symmetric or small inputs stays hidden.",
  [DD], [("recursive add/multiply/kronecker", DD)])
p("E03", "Diagram nodes are canonical, shared and never changed in place",
  "Nodes enter a diagram only through normalisation and look-up in the shared table, equal nodes are one node, and a node that is part of any diagram is never modified afterwards, so no operation on one state or operator alters another.",
  ["inputs", "histories"], "all sequences of engine operations",
  "A test sees one history; sharing makes a mutation visible only in another state that happens to share the node.",
  [DD, "include/table.hpp"], [("unique tables", "include/table.hpp"), ("normalisation", DD)])
p("E04", "Memoised results are reused only for the operands they belong to",
  "A result remembered for an addition or multiplication is returned later only for operands equal to those it was computed from and of the same kind of operation, is combined with the current operands' weights exactly once, and reused entries never refer to recycled nodes.",
  ["inputs", "histories"], "all sequences of operations and all collisions in the memo tables",
  "Collisions and reuse depend on addresses and history; tests cannot steer them.",
  ["include/cache.hpp", DD], [("add and multiply caches", "include/cache.hpp")])
p("E05", "Garbage collection keeps the given states and forgets everything else",
  "After a collection, every state or operator passed in denotes the same vector or matrix as before, in the same order and with the same weight, and nothing the engine remembers (memoised results, probabilities) refers to a node from before the collection; when the threshold is not reached and collection is not forced, nothing changes.",
  ["inputs", "histories"], "all sets of states, all histories before and after a collection",
  "Tests rarely reach the threshold; a stale memo entry needs an address to be reused.",
  [DD], [("rebuild and clear", DD + "::gc, gc_mat")])
p("E06", "Writing a diagram out and reading it back gives the same diagram",
  "Turning a state or operator diagram into its flat record form and back yields a diagram with the same levels, edge weights and child order at every node, for any sharing pattern.",
  ["inputs"], "all diagrams",
  "Tests round-trip a few circuits' states; operators and asymmetric children are not covered.",
  [DD, "include/dd.h"], [("record encoding/decoding", DD), ("record serialisation", "include/dd.h")])
p("E07", "Saving a state to a file and loading it restores the whole state",
  "A state saved to a file and loaded again equals the saved state, including its overall amplitude and phase.",
  ["inputs"], "all states, including ones whose root weight is not one",
  "No test saves a state with a non-trivial weight.",
  [DD], [("file save/load", DD)])
p("E08", "Controls and targets of built gates take effect on the named qubits",
  "A gate operator built for given targets and controls acts as the given matrix on those targets when every control has its required value and as identity otherwise, and leaves all other qubits alone, for every ordering of targets and controls.",
  ["inputs"], "all register sizes, target and control positions and polarities",
  "Tests place gates on a few positions; negative controls and mixed orders are not covered.",
  [DD], [("gate construction by level", DD + "::makeGate, makeTwoQubitGate, makeLargeGate")])
p("E09", "Measuring one qubit couples outcome, projection and renormalisation",
  "A single-qubit measurement that reports 0 (or 1) leaves the state projected onto that same value and rescaled by that outcome's own probability, and outcome 0 is chosen when the random draw falls below the probability of 0; states whose total probability is not one are refused.",
  ["inputs"], "all states, qubits and random draws",
  "Tests check statistics of a few states; exchanging roles on a rarely taken branch escapes them.",
  [DD], [("collapsing measurement", DD + "::measureOneCollapsing")])
p("E10", "Exported vectors and matrices list amplitudes in index order",
  "The dense vector or matrix exported for a state or operator has at index b (row r, column c) the product of the weights along the path selected by the bits of the index from the top qubit down, with skipped operator levels expanded as identity.",
  ["inputs"], "all states and operators",
  "Tests compare a few vectors.",
  [DD], [("recursive fill", DD + "::fillVector, fillMatrix")])
p("E11", "Buffers the engine allocates for exports are always released",
  "Every temporary buffer allocated to export or print a state or operator is released exactly once on every path, so repeated exports do not grow memory.",
  ["inputs", "histories"], "all exports, any number of times",
  "Tests do not measure memory.",
  [DD, "qdd/bindings.cpp"], [("owner releases", DD + ", qdd/bindings.cpp")])

# ---------------------------------------------------------------- concurrency
p("E12", "Sampling every qubit follows the state's own probabilities",
  "Measuring all qubits at once draws each bit, starting from the most significant one, with the probability the state gives it conditional on the bits already drawn, never reports an outcome whose probability is zero, and returns the drawn bits as a string with qubit 0 last; asked to collapse it leaves exactly the reported basis state, otherwise it leaves the state as it was. The exact distribution lists, for every basis index in order, the squared magnitude of that amplitude relative to the state's total. Both hold whether or not the masses of the state's nodes were computed before.",
  ["inputs"], "all states (zero edges and shared nodes at any place), all draws, collapsing or not",
  "Tests compare counts of a few states within statistical tolerance; a bias or a wrong branch at a zero edge or on a rarely visited level stays inside it, and the collapsing form is not tested.",
  [DD], [("the walk from the root", DD + "::measureAll"), ("conditional products per index", DD + "::probabilities"), ("masses of nodes", DD + "::assignProbabilities")],
  [("probs", "mass of every node, computed on demand", DD)], ["strings returned by measureAll, entries returned by probabilities"])
p("E13", "The basis states the engine starts from are the ones asked for",
  "The state built for an all-zero (all-one) start has exactly as many levels as the register has qubits, amplitude one at the index whose bits are all 0 (all 1) and amplitude zero everywhere else, for every register width; spread over processes, exactly one process holds it, the first (last) one, with the levels left after the process index, and all others hold zero.",
  ["inputs"], "all register widths, process counts and ranks",
  "Every simulated circuit starts from this state; tests build it for one to three qubits only.",
  [DD], [("levels added one by one", DD + "::makeZeroState, makeOneState"), ("slices per process", DD + "::makeZeroStateMPI, makeOneStateMPI")])
p("T01", "The shared node table is only touched under its slot's lock",
  "In the multi-threaded build every look-up or insertion in the shared node table reads and writes a slot only while holding that slot's lock, and gives the lock back on every way out, so concurrent insertions of equal nodes agree on one node and no thread waits forever.",
  ["schedules"], "all interleavings of any number of workers",
  "Tests run few schedules; the race window is a few instructions.",
  ["include/table.hpp"], [("per-slot spin lock", "include/table.hpp::lookup")])
p("T02", "Parallel subtasks are all awaited and land in their own place",
  "Work that an operation splits off to other workers is always awaited before its result is used, each partial result is put where the sequential computation would put it, and nothing bound to the starting thread is used after waiting, so that parallel and sequential runs give the same state.",
  ["schedules", "configurations"], "all interleavings and all migrations of a task between threads",
  "Migration between threads during a wait is up to the scheduler; tests see few.",
  [DD], [("futures", DD + "::vv_add2, mv_multiply2"), ("per-thread caches", DD)])
p("T03", "Stopping the worker pool never misses the stop signal",
  "When the engine's worker pool is shut down, every worker leaves its wait whether it began waiting before or after the shutdown was requested, and the shutdown returns only after every worker has ended.",
  ["schedules"], "all interleavings of start-up and shut-down",
  "The window is narrow; a hang would be a rare time-out.",
  ["src/task.cpp", "include/task.h"], [("stop condition", "src/task.cpp")])

# ---------------------------------------------------------------- distributed
p("M01", "All processes take part in every collective exchange, in one order",
  "In a distributed run every process performs the same sequence of collective exchanges (same kind, same root, same kind of data), whatever its rank or local state, so no run deadlocks or mixes messages.",
  ["schedules", "inputs", "configurations"], "all ranks, numbers of processes and states",
  "Tests run at most four processes with chosen states.",
  [DD, "qdd/bindings.cpp"], [("collectives", DD)])
p("M02", "Messages are complete before their data is used or their buffer reused",
  "Every message started without waiting is waited for before its receive buffer is read or its send buffer is changed or destroyed, every send has a receive of the same tag and kind of data, and a record arrives with all its fields.",
  ["schedules"], "all message timings",
  "Small messages complete eagerly in tests, hiding a missing wait.",
  [DD], [("requests and waits", DD)])
p("M03", "All processes agree on every measured outcome",
  "In a distributed run one process decides every measured value, with its probability in the whole state, and every process continues with that value, so that branches, collapsed states and returned results and probabilities agree everywhere.",
  ["inputs", "schedules"], "all states, processes and draws",
  "Tests compare printed results of rank 0.",
  [DD, BE], [("broadcast of outcomes", DD + "::measureAllMPI, measureOneCollapsingMPI")])
p("M04", "Distributed multiplication sums every block of the row exactly once",
  "The part of a distributed product held by process r is the sum over all processes c of the operator's block (r, c) times the part of the state held by c, each exactly once and each received part paired with its own sender's block.",
  ["inputs", "configurations"], "all numbers of processes, operators and states",
  "Tests use few processes; ring offsets that coincide for two or four processes hide errors.",
  [DD], [("ring and broadcast multiplication", DD)])

# ---------------------------------------------------------------- out of reach of static analysis (documented in DESIGN.md)
p("N01", "Simulated amplitudes stay within rounding error of the exact state",
  "For every circuit the simulated state equals the exact quantum state up to a small rounding error, independent of circuit length.",
  ["inputs", "programs"], "all circuits", "Error accumulation depends on the values met on the way.", [DD], [("tolerances", "include/dd.h")])
p("N02", "Sampled outcomes follow the state's probabilities",
  "Over many shots the frequency of each outcome converges to its probability in the simulated state.",
  ["inputs"], "all states and shot counts", "Statistical; depends on the generator's run-time values.", [DD], [("sampling", DD + "::measureAll")])
p("N03", "Equal states always get the same diagram despite rounding",
  "Two computations of the same state end in the same node even when rounding differs.",
  ["inputs", "histories"], "all pairs of computations", "Depends on rounding and on hash buckets of nearby values.", ["include/table.hpp"], [("tolerance comparison", "include/dd.h")])
p("N04", "Diagram size and run time stay proportional to the state's structure",
  "Simulation uses memory and time proportional to the size of the diagrams involved, not to the number of amplitudes.",
  ["inputs"], "all circuits", "Quantitative run-time behaviour.", [DD], [("sharing and memoisation", DD)])
p("N05", "Exact probabilities and expectation values are exact",
  "With sampling switched off, returned probabilities and expectation values equal those of the simulated state for the measured bits.",
  ["inputs", "programs"], "all circuits and observables", "Numerical equality over all inputs.", [BE, "qdd/qdd_estimator.py"], [("probabilities", DD)])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
