#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe,hook_needed=None)))
SIM="sparsesim/src/lib.rs"; BE="backend/src/lib.rs"
pend=("pending work","per-qubit deferred H flag, deferred Rx and Ry angles and the list of deferred gates, all folded into later gates by commutation rules",SIM+" (h_flag, rx_queue, ry_queue, op_queue)")
p("S01","Single-qubit gates act as their unitaries on every state",
 "Applying x, y, z, h, s, sadj, t, tadj, rx, ry or rz to an allocated qubit changes the simulated state by exactly that gate's 2x2 unitary on that qubit (tensor identity elsewhere), up to one global phase, and up to numerical tolerance. This holds for every starting state, every rotation angle, and whatever gates were applied to the same or other qubits earlier, including gates the simulator has deferred and not yet carried out. Special angles (multiples of pi, angles that cancel) obey the same rule.",
 ["inputs","histories"],"every state of the qubits, every angle, every sequence of earlier gates left pending on the target and on a neighbour",
 "Unit tests compare a few dozen fixed gate sequences from |0..0> at sampled angles; the commutation rules between deferred H/Rx/Ry and a new gate are selected by combinations of pending work, angles and amplitudes that no finite list covers.",
 [SIM],[("deferred gates and commutation rules",SIM+" fn x/y/z/h/s/sadj/t/tadj/rx/ry/rz"),("flush",SIM+" fn flush_queue, apply_mch, mcrotation")],["QuantumSim::get_state"],[pend])
p("S02","Controlled gates act only on the all-ones control subspace",
 "Applying mcx, mcy, mcz, mch, mcs, mcsadj, mct, mctadj, mcrx, mcry, mcrz or mcphase with a list of distinct controls changes the state by the gate's unitary on the target exactly in the subspace where every control is 1, and leaves all other amplitudes alone, up to one global phase. It holds for every starting state, angle or phase, and whatever earlier gates are still deferred on controls or target; an empty control list gives the plain gate.",
 ["inputs","histories"],"every state, angle/phase, control count 0..2 (3 in the thorough tier), and every combination of pending work on controls and target",
 "Tests pair each controlled gate with a handful of fixed preparations; a wrong phase or a missed flush only shows for particular pending combinations on entangled states.",
 [SIM],[("controlled gates",SIM+" fn mcx..mcry, mcphase"),("queued gate application",SIM+" fn apply_ops")],["QuantumSim::get_state"],[pend])
p("S03","Exp and multi-controlled Exp rotate by the Pauli string",
 "exp(paulis, theta, targets) multiplies the state by exp(i*theta*P), where P is the tensor product of the given Pauli operators on the given targets, and the controlled form does so exactly in the subspace where every control is 1. It holds for every state, angle, Pauli string (including identities) and any gates deferred earlier on the qubits involved.",
 ["inputs","histories"],"every state, every angle, every Pauli string on up to 2 targets with up to 1 control (3 targets thorough), pending work on them",
 "The one unit test is a CNOT decomposition at a single angle; mixed Pauli strings, identities, controls and angles at multiples of pi/2 on superposed states are unreached.",
 ["sparsesim/src/exp.rs"],[("mcexp","sparsesim/src/exp.rs fn mcexp")],["QuantumSim::get_state"])
p("S04","Applying a matrix transforms exactly the named qubits",
 "apply(unitary, targets, controls) multiplies the state by the given matrix on the given targets, the first target being the most significant bit of the matrix index, and only where all controls are 1. It holds for every state, every assignment of targets and controls to distinct allocated qubits in any order, and any gates deferred earlier; a matrix of the wrong size and duplicate qubits are rejected.",
 ["inputs","histories"],"every state and matrix of bounded size, every ordered choice of targets and controls",
 "Tests apply a few fixed gates in fixed positions; the permutation bookkeeping between identifiers and internal locations depends on order and history.",
 [SIM],[("apply",SIM+" fn apply, controlled, swap_qubit_state")],["QuantumSim::get_state"])
p("S05","Measurement follows the Born rule and projects the state",
 "Measuring a qubit, or the joint parity of several distinct qubits, returns 1 exactly when the random sample drawn in [0,1) is below the probability of an odd parity in the current state. Afterwards the state is the renormalised projection onto the observed outcome, and nothing else changed. Each measurement draws exactly one sample.",
 ["inputs","histories"],"every normalised state, every value of the random sample, every qubit subset, pending gates on measured and other qubits",
 "Measurement tests only look at deterministic outcomes or frequencies; no finite number of random runs fixes the threshold, the scaling, or the untouched amplitudes.",
 [SIM],[("measure",SIM+" fn measure, joint_measure, check_joint_probability, joint_collapse")],["QuantumSim::measure","QuantumSim::joint_measure","QuantumSim::get_state"])
p("S06","Probability queries are exact and do not disturb the state",
 "joint_probability(ids) returns the total probability of the basis states with an odd number of ones among the given qubits, and qubit_is_zero(id) is true exactly when the probability of a one is (numerically) zero. Neither changes the state, the allocated qubits or the outcomes of later operations, whatever gates are deferred.",
 ["inputs","histories"],"every normalised state, every qubit subset, pending gates",
 "Tests query a few known states; a query that silently applies deferred work wrongly, or on the wrong qubit, needs a pending combination they do not build.",
 [SIM],[("queries",SIM+" fn joint_probability, qubit_is_zero, check_joint_probability")],["QuantumSim::joint_probability","QuantumSim::qubit_is_zero","QuantumSim::get_state"])
p("S07","Allocation hands out the lowest free id as a fresh zero qubit",
 "Allocating returns the smallest identifier that is not currently allocated, and the new qubit is in |0>, unentangled, while the state of all other qubits (including deferred gates on them) is unchanged. This holds after every history of allocations, releases and identifier swaps.",
 ["inputs","histories"],"every history of up to 5 allocate/release/swap steps on up to 4 qubits, arbitrary amplitudes on the live qubits",
 "Tests allocate and release in two or three fixed orders; the identifier map and the internal location map diverge only after particular histories.",
 [SIM],[("allocate",SIM+" fn allocate")],["QuantumSim::allocate","QuantumSim::get_state"],[("id map","identifier to state location",SIM+" id_map")])
p("S08","Releasing a qubit measures it away and leaves the others intact",
 "Releasing an allocated qubit has the effect on the remaining qubits of measuring it and discarding it: their state is the renormalised projection for the outcome selected by the random sample, their identifiers keep their meaning, and the released identifier is not allocated any more. Releasing the only qubit returns the simulator to the empty ground state with nothing deferred. Releasing an identifier that is not allocated is rejected with a panic.",
 ["inputs","histories"],"every normalised state of up to 3 qubits, every choice of released qubit, every random sample, pending gates, allocated and unallocated ids",
 "Tests release qubits that were already measured or in |0>; entangled releases, pending gates and misuse need specific histories.",
 [SIM],[("release",SIM+" fn release")],["QuantumSim::release","QuantumSim::get_state","QuantumSim::allocate"])
p("S09","Swapping qubit identifiers is exactly a relabelling",
 "swap_qubit_ids(a, b) has the effect of exchanging the names of the two qubits: everything done to a before, deferred or carried out, is afterwards observed on b and vice versa, and no other qubit is affected. Swapping an unallocated identifier is rejected.",
 ["inputs","histories"],"every state and every combination of pending work on both qubits and a third one",
 "Tests swap in two fixed situations; each combination of pending H, Rx, Ry and queued gates on the two qubits takes a different path.",
 [SIM],[("swap",SIM+" fn swap_qubit_ids")],["QuantumSim::get_state"],[pend])
p("S10","Forced collapse projects onto the requested value when possible",
 "force_collapse(val, id) returns the probability that the qubit has value val in the current state and, if that probability is not numerically zero, leaves the state as the renormalised projection onto that value; if it is zero the state is left alone. It draws no random sample.",
 ["inputs","histories"],"every normalised state, both values, pending gates",
 "Tests cover a Bell pair; the scaling for a general probability and the impossible-value guard are sampled at a point each.",
 [SIM],[("force_collapse",SIM+" fn force_collapse, joint_collapse")],["QuantumSim::force_collapse","QuantumSim::get_state"])
p("S11","Duplicate or unallocated qubits are never silently accepted",
 "A controlled gate, rotation by a non-zero angle, Exp, matrix application, joint measurement or joint probability that names the same qubit twice is rejected with a panic, at the latest when the state is next observed. An operation that names an identifier that is not allocated is likewise rejected by measure, joint_measure, joint_probability, force_collapse, swap, apply, mcphase, mch and mcexp.",
 ["inputs"],"every operation kind, every choice of identifiers out of allocated and unallocated ones containing a duplicate or an unallocated id",
 "Tests check three operations with one duplicate pattern each.",
 [SIM,"sparsesim/src/exp.rs"],[("duplicate check",SIM+" fn check_for_duplicates, resolve_and_check_qubits"),("mcexp check","sparsesim/src/exp.rs fn mcexp")],["panic"])
p("S12","State snapshots are complete, sorted and faithful to identifiers",
 "get_state returns every non-zero amplitude exactly once, ordered by index, where bit i of the index is the value of the i-th lowest allocated identifier, together with the number of allocated qubits; every gate applied so far is included. Taking a snapshot (or a dump, which prints the same entries in the same order) does not change the state, the identifiers, or what later operations do.",
 ["inputs","histories"],"every state on up to 3 live qubits, every internal placement reachable by allocate/release/apply/swap histories, pending gates, indexes beyond 64 bits",
 "Tests snapshot states whose internal placement is already in order.",
 [SIM],[("get_state/dump",SIM+" fn get_state, dump, swap_qubit_state")],["QuantumSim::get_state","QuantumSim::dump"])
p("S13","Measurement outcomes are a function of seed and program",
 "With the same seed and the same sequence of operations, all measurement outcomes and final states are the same, on a new simulator or after reseeding an old one. Successive measurements use successive draws of one random stream, and re-initialising the execution environment between shots continues that stream instead of restarting or replacing it.",
 ["inputs","histories"],"every seed, every random stream, sequences of up to 3 measurements across up to 2 shots",
 "Tests pin single seeds; a stream that is cloned, reseeded or re-drawn on some path gives plausible values in each run.",
 [SIM,BE],[("rng ownership",SIM+" fn new, set_rng_seed, take_rng"),("initialize",BE+" __quantum__rt__initialize, set_rng_seed")],["measurement outcomes"])
p("B01","Every gate intrinsic performs its QIR-defined operation",
 "Each __quantum__qis__ gate intrinsic (h, s, t, x, y, z, rx, ry, rz, r, sx, cnot, cx, cy, cz, ccx, swap, rxx, ryy, rzz with their adj, ctl and ctladj forms) transforms the state by the unitary its name defines, with angle, Pauli, control array and target taken from the right arguments, up to one global phase. It holds for every state, angle, Pauli and assignment of qubits, and controls given as an array act jointly. Qubit ids used without explicit allocation denote qubits that start in |0>.",
 ["inputs","programs"],"every intrinsic, state, angle, Pauli value, up to 2 controls, every distinct qubit assignment, allocated or first-use qubits",
 "Tests run each intrinsic on basis states or followed by its own inverse, which hides swapped arguments, wrong signs and phases.",
 [BE],[("intrinsics",BE+" macros and fns __quantum__qis__*")],["capture_quantum_state"])
p("B02","Exp intrinsics pass Pauli, angle and qubits through faithfully",
 "__quantum__qis__exp__body/adj/ctl/ctladj rotate the state by exp(i*theta*P) (adjoint forms by exp(-i*theta*P), controlled forms only where all controls are 1) for the Pauli array, angle, qubit array and control array they are given. The caller's arrays and tuple are left unchanged and no runtime memory is leaked.",
 ["inputs","programs"],"every state, angle, Pauli string of length up to 2, 0-1 controls",
 "Tests check exp against its own inverse.",
 ["backend/src/exp.rs"],[("exp intrinsics","backend/src/exp.rs")],["capture_quantum_state"])
p("B03","Pauli measurement measures the right observable and restores the basis",
 "__quantum__qis__measure__body returns One exactly when the random sample is below the probability of the -1 eigenspace of the given Pauli product, and afterwards the state is the renormalised projection onto the observed eigenspace in the original basis. Identity entries are ignored; arrays of different lengths make the program fail.",
 ["inputs"],"every normalised state of 2 qubits, every Pauli pair, every random sample",
 "Tests measure eigenstates only; an unbalanced or wrong basis change is invisible on them or shows as a changed later state.",
 [BE],[("basis mapping",BE+" fn map_to_z_basis, unmap_from_z_basis, __quantum__qis__measure__body")],["measure result","capture_quantum_state"])
p("B04","Probability assertions pass exactly within tolerance and change nothing",
 "__quantum__qis__assertmeasurementprobability (body and ctl form) fails the program exactly when the probability of the given result for the given Pauli product differs from the expected one by more than the tolerance. When it passes, the quantum state is unchanged.",
 ["inputs"],"every normalised state, Pauli pair, expected probability, tolerance, both results",
 "Tests assert true statements about eigenstates and one false one.",
 [BE],[("assert",BE+" __quantum__qis__assertmeasurementprobability__body")],["fail","capture_quantum_state"])
p("B05","Measure and reset intrinsics record the outcome they caused",
 "mz and mresetz store exactly the observed outcome under the given result id and m returns it; mz and m leave the qubit in the observed state, while reset and mresetz leave it in |0>. All other qubits are left in the projection of the state for the observed outcome, and all other results are untouched.",
 ["inputs","histories"],"every normalised 2-qubit state, qubit choice, result id, prior results, random sample",
 "Tests use deterministic outcomes.",
 [BE],[("measurement intrinsics",BE+" __quantum__qis__mz__body, mresetz, m, reset")],["read_result","capture_quantum_state"])
p("B06","Results read back as last written and are isolated from each other",
 "Reading a result id returns the value most recently stored under that id since the environment was initialised, or false if there was none; storing or reading one id never changes another. result_equal, result_get_one/zero and recording a result agree with that value.",
 ["inputs","histories"],"every sequence of up to 4 writes/reads with arbitrary ids below 200 and values",
 "Tests use ids 0..3 in order.",
 [BE,"backend/src/result_bool.rs"],[("result store",BE+" __quantum__rt__write_result, read_result, result_record_output")],["__quantum__rt__read_result","recorded output"])
p("B07","Qubit arrays own distinct fresh qubits and release them all",
 "qubit_allocate and qubit_allocate_array(n) return n distinct qubit ids not in use, each usable as a fresh |0> qubit, and releasing a qubit or an array releases exactly those ids so that they can be allocated again. Releasing an array also gives back all the memory of the array; qubits used by id without allocation are created once each.",
 ["inputs","histories"],"every history of up to 4 allocate/allocate-array/release steps with sizes up to 3",
 "Tests allocate one array and release it, and cannot see leaked memory.",
 [BE],[("qubit arrays",BE+" __quantum__rt__qubit_allocate_array, qubit_release_array, ensure_sufficient_qubits")],["qubit ids","capture_quantum_state","heap"])
p("B08","Each initialisation starts a clean execution environment",
 "After __quantum__rt__initialize no qubit, result value or deferred gate of an earlier execution is observable: the state has no qubits, every result reads false, and the next program behaves as in a fresh process apart from the random stream.",
 ["inputs","histories"],"every earlier history of up to 3 operations with arbitrary angles and outcomes",
 "Tests initialise once per thread.",
 [BE],[("initialize",BE+" __quantum__rt__initialize")],["capture_quantum_state","read_result","allocate"])
p("B09","A dump shows the stored results and the true state without disturbing it",
 "dumpmachine (and dumpregister) writes, when any result is stored, one line with the value of every result identifier up to the largest one stored, and then one line with every non-zero amplitude once, ordered by basis state of the live qubits, exactly as a snapshot of the state lists them. Dumping changes neither the state nor the results.",
 ["inputs","histories"],"states of three qubits reached with gates of any angle, results stored under up to 4 identifiers, pending gates",
 "Tests compare one dump of a fixed program.",
 [BE,SIM],[("dump",BE+" fn dump_state; "+SIM+" fn dump")],["output buffer","capture_quantum_state"])
p("L01","Arrays store, index, concatenate and copy their elements faithfully",
 "An array created with an element size and count has that size, starts zero-filled, and gives non-overlapping in-bounds storage for every index; concatenation yields all elements of the first then of the second and leaves both unchanged, and fails for different element sizes. Sizes whose byte count is not representable are refused rather than truncated.",
 ["inputs"],"every element size 1..16 and count up to 5 with arbitrary contents, plus every element-size/count pair for the overflow rule",
 "Tests use one element type and a few values.",
 ["stdlib/src/arrays.rs"],[("array functions","stdlib/src/arrays.rs")],["array contents","memory safety"])
p("L02","Copies are shared only when nobody can tell",
 "Copying an array, tuple or callable with force set, or while it has an alias count above zero, gives an independent value with equal contents, so that writing either never changes the other; otherwise the same value is returned with one more reference. A copy is released independently of its source.",
 ["inputs","histories"],"array, tuple and callable; force or not; alias counts 0..2; arbitrary contents and writes",
 "Tests check the pointer for one alias count and never write through the copies.",
 ["stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/callables.rs"],[("copy","array_copy, tuple_copy, callable_copy")],["contents","pointer identity","heap"])
p("L03","Array slicing selects exactly the range's elements",
 "Slicing an array by (start, step, end) returns the elements at start, start+step, ... up to and including end in that order (downwards for a negative step, nothing if the range is empty), and leaves the source unchanged. If any selected index is outside the array, or the range cannot be represented, the call fails instead of returning other elements.",
 ["inputs"],"every start, step and end over all 64-bit values (bounded number of selected elements), arrays of up to 4 elements of size 1 to 16",
 "Tests slice with a dozen small ranges; overflow and boundary ranges are among 2^192 inputs.",
 ["stdlib/src/range_support.rs"],[("slice","stdlib/src/range_support.rs fn quantum__rt__array_slice_1d")],["array contents","failure"])
p("L04","Reference and alias counting never leaks, double-frees or frees early",
 "For arrays, tuples, callables, big integers and strings, any sequence of reference and alias count updates keeps the value readable and unchanged while its reference count is positive, and all of its memory is returned exactly when the reference count has reached zero and all aliases are gone. No sequence of balanced updates frees memory twice, touches freed memory or leaks.",
 ["histories","inputs"],"every sequence of up to 3 count updates each in -2..3, for each value kind, arbitrary contents",
 "A unit test cannot observe leaked or freed memory and checks one or two update orders.",
 ["stdlib/src/lib.rs","stdlib/src/tuples.rs","stdlib/src/arrays.rs","stdlib/src/callables.rs","stdlib/src/bigints.rs","stdlib/src/strings.rs"],[("update_counts","stdlib/src/lib.rs fn update_counts")],["heap","contents"])
p("L05","Tuples give private zeroed storage of the requested size",
 "tuple_create(n) returns storage for n bytes, all zero, writable in full without affecting any other value and readable until the tuple's last reference is gone; a size that cannot be represented is refused.",
 ["inputs"],"every size 0..40 with arbitrary contents, and every 64-bit size for the refusal rule",
 "Tests use one size.",
 ["stdlib/src/tuples.rs"],[("tuple_create","stdlib/src/tuples.rs")],["contents","memory safety"])
p("L06","Callables dispatch to the right specialisation with all controls",
 "Invoking a callable calls the body, adjoint, controlled or controlled-adjoint entry of its table according to how often it was made adjoint (parity) and controlled, passing its capture tuple, the result tuple, and an argument tuple in which the controls of all nested control levels are concatenated outermost first, followed by the innermost arguments. The caller's tuples, arrays and counts are left as they were and nothing is leaked, also when the invoked function applies functors to, copies or invokes that same callable; capture count updates reach the memory-management entry if there is one.",
 ["inputs","histories"],"every sequence of up to 4 adjoint/controlled steps incl. copies, nested control lists of up to 2 qubits and up to 3 levels, arbitrary values",
 "Tests invoke one callable with at most two levels and cannot see leaks or modified inputs.",
 ["stdlib/src/callables.rs"],[("invoke","stdlib/src/callables.rs fn __quantum__rt__callable_invoke")],["arguments received by the specialisation","heap"])
p("L07","Big-integer operations agree with mathematical integers",
 "Creating a big integer from an i64 or from little-endian two's-complement bytes, and adding, subtracting, negating, multiplying, dividing, taking remainders, powers, bitwise and/or/xor/not, shifting and comparing, give the mathematically exact integer (truncating division, remainder with the sign of the dividend, floor right shift), at any size, and never modify their operands. Division by zero fails.",
 ["inputs"],"all operand values of up to 2-3 machine digits for linear operations, bounded operands for products and quotients",
 "Tests evaluate a few constants.",
 ["stdlib/src/bigints.rs"],[("bigint functions","stdlib/src/bigints.rs")],["bigint values"])
p("L08","Big-integer bytes round-trip",
 "For every big integer the data pointer and length describe the shortest little-endian two's-complement form of its value, and creating a big integer from those bytes gives an equal value; creating from any byte string and reading it back preserves the value.",
 ["inputs"],"every byte string of length 1..17",
 "Tests round-trip three constants.",
 ["stdlib/src/bigints.rs"],[("bigint bytes","stdlib/src/bigints.rs fn __quantum__rt__bigint_get_data, get_length, create_array")],["bytes"])
p("L09","Strings keep their bytes through create, concatenate and compare",
 "A created string has exactly the bytes of the C string it came from, concatenation gives the bytes of both in order and leaves the operands unchanged, equality holds exactly for equal bytes, and length and data describe those bytes with a terminating zero.",
 ["inputs"],"every pair of zero-terminated byte strings of up to 4 bytes",
 "Tests use two constants.",
 ["stdlib/src/strings.rs"],[("string functions","stdlib/src/strings.rs")],["bytes"])
p("L10","Conversions to text show the value they are given",
 "The text of an integer, boolean, Pauli, range, qubit, result or double is its canonical rendering: decimal integers, true/false, PauliI/X/Y/Z, start..end or start..step..end when step is not 1, the qubit id, One/Zero, and for doubles the shortest rendering with one decimal exactly when the value is a finite whole number.",
 ["inputs"],"every value of each type",
 "Tests convert a handful of constants.",
 ["stdlib/src/strings.rs","stdlib/src/range_support.rs",BE,"backend/src/result_bool.rs"],[("to_string functions","stdlib/src/strings.rs, range_support.rs, backend")],["string bytes"])
p("L11","Output records are one line each, in order, in the exact format",
 "Every output-recording call appends exactly one line to the output, in call order: OUTPUT, tab, the kind, tab, the value, then tab and tag if a tag is given; legacy calls give RESULT lines and messages give INFO lines of printable ASCII with every other character, quotes and backslashes escaped as in Rust's escape_default, so that a message never spans lines. A record never depends on or alters earlier ones.",
 ["inputs","histories"],"every record kind and value, every tag and message of up to 3 bytes, sequences of 2 records",
 "Tests record fixed values with two tags.",
 ["stdlib/src/output_recording.rs","stdlib/src/lib.rs",BE],[("record functions","stdlib/src/output_recording.rs")],["output buffer"])
p("L12","Math intrinsics return the IEEE function of their arguments",
 "isnan, isinf (positive only) and isnegativeinfinity classify every double correctly, nan and infinity return those values, sqrt, sin, cos, tan, log, arctan2 and the other elementary intrinsics each return the named function of their arguments in the right order, and ieeeremainder(x, y) is x minus y times the integer nearest to x/y, ties to even.",
 ["inputs"],"every double for the classifiers and argument routing; integer-valued operands of bounded size for the remainder",
 "Tests evaluate one or two points per function.",
 ["stdlib/src/math.rs"],[("math functions","stdlib/src/math.rs")],["return values"])
p("L13","Random draws stay inside the requested closed range",
 "drawrandomint(min, max) and drawrandomdouble(min, max) return a value between min and max inclusive drawn over exactly that closed range, return the only value when min equals max, and fail the program when min is greater than max.",
 ["inputs"],"every min and max, every random draw",
 "Tests draw a few times from two ranges.",
 ["stdlib/src/math.rs"],[("drawrandom","stdlib/src/math.rs fn __quantum__qis__drawrandomint__body, drawrandomdouble")],["return values","failure"])
p("L14","Program memory is zeroed, private and as large as asked",
 "memory_allocate(n) returns n bytes of storage that are all zero at first and overlap no other live block or value, whatever was allocated before.",
 ["inputs","histories"],"up to three blocks of up to 19 bytes with arbitrary contents",
 "The function has no unit test.",
 ["stdlib/src/lib.rs"],[("memory_allocate","stdlib/src/lib.rs fn __quantum__rt__memory_allocate")],["contents","memory safety"])
p("L15","Recorded output goes to the chosen place and is taken exactly once",
 "Everything the runtime records or prints (output records, messages, raw lines, state dumps) is written, in order and complete, to the place chosen last: standard output unless the buffer was chosen. Choosing a place changes nothing that was recorded before. Draining or reading the buffer gives the bytes recorded into it since they were last taken, each exactly once; nothing that went to standard output appears in it.",
 ["histories","inputs"],"every sequence of up to five steps of recording, choosing, draining and reading with arbitrary texts; every recording function to both places",
 "Tests drain once after one record and never look at standard output.",
 ["stdlib/src/output_recording.rs"],[("OutputRecorder","stdlib/src/output_recording.rs struct OutputRecorder"),("record_output","stdlib/src/output_recording.rs fn record_output"),("dump","backend/src/lib.rs fn __quantum__qis__dumpmachine__body")],["order of lines","completeness"])
p("R01","Every declared runtime function is bound to its implementation or refused",
 "Running a program binds each external function it declares to the implementation of the same name when the parameter count is the supported one (choosing the legacy or current output form, and the static or dynamic m, by parameter count), and refuses the program with an error naming it when the count is unsupported, when a name is unknown, or when legacy calls and calls of the current form of bool, int, double and result recording are mixed. No program runs with an unbound or wrongly bound function.",
 ["programs"],"every known function name with every parameter count and every pair drawn from the output-recording functions, alone and together with unknown names",
 "Tests load a few fixed programs.",
 ["runner/src/lib.rs"],[("bind_functions","runner/src/lib.rs fn bind_functions")],["execution-engine mappings","error"])
p("R02","The entry point is the unique matching one",
 "The function that runs is the only one carrying an entry-point attribute whose name equals the requested name, if a name was given; if there is none, or more than one, the run is refused with an error and nothing is executed. An entry point with parameters is refused.",
 ["programs","inputs"],"every module of up to 3 functions with any attributes, names and any requested name",
 "Tests have modules with one or two entry points.",
 ["runner/src/lib.rs"],[("choose_entry_point","runner/src/lib.rs fn choose_entry_point, run_entry_point")],["function run","error"])
p("R03","Each shot is framed by START, its metadata and END",
 "A run of n shots executes the entry point exactly n times, each in a freshly initialised environment, and writes for each shot START, one METADATA line per attribute of the entry point in order (key, and value if there is one), the records of that shot, and END 0, with nothing carried over between shots.",
 ["programs","histories"],"every shot count up to 3, attribute lists of up to 2, arbitrary records per shot",
 "Tests compare the output of a few fixed programs.",
 ["runner/src/lib.rs"],[("run_module","runner/src/lib.rs fn run_module")],["output writer"])
p("R04","Programs reach the parser unchanged and unreadable input is refused",
 "A program given as bytes, through a reader or in a file reaches the parser byte for byte (text terminated as the parser needs it), whatever pieces the reader delivers; a .ll file is read as text and a .bc file as bitcode. Input of less than four bytes, a failing reader, an unreadable file or any other file extension is an error, and nothing is parsed or run.",
 ["inputs","fault_sequences"],"every short input, every way the reader splits it or fails, every file extension of up to 3 characters",
 "Tests load complete fixture files.",
 ["runner/src/lib.rs"],[("input","runner/src/lib.rs fn run_input, run_bytes, load_file")],["bytes given to the parser","error"])
p("R05","The command line runs exactly the program its options ask for",
 "qir-runner's options for file, entry point, shots and seed, in short or long form, joined or separate, in any order, are handed to the run unchanged, with one shot by default and no seeding unless asked for. Numbers that do not fit or are no numbers, unknown or repeated options, missing values and further arguments are errors and nothing is read or run.",
 ["inputs","configurations"],"every order and spelling of the options, numbers of shots of up to two characters, several seeds, names and files",
 "Tests pass one or two fixed command lines.",
 ["runner/src/cli.rs"],[("main","runner/src/cli.rs fn main")],["runs","files read","error"])
p("P01","The Python module reports the same results as the library",
 "run, run_bytes and main of the Python package hand their arguments to the runner unchanged, deliver every output line to the callback and turn every error into a Python exception.",
 ["inputs"],"every argument combination",
 "The Python tests run fixed programs.",
 ["pip/src/python.rs"],[("bindings","pip/src/python.rs")],["callback","exceptions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,x["title"]
