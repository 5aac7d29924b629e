#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = "src/execution/handlers.rs"; R = "src/execution/runtime.rs"; PA = "src/parser.rs"; M = "src/execution/mem.rs"
MG = "src/execution/migration.rs"; W = "src/wasi/passthrough.rs"; MO = "src/execution/module.rs"; ST = "src/execution/state.rs"
RG = "src/execution/regs.rs"; OP = "src/execution/operand.rs"; TB = "src/execution/table.rs"

prop("C01", "Integer instructions compute the WebAssembly results",
 "Every i32 and i64 arithmetic, bitwise, shift, rotate, count, comparison and sign-extension instruction yields exactly the value the WebAssembly specification defines, for all operand values. Signed and unsigned division and remainder trap on exactly the operands the specification names and on no others. The result does not depend on whether an operand is a constant, a local, or the result of an earlier instruction, nor on where the result is stored.",
 ["inputs", "programs"], "all i32/i64 operand pairs x all integer opcodes x all operand sources (constant, local, computed) and destinations",
 "The suite checks a handful of literal operands per opcode from fixed .wasm files; 2^64 operand pairs and the constant/local/register source combinations selected by the translator are not sampled.",
 [H, OP, PA], [("integer op handlers", H), ("operand read/write by source kind", OP), ("operand folding of consts and locals", PA)],
 observe=["values returned by an exported function", "final memory/globals"])

prop("C02", "Floating-point instructions compute the WebAssembly results",
 "Every f32 and f64 arithmetic, comparison, rounding, sqrt, min, max, abs, neg and copysign instruction yields the IEEE-754/WebAssembly result for all operands, including signed zeros, subnormals, infinities and NaN. Where the specification fixes the exact bit pattern the result matches it bit for bit; where it allows any NaN the result is a NaN. Constants, loads, stores, locals, globals, parameters and results preserve float bit patterns.",
 ["inputs", "programs"], "all f32/f64 operand values (including every special value class) x all float opcodes x operand sources",
 "f32 tests use a few dozen literals and there is no f64 test file; NaN payload transport, ties-to-even, -0 and subnormals through each operand path are not covered.",
 [H, OP, PA], [("float op handlers incl. hand-written min/max", H), ("float constant decoding", PA)],
 observe=["bit pattern of returned floats and of memory after a float store"])

prop("C03", "Numeric conversions follow the specification, including traps",
 "Every conversion between integer and float types (wrap, extend, convert, promote, demote, reinterpret, trapping and saturating truncation) yields exactly the specified value for all inputs. Trapping truncation traps for NaN and for every value whose truncation is not representable in the target type, and for no other value; saturating truncation never traps and clamps exactly.",
 ["inputs"], "all source values, with emphasis on both sides of every representability boundary, x all conversion opcodes",
 "The conversions tests check fixed literals; the boundaries 2^31, 2^32, 2^63, 2^64 in each float width are exactly where a single representable neighbour decides trap versus value.",
 [H], [("trapping and saturating converters", H)], observe=["returned value or trap"])

prop("C04", "Structured control flow transfers control and values as specified",
 "For every valid program, block, loop, if/else, br, br_if, br_table and return take the path the specification defines and deliver exactly the operand values on top of the stack to the target label, of any number and mix of types, discarding exactly the operands below them. Branches out of any nesting depth, loop back-edges with parameters, br_table with any index (including negative or past the end), and code after an unconditional branch all behave as specified.",
 ["programs", "inputs"], "all valid nestings, label depths, block/loop types (parameters and results of mixed types), br_table shapes and branch operands",
 "Tests exercise single constructs with at most one or two same-typed values; combinations of nesting depth, mixed-type multi-value labels, dead code and folded operands are unbounded.",
 [PA, H, RG], [("branch fixups and target computation", PA), ("label stack handling in br/br_if/br_table/end/jump", H), ("result register copying (copy_regs)", RG)],
 state=[("label stack", "per-frame stack of active labels", ST)], observe=["returned values", "memory and globals written along the path", "number of executed loop iterations"])

prop("C05", "Calls pass arguments and results and isolate activations",
 "A direct or indirect call delivers the arguments in order to the callee, whose other locals start at zero or null, and delivers all of its results in order to the caller, for any number of arguments, up to the eight results the runtime supports, any mix of types and any recursion depth that memory allows. The callee cannot change the caller's locals or operand stack; call_indirect calls the function in the table slot if its type is structurally equal to the expected one, and traps on an out-of-range index, a null entry or a type mismatch.",
 ["programs", "histories"], "all call graphs (nested, recursive, mutually recursive, indirect), signatures, and live operands held across calls",
 "Tests call small functions with few live values; live registers across calls, deep recursion interleaved with memory growth, and mixed-type multi-value results are not enumerated.",
 [R, H, ST, RG], [("InvokeReg/Return frame handling", R), ("register file save_offsets/restore_offsets", RG), ("call, call_indirect handlers", H)],
 state=[("activation frame stack", "one entry per active call", ST), ("register file offsets", "window of the current frame", RG)], observe=["returned values", "trap", "memory/globals"])

prop("C06", "Loads, stores and bulk memory operations move exactly the right bytes",
 "For in-bounds accesses every load and store reads or writes exactly the specified little-endian bytes at base plus static offset, with the specified width, sign or zero extension and wrapping, at any alignment. memory.copy is correct for overlapping ranges, memory.fill and memory.init write exactly the addressed range, and data.drop empties the segment. No other byte of memory changes.",
 ["inputs", "programs"], "all addresses, static offsets, alignments, widths, overlap patterns and interleavings of memory operations with growth and calls",
 "Tests use aligned small addresses and a few patterns; exactness over the whole memory image after long random mixes is not checked.",
 [M, H, PA], [("mem_load!/mem_store! handlers", H), ("memory_copy/memory_fill/init", M)],
 state=[("linear memory", "guest memory bytes", M)], observe=["full memory image after every run", "loaded values"])

prop("C07", "Out-of-bounds guest memory accesses trap and touch nothing",
 "Any guest load, store, memory.fill, memory.copy or memory.init whose byte range is not entirely inside the guest's current linear memory (or, for memory.init, inside the segment) traps, for every base, static offset and length, including ranges whose end exceeds 2^32 and zero-length accesses past the end. Such an access reads and writes nothing, inside or outside the guest memory, and an access that is entirely inside never traps.",
 ["inputs", "programs"], "all base/offset/length triples around and beyond the memory end, memory sizes, and states before and after growth or restore",
 "No test makes an out-of-bounds access; an unchecked one silently reads or corrupts the interpreter's own heap, which no result comparison reveals.",
 [M, H], [("effective address computation in loads/stores", H), ("bulk operations", M)],
 observe=["trap versus completion", "AddressSanitizer reports on the interpreter", "memory image after the trap"])

prop("C08", "memory.grow and memory.size follow the specification",
 "memory.size returns the current size in pages; memory.grow with any delta either returns the previous size and extends memory by exactly that many zero pages with the old contents unchanged, or returns -1 and changes nothing. It never exceeds the declared maximum or 65536 pages, never shrinks memory and never ends execution. The grown memory is visible at once to every active function.",
 ["inputs", "histories"], "all deltas (0, 1, beyond maximum, at least 2^31), declared limits, and sequences of grow, access and call/return",
 "Tests grow by small deltas in one function; huge and negative-looking deltas, growth in a callee followed by access in the caller, and growth at the limits are not covered.",
 [M, H, R], [("mem_grow", M), ("cached memory pointer refresh after grow and return", R)],
 state=[("cached memory pointer", "per-frame raw pointer that must follow growth", ST)], observe=["memory.size/grow results", "memory image"])

prop("C09", "Globals hold exactly the last value written",
 "A global starts with the value of its initialiser and afterwards always reads as the last value written to it by any function, with its exact type and bits, whatever instructions or calls lie between. Writing one global never changes another, and a read of a global is ordered before and after writes exactly as in the program. (Instructions on reference-typed globals are refused when the module is loaded.)",
 ["programs", "histories"], "all global types, mutability, initialisers and interleavings of global.get/set with calls, branches and folded operands",
 "Only incidental uses in the suite; ordering between a pending read and a later write is decided by the translator and not sampled.",
 ["src/execution/global.rs", H, PA], [("global_get!/global_set! handlers", H), ("GlobalAddr get/set", "src/execution/global.rs"), ("global.set operand selection", PA)],
 observe=["globals of the instance after the run", "returned values"])

prop("C10", "Tables and reference values behave as specified",
 "table.get, table.set and table.fill read and write exactly the addressed entries and trap without any effect when the range is not inside the table; ref.null, ref.is_null and reference-typed locals, parameters and select carry the reference unchanged. call_indirect observes every earlier table mutation, and active element segments place exactly the listed functions at their offsets.",
 ["programs", "inputs"], "all tables, indices, fill ranges and interleavings of table mutation with indirect calls",
 "Tests cover single operations on a fresh table; out-of-range fills, several tables, and mutation followed by indirect calls are not combined.",
 [TB, H, MO, PA], [("table handlers", H), ("TableAddr", TB), ("element segment initialisation", MO)],
 state=[("table elements", "references held by the table", TB)], observe=["results of indirect calls", "table contents after run", "trap"])

prop("C11", "Translation preserves evaluation order and operand values",
 "Translating a function to the internal form never changes its meaning: every operand has the value it had at the point where the program pushed it, even if the local or global it came from is written before it is consumed, and side effects occur in program order. This holds for any operand stack depth, any number of locals of any type mix, any interleaving of constants, local reads, local.tee/local.set, drop, select and unary/binary operations, and for functions of any length.",
 ["programs"], "all valid straight-line and structured instruction sequences, in particular stack shapes that ordinary compilers do not emit",
 "Tests are compiler-shaped or tiny; the folding decisions depend on up to several following instructions and the current operand stack, a combinatorial space.",
 [PA, RG, OP], [("pending operand folding and lookahead", PA), ("RegAllocator", RG), ("destination folding into locals", PA)],
 observe=["returned values", "memory, globals and host call log after run"])

prop("C12", "A trap ends execution at once with no later effects",
 "When the guest traps for any reason the specification defines (unreachable, division, truncation, indirect call, table or memory bounds), no later guest instruction takes effect: memory, globals, tables and host calls are exactly those of the instructions before the trap. The run is reported as failed: no result value is returned or printed.",
 ["programs", "inputs"], "all trap kinds at all positions of all call depths",
 "Tests assert that isolated traps occur; none checks the state left behind or the absence of later effects.",
 [H, R, "src/main.rs"], [("trap sentinel / host panic", H), ("error propagation in run", R)], observe=["instance state after the trap", "host call log", "CLI output and exit status"])

prop("C13", "Instantiation builds exactly the initial state the module declares",
 "After instantiation, memories, globals, tables and exports are exactly those the module declares: limits, constant initialisers, active data and element segments applied in order at their offsets, all else zero or null. The start function has run exactly once before any export is invoked. A module whose segments do not fit, or whose imports cannot be satisfied, fails to instantiate and runs nothing.",
 ["programs", "configurations"], "all module layouts: section contents, overlapping segments, offsets from constants or globals, passive/active/declared segments, export kinds",
 "Fixed modules with one segment each; overlapping segments, multiple tables, empty segments, offset edge values and start functions are not tested.",
 [MO, PA, "src/structure/module.rs"], [("ModuleInst::new", MO), ("section decoders", PA)], observe=["initial memory/global/table contents", "exports", "error versus success"])

prop("C14", "Restoring a checkpoint continues the program exactly",
 "If execution is stopped by a checkpoint at any instruction and resumed from the image in a new process with the same module, then the combined run has the same results, final memory and globals, traps and sequence of host calls as the uninterrupted run. No host call is lost, repeated or reordered, at whatever call depth, block nesting or operand stack state the checkpoint falls.",
 ["crash_points", "programs"], "every instruction boundary of every program as checkpoint position",
 "The suite has no checkpoint or restore test at all.",
 [MG, R, ST, RG], [("checkpoint/restore", MG), ("serde of stacks, register file, labels, locals", ST), ("frame function index mapping", MG)],
 state=[("checkpoint image", "serialised stacks, memory, globals", MG)], observe=["final result/state/host call log of interrupted vs uninterrupted run"],
 hook="cfg(chiwawa_verif): poll interval override so that a checkpoint can be requested at every instruction")

prop("C15", "Checkpoints can be chained any number of times",
 "A program resumed from a checkpoint can be checkpointed again, at any later instruction and at any call depth, including in frames that were active at the first checkpoint, as often as wanted; the final outcome equals that of the uninterrupted run. A resumed run reacts to a checkpoint request as promptly as a fresh one.",
 ["histories", "crash_points"], "all sequences of checkpoint positions over a run",
 "No checkpoint test exists; repeated migration is the normal use of live migration.",
 [MG, R, ST], [("enable_checkpoint on restored frames", R), ("restore", MG)], observe=["number of checkpoints taken vs requested", "final result/state"],
 hook="cfg(chiwawa_verif): poll interval override")

prop("C16", "A checkpoint request is honoured promptly and exactly once",
 "With checkpointing enabled, once the trigger file exists a checkpoint is taken within a bounded number (about a thousand) of further executed guest instructions, whatever functions, loops, calls or host calls those instructions belong to and whatever the module imports. Taking it consumes the trigger and writes the image to checkpoint.bin; one trigger causes one checkpoint. (The start function runs without checkpointing; a request made during it is honoured afterwards.)",
 ["schedules", "programs"], "all moments at which the trigger appears relative to the guest's execution, all program shapes (call-heavy, loop-heavy, host-call-heavy)",
 "No test takes a checkpoint; a poll that is skipped for some program shapes only shows as a migration request that never completes.",
 [MG, R, H, "src/execution/dispatch_loop.rs", "src/execution/dispatch_tco.rs"], [("poll_checkpoint throttling", MG), ("per-instruction poll in both dispatchers", H)],
 state=[("poll counter", "instructions since the last poll", ST)], observe=["guest instructions executed between trigger creation and stop", "existence of trigger and image files"])

prop("C17", "Mutated tables and dropped segments survive migration",
 "Table contents changed by the program before a checkpoint, data segments dropped before it, and references held in tables are the same after restore as they were at the checkpoint, so indirect calls, table reads and memory.init behave as in the uninterrupted run. If some state cannot be captured, taking the checkpoint fails visibly and writes no image that would resume wrongly; this is so for instances linked to other instances.",
 ["crash_points", "programs"], "all histories of table.set/table.fill/data.drop before the checkpoint",
 "No checkpoint test exists; the image format omits tables on the assumption that they never change.",
 [MG, TB, "src/execution/data.rs"], [("checkpoint image contents", MG)], observe=["indirect call results and traps after restore", "memory.init after restore"],
 hook="cfg(chiwawa_verif): poll interval override")

prop("C18", "Checkpoint support is invisible until requested",
 "A run with checkpointing enabled but no request has the same results, traps, memory, globals and host calls as a run with it disabled, and creates no file. With checkpointing disabled a trigger file is neither acted on nor removed.",
 ["programs", "configurations"], "all programs, with and without the option, with and without a trigger file present",
 "No test enables checkpointing.",
 [MG, R, H, "src/main.rs"], [("enable_checkpoint flag", R), ("poll_checkpoint", MG)], observe=["results, state, output", "files in the working directory"])

prop("C19", "A bad or foreign checkpoint image is refused, never resumed",
 "Restoring from a truncated, corrupted, empty or missing image, or from one taken with a different module, ends with an error and runs no guest instruction, makes no host call and never corrupts the interpreter's memory. It terminates in bounded time and memory.",
 ["inputs", "fault_sequences"], "all byte strings offered as an image: every truncation length, bit flips, random bytes, and images of other modules",
 "No restore test exists.",
 [MG, ST, RG, "src/main.rs"], [("restore: deserialisation and validation", MG)], observe=["error versus execution", "host call log", "AddressSanitizer", "time and memory"])

prop("C20", "Both dispatchers execute programs identically",
 "The loop dispatcher and the tail-call dispatcher give the same results, traps, memory, globals, output and checkpoint behaviour for every program and input.",
 ["programs", "configurations"], "all programs under both builds",
 "The suite is run under each build separately against fixed expectations; it never compares them on other programs.",
 ["src/execution/dispatch_loop.rs", "src/execution/dispatch_tco.rs", H], [("dispatch loop and pc-overflow handling", "src/execution/dispatch_loop.rs"), ("advance! tail calls and sentinel handler", H)],
 observe=["state and output of both builds on the same program"])

prop("C21", "WASI calls are forwarded faithfully",
 "Every supported WASI function called by the guest reaches the host exactly once with the same argument values (including full 64-bit offsets, flags and rights), path bytes and buffer contents, and the guest receives exactly the host's error number, results and bytes written, at the addresses it passed. No other guest memory changes, and an import with the wrong signature or an unknown WASI name is refused when the module is loaded.",
 ["inputs", "fault_sequences"], "all WASI functions x argument values x host results and error numbers",
 "The WASI tests run a few happy-path programs; swapped or truncated arguments, error paths and byte-exact buffers are sampled at single points.",
 [W, R, PA], [("call_wasi_function dispatch", R), ("PassthroughWasiImpl methods", W)], observe=["arguments seen by a recording host", "guest memory diff", "returned errno"])

prop("C22", "WASI calls never touch memory outside the guest",
 "For any pointer, length and vector arguments a guest passes to a WASI function, the host is only ever given buffers that lie inside the guest's linear memory (or private copies of them), with lengths that fit. A call whose arguments do not fit fails without reading or writing anything outside guest memory.",
 ["inputs"], "all pointer/length/iovec arguments, including ends past the memory, wrap-around and huge counts",
 "Tests pass valid buffers only.",
 [W, M], [("bounds checks in passthrough", W)], observe=["pointer ranges handed to a recording host", "AddressSanitizer", "bytes outside guest memory"])

prop("C23", "Program arguments and environment are delivered exactly",
 "args_sizes_get/args_get and environ_sizes_get/environ_get report mutually consistent counts and sizes, write each string exactly once, NUL-terminated and in order, with pointers that address them, and write nothing beyond the reported sizes. The arguments are the module path followed by the words of --app-args, where double quotes group words.",
 ["inputs"], "all argument lists and environments (empty, long, non-ASCII, spaces, quotes) and guest buffer placements",
 "Not asserted by any test.",
 [W, "src/main.rs"], [("args_get/environ_get", W), ("parse_args_string", "src/main.rs")], observe=["guest memory after the calls", "bytes beyond the reported sizes"])

prop("C24", "The command line runs the requested function and reports its outcome",
 "The program invokes exactly the function named by --invoke (default _start) with exactly the values given by --params, and prints its result as typed value (of several results, the last). Errors (missing file, unknown export, wrong parameter count or type, failed restore) produce a message and no result line; a guest's exit code becomes the process's exit code, and a guest's output appears unchanged.",
 ["inputs", "configurations"], "all exports, parameter lists and values, exit codes and output streams",
 "No test runs the command-line program.",
 ["src/main.rs"], [("parse_params", "src/main.rs"), ("handle_result", "src/main.rs")], observe=["stdout, stderr and exit status of the built chiwawa.wasm"])

prop("C25", "Malformed or invalid modules are rejected before running anything",
 "A byte string that is not a valid WebAssembly module, or that uses a feature the runtime does not implement, is rejected with an error when loaded; none of its code runs and the loader never corrupts memory or hangs. Every valid module within the supported feature set is accepted.",
 ["inputs"], "all byte strings: truncations, mutations and type-incorrect bodies of valid modules",
 "Parser tests load valid modules only.",
 [PA, "src/main.rs"], [("section and code decoding", PA)], observe=["load error versus success, compared with a validator", "AddressSanitizer"])

prop("C26", "Instrumentation is neutral and faithful",
 "Enabling statistics or tracing, in any configuration of events and resources, never changes results, memory, globals, host calls, traps or checkpoints. The trace of an invocation lists every executed instruction of the selected event classes exactly once, in execution order and with the requested resources, across checkpoints too, and the statistics count the same instructions. (Moves of locals and constants and block bookkeeping may be fused away by the translator and are not counted on either side.)",
 ["programs", "configurations"], "all programs x trace/stats configurations",
 "The features are never built by the test suite.",
 ["src/execution/trace.rs", "src/execution/stats.rs", R], [("Tracer", "src/execution/trace.rs"), ("ExecutionStats", "src/execution/stats.rs")], observe=["state with and without instrumentation", "trace events vs a reference execution"])

prop("C27", "The interpreter itself is free of memory errors",
 "Loading, running, trapping, checkpointing and restoring any valid program never makes the interpreter read or write outside live allocations, use freed or uninitialised memory, or otherwise perform undefined behaviour.",
 ["programs", "histories"], "all valid programs and lifecycles",
 "Tests run release builds in which a stray access inside the host's linear memory goes unnoticed.",
 [H, ST, RG, R, M], [("raw pointers in VmState", ST), ("unchecked register access", RG), ("unreachable_unchecked on instruction shape", H)], observe=["AddressSanitizer and Miri reports"])

prop("C28", "Checkpoint images are portable between builds",
 "An image written by one build of the runtime (loop or tail-call dispatcher) resumes in the other with the same outcome as in the build that wrote it.",
 ["configurations", "crash_points"], "all checkpoint positions x writer/reader build pairs",
 "No checkpoint test exists; runtime-neutral migration is the project's purpose.",
 [MG, ST, RG], [("image encoding", MG)], observe=["outcome of cross-build resume", "image bytes of both builds at the same position"],
 hook="cfg(chiwawa_verif): poll interval override")

prop("C29", "Linked modules keep their own state",
 "A function imported from another instance is the exporting instance's function: it runs with that instance's memory, globals and tables, its result returns to the importer, and the two instances' states stay separate. An import that is missing or whose type differs makes instantiation fail.",
 ["programs", "configurations"], "all pairs of modules linked through function imports",
 "No test links two instances with state on both sides.",
 [MO, R, H], [("import resolution", MO), ("frame module pointer", R)], observe=["results and both instances' states"])

prop("C30", "Long runs need no more host stack than short ones",
 "Executing a program for any number of instructions, loop iterations, branches, returns and host calls uses a bounded amount of the interpreter's own native stack: no instruction and no sequence of instructions makes the host stack grow with the length of the run. Guest recursion is limited by the interpreter's heap, not by the host stack, and ends in an error or a trap, never in a corrupted result.",
 ["programs", "histories"], "all instructions in loops of any number of iterations, in both dispatchers",
 "Tests run each instruction a few times; a handler that calls the next one instead of jumping to it overflows the stack only after many thousands of executions, and only in the tail-call build.",
 [H, "src/execution/dispatch_tco.rs", "src/execution/dispatch_loop.rs"], [("advance! and the pc-overflow handler", H), ("tail-call entry", "src/execution/dispatch_tco.rs")],
 observe=["completion of long runs under the WASM tail-call build with its stack limit", "host stack depth at host calls made after N iterations"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
