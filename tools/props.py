NOT_APPLICABLE = []
TESTS_NOLLVM = "The stable tests never run compiled code (they are built without the LLVM backend), and the repository's own execution tests sample a few hundred hand-written snippets. "

prop("C01", "Compiled code behaves exactly like the interpreter",
 "For every bytecode, fork, call context and gas limit, running the compiled function ends with the same outcome as running the same bytecode in the reference interpreter: same kind of ending, same return data, same memory, same final stack where it is observable, same gas and refunds. Error endings agree in being errors, and agree on the reason when distinct error reasons are requested.",
 ["programs", "inputs", "configurations"],
 "All bytecodes (including arbitrary bytes), all forks, all call contexts, all gas limits, all compiler settings that promise unchanged semantics.",
 TESTS_NOLLVM + "The guarantee is over all programs and all interactions of optimization passes.",
 [CG+"compiler/translate/mod.rs", CG+"compiler/translate/vstack.rs", CG+"compiler/translate/peephole.rs", CG+"compiler/mod.rs", CG+"bytecode/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-builtins/src/ir.rs", "crates/revmc-context/src/lib.rs"],
 [("instruction translation", CG+"compiler/translate/mod.rs"), ("bytecode analysis passes", CG+"bytecode/passes/"), ("runtime builtins", "crates/revmc-builtins/src/lib.rs"), ("calling convention and result hand-over", "crates/revmc-context/src/lib.rs")],
 ["EvmCompilerFn::call_with_interpreter", "EvmCompilerFn::call"])

prop("C02", "Gas and refunds charged by compiled code equal the interpreter's",
 "For every program and gas limit, compiled code leaves exactly the gas remaining and the refund counter the interpreter leaves, observable mid-way through the remaining-gas instruction, at every suspension and at the end. With a limit one unit below what the interpreter needs, the compiled code runs out of gas; with exactly that amount it does not.",
 ["programs", "inputs", "configurations"],
 "All programs, all gas limits from zero to the largest representable, all forks.",
 TESTS_NOLLVM + "Gas is pre-paid per section and re-associated by passes, so a wrong charge shows only for particular code shapes at particular limits.",
 [CG+"bytecode/passes/sections.rs", CG+"bytecode/passes/memory_sections.rs", CG+"compiler/translate/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-builtins/src/utils.rs"],
 [("gas sections", CG+"bytecode/passes/sections.rs"), ("memory sections", CG+"bytecode/passes/memory_sections.rs"), ("dynamic gas in builtins", "crates/revmc-builtins/src/utils.rs")],
 ["gas record of every suspension and exit", "GAS opcode results"])

prop("C03", "Compiled code reads and changes the outside world as the interpreter does",
 "Every observation and effect of compiled code on the world outside its frame (persistent and transient storage, logs, balances, foreign code, block hashes, self-destruction) is made with the same arguments, in the same order and the same number of times as by the interpreter, and values read back reach the program unchanged. In a read-only context no state change is ever made, and when the world reports a failure the execution ends as the interpreter's does.",
 ["programs", "inputs", "fault_sequences"],
 "All programs, worlds, warm/cold histories and load failures.",
 TESTS_NOLLVM + "Order and multiplicity of effects depend on code motion and on warm/cold state, which samples do not cover.",
 ["crates/revmc-builtins/src/lib.rs", CG+"compiler/translate/mod.rs", "crates/revmc-context/src/lib.rs"],
 [("host builtins", "crates/revmc-builtins/src/lib.rs"), ("static-context guard", "crates/revmc-builtins/src/lib.rs")],
 ["Host trait calls (recorded in order)"])

prop("C04", "Nested calls and creations suspend and resume compiled code faithfully",
 "Whenever the program calls another contract or creates one, compiled code hands over the same request (kind, addresses, value, input bytes, gas, memory window for the output) as the interpreter, and after the result is delivered it continues exactly behind that instruction with the same stack, memory, gas and return-data buffer. This holds for any number of suspensions, nested in any control flow, and for any result of the nested call.",
 ["programs", "inputs", "histories"],
 "All programs with any sequence of calls and creations, all results of the nested frames, any number of re-entries.",
 TESTS_NOLLVM + "The resume path re-enters the middle of optimized code; which values are live there depends on the whole program.",
 [CG+"compiler/translate/mod.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-context/src/lib.rs"],
 [("suspend/resume dispatch", CG+"compiler/translate/mod.rs"), ("call and create builtins", "crates/revmc-builtins/src/lib.rs"), ("resume point", "crates/revmc-context/src/lib.rs")],
 ["InterpreterAction of every suspension", "state after resume"])

prop("C05", "Jumps reach exactly the valid destinations",
 "A jump in compiled code continues at its destination if and only if that position holds a jump-destination instruction that is not part of another instruction's immediate data; otherwise the execution ends with the invalid-jump error. Where control goes, including conditional, computed, looping and subroutine-style jumps and jumps into code the optimizer considered unreachable or merged, is the same as in the interpreter.",
 ["programs", "inputs"],
 "All control-flow graphs, static or computed destinations, all immediates that look like jump destinations.",
 TESTS_NOLLVM + "Jump resolution, block merging and dead-code removal interact; a wrong resolution needs a specific graph and input.",
 [CG+"bytecode/passes/block_analysis.rs", CG+"bytecode/passes/dedup.rs", CG+"bytecode/mod.rs", CG+"compiler/translate/mod.rs"],
 [("jump resolution by abstract stack interpretation", CG+"bytecode/passes/block_analysis.rs"), ("block deduplication", CG+"bytecode/passes/dedup.rs"), ("dynamic jump table", CG+"compiler/translate/mod.rs")],
 ["program endings and PC values"])

prop("C06", "Compiled code stays inside its stack and memory",
 "Compiled code ends with the stack-underflow or stack-overflow error exactly when the interpreter ends with a stack error (a stack of 1024 words), and never touches anything outside the stack buffer it was given, the frame's own memory and the buffers it was handed (call data, code, return data) - in particular not a parent frame's memory - and returns to its caller with the caller's registers intact. This holds for every program, however deep its stack and wherever the height changes across jumps.",
 ["programs", "inputs"],
 "All programs and stack heights, all gas limits, caller-provided stacks placed against unmapped pages.",
 TESTS_NOLLVM + "Stack checks are merged per section; whether the merged check is right depends on every path through the section.",
 [CG+"bytecode/passes/sections.rs", CG+"compiler/translate/mod.rs", CG+"compiler/translate/vstack.rs", CG+"bytecode/passes/dead_store_elim.rs", "crates/revmc-context/src/lib.rs"],
 [("stack sections", CG+"bytecode/passes/sections.rs"), ("virtual stack", CG+"compiler/translate/vstack.rs")],
 ["guard pages around the stack buffer", "parent memory contents"],
 tech="differential runtime monitor plus hardware guard pages around the machine stack buffer and around every heap block (an electric-fence allocator), canaries in parent memory, and a callee-saved-register monitor at the call boundary")

prop("C07", "Memory contents and memory size match the interpreter",
 "After any sequence of loads, stores, copies, hashes, logs, calls and returns with any offsets and lengths, the frame's memory of compiled code has the same length and bytes as the interpreter's, reads return the same values, and expansion is charged and performed at the same points. Copies from call data, code, return data and foreign code zero-fill or fail exactly as in the interpreter.",
 ["programs", "inputs"],
 "All access sequences, offsets and lengths including overlapping and huge ones.",
 TESTS_NOLLVM + "Expansion is hoisted per section and stores may be removed as dead; errors need particular overlaps.",
 [CG+"bytecode/passes/memory_sections.rs", CG+"bytecode/passes/dead_store_elim.rs", CG+"compiler/translate/mod.rs", "crates/revmc-builtins/src/utils.rs", "crates/revmc-builtins/src/lib.rs"],
 [("memory-size analysis", CG+"bytecode/passes/memory_sections.rs"), ("dead-store elimination", CG+"bytecode/passes/dead_store_elim.rs"), ("memory builtins", "crates/revmc-builtins/src/utils.rs")],
 ["memory bytes at every exit"])

prop("C08", "Every opcode follows the selected fork and gas schedule",
 "For every opcode byte and every supported fork, compiled code accepts the instruction exactly when the interpreter at that fork does, rejects it with the corresponding error otherwise, and charges that fork's gas. When the compiler is given a customised gas schedule, compiled code charges the customised prices.",
 ["programs", "configurations"],
 "All 256 opcode bytes at all 15 forks (enumerated), programs mixing them, and customised schedules.",
 TESTS_NOLLVM + "They check a handful of opcode/fork pairs.",
 [CG+"bytecode/info.rs", CG+"bytecode/opcode.rs", CG+"bytecode/mod.rs", CG+"compiler/mod.rs", CG+"compiler/translate/mod.rs", "crates/revmc-builtins/src/lib.rs"],
 [("opcode availability and base gas table", CG+"bytecode/info.rs"), ("gas parameters", CG+"compiler/mod.rs")],
 ["endings, gas"])

prop("C09", "Arithmetic is exact whether folded at compile time or run",
 "Every pure operation (arithmetic, comparison, bitwise, shifts, byte selection, sign extension, modular arithmetic, exponentiation) yields the 256-bit result the interpreter yields, for every operand, in every mixture of operands known at compile time and operands known only at run time, and in every expression around it. Whether a value was computed by the compiler or by the compiled code is not observable.",
 ["programs", "inputs"],
 "All operand values, including boundary values and algebraically related ones; all mixtures of constant and run-time operands.",
 TESTS_NOLLVM + "Folding and peephole rules have preconditions on values that a sample rarely violates.",
 [CG+"bytecode/passes/const_fold.rs", CG+"compiler/translate/peephole.rs", CG+"compiler/translate/mod.rs", "crates/revmc-builtins/src/ir.rs", "crates/revmc-builtins/src/lib.rs"],
 [("constant folding", CG+"bytecode/passes/const_fold.rs"), ("peephole rules", CG+"compiler/translate/peephole.rs"), ("IR builtins", "crates/revmc-builtins/src/ir.rs")],
 ["returned words"])

prop("C10", "The compiler accepts every bytecode and its work stays bounded",
 "Any byte sequence up to the deployment size limit, at any fork and with any setting, is analysed, listed and compiled without a panic, crash, refusal or hang, and the resulting function behaves like the interpreter. Compile-time evaluation of the program's own instructions never exceeds the configured compile-time gas limit (0 turns it off), so that hostile bytecode cannot make compilation arbitrarily slow.",
 ["programs", "configurations"],
 "All byte sequences, forks, compiler settings and compile-time gas limits.",
 TESTS_NOLLVM + "Totality is over all byte sequences; the repository's tests compile only well-behaved ones.",
 [CG+"bytecode/mod.rs", CG+"bytecode/passes/block_analysis.rs", CG+"bytecode/passes/const_fold.rs", CG+"bytecode/passes/dedup.rs", CG+"bytecode/fmt.rs", CG+"compiler/mod.rs", "crates/revmc-llvm/src/lib.rs"],
 [("bytecode analysis", CG+"bytecode/mod.rs"), ("compile-time gas limit", CG+"bytecode/passes/block_analysis.rs"), ("listings", CG+"bytecode/fmt.rs")],
 ["completion and CPU time of every compilation", "jumps resolved at compile time, from the listing"],
 tech="robustness monitor: hostile inputs under crash, hang and CPU-time watchdogs, plus a budget monitor on the analysis result")

prop("C11", "Settings and delivery do not change behaviour",
 "Optimization level, deduplication, dead-store elimination, compile-time gas limit, frame pointers, debug information, debug assertions, stack inspection, single-error mode and file dumps never change what a compiled program does, beyond what each setting is documented to expose. Code compiled ahead of time, written as an object, linked into a shared library and loaded behaves like code compiled in memory, also with several contracts per object and several objects per library. Without gas metering, programs that do not observe gas do the same; without stack checks, so do programs that stay within the stack.",
 ["programs", "inputs", "configurations"],
 "All combinations of settings, both delivery paths, all programs and inputs.",
 TESTS_NOLLVM + "The settings multiply; each interacts with every optimization pass.",
 [CG+"compiler/mod.rs", CG+"linker.rs", CG+"bytecode/passes/dead_store_elim.rs", CG+"bytecode/passes/dedup.rs", "crates/revmc-llvm/src/lib.rs"],
 [("configuration", CG+"compiler/mod.rs"), ("object emission", "crates/revmc-llvm/src/lib.rs"), ("linking", CG+"linker.rs")],
 ["execution traces per configuration and delivery path"])

prop("C12", "A compiler can be reused and many can run at once",
 "Functions obtained from a compiler stay valid and keep their behaviour while other functions are translated, compiled or run, across clearing of the intermediate code, reconfiguration and freeing of functions of other modules, until they are freed or the compiler is cleared or dropped. Adding to a finalized module, reusing a name within a module, asking an ahead-of-time compiler for machine code, or linking what is not an object is reported as an error and leaves the compiler usable. Compilers in different threads, including the first ones of a process starting at the same moment, do not disturb each other.",
 ["histories", "schedules", "programs"],
 "All sequences of compiler operations, any number of compilers and threads.",
 TESTS_NOLLVM + "Validity of handed-out code depends on the whole history of the compiler and on what other threads do.",
 [CG+"compiler/mod.rs", "crates/revmc-llvm/src/lib.rs", "crates/revmc-llvm/src/orc.rs", CG+"linker.rs"],
 [("module life cycle", "crates/revmc-llvm/src/lib.rs"), ("process-wide JIT", "crates/revmc-llvm/src/lib.rs"), ("compiler state", CG+"compiler/mod.rs")],
 ["execution of every live function", "errors reported"],
 tech="model-based history monitor over real compiler sessions, with threads, cold-start processes and injected delays")

ASM_NOTE = "Held on every source and byte sequence explored; EIP-8024 immediates are enumerated completely."
prop("C13", "Assembler, disassembler and listings are faithful",
 "The assembler turns a source into exactly the bytes its instructions, labels and macros denote: a sized push is padded to its size, an unsized push takes the fewest bytes, a label push resolves to the label's final position in the smallest layout, DUP and SWAP pick the encoding their index needs, and macros with and without parameters expand textually. Malformed sources (undefined labels, oversized immediates, wrong argument counts, unknown mnemonics, stray tokens) are refused with an error, and no text crashes it. Disassembly visits each instruction once at its position with its complete immediate or none, at every fork, and listing a complete program and assembling the listing gives the program back. The annotated listing shows at each position the instruction that is there.",
 ["inputs", "programs"],
 "All source texts and all byte sequences, at all forks.",
 "The repository's tests check a few dozen sources. Layout is a fixed point over all labels; its boundaries need programs of particular sizes.",
 [CG+"bytecode/asm.rs", CG+"bytecode/opcode.rs", CG+"bytecode/fmt.rs"],
 [("macro expansion and parsing", CG+"bytecode/asm.rs"), ("label layout", CG+"bytecode/asm.rs"), ("opcode iteration", CG+"bytecode/opcode.rs"), ("annotated listing", CG+"bytecode/fmt.rs")],
 ["assembled bytes", "decoded instructions", "listings"],
 tech="differential runtime monitor against a reference encoder and walker, round-trip monitor, crash watchdog", note=ASM_NOTE)

RTR = RT + "runtime/"
RT_NOTE = ("Held on every service life explored (operations, hits, evictions, kills counted in the evidence file). Schedules are "
           "sampled, not enumerated. Trusts revm's interpreter and the toolchain's LLVM; the LLVM crate's C++ glue is a stand-in.")
WHY_RT = "The runtime's own execution tests need the LLVM backend and are not among the stable tests; they follow single fixed schedules. "

prop("C14", "Transactions give the same results and state as on a plain EVM",
 "Every sequence of transactions, system calls and replays run through an EVM that dispatches to compiled functions gives, step by step, the results (status, output, logs, gas spent and refunded, errors) and the state changes of the plain EVM: with contracts that call, delegate to, create and destroy each other, reverts and failures at any depth, precompiles, delegated accounts, failing databases, changes of block and fork, a service that is cleared, disabled or replaced between transactions, code compiled for some contracts and not for others, and several EVMs sharing one service. Functions are dispatched by the hash of the code that runs, for the fork in force, to the service in force.",
 ["inputs", "histories", "configurations", "schedules", "fault_sequences"],
 "All transaction sequences and contracts, all three wrappers (service-backed, alloy, function map), all forks and changes of fork, all service states.",
 "The repository's own tests of these wrappers run a handful of one-contract calls.",
 ["crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-runtime/src/alloy_evm.rs", "crates/revmc-context/src/jit_evm.rs", "crates/revmc-context/src/lib.rs"],
 [("service-backed EVM and its decision cache", "crates/revmc-runtime/src/revm_evm.rs"), ("alloy bindings", "crates/revmc-runtime/src/alloy_evm.rs"), ("function-map EVM", "crates/revmc-context/src/jit_evm.rs"), ("frame to native call", "crates/revmc-context/src/lib.rs")],
 ["execution results", "finalized state", "lookups made"],
 state=[("lookup cache", "decisions of one EVM, valid for one fork and one service", "crates/revmc-runtime/src/revm_evm.rs")],
 tech="lock-step differential monitor over generated transaction chains with injected database failures and service disturbances; oracle: plain revm EVM")

prop("C15", "Inspectors see the same execution with compiled code",
 "Apart from per-instruction callbacks, which compiled code does not make, an inspector attached to an EVM with compiled functions receives the same callbacks, with the same arguments, nesting and order, as on the plain EVM: frames starting and ending (with gas, output and addresses), interpreters initialized, logs (each once, after it entered the journal) and self-destructions; and what it changes (inputs, answers given in place of a call or creation, outcomes) takes effect in the same way. Enabling or disabling inspection changes no result.",
 ["inputs", "histories", "configurations"],
 "All transaction sequences, inspectors that only watch and inspectors that interfere, all wrappers. A frame that runs out of gas or stack may stop sooner, as its effects are void.",
 "Existing tests count logs of one or two straight-line contracts.",
 ["crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-context/src/jit_evm.rs", "crates/revmc-runtime/src/alloy_evm.rs", "crates/revmc-builtins/src/lib.rs"],
 [("inspected frames", "crates/revmc-runtime/src/revm_evm.rs"), ("inspected frames, function map", "crates/revmc-context/src/jit_evm.rs"), ("log forwarding", "crates/revmc-builtins/src/lib.rs")],
 ["recorded inspector callbacks"],
 tech="trace monitor: recorded callback trees of real executions compared frame by frame with those of the plain inspected EVM")

prop("C16", "The runtime only ever hands out the right program",
 "Whatever lookups, requests, clears, evictions, pauses and shut-downs happen concurrently, a program handed out for a contract at a fork behaves as exactly that contract at exactly that fork. A program a caller holds keeps working until the caller drops it, also after it was cleared or evicted and after the whole service is gone. What was requested before a clear does not reappear after it unless requested again, and a contract can be compiled again while its earlier program is in use.",
 ["schedules", "histories", "configurations"],
 "All interleavings of operations from any number of threads, all configurations, all moments of clearing, eviction and shut-down relative to running compilations.",
 WHY_RT + "Which program is resident depends on the race between workers, clears and evictions.",
 [RTR+"mod.rs", RTR+"backend.rs", RTR+"worker.rs", RTR+"api.rs", RTR+"storage.rs", "crates/revmc-llvm/src/lib.rs"],
 [("resident map and generations", RTR+"backend.rs"), ("code ownership of programs", RTR+"worker.rs"), ("JIT symbol and memory management", "crates/revmc-llvm/src/lib.rs")],
 ["JitBackend::lookup, lookup_blocking, get_compiled and the behaviour of the returned programs"],
 state=[("resident map", "programs by contract and fork", RTR+"mod.rs"), ("generation", "results of older generations are discarded", RTR+"backend.rs")],
 tech="runtime monitor over randomized concurrent service lives; every delivered program is executed and judged by the interpreter", note=RT_NOTE)

prop("C17", "The runtime never hangs, and leaves nothing behind",
 "Every operation of the compilation service returns: lookups, pausing, resuming and statistics without waiting for the service, synchronous requests once their compilation ended, was cleared away or was turned down, in any order, before the service is started, while a start fails, with full queues, and while it is shutting down. Dropping the last handle ends it within its time limit whatever is in flight, leaving no thread and no child process. A compilation that fails, in the compiler, its helper process or the artifact store, is answered as failed and leaves nothing in the way of the next attempt. Pauses nest: it is paused exactly while pauses outnumber resumes.",
 ["schedules", "histories", "crash_points", "configurations"],
 "All interleavings and queue sizes, operations before start, failing starts, a service held up in the caller's callback, drops at any moment.",
 WHY_RT + "A hang needs a full queue or a lost wake-up at the right moment.",
 [RTR+"mod.rs", RTR+"backend.rs", RTR+"worker.rs", RTR+"out_of_process.rs"],
 [("lazy start and shut-down", RTR+"mod.rs"), ("event loop", RTR+"backend.rs"), ("worker pool and notifiers", RTR+"worker.rs")],
 ["return of every call under a watchdog", "threads and child processes after the last drop", "is_paused"],
 tech="liveness monitor (per-operation watchdog, thread and process census) over randomized adverse service lives with injected delays and failures", note=RT_NOTE)

prop("C18", "The runtime compiles and evicts exactly what its policy says",
 "A contract is compiled on its own accord when, and not before, it has been missed as often as the threshold says; explicit requests compile at once. Empty code and code longer than the limit is never compiled and is answered as ineligible; a disabled service answers disabled; in blocking mode the first lookup of eligible code already answers with its program. No more jobs are in flight than allowed. Programs unused for longer than the idle limit are evicted and programs in use are not; when compiled code exceeds the memory budget the least recently used programs go, and no more than necessary (programs loaded from persisted artifacts take none of it and stay). Environment overrides take effect exactly as documented, invalid ones being refused.",
 ["histories", "configurations", "schedules"],
 "All histories of operations, all thresholds and limits including their boundary values, all environments.",
 WHY_RT + "Boundaries (one miss short, one byte over, just idle enough) over whole histories are not sampled.",
 [RTR+"mod.rs", RTR+"backend.rs", RTR+"config.rs"],
 [("admission", RTR+"backend.rs"), ("eviction sweep", RTR+"backend.rs"), ("eligibility and environment", RTR+"config.rs")],
 ["lookup decisions", "resident programs", "statistics at rest"],
 state=[("hotness", "misses per contract and fork", RTR+"backend.rs"), ("last hit", "order of use", RTR+"backend.rs")],
 tech="online checking of scripted service histories against an exact sequential model, plus scenario monitors at every limit", note=RT_NOTE)

prop("C19", "Runtime statistics and compilation events account for everything",
 "Every lookup is counted once as a hit, a miss or a dropped event; every dispatched compilation ends exactly once as succeeded or failed and is reported once to the compilation callback with its contract, fork, kind and outcome, unless a clear made it stale; resident programs and evictions add up with the successful compilations; and at rest no job and no event is pending. The numbers equal those of a sequential execution of the same history.",
 ["histories", "schedules"],
 "All histories, sequential (exact) and concurrent (balances), with clears, evictions, failures and dropped events.",
 WHY_RT + "Lost or doubled counts need clears or failures racing with results.",
 [RTR+"stats.rs", RTR+"backend.rs", RTR+"mod.rs"],
 [("counters", RTR+"stats.rs"), ("result handling", RTR+"backend.rs")],
 ["JitBackend::stats", "RuntimeConfig::on_compilation"],
 tech="offline conservation checks over counters and recorded events, and online comparison with a sequential model", note=RT_NOTE)

prop("C20", "Persisted artifacts are found, used and removed faithfully",
 "What the artifact store returns for a key is what was stored last under exactly that key (contract, fork, backend and optimization level), whole, with its manifest; deleting and clearing remove the files, and the store's directory goes with it. A service started over a store serves every persisted contract without compiling, and its programs behave as the contract. Store failures and damaged files cost at most compilations: they never produce a wrong program, and the service recovers once the store does. Storing again, deleting or clearing never disturbs programs already loaded.",
 ["histories", "fault_sequences", "schedules"],
 "All histories of store operations with nearly equal keys, all injected store failures and damaged files, several services over one store.",
 WHY_RT + "The store's unit tests use one or two keys and no faults.",
 [RTR+"storage.rs", RTR+"backend.rs", RTR+"mod.rs", RTR+"worker.rs", "crates/revmc-codegen/src/linker.rs"],
 [("artifact store", RTR+"storage.rs"), ("preload", RTR+"mod.rs"), ("persist and load", RTR+"backend.rs"), ("linker", "crates/revmc-codegen/src/linker.rs")],
 ["ArtifactStore operations and files", "programs of kind Aot"],
 tech="model-checked store histories plus fault-injecting store around real services; loaded programs executed and judged by the interpreter", note=RT_NOTE)

prop("C21", "Out-of-process compilation is equivalent and survives its helper",
 "With compilation in a helper process, programs behave exactly as with in-process compilation, under the same settings and gas schedule. A helper that is killed, stopped, runs out of time or memory, cannot be started or is not a helper at all costs the jobs it was given, each reported as failed; the service answers every caller, never hands out a wrong program and works again with a new helper. While paused nothing is compiled and nothing times out, and after resuming what was requested is compiled. No helper outlives the service.",
 ["crash_points", "schedules", "configurations"],
 "All moments of losing the helper, all kinds of loss, pauses at any time, all settings.",
 WHY_RT + "No stable test starts a helper; losses at particular moments cannot be scripted there.",
 [RTR+"out_of_process.rs", RTR+"worker.rs", RTR+"backend.rs"],
 [("helper process and protocol", RTR+"out_of_process.rs"), ("object linking", RTR+"backend.rs")],
 ["programs delivered", "statistics", "child processes"],
 tech="fault injection (kill, stop, resource limits, wrong executables) into real helper processes; delivered programs executed and judged by the interpreter", note=RT_NOTE)

prop("C22", "The conformance tools give true verdicts",
 "The state-test runner accepts a set of state-test files exactly when every test in them, executed in the chosen mode (interpreter, compiled just in time, compiled ahead of time), ends as its file states: exception or none, output where stated, log root and state root, under that test's fork, chain, block and transaction; otherwise it ends unsuccessfully, counts the failing files when told to keep going and otherwise names a failing test and the reason, whatever the number of threads and files. The interpreter/JIT differ executes the selected tests on both sides, compiled code on one of them, and reports exactly the tests whose outcome differs and the fields that differ; it ends unsuccessfully exactly when it reports one. A compiler that miscompiles is therefore noticed by both.",
 ["inputs", "configurations", "fault_sequences"],
 "All state-test files (right, wrong in one expectation, or unreadable), modes, thread counts and filters, with a sound and with a miscompiling compiler.",
 "The stable tests run these tools on nothing: the fixture archives are not part of the repository. That a checker would notice a fault can only be seen by giving it faults.",
 ["crates/revmc-statetest/src/compiled.rs", "crates/revmc-statetest/src/runner.rs", "crates/revmc-statetest/src/diagnostic.rs", "crates/revmc-statetest/src/merkle_trie.rs", "crates/revmc-statetest/src/lib.rs", "crates/revmc-cli/src/cmd/statetest_diff.rs"],
 [("runner with compiled code", "crates/revmc-statetest/src/compiled.rs"), ("expectation checks", "crates/revmc-statetest/src/runner.rs"), ("snapshots and comparison", "crates/revmc-statetest/src/diagnostic.rs"), ("differ command", "crates/revmc-cli/src/cmd/statetest_diff.rs")],
 ["exit status and report of the runner and of revmc statetest-diff", "diagnostic snapshots and comparisons"],
 tech="differential monitoring of the tools' verdicts against an independent executor, trie and RLP encoder over generated state tests, with falsified expectations and a compiler made to miscompile by an interposed LLVM function")

prop("C23", "The command line reads, compiles and runs exactly what it is given",
 "The input of `revmc run` (hexadecimal or assembly text, a binary, hexadecimal or assembly file, a file whose kind has to be told from its contents, a dump directory, or a benchmark's name) is read as exactly the bytes it denotes, or refused. What is then listed, dumped, written as an object and a shared library (for every kind of input, in the directory asked for), loaded and run is that code at the chosen fork with the chosen settings. A transaction fixture is run, interpreted and compiled, as exactly its transaction on its state in its block at its fork, with each contract running its own code, also when a library is loaded; and a run ends unsuccessfully exactly when compiled and interpreted code differ in succeeding.",
 ["inputs", "configurations", "fault_sequences"],
 "All programs in all notations, forks and flags, valid fixtures with any accounts, block and transaction, with a sound and with a miscompiling compiler.",
 "The command is not run by the stable tests at all (they are built without LLVM), and notations, flags and output places multiply.",
 ["crates/revmc-cli/src/cmd/run.rs", "crates/revmc-cli/src/lib.rs", "crates/revmc-cli/src/fixture.rs", "crates/revmc-cli/src/benches.rs", "crates/revmc-cli/src/main.rs"],
 [("reading code", "crates/revmc-cli/src/lib.rs"), ("run command", "crates/revmc-cli/src/cmd/run.rs"), ("fixtures", "crates/revmc-cli/src/fixture.rs"), ("bare code and benchmarks", "crates/revmc-cli/src/benches.rs")],
 ["exit status, output and written files of revmc run", "read_code_string and read_code_path", "results and state of PreparedBench runs"],
 tech="differential monitoring of the command and its library over inputs written from known bytes: an independent executor judges runs, the lock-step interpreter judges written libraries, and a compiler made to miscompile by an interposed LLVM function shows that verdicts are about compiled code")
