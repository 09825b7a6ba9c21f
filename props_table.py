HOOKS = None


def over(text, *what):
    return {"over": list(what), "text": text}


def anchor(files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    return a


PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id="C01", title="Shared LRU cache behaves as one sequential LRU map for any capacity",
     statement="For every positive capacity, key and value type, and every way concurrent callers' Get, InsertOrAssign, GetOrInsert and Clear calls overlap, all results are those of some one-at-a-time execution of the calls on a map that holds at most the capacity and, when a new key is added to a full map, drops exactly the least recently used key. A lookup returns the value last stored under that very key or nothing, never another key's or a partial value; a computed value is inserted and returned, and Clear leaves the map empty and fully usable.",
     quantifier=over("all interleavings of all operation programs of concurrent callers, all capacities >= 1, all key/value types", "schedules", "histories", "configurations"),
     why_tests_cant="The unit tests use one thread, one key type (int) and capacities 2 and 4; linearizability quantifies over every interleaving and the eviction order over every history.",
     anchors=anchor(["cpp/common/lru_cache.h", "cpp/vm/evmzero/sha3_cache.h", "cpp/vm/evmzero/interpreter.h"],
                    [("mutex around every operation", "cpp/common/lru_cache.h: Get, InsertOrAssign, Clear"), ("recency list", "cpp/common/lru_cache.h: Touch, GetNewHead"), ("compute outside the lock, then insert", "cpp/common/lru_cache.h: GetOrInsert")],
                    ["return values of Get, InsertOrAssign, GetOrInsert"],
                    state=[{"name": "index", "meaning": "key to entry", "where": "cpp/common/lru_cache.h"}, {"name": "recency list", "meaning": "order of last use", "where": "cpp/common/lru_cache.h"}]),
     technique="deterministic simulation: seeded thread scheduler, linearizability check against a reference LRU",
     level_note="Sampled schedules and programs (about 10^5 per quick run) on the real header; trusts the simulator's lock model and sequentially consistent memory.")

prop(id="C02", title="Shared LRU cache: no data race, stray memory access, leak or deadlock",
     statement="Any number of threads may use one cache at the same time without further synchronisation: no two unsynchronised accesses to its memory of which one is a write happen, no memory outside live objects is touched, no call blocks forever, and everything the cache allocated is freed with it.",
     quantifier=over("all interleavings of concurrent callers, at the granularity of single memory accesses", "schedules"),
     why_tests_cant="All unit tests are single-threaded; a missing lock only shows under particular interleavings, and often changes no result of a test run.",
     anchors=anchor(["cpp/common/lru_cache.h"], [("mutex held during every access to index and list", "cpp/common/lru_cache.h"), ("values returned by copy", "cpp/common/lru_cache.h: Get, InsertOrAssign")], ["memory accesses of the cache's methods"]),
     technique="deterministic simulation: seeded schedule per memory access, happens-before race, heap and deadlock oracles",
     level_note="Sampled schedules; every instrumented access of the real header is checked with vector clocks and a simulated heap.")

prop(id="C03", title="A failing cache operation leaves the LRU cache consistent",
     statement="When a value factory throws, or copying a key or value fails inside an operation, the failure reaches the caller and the operation either took effect or did not (at most an unused least recently used entry is given up): later lookups by any thread never return a value of another key, nothing leaks, and the cache stays usable by all threads.",
     quantifier=over("all positions of failures inside all operations of all histories and interleavings", "fault_sequences", "histories", "schedules"),
     why_tests_cant="No test makes a factory or copy fail; the wrong answers appear only several operations after the failure.",
     anchors=anchor(["cpp/common/lru_cache.h"], [("copies taken before the list is modified; index entries dropped by identity", "cpp/common/lru_cache.h: InsertOrAssign, GetNewHead"), ("factory called outside the lock and before any change", "cpp/common/lru_cache.h: GetOrInsert")], ["results of later lookups"]),
     technique="deterministic simulation with fault injection: k-th copy or factory failure under seeded schedules, reference model",
     level_note="Sampled failure points and schedules; failures inside the hash index library are out of scope.")

EZ = "cpp/vm/evmzero/"
prop(id="C04", title="The shared hash cache always returns the Keccak-256 of the given bytes",
     statement="For every input and every history of earlier and concurrent calls, hashing through one Sha3Cache, by any number of threads at the same time, returns the Keccak-256 of exactly the given bytes - also when the cache is full and evicts, when inputs differ in one byte or only in length, and for lengths the cache does not serve.",
     quantifier=over("all interleavings and histories of hash calls for all inputs", "schedules", "histories", "inputs"),
     why_tests_cant="There is no concurrent test of the cache and no test that fills it; a wrong answer needs a collision of key handling, eviction and timing.",
     anchors=anchor([EZ + "sha3_cache.h", "cpp/common/lru_cache.h", "cpp/common/hash_utils.h"], [("keys copied out of the caller's span, hash computed outside the lock", EZ + "sha3_cache.h: Hash")], ["result of Hash"]),
     technique="deterministic simulation: seeded schedule of hashing threads, independent Keccak as oracle",
     level_note="Sampled schedules on the real header; Keccak itself is a stand-in since the library is not part of the checkout.")

prop(id="C05", title="Clients sharing one C++ machine are isolated from each other",
     statement="Any number of clients may execute contracts on one evmzero machine at the same time, with nested executions and shared caches about to overflow. Each execution has the result, gas, output and order of host effects it has when run alone, there is no data race and no access to freed memory or another execution's memory, no deadlock, every result buffer is released exactly once, and repeating the same work does not consume ever more memory.",
     quantifier=over("all interleavings of all concurrent executions, all cache fillings", "schedules", "histories"),
     why_tests_cant="Tests run one execution at a time on fresh machines; sharing errors need overlap inside the stack pool, the contract cache or the hash cache.",
     anchors=anchor([EZ + "evmzero.cc", EZ + "stack.cc", EZ + "stack.h", EZ + "sha3_cache.h", "cpp/common/lru_cache.h"],
                    [("contract analysis held by shared pointer while it runs", EZ + "evmzero.cc: Execute, StepN"), ("pool of stacks with a lock", EZ + "stack.cc: Stack::Data::Get, Release"), ("per-execution context", EZ + "interpreter.cc: Interpret")],
                    ["evmc_result and host calls"]),
     technique="deterministic simulation: seeded scheduler around whole machine executions, refinement against the same execution run alone, race/heap/deadlock oracles",
     level_note="Sampled programs and schedules on the real machine.")

prop(id="C06", title="The C++ machine follows the message-call protocol for every callee behaviour",
     statement="Whatever the code, input, revision and gas, and whatever the callees and the host do (succeed, revert, fail, are refused, re-enter, return any data), evmzero's execution has the outcome, remaining gas, refund and output the EVM rules from Istanbul to Cancun prescribe. It issues exactly the prescribed messages, storage writes, logs and selfdestructs in the prescribed order and with the prescribed gas and flags, never gives out more gas than it was given (plus the stipend), and a failed frame keeps nothing.",
     quantifier=over("all contracts, inputs, gas amounts and revisions, all behaviours of callees and host", "inputs", "fault_sequences", "histories"),
     why_tests_cant="Unit tests run single instructions with a mocked host; the guarantee quantifies over sequences of instructions and callee behaviours, in particular over failures in the middle of nested calls.",
     anchors=anchor([EZ + "interpreter.cc", EZ + "interpreter.h", EZ + "memory.h", EZ + "stack.h", EZ + "evmzero.cc"],
                    [("calls and creations", EZ + "interpreter.cc: CallImpl, CreateImpl"), ("gas accounting", EZ + "interpreter.cc: Run, MemoryExpansionCost"), ("return data", EZ + "interpreter.cc: Context::return_data")],
                    ["evmc_result", "host calls in order"]),
     technique="deterministic simulation with fault injection in the host: refinement against an independent reference machine",
     level_note="Sampled contracts and fault sequences (tens of thousands of transactions per quick run). Failures are one class: which failure code is reported is not compared.")

prop(id="C07", title="Nothing changes in a static context on the C++ machine",
     statement="While a frame executes under a static restriction, no storage or transient storage write, log, creation, selfdestruct or value transfer reaches the host, from it or from any frame below it; every message it sends carries the restriction; and an attempt to break it fails the frame as prescribed. Without the restriction the same code is not hindered.",
     quantifier=over("all contracts, call trees and revisions, all callee behaviours", "inputs", "fault_sequences"),
     why_tests_cant="Tests check single instructions at depth zero; the restriction has to survive every kind of nested call, re-entry and failure.",
     anchors=anchor([EZ + "interpreter.cc"], [("static restriction of instructions", EZ + "interpreter.cc: OpInfo::disallowed_in_static_call, Run"), ("flag handed to callees", EZ + "interpreter.cc: CallImpl")], ["host calls made inside static frames"]),
     technique="deterministic simulation: host-side monitors in static frames under injected callee behaviour, plus reference comparison",
     level_note="Sampled call trees and faults.")

prop(id="C08", title="A stepped C++ execution can be interrupted anywhere and resumed",
     statement="Executing n steps of the C++ machine executes exactly n instructions (fewer only at the end of execution) and returns a state that is complete: dropping everything else at any point and resuming from that state, on the same or another machine, with any division into pieces including empty ones, gives the same intermediate states, host effects and final result as executing without interruption; a finished execution stays finished.",
     quantifier=over("all interruption points and divisions of all executions", "crash_points", "histories"),
     why_tests_cant="The tests of the stepping interface run single instructions; an incomplete state shows only when an execution is interrupted at the right place and the lost part is used later.",
     anchors=anchor([EZ + "evmzero.cc", EZ + "interpreter.cc"], [("state handed in and out", EZ + "evmzero.cc: StepN"), ("stepping mode of the interpreter", EZ + "interpreter.cc: InterpretNSteps, RunInterpreter")], ["evmc_step_result"]),
     technique="deterministic simulation: crash and restart from the returned state at seeded points, refinement against the uninterrupted run and the reference's instruction trace",
     level_note="Sampled executions; within each, all single-step points and seeded piece sizes.")

prop(id="C09", title="Caches, logging and profiling of the C++ machine never change results",
     statement="For every combination of the options analysis_cache, sha3_cache, logging, profiling and profiling_external, changed between executions in any order, and for every history of earlier executions, an execution's result and host effects are the same as on a fresh machine with everything off - also when the log output fails or fills up; and with logging on, the log has one line for every executed instruction, in order, with the gas and the top of the stack before it.",
     quantifier=over("all option combinations and changes, all execution histories, all failure points of the log output", "configurations", "histories", "fault_sequences"),
     why_tests_cant="Tests use default options; an observer or cache that changes a result needs particular histories and values.",
     anchors=anchor([EZ + "evmzero.cc", EZ + "logger.h", EZ + "profiler.h", EZ + "interpreter.cc"], [("cache keyed by code hash, skipped for unknown hashes", EZ + "evmzero.cc: Execute"), ("observer hooks", EZ + "interpreter.cc: RUN_OPCODE")], ["evmc_result", "host calls", "log lines"]),
     technique="deterministic simulation: seeded option changes and log failures, comparison with a plain machine",
     level_note="Sampled histories and failure points.")

prop(id="C10", title="The execution profile accounts for exactly what was executed",
     statement="A profile report of the C++ machine lists every instruction with exactly the number of times it was executed since the last reset, counts exactly the outermost runs, charges time spent in the host to the instruction that asked for it and to no other, charges nested executions once, and its ticks never exceed the time that passed - for any nesting, failing or refused calls, resets between reports, and clock speed.",
     quantifier=over("all executions, nestings, failures, resets and clock advances", "histories", "fault_sequences", "schedules"),
     why_tests_cant="The profiler tests feed it a handful of calls by hand with the real clock, so they cannot check the charged time nor failing nested calls.",
     anchors=anchor([EZ + "profiler.h", EZ + "interpreter.cc", EZ + "evmzero.cc"], [("time of a nested run is taken out of the call", EZ + "profiler.h: PreInstruction, PostInstruction, PreRun, PostRun"), ("merge and reset", EZ + "profiler.h: Merge, Reset")], ["dumped report"]),
     technique="deterministic simulation: simulated clock with injected host delays, exact counts from the reference machine, conservation bounds on ticks",
     level_note="Sampled executions and delays; a jump may be charged together with its destination.")

LF = "go/interpreter/lfvm/"
prop(id="C11", title="The lfvm hash cache returns the Keccak-256 of its input under any sharing",
     statement="For every input and every history of earlier and concurrent calls, by any number of goroutines, the hash cache of the lfvm interpreter returns the Keccak-256 hash of exactly the given bytes, before and after eviction, for cached lengths (32 and 64 bytes) and all others, and without a data race.",
     quantifier=over("all interleavings and histories of hash calls for all inputs", "schedules", "histories", "inputs"),
     why_tests_cant="The tests hash a few values one after the other; an entry that is evicted and reused while another caller reads it needs a full cache and one particular switch.",
     anchors=anchor([LF + "hash_cache.go"], [("lock around index and recency list", LF + "hash_cache.go: hashCache.getHash"), ("entries recycled on eviction", LF + "hash_cache.go: getFree")], ["result of hash"]),
     technique="deterministic simulation: seeded goroutine schedule with race detection, independent Keccak as oracle",
     level_note="Sampled schedules on the real cache with small capacities; switches at every statement and lock operation.")

prop(id="C12", title="Executions sharing one lfvm interpreter are isolated from each other",
     statement="Any number of clients may run contracts on one lfvm interpreter instance at the same time, with nested calls, sharing its code cache, hash cache and pools in any filling. Each execution has the result, gas, output and order of world-state effects it has when run alone, results handed out stay unchanged afterwards, there is no data race, and every call returns.",
     quantifier=over("all interleavings of concurrent executions, all cache and pool states, all configurations of the interpreter", "schedules", "histories", "configurations"),
     why_tests_cant="Tests run one contract at a time; aliasing through a pooled stack, a cached conversion or a shared buffer shows only when executions overlap.",
     anchors=anchor([LF + "lfvm.go", LF + "converter.go", LF + "stack.go", LF + "memory.go", LF + "hash_cache.go", LF + "interpreter.go"],
                    [("pooled stacks", LF + "stack.go: NewStack, ReturnStack"), ("code cache", LF + "converter.go: Convert"), ("per-run context", LF + "interpreter.go: run")], ["tosca.Result", "calls on tosca.RunContext"]),
     technique="deterministic simulation: seeded goroutine scheduler and race detector around whole executions, refinement against the execution run alone",
     level_note="Sampled programs and schedules on the real interpreter; cache libraries are stand-ins with the same interface.")

prop(id="C13", title="The statistics of lfvm count every executed instruction exactly once",
     statement="The instruction statistics of the lfvm-stats configuration are exactly the number of executions of each instruction and of each pair, triple and quadruple of instructions executed in a row, summed over all runs since the last reset, for any number of concurrent and nested runs, failing or not; no run's counts are lost, counted twice or mixed with another run's sequence.",
     quantifier=over("all executions, nestings, failures and interleavings of runs and reports", "schedules", "histories", "fault_sequences"),
     why_tests_cant="The tests run single short programs; lost updates need two runs that end at the same time, mixed sequences need nested or overlapping runs.",
     anchors=anchor([LF + "instruction_statistics.go", LF + "lfvm.go"], [("per-run collector merged under a lock", LF + "instruction_statistics.go: statisticRunner.run, statistics.insert"), ("n-gram window", LF + "instruction_statistics.go: statsCollector.nextOp")], ["statistics dump"]),
     technique="deterministic simulation: seeded goroutine scheduler, exact counts from an instruction trace of each run",
     level_note="Sampled programs and schedules; counts are read back from the dumped report.")

prop(id="C14", title="Logging and other observers of lfvm never change results and report failures",
     statement="Running a contract with logging, statistics, super instructions, or without caches gives the result, gas and world-state effects of the plain configuration, for every history of earlier runs. With logging on, every executed instruction is written in order, and when writing the log fails the run reports an error instead of hiding that the log is incomplete or returning a wrong result.",
     quantifier=over("all executions, all configurations, all failure points of the log sink", "configurations", "histories", "fault_sequences"),
     why_tests_cant="Tests compare a few instructions; a wrong result or a swallowed write failure needs a failing sink at a particular write or a particular history.",
     anchors=anchor([LF + "instruction_logger.go", LF + "instruction_statistics.go", LF + "lfvm.go"], [("logging runner", LF + "instruction_logger.go: loggingRunner.run"), ("configurations", LF + "lfvm.go: RegisterExperimentalInterpreterConfigurations")], ["tosca.Result", "log lines"]),
     technique="deterministic simulation with fault injection in the log sink, comparison with the plain configuration",
     level_note="Sampled histories and write failures.")

prop(id="C15", title="lfvm follows the message-call protocol for every callee behaviour",
     statement="Whatever the code, input, revision and gas, and whatever callees and world state do (succeed, revert, fail, are refused, re-enter, return any data), a run of lfvm has the outcome, remaining gas, refund and output the EVM rules from Istanbul to Cancun prescribe, and makes exactly the prescribed calls, creations, storage writes, logs and selfdestructs in the prescribed order with the prescribed gas and kind. It never gives out more gas than it was given, and a failed run keeps nothing. (Documented limit: a PC instruction beyond the first 2^16 bytes of a code is invalid.)",
     quantifier=over("all contracts, inputs, gas amounts and revisions, all behaviours of callees and world state", "inputs", "fault_sequences", "histories"),
     why_tests_cant="Unit tests run single instructions with mocks; the guarantee is about sequences of instructions and failures in the middle of nested calls.",
     anchors=anchor([LF + "instructions.go", LF + "interpreter.go", LF + "gas.go", LF + "memory.go", LF + "super_instructions.go", LF + "converter.go"],
                    [("calls and creations", LF + "instructions.go: genericCall, genericCreate"), ("gas", LF + "gas.go"), ("conversion of code", LF + "converter.go: convert")], ["tosca.Result", "calls on tosca.RunContext in order"]),
     technique="deterministic simulation with fault injection in the host: refinement against an independent reference machine",
     level_note="Sampled contracts and fault sequences (tens of thousands of transactions per quick run), all configurations. Failures are one class.")

prop(id="C16", title="Nothing changes in a static context under lfvm",
     statement="While a frame of lfvm executes under a static restriction, no storage or transient storage write, log, creation, selfdestruct or value transfer reaches the world state from it or from any frame below it; every call it makes keeps the restriction; and an attempt to break it fails the frame. Without the restriction the same code is not hindered.",
     quantifier=over("all contracts, call trees and revisions, all callee behaviours, all configurations", "inputs", "fault_sequences", "configurations"),
     why_tests_cant="Tests check single instructions; the restriction has to survive every kind of nested call, super instruction and failure.",
     anchors=anchor([LF + "interpreter.go", LF + "instructions.go"], [("static restriction", LF + "instructions.go: opCall, opSstore, genericCreate, opLog, opSelfdestruct"), ("restriction handed to callees", LF + "instructions.go: genericCall")], ["calls on tosca.RunContext inside static frames"]),
     technique="deterministic simulation: host-side monitors in static frames under injected callee behaviour, plus reference comparison",
     level_note="Sampled call trees and faults.")

prop(id="C17", title="Test cases are enumerated completely, once each, by any number of jobs",
     statement="Enumerating the test cases of a set of conformance rules with any number of jobs hands every test case the rules define to the consumer exactly once, complete and unshared (no other job sees or changes it while it is processed), never more than the given number at a time. An aborting consumer or a failing generator ends the enumeration with at most the cases already in flight, its failure is returned, and the call comes back with no consumer still working, no goroutine left behind, and progress reports that end with the number of consumed cases.",
     quantifier=over("all sets of rules, numbers of jobs, interleavings, consumers, abort points and generator failures", "schedules", "inputs", "fault_sequences", "configurations"),
     why_tests_cant="Tests enumerate a few rules once; a case lost, duplicated or reused while it is still processed needs a particular interleaving of producers, consumers and abort.",
     anchors=anchor(["go/ct/spc/enumeration.go", "go/ct/rlz/rules.go", "go/ct/gen/state.go", "go/ct/st/state.go"],
                    [("team of producers and consumers", "go/ct/spc/enumeration.go: ForEachState"), ("test cases of a rule", "go/ct/rlz/rules.go: EnumerateTestCases"), ("recycled states", "go/ct/st/state.go: Release")],
                    ["states handed to the consumer", "returned error", "progress callback"]),
     technique="deterministic simulation: seeded goroutine scheduler with race detector, aborting/slow/destroying consumers and failing generators, exactly-once ledger",
     level_note="Sampled rule sets, programs and schedules on the real enumeration code.")

prop(id="C18", title="A seed always stands for the same, fitting test cases",
     statement="The test cases of a rule, and the states produced by a generator, are a function of the rule and the seed: generating them again in the same or another process gives the same states in the same order, whatever the iteration order of maps or earlier activity. Every generated state satisfies the condition it was generated for, and a generator that fails says so with one of its declared errors.",
     quantifier=over("all rules and compositions of constraints, all seeds, all map orders and histories", "inputs", "histories", "schedules"),
     why_tests_cant="Tests generate from a few constraints and rarely twice; a dependence on map order or hidden randomness changes the outcome only for some constraint sets and some orders.",
     anchors=anchor(["go/ct/gen/state.go", "go/ct/gen/accounts.go", "go/ct/gen/storage.go", "go/ct/gen/range_solver.go", "go/ct/gen/interval_solver.go", "go/ct/gen/assignment.go", "go/ct/rlz/rules.go", "go/ct/rlz/conditions.go"],
                    [("assembling a state from constraints", "go/ct/gen/state.go: Generate"), ("sorted constraints", "go/ct/gen: the Generate methods"), ("enumeration per rule", "go/ct/rlz/rules.go: EnumerateTestCases")],
                    ["generated states", "errors of generators"]),
     technique="deterministic simulation: map iteration order and global randomness seeded differently per repetition, comparison of repetitions and condition check",
     level_note="Sampled rules, constraint compositions, seeds and map orders. Completeness of generators (finding a state whenever one exists) is not claimed.")

prop(id="C19", title="ct run reports exactly the misbehaviour it met, whatever else fails",
     statement="A conformance run with any number of jobs executes every test case the selected rules define (until its error limit), once, on states the rules define. It passes if and only if no tested step deviated; otherwise it fails and reports the number of issues, the cause of each, and files from which each issue can be run again, none of them partial or of another issue. A panic or error of the tested EVM is reported as an issue with its cause, unsupported revisions are counted and not failed, the error limit is honoured, and failing to write reports never turns a failed run into a passed one.",
     quantifier=over("all misbehaviours of the tested EVM, interleavings of jobs, disk failures, filters, seeds and options", "fault_sequences", "schedules", "configurations", "inputs"),
     why_tests_cant="No test runs the command against an EVM that misbehaves under load or a disk that fails; lost issues need concurrent failures.",
     anchors=anchor(["go/ct/driver/run.go", "go/ct/driver/cli/", "go/ct/spc/enumeration.go", "go/ct/st/serialization.go"],
                    [("collection of issues", "go/ct/driver/cli: IssuesCollector"), ("evaluation of one test", "go/ct/driver/run.go: runTest"), ("export", "go/ct/driver/cli: ExportIssues")],
                    ["exit status and printed report", "exported files", "steps made on the tested EVM"]),
     technique="deterministic simulation with fault injection: programmable faulty EVM, failing simulated disk, seeded goroutine scheduler; report compared with injected faults",
     level_note="Sampled filters, faults and schedules on the real command; the tested EVM is a stand-in, in part of the runs the real lfvm.")

prop(id="C20", title="ct stats counts and ct test compares every matching rule, with any jobs",
     statement="For any number of jobs, filter, seed and mode, ct stats prints for each selected rule exactly the number of test cases it matches; and ct test fails if and only if for some enumerated test case two matching rules of the specification have different effects, and reports the number of such cases. The specification of this repository passes it.",
     quantifier=over("all specifications, filters, seeds, numbers of jobs and interleavings", "schedules", "inputs", "configurations"),
     why_tests_cant="Counts lost between jobs and conflicts between particular rules do not show with one job and a sound specification.",
     anchors=anchor(["go/ct/driver/stats.go", "go/ct/driver/test.go", "go/ct/spc/enumeration.go", "go/ct/spc/specification_map.go"],
                    [("statistics collector", "go/ct/driver/stats.go"), ("comparison of the effects of all matching rules", "go/ct/driver/test.go")], ["printed statistics", "exit status and issues"]),
     technique="deterministic simulation: seeded goroutine scheduler, injected conflicting rules, independent sequential count as oracle",
     level_note="Sampled specifications, filters and schedules.")

prop(id="C21", title="ct probe stops in time or at the first issue and counts what it did",
     statement="Probing random states with any number of jobs ends within its time limit plus one step, or as soon as a job has found an issue, and not before; it reports exactly the number of tests executed and of issues found, with the cause of each, and passes if and only if there was none. Issues that cannot be exported do not make it pass.",
     quantifier=over("all behaviours and speeds of the tested EVM, time limits, interleavings and disk failures", "schedules", "fault_sequences", "configurations"),
     why_tests_cant="No test runs the command; its end depends on the clock and on the interleaving of jobs that find issues.",
     anchors=anchor(["go/ct/driver/probe.go", "go/ct/driver/cli/"], [("time limit and shared counters", "go/ct/driver/probe.go"), ("collection of issues", "go/ct/driver/cli: IssuesCollector")], ["printed report", "exit status", "simulated time taken"]),
     technique="deterministic simulation with fault injection: simulated clock, slow and faulty EVM, failing disk, seeded goroutine scheduler",
     level_note="Sampled faults and schedules.")

prop(id="C22", title="ct regressions runs every readable input, whatever lies beside it",
     statement="Given a tree of exported states, ct regressions runs every matching rule of every readable state exactly once and reports each as passed or failed as the tested EVM behaves; each torn, garbage or unreadable file is reported as such and stops nothing else.",
     quantifier=over("all directory trees, contents and behaviours of the tested EVM", "inputs", "fault_sequences"),
     why_tests_cant="Tests use complete files only; real trees contain files torn by a crash or a full disk.",
     anchors=anchor(["go/ct/driver/regressions.go", "go/ct/st/serialization.go"], [("enumeration of inputs", "go/ct/driver/regressions.go: enumerateInputs"), ("import", "go/ct/st/serialization.go: ImportStateJSON")], ["printed report", "steps made on the tested EVM"]),
     technique="deterministic simulation with fault injection: simulated disk with torn, garbage and failing files, faulty EVM",
     level_note="Sampled trees and faults.")

prop(id="C23", title="Conformance-test states are independent and survive copying and files",
     statement="A state of the conformance tests is a value: changing, releasing or recycling one never changes another, also when they share copy-on-write parts and are used by different goroutines, and copies are equal to their origin until one is changed. What is put into a state is what is read from it, and codes have their Keccak-256 as hash. Comparison finds every observable difference, a difference is explained whenever states are unequal, and a state written to a file and read back is equal - unless writing or reading reports an error, after which no wrong state is ever read.",
     quantifier=over("all histories of operations on states, all interleavings, all disk failures and crashes", "histories", "schedules", "crash_points", "fault_sequences"),
     why_tests_cant="Tests change one part of one copy; aliasing shows up only after particular sequences of copy, change and release.",
     anchors=anchor(["go/ct/st/state.go", "go/ct/st/memory.go", "go/ct/st/stack.go", "go/ct/st/storage.go", "go/ct/st/accounts.go", "go/ct/st/serialization.go", "go/ct/common/bytes.go"],
                    [("deep copies", "go/ct/st/state.go: Clone"), ("recycled stacks and memories", "go/ct/st/state.go: Release"), ("files", "go/ct/st/serialization.go: ExportStateJSON, ImportStateJSON")],
                    ["values of states", "Eq, Diff", "imported states"]),
     technique="deterministic simulation with fault injection: seeded histories against unshared models, failing and crashing disk, seeded goroutines on shared copies",
     level_note="Sampled histories and schedules. A reported difference that no accessor can observe is tolerated in one direction (zero 'original' storage entries).")

prop(id="C24", title="A conformance-test step on lfvm is one specified instruction, anywhere",
     statement="Stepping lfvm as a conformance-test target by n executes n instructions and no more, from any state on; each gives the state the specification defines; dividing an execution into pieces in any way, with states copied or written to files and read back in between, on the same or another target and with other goroutines using the target, gives the same states.",
     quantifier=over("all contracts and states, all divisions into steps, all interleavings of users of a target", "inputs", "crash_points", "schedules", "histories"),
     why_tests_cant="The conformance tests make single steps from generated states; sequences of steps, where the converted code, positions and recycled parts carry over, are not tested.",
     anchors=anchor([LF + "ct.go", LF + "converter.go", LF + "interpreter.go", "go/ct/utils/adapter.go", "go/ct/spc/specification.go"],
                    [("state in and out", LF + "ct.go: ctAdapter.StepN"), ("program counter maps", LF + "ct.go, converter.go"), ("specification", "go/ct/spc/specification.go")], ["state returned by StepN"]),
     technique="deterministic simulation: seeded divisions with crash and restart from files, seeded goroutine scheduler, per-instruction refinement against the specification",
     level_note="Sampled contracts, divisions and schedules (about 3*10^4 specified instructions per second).")

prop(id="C25", title="The registries bind each name once and survive any concurrent use",
     statement="Any number of goroutines may register, look up, create through and list the interpreter and processor registries at the same time. Names are not case-sensitive; at most one registration of a name ever succeeds and all later lookups under any spelling find exactly its factory, every other registration (or one of nothing) is refused and changes nothing; all calls are linearizable. A factory gets exactly the given configuration, and one that fails, panics, is slow or uses the registry itself disturbs no other caller; a listing is a snapshot whose change affects nobody.",
     quantifier=over("all interleavings and histories of registry calls, all behaviours of factories", "schedules", "histories", "fault_sequences"),
     why_tests_cant="Tests use the registries from one goroutine; a binding replaced or a lookup missed between check and insertion needs overlap.",
     anchors=anchor(["go/tosca/interpreter_registry.go", "go/tosca/processor_registry.go"],
                    [("check and insertion under one lock", "go/tosca/interpreter_registry.go: RegisterInterpreterFactory; processor_registry.go: RegisterProcessorFactory"), ("listing is a copy", "go/tosca: GetAllRegisteredInterpreters, GetAllRegisteredProcessorFactories"), ("factory used outside the lock", "go/tosca: NewInterpreter, GetProcessor")],
                    ["results, errors and panics of the registry functions"]),
     technique="deterministic simulation with fault injection: seeded goroutine scheduler, failing factories, linearizability check, race detector",
     level_note="Sampled programs and schedules on the real package.")

FL = "go/processor/floria/"
prop(id="C26", title="A transaction is processed whole and paid exactly, or leaves no trace",
     statement="For every world, revision and history: floria rejects a transaction with a wrong or exhausted nonce, a contract as sender, too large init code, or a sender who cannot pay price times gas limit (however large) without changing anything. Any other consumes its nonce (unless it fails before a message starts) and costs its sender exactly price times the reported gas used, at most the limit: intrinsic gas, consumed gas, 10% of the rest except for internal transactions, less the capped refund if it succeeds. A failed transaction has no other effect than these; the receipt gives its true success, gas, output, logs and created address. No value appears or disappears except for fees.",
     quantifier=over("all worlds, transactions, revisions, behaviours of interpreters and histories of transactions", "inputs", "histories", "fault_sequences"),
     why_tests_cant="Unit tests use mocks with one expected call each; integration tests need go-ethereum and check a few single transactions. Conservation and atomicity need arbitrary trees of calls and failures.",
     anchors=anchor([FL + "processor.go", FL + "run_context.go"],
                    [("acceptance, purchase and refund of gas", FL + "processor.go: Run, buyGas, calculateGasLeft, refundGas"), ("intrinsic gas", FL + "processor.go: setupGasBilling"), ("snapshots", FL + "run_context.go: Call")],
                    ["receipt", "world state after the transaction"]),
     technique="deterministic simulation with fault injection: seeded histories of transactions with failing frames and interpreters, refinement against a reference processor",
     level_note="Sampled worlds and transactions (about 10^4 per second); third-party cryptography and precompiled contracts are stand-ins.")

prop(id="C27", title="Nested calls and creations are atomic, exact and confined",
     statement="For every tree of nested messages processed by floria: each frame is given exactly the sender, recipient, code and its hash, input, value, gas, static flag, depth and block its caller's request defines, at most 1024 deep; a message that cannot start (depth, balance) gives its gas back; one that reverts, fails or hits an interpreter error leaves no effect of itself and of its callees, also of failing precompiled contracts, and loses all gas unless it reverts. Callers are told the true success, gas left, refund, output and created address. Creations get the specified address and nonces, never take a used one, store valid affordable code only. Static frames change nothing however deep.",
     quantifier=over("all trees of nested messages and fates of their frames", "inputs", "fault_sequences", "histories"),
     why_tests_cant="Tests with mocks check single calls; that effects are undone exactly, gas is neither lost nor created and depth is limited depends on combinations of nested outcomes.",
     anchors=anchor([FL + "run_context.go", FL + "precompiled.go", FL + "processor.go"],
                    [("calls", FL + "run_context.go: executeCall"), ("creations", FL + "run_context.go: executeCreate"), ("value transfer", FL + "run_context.go: transferValue"), ("precompiled contracts", FL + "precompiled.go")],
                    ["parameters given to interpreters", "results given to callers", "world state"]),
     technique="deterministic simulation with fault injection: seeded trees of scripted and real contracts with failing frames, refinement against a reference processor",
     level_note="Sampled trees (about 10^4 transactions per second).")

prop(id="C28", title="Transactions processed at the same time by one processor are isolated",
     statement="Any number of goroutines may run transactions on one floria processor at the same time, each with its own context: every receipt, every parameter given to interpreters and every change of a world is as if the transaction was processed alone, also when other transactions are slow, fail, or make the interpreter report errors or panic; no data race occurs, and none waits for another forever.",
     quantifier=over("all interleavings of all sets of transactions", "schedules", "inputs", "fault_sequences"),
     why_tests_cant="No test uses a processor from two goroutines.",
     anchors=anchor([FL + "processor.go", FL + "run_context.go", FL + "precompiled.go", FL + "state_contract.go", "go/tosca/processor_registry.go"],
                    [("no state in the processor", FL + "processor.go: processor"), ("context per transaction and frame", FL + "run_context.go: runContext"), ("shared tables are constant", FL + "precompiled.go, state_contract.go")],
                    ["receipts", "worlds", "race detector"]),
     technique="deterministic simulation with fault injection: seeded goroutine scheduler, failing interpreters, reference processor per transaction, race detector",
     level_note="Sampled schedules (about 10^3 per second).")

prop(id="C29", title="The state contract does exactly what the driver asks, and nothing for others",
     statement="A message to floria's state contract has an effect only if it comes from the driver contract, is well-formed, paid for and not static: then it sets exactly the balance, code, storage slot or nonce increment (1 to 255) given, for exactly the given account, at the gas price of the operation; it never sets the balance or nonce of the driver or the transaction's origin. Every other message fails, takes all its gas and changes nothing, and an effect is undone with the frame it belongs to.",
     quantifier=over("all messages, worlds, senders, call trees and fates of frames", "inputs", "fault_sequences", "histories"),
     why_tests_cant="Tests check single well-formed messages with mocks; privileged effects outside of the intended context need nested, static, delegated or malformed messages.",
     anchors=anchor([FL + "state_contract.go", FL + "run_context.go"],
                    [("operations", FL + "state_contract.go: runStateContract"), ("dispatch", FL + "run_context.go")], ["world state", "result of the message"]),
     technique="deterministic simulation with fault injection: seeded trees of messages with failing frames, refinement against a reference processor",
     level_note="Sampled messages (about 2*10^3 effective ones per second).")

RS = "rust/src/"
prop(id="C36", title="The Rust machine follows the message-call protocol for every callee behaviour",
     statement="Whatever the code, input, revision and gas, and whatever the callees and the host do (succeed, revert, fail, are refused, re-enter, return any data), an execution on evmrs has the outcome, remaining gas, refund, output and return data the EVM rules from Istanbul to Cancun prescribe. It asks the host for exactly the prescribed messages, storage writes, logs, selfdestructs and block hashes, in the prescribed order and with the prescribed gas and flags, never gives out more gas than it was given (plus the stipend), a failed frame keeps nothing, and every buffer it hands out is released exactly once.",
     quantifier=over("all contracts, inputs, gas amounts and revisions, all behaviours of callees and host", "inputs", "fault_sequences", "histories"),
     why_tests_cant="Unit tests run single instructions with a mocked context; the guarantee quantifies over sequences of instructions and callee behaviours, in particular over failures in the middle of nested calls.",
     anchors=anchor([RS + "interpreter.rs", RS + "evmc.rs", RS + "ffi/evmc_vm.rs", RS + "types/memory.rs", RS + "types/stack.rs", RS + "types/execution_context.rs", RS + "utils/gas.rs"],
                    [("calls and creations", RS + "interpreter.rs: call_or_call_code, static_or_delegate_call, create_or_create2"), ("gas accounting", RS + "utils/gas.rs; memory expansion in types/memory.rs"), ("results handed out", RS + "interpreter.rs: From<Interpreter> for ExecutionResult; ffi/evmc_vm.rs: execute")],
                    ["evmc_result", "host calls in order"]),
     technique="deterministic simulation with fault injection in the host: refinement against an independent reference machine",
     level_note="Sampled contracts and fault sequences. Failures are one class: which failure code is reported is not compared.")

prop(id="C37", title="Nothing changes in a static context on the Rust machine",
     statement="While a frame executes on evmrs under a static restriction, no storage or transient storage write, log, creation, selfdestruct or value transfer reaches the host, from it or from any frame below it; every message it sends carries the restriction; and an attempt to break it fails the frame as prescribed. Without the restriction the same code is not hindered.",
     quantifier=over("all contracts, call trees and revisions, all callee behaviours", "inputs", "fault_sequences"),
     why_tests_cant="Tests check single instructions at depth zero; the restriction has to survive every kind of nested call, re-entry and failure.",
     anchors=anchor([RS + "interpreter.rs", RS + "utils/helpers.rs"], [("static restriction of instructions", RS + "utils/helpers.rs: check_not_read_only and its uses in interpreter.rs"), ("flag handed to callees", RS + "interpreter.rs: call_or_call_code, static_or_delegate_call")], ["host calls made inside static frames"]),
     technique="deterministic simulation: host-side monitors in static frames under injected callee behaviour, plus reference comparison",
     level_note="Sampled call trees and faults.")

prop(id="C38", title="A stepped Rust execution can be interrupted anywhere and resumed",
     statement="Executing n steps of evmrs executes exactly n instructions (fewer only at the end of execution) and returns a state that is complete: dropping everything else at any point and resuming from that state, on the same or another machine, with any division into pieces including empty ones, gives the same intermediate states (position, status, stack, memory, gas, refund, return data), host effects and final result as executing without interruption; a finished execution stays finished, and its status and status code agree.",
     quantifier=over("all interruption points and divisions of all executions", "crash_points", "histories"),
     why_tests_cant="The tests of the stepping interface run single instructions; an incomplete state shows only when an execution is interrupted at the right place and the lost part is used later.",
     anchors=anchor([RS + "ffi/steppable_evmc_vm.rs", RS + "evmc.rs", RS + "interpreter.rs", RS + "types/code_reader.rs", RS + "types/pc_map.rs"],
                    [("state handed in and out", RS + "evmc.rs: step_n; interpreter.rs: new_steppable, From<Interpreter> for StepResult"), ("counting of instructions", RS + "interpreter.rs: run, no_op, skip_no_ops")], ["evmc_step_result"]),
     technique="deterministic simulation: crash and restart from the returned state at seeded points, refinement against the uninterrupted run and the reference's instruction trace",
     level_note="Sampled executions; within each, all single-step points and seeded piece sizes.")

prop(id="C39", title="Clients sharing the Rust machine and its caches are isolated from each other",
     statement="Any number of clients may execute contracts on evmrs machines of one process at the same time, with nested executions, sharing the process-wide code-analysis and hash caches in any filling, and each thread its pool of reused stacks and memories. Each execution has the result, gas, output and order of host effects it has when run alone, there is no data race and no access to freed memory or another execution's memory, no deadlock, and repeating the same work does not consume ever more memory.",
     quantifier=over("all interleavings of all concurrent executions, all cache fillings", "schedules", "histories"),
     why_tests_cant="Tests run one execution at a time; sharing errors need overlap inside the caches or nested executions on reused memory, and full caches.",
     anchors=anchor([RS + "types/cache.rs", RS + "types/hash_cache.rs", RS + "types/code_analysis.rs", RS + "types/stack.rs", RS + "types/memory.rs"],
                    [("caches behind a mutex with shared analyses", RS + "types/cache.rs: Cache::get_or_insert; types/code_analysis.rs: CodeAnalysis::new"), ("reused stacks and memories per thread", RS + "types/stack.rs: REUSABLE_STACK; types/memory.rs: REUSABLE_MEMORY"), ("process-wide hash cache", RS + "types/hash_cache.rs")],
                    ["evmc_result and host calls"]),
     technique="deterministic simulation: seeded scheduler around whole executions, refinement against the same execution run alone, race/heap/deadlock oracles",
     level_note="Sampled programs and schedules on the real sources; the LRU map inside the caches is a stand-in for the absent crate.")

prop(id="C40", title="Logging and caches of the Rust machine never change results",
     statement="With logging on or off, switched between executions in any order, and for every history of earlier executions and code hash (right, unknown or absent), an execution on evmrs has the same result and host effects as without logging and caches. The log has one line for every executed instruction, in order, with the gas and the top of the stack before it. When the log output fails, later executions are unaffected.",
     quantifier=over("all option changes, all execution histories, all failure points of the log output", "configurations", "histories", "fault_sequences"),
     why_tests_cant="Tests use default options; an observer or cache that changes a result needs particular histories and values.",
     anchors=anchor([RS + "types/observer.rs", RS + "evmc.rs", RS + "types/code_analysis.rs", RS + "interpreter.rs"], [("observer hooks", RS + "types/observer.rs: LoggingObserver; interpreter.rs: run"), ("cache keyed by code hash", RS + "types/code_analysis.rs: CodeAnalysis::new")], ["evmc_result", "host calls", "log lines"]),
     technique="deterministic simulation: seeded option changes and log failures, comparison with a plain machine and the reference's instruction trace",
     level_note="Sampled histories and failure points; a jump may be logged together with its destination.")

BR = "go/interpreter/evmc/"
prop(id="C41", title="The EVMC bridge passes executions on unchanged in both directions",
     statement="A contract execution that a client runs on a machine behind the EVMC bridge (evmzero, evmrs, evmone) means the same on both sides: the machine is given the call, code, revision and block and transaction context of the client; each of its requests (balances, storage, code, logs, calls of every kind, access lists, self-destruction) reaches the client's world with the same arguments and its answer comes back unchanged, with empty accounts absent; the result, gas, refund and output return to the client. A failing contract is an unsuccessful execution without error, gas or output, whatever status code the machine describes it with, a revert keeps its gas and output, and only failures of the machine itself are errors. This holds for nested frames and for any number of concurrent clients of one machine.",
     quantifier=over("all executions and host answers, all status codes, all nestings and interleavings of clients", "inputs", "schedules", "fault_sequences"),
     why_tests_cant="Tests call single functions of the bridge with mocks; mistakes show in particular combinations of nested calls, kinds, statuses and values, or when frames or clients share state.",
     anchors=anchor([BR + "evmc_interpreter.go", "go/interpreter/evmzero/evmzero.go", "go/interpreter/evmrs/evmrs.go", "go/interpreter/evmone/evmone.go"],
                    [("executions", BR + "evmc_interpreter.go: EvmcInterpreter.Run"), ("requests of the machine", BR + "evmc_interpreter.go: hostContext")], ["tosca.Result and error", "calls of the RunContext", "parameters given to the machine"]),
     technique="deterministic simulation: generated transactions through the real bridge onto simulated machines with injected status codes, refinement against the reference, seeded scheduler with race detection for concurrent clients",
     level_note="Sampled executions and schedules; cgo and the machines behind it are stand-ins.")

prop(id="C42", title="Every registered EVMC configuration is what its name says",
     statement="Each name under which evmzero, evmrs and evmone are registered (in any case) denotes an interpreter that runs on the named machine with exactly the options of the named configuration: the plain names on machines without options, every other one on a machine of its own with its option set, whatever other configurations are created, used, or profiled at the same time. Profiles are offered by the profiling configurations only, and dumping or resetting one concerns the machine of that configuration and no other. Revisions that a machine does not support are refused before the machine is used.",
     quantifier=over("all names, all orders and interleavings of creating, running and profiling", "configurations", "histories", "schedules"),
     why_tests_cant="All configurations return the same results, so functional tests cannot tell them apart; which machine is really used shows only behind the bridge.",
     anchors=anchor(["go/interpreter/evmzero/evmzero.go", "go/interpreter/evmrs/evmrs.go", "go/interpreter/evmone/evmone.go"], [("registration", "init functions"), ("profiles", "go/interpreter/evmzero/evmzero.go: DumpProfile, ResetProfile")], ["options of the machine that runs", "machine whose profile is dumped or reset", "errors"]),
     technique="deterministic simulation: seeded interleavings of clients creating, running and profiling the registered configurations on simulated machines",
     level_note="Sampled histories; the machines are stand-ins that record their options.")

prop(id="C43", title="A stepped execution keeps its whole state across the EVMC step bridge",
     statement="When a conformance-test state is executed on evmzero or evmrs in steps of any sizes, the machine is given exactly the state (code, position, gas, refund, stack, memory, data of the last call, message, static flag, revision) and the returned state is exactly what the machine answered, with all else untouched; so any division into steps, with restarts from exported states in between and other goroutines stepping other states on the same target, leads to the states the specification defines and to the same end. States that have ended are returned unchanged without using the machine, and answers that are no state are errors.",
     quantifier=over("all states and answers of machines, all divisions into steps, all restart points, all interleavings", "inputs", "crash_points", "schedules"),
     why_tests_cant="Tests convert single fields; a lost or reordered field shows only in the following steps of particular executions.",
     anchors=anchor([BR + "evmc_steppable_interpreter.go", "go/interpreter/evmzero/ct.go", "go/interpreter/evmrs/ct.go", "go/ct/utils/adapter.go"], [("conversion in both directions", BR + "evmc_steppable_interpreter.go: StepN, convert*"), ("conformance-test targets", "go/interpreter/evmzero/ct.go; go/interpreter/evmrs/ct.go")], ["states returned by StepN", "parameters given to the machine"]),
     technique="deterministic simulation: seeded divisions into steps with restarts and concurrent steppers, refinement against the specification's rules; injected arbitrary answers and failures of the machine",
     level_note="Sampled states, divisions and schedules; cgo and the machines behind it are stand-ins.")

OP = "go/processor/opera/processor.go"
AD = "go/geth_adapter/adapter.go"
GI = "go/interpreter/geth/geth.go"
prop(id="C35", title="Opera's processor applies each transaction as the network defines it",
     statement="For every world, revision up to London and history: the opera processor rejects a transaction with a wrong nonce, a contract as sender, or a sender who cannot pay price times gas limit (however large) without changing anything. Any other costs its sender exactly price times the reported gas used, at most the limit: intrinsic gas, consumed gas, 10% of the rest except for internal transactions, less the capped refund if it succeeds. Through the adapters to go-ethereum every frame of the transaction, at any depth, is given exactly what its caller's request defines and callers are told its true outcome; effects, refunds, logs, access lists and destructions reach the world exactly once, and not at all if the frame or one above it fails. The state contract acts only for the driver. No value appears or disappears except for fees and destructed accounts.",
     quantifier=over("all worlds, transactions, trees of messages, behaviours of interpreters and histories of transactions", "inputs", "histories", "fault_sequences"),
     why_tests_cant="Tests check pure helpers and single transactions against mocks; conservation, atomicity and exact charges need trees of calls with failures at any place and extreme balances, prices and gas.",
     anchors=anchor([OP, GI, AD], [("acceptance, purchase and refund of gas", OP + ": Run, preCheck, buyGas, IntrinsicGas, refundGas"), ("world state for go-ethereum's machine: undo log, refund, logs, access list, destruction", GI + ": stateDbAdapter"), ("messages between interpreter and machine", AD + ": Run, Call"), ("state contract", OP + ": preCompiledStateContract")], ["receipts", "final world state, access lists and logs", "parameters given to interpreters and results given to callers"]),
     technique="deterministic simulation: seeded worlds, transactions and call trees with injected fates of frames, compared frame by frame with an independent reference processor",
     level_note="Sampled worlds, transactions and fates. go-ethereum's machine (call, create, precompiled contracts) is a stand-in; calls of the state contract from static frames, creations the sender cannot pay and revisions after London are outside.")
prop(id="C44", title="A Tosca interpreter behind the geth adapter acts as one of go-ethereum's own",
     statement="For every tree of messages go-ethereum's machine processes with a Tosca interpreter as its interpreter, every revision and every fate of a frame: the interpreter is given exactly the block, transaction, message, depth, gas, code and read-only mode go-ethereum would give its own; what it does to the world through its context arrives in the state database unchanged and in order, with true answers (storage status, original values, warm and cold, destructions); nested messages keep the read-only mode and the gas whatever is called (accounts without code, contracts, precompiled contracts, addresses resembling them), to any depth; refunds that are temporarily negative are accounted exactly; and outcome, gas left, refund and output reach the caller unchanged.",
     quantifier=over("all trees of messages, worlds, revisions and fates of frames", "inputs", "fault_sequences"),
     why_tests_cant="Tests call single methods with mocks; the read-only flag hidden in the gas and the shifted refund counter can only be wrong in combinations of frames.",
     anchors=anchor([AD], [("running an interpreter", AD + ": Run"), ("nested messages, read-only mode in the gas", AD + ": Call, encodeReadOnlyInGas, decodeReadOnlyFromGas, isPrecompiledContract"), ("shift of the refund counter", AD + ": undoRefundShift"), ("world state", AD + ": runContextAdapter")], ["parameters and answers seen by interpreters", "state database after the message", "outcome, gas and refund"]),
     technique="deterministic simulation: seeded call trees with scripted and real interpreters in a stand-in of go-ethereum's machine, injected fates of frames, compared with an independent reference",
     level_note="Sampled trees and worlds; go-ethereum's machine and state database are stand-ins written after the original's behaviour.")
prop(id="C45", title="Transactions processed at the same time by one opera processor are isolated",
     statement="Any number of goroutines may run transactions on one opera processor (and so on one adapted interpreter) at the same time, each with its own context: every receipt, every parameter given to interpreters and every change of a world is as if the transaction was processed alone, also when other transactions are slow, fail, or make the interpreter report errors or panic; no data race occurs, and none waits for another forever.",
     quantifier=over("all interleavings of all sets of transactions", "schedules", "inputs", "fault_sequences"),
     why_tests_cant="No test uses a processor from two goroutines.",
     anchors=anchor([OP, AD, GI], [("no state in the processor", OP + ": processor, newProcessor"), ("one adapter per machine", AD + ": NewGethInterpreterFactory"), ("database per transaction", GI + ": NewStateDbAdapter"), ("shared tables are constant", OP + ": preCompiledStateContract, abi tables")], ["receipts", "worlds", "race detector"]),
     technique="deterministic simulation: seeded goroutine schedules with race detection; injected slow, failing and panicking interpreters; each transaction compared with the reference processor",
     level_note="Sampled schedules; go-ethereum's machine is a stand-in, so its own sharing is not covered.")

NA_WHY = "A single-threaded, time-free, I/O-free function of its arguments: there is no schedule, clock, fault or history for a simulator to decide. "
prop(id="C30", title="Every instruction computes the result the EVM defines, for all operands",
     statement="For all operands, each arithmetic, comparison, bitwise, hashing and memory instruction of every interpreter yields the value and costs the gas the EVM specification of the revision defines.",
     quantifier=over("all operand values of all instructions", "inputs"),
     why_tests_cant="256-bit operands cannot be enumerated.",
     anchors=anchor(["cpp/vm/evmzero/interpreter.cc", "go/interpreter/lfvm/instructions.go", "rust/src/interpreter.rs", "go/ct/spc/specification.go"], [("instructions", "op:: in interpreter.cc; op* in instructions.go")], ["stack after the instruction"]),
     na=NA_WHY + "It is a question of proof or enumeration over operands (the simulations of C06, C15 and C24 do compare results with references, as part of executions).")
prop(id="C31", title="256-bit arithmetic of the conformance tests and of tosca.Value is exact",
     statement="For all operands, the operations of common.U256 and of tosca.Value (Add, Sub, Scale, comparison, conversion) equal the mathematical result modulo 2^256.",
     quantifier=over("all pairs of 256-bit values", "inputs"),
     why_tests_cant="Tests sample a few values.",
     anchors=anchor(["go/ct/common/u256.go", "go/tosca/types.go"], [("arithmetic", "go/ct/common/u256.go, go/tosca/types.go")], ["results"]),
     na=NA_WHY)
prop(id="C32", title="Jump destinations are exactly the JUMPDEST bytes that are not push data",
     statement="For every code, the analyses of evmzero, evmrs, lfvm and the conformance tests mark exactly the JUMPDEST bytes outside of push data as jump destinations.",
     quantifier=over("all byte strings", "inputs"),
     why_tests_cant="Tests sample a few codes.",
     anchors=anchor(["cpp/vm/evmzero/interpreter.cc", "go/interpreter/lfvm/converter.go", "rust/src/types/code_analysis.rs"], [("analysis", "CalculateJumpDestinations; convert; CodeAnalysis")], ["outcome of jumps"]),
     na=NA_WHY + "(Jumps are part of the executions compared in C06, C15 and C24; caching of the analysis is decided in C09 and C12.)")
prop(id="C33", title="The table of storage statuses covers every transition exactly once",
     statement="For all original, current and new values, GetStorageStatus returns the one status that describes the transition.",
     quantifier=over("all triples of values", "inputs"),
     why_tests_cant="Mostly settled by the finite case distinction the tests make.",
     anchors=anchor(["go/tosca/world_state.go"], [("classification", "go/tosca/world_state.go: GetStorageStatus")], ["status"]),
     na=NA_WHY)
prop(id="C34", title="The rules of the conformance specification cover every state",
     statement="For every state with a known revision there is at least one rule of the specification that applies to it, so that no behaviour of an EVM is left untested.",
     quantifier=over("all states", "inputs"),
     why_tests_cant="The space of states is infinite.",
     anchors=anchor(["go/ct/spc/specification.go"], [("rules", "go/ct/spc/specification.go: getAllRules")], ["matching rules of a state"]),
     na="A static property of a set of logical conditions; no schedule, time, fault or history is involved. (That matching rules agree is decided in C20.)")
