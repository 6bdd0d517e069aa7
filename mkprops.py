"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Builds are reproducible: same sources and settings, same bytes",
 "Compiling the same sources with the same entry point, configuration and parameters always yields the byte-identical on-chain script, script hash and metadata artifacts, or the same rejection. The outcome never depends on the interpreter's hash seed or set-iteration order, object addresses, wall clock, random state, process id, environment variables, current directory, file-system enumeration order or the absolute location of the project. (Interpreter switches that change the language itself, such as -O, are not environment in this sense.)",
 ["programs", "schedules", "configurations"],
 "For every program and configuration, and every choice the runtime makes that the source does not determine (hash seed, iteration order of unordered collections, addresses, clock, randomness, cwd, environment, directory order, project path).",
 "Tests compile each program once under whatever hash seed and environment the test process happened to get; they never compare two builds of one source under different runtime choices.",
 ["opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite/rewrite_function_closures.py", "opshin/rewrite/rewrite_scoping.py", "opshin/optimize/optimize_const_folding.py", "opshin/optimize/optimize_union_expansion.py", "opshin/util.py", "opshin/builder.py", "opshin/__main__.py"],
 [("OrderedSet / sorted() wherever a set decides emitted order", "opshin/util.py all_vars/externally_bound_vars, opshin/rewrite/rewrite_function_closures.py, opshin/type_inference.py"),
  ("whitelist of foldable globals", "opshin/optimize/optimize_const_folding.py SAFE_GLOBALS"),
  ("blueprint generated from ordered annotations", "opshin/builder.py PlutusContract.blueprint")],
 observe=["flat bytes of the compiled program", "the six artifact files", "exception class and text"])

prop("C02", "Long-lived sessions behave like fresh processes",
 "In a long-lived process every compile, build, load, parameterization and dump gives exactly the result a fresh process gives for the same call on the files as they are on disk at that moment. What was compiled, edited, replaced, moved into, loaded or failed earlier in the process has no influence, and no operation changes the process's module search path, working directory, environment, recursion limit, standard streams or builtins.",
 ["histories", "programs"],
 "For every sequence of API operations, on-disk edits of contracts and imported helper files, changes of the working directory, and failing operations, within one process.",
 "The test process compiles programs in one fixed order and never compares an outcome with a fresh process, never edits an imported file between two compiles, and never has two projects with equally named helpers.",
 ["opshin/builder.py", "opshin/rewrite/rewrite_import.py", "opshin/rewrite/rewrite_import_integrity_check.py", "opshin/type_inference.py", "opshin/compiler.py", "opshin/__main__.py", "opshin/util.py"],
 [("bounded compile cache keyed by source text and settings", "opshin/builder.py _static_compile"),
  ("import resolution through the interpreter's module machinery", "opshin/rewrite/rewrite_import.py"),
  ("fresh transformer instances with fresh counters and scopes per compile", "opshin/compiler.py compile")],
 state=[("compile cache", "maps source and settings to a compiled program", "opshin/builder.py _static_compile"),
        ("module table and search path", "process-wide, used while resolving imports", "opshin/rewrite/rewrite_import.py"),
        ("initial scope tables", "process-wide name and type tables used as the start of type inference", "opshin/type_inference.py INITIAL_SCOPE")],
 observe=["outcome of each operation", "sys.path, cwd, environ, recursion limit, stdout/stderr identity, builtins between operations"])

prop("C03", "Concurrent compilations in one process are isolated from each other",
 "When several threads of one process compile, build, parameterize, load or dump different targets at the same time, each call returns exactly what it returns when run alone, under every interleaving. Once all calls have finished, process-wide state is as it was before.",
 ["schedules", "programs"],
 "For every set of concurrent calls on distinct targets and every interleaving of their steps.",
 "Every test is single-threaded; a race between two compilations needs a particular interleaving of individual steps that no test creates.",
 ["opshin/builder.py", "opshin/compiler.py", "opshin/rewrite/rewrite_import.py", "opshin/type_inference.py", "opshin/util.py", "opshin/type_impls.py"],
 [("state kept on per-compile transformer instances", "opshin/compiler.py, opshin/type_inference.py, opshin/rewrite/*"),
  ("import resolution", "opshin/rewrite/rewrite_import.py")],
 state=[("module search path and module table", "shared by all threads", "opshin/rewrite/rewrite_import.py"),
        ("initial scope tables", "shared by all threads", "opshin/type_inference.py")],
 observe=["outcome of every call against its run-alone outcome", "process-wide state after the last call"])

prop("C04", "An aborted compile or build surfaces its failure and leaves no trace",
 "If a compile or build is cut short at any point, by an unreadable or vanishing file, a failing imported module, memory exhaustion or a user interrupt, the failure reaches the caller and no result is returned. Repeating the same call, or making any other call, in the same process once the cause is gone gives exactly what a process that never saw the failure gives, and process-wide state is as it was before the aborted call.",
 ["fault_sequences", "crash_points", "programs"],
 "For every program, every point of the compilation at which a fault or interrupt can strike, every kind of fault, and every following operation.",
 "Tests only check that certain invalid programs are rejected; none injects an I/O error, memory failure or interrupt in the middle of a compile, and none compares what follows a failure with a clean process.",
 ["opshin/compiler.py", "opshin/rewrite/rewrite_import.py", "opshin/builder.py", "opshin/util.py", "opshin/type_inference.py", "opshin/__main__.py"],
 [("exceptions wrapped and re-raised with their position", "opshin/util.py CompilingNodeTransformer/CompilingNodeVisitor"),
  ("results cached only after a completed compile", "opshin/builder.py _static_compile"),
  ("search path restored after import resolution", "opshin/rewrite/rewrite_import.py, opshin/__main__.py")],
 observe=["exception reaching the caller", "outcome of the retry and of later calls", "sys.path, sys.modules entries of user modules, recursion limit, streams"])

prop("C05", "A successful artifact write means every artifact is completely on disk",
 "When writing a contract's artifacts (from the library or the build command) reports success, all artifact files exist with their complete and mutually consistent contents. Any storage failure on the way (disk full, I/O error, permission, failing directory creation, open, write or close) is reported to the caller as a failure, and nothing outside the target directory is touched.",
 ["fault_sequences", "crash_points", "configurations"],
 "For every contract, every prior state of the target directory, and every storage fault at every step of the write.",
 "Tests dump to a healthy disk only; no test makes a write fail half-way or checks the directory afterwards against what was reported.",
 ["opshin/builder.py", "opshin/__main__.py"],
 [("each artifact written inside a context manager so that close errors surface", "opshin/builder.py PlutusContract.dump"),
  ("success is printed only after the dump returned", "opshin/__main__.py perform_command")],
 observe=["bytes of every artifact file after the call", "return value, exception, exit status and printed success line", "set of paths opened for writing"])

prop("C06", "A crash while artifacts are written never yields a wrong contract",
 "If the process is killed or power is lost at any point while artifacts are written or rewritten into a directory, loading that directory afterwards gives the previously written contract, the newly written contract (at worst without its metadata, where only a bare script file survived), or an error, never any other script and never one contract's metadata with another one's script. Writing the artifacts again after the crash fully repairs the directory.",
 ["crash_points", "fault_sequences", "histories"],
 "For every contract pair (old, new), every crash point between two storage operations, and every subset of unsynced data that is lost, cut short or kept.",
 "No test interrupts a write; the states of the directory a crash can leave behind are never loaded.",
 ["opshin/builder.py"],
 [("loader accepts only content it can decode as a script", "opshin/builder.py load"),
  ("the blueprint carries code and metadata in one file", "opshin/builder.py PlutusContract.blueprint")],
 observe=["result of loading the directory and each artifact after the crash", "directory contents after the artifacts are written again"])

prop("C07", "Loading depends on artifact contents only, not on directory order or format",
 "Loading a written artifact directory always reproduces the contract that was written: script, hash, purpose, datum, redeemer and parameter schemas, title, version, description and license, in whatever order the file system lists the entries and whatever unrelated files (anything that is not itself a script, an envelope or a blueprint) lie beside them. Every single artifact that carries the script (blueprint, plutus envelope, CBOR hex) loads to the same script, and writing a loaded contract again reproduces the same artifacts.",
 ["inputs", "schedules", "configurations"],
 "For every contract, every enumeration order of the directory, every combination of artifact formats present, and every unrelated extra entry.",
 "Tests load one or two contracts from directories listed in the one order the test machine's file system happens to produce.",
 ["opshin/builder.py"],
 [("format detection by content", "opshin/builder.py load"),
  ("schema round trip", "opshin/builder.py to_plutus_schema/from_plutus_schema")],
 observe=["loaded contract's script, hash and blueprint", "artifacts written again from the loaded contract"])

prop("C08", "Binding parameters commutes with every storage step and never mutates",
 "Binding parameters to a contract gives the same script whether they are bound at build time, all at once later, or step by step in any grouping, interleaved with any number of write, crash, re-write and load steps. Bound parameters are removed in order from the declared parameters, too many are rejected, every other property of the contract (datum, redeemer, purpose, title, version, description, license) is preserved, and the contract a parameter is applied to is never changed.",
 ["histories", "inputs", "crash_points"],
 "For every parameterized contract, every parameter list, every grouping of the bindings and every interleaving with write, load and crash-recover steps.",
 "Tests apply one parameter list in one way; the space of groupings and storage steps in between is never explored.",
 ["opshin/builder.py", "opshin/__main__.py"],
 [("application of data terms to the script", "opshin/builder.py _apply_parameters"),
  ("functional update of the contract object", "opshin/builder.py PlutusContract.apply_parameter")],
 observe=["script bytes, hash, parameter list and blueprint of every contract object after every step"])

prop("C09", "Imports resolve to the project's own files and are included exactly once",
 "A contract split over several files compiles to the same script as the equivalent single file in which every imported file is inlined once, at its first import, for every import graph including shared and cyclic imports. Each import resolves to the file the project's own layout determines, with its content as it is when the compile starts, regardless of equally named modules elsewhere, the process's history or the current directory.",
 ["programs", "histories", "configurations"],
 "For every import graph over project files, every layout with equally named files in several places, and every history of the process.",
 "Tests cover a handful of fixed helper imports in one directory with one compile each.",
 ["opshin/rewrite/rewrite_import.py", "opshin/compiler.py", "opshin/builder.py"],
 [("set of already resolved files", "opshin/rewrite/rewrite_import.py RewriteImport.resolved_imports"),
  ("the contract's directory on the search path while imports are resolved", "opshin/rewrite/rewrite_import.py")],
 state=[("resolved imports", "files already inlined in this compile", "opshin/rewrite/rewrite_import.py")],
 observe=["flat bytes of the multi-file build against the flattened build"])

prop("C10", "Commands report honestly and leave nothing behind",
 "Every command line run either does what it was asked and exits with success, or exits with failure and says why; whatever fault strikes, failure is never reported as success. It never modifies the contract source or the files it imports, writes only below its output directory, and leaves no temporary files or directories behind once it ends, also when it fails or is interrupted from the keyboard. Lint reports problems, including its own failure to read the contract, on standard output.",
 ["fault_sequences", "crash_points", "inputs"],
 "For every command, input program and option set, and every storage fault, user-code exception or interrupt at every step.",
 "Tests run commands on healthy disks and look at exit status or output only; residue and faults are never examined.",
 ["opshin/__main__.py", "opshin/builder.py"],
 [("temporary directory context manager around the import of the contract", "opshin/__main__.py perform_command"),
  ("exceptions propagate to the interpreter's exit status", "opshin/__main__.py main")],
 observe=["exit status, stdout and stderr", "file-system tree before and after", "temporary directory contents"])

prop("C11", "Time locks never open early and always open eventually",
 "A script that requires the transaction's validity range to lie after, before or inside a time window, through the library's interval helpers, is satisfied exactly by those validity ranges all of whose instants meet the requirement, with inclusive, exclusive and infinite bounds (time is dense: an exclusive bound excludes the instant itself and nothing else). On a ledger that includes a transaction only while its validity range contains the current time, no schedule of submissions, clock skew, delay, reordering or rollback spends early, and once the window is open an honest retrying party succeeds within a bounded number of blocks.",
 ["schedules", "histories", "inputs"],
 "For every lock window, every validity range, and every schedule of a simulated ledger with skewed clocks, delayed, duplicated and reordered submissions, and rollbacks.",
 "Tests check a few fixed intervals; the boundary cases of bound kinds combined with time and the compiled form on a moving clock are not explored.",
 ["opshin/ledger/interval.py", "opshin/ledger/api_v3.py", "opshin/prelude.py"],
 [("interval comparison helpers", "opshin/ledger/interval.py contains/make_from/make_to/compare_*")],
 observe=["verdict of the compiled script at every optimisation level and of the same code in Python, for every submitted transaction", "ledger state against an integer-time model"])

prop("C12", "Off-chain and on-chain replicas of a contract agree on every ledger history",
 "A validator written with the library's ledger helpers reaches the same verdict on every transaction when previewed in Python off-chain and when executed as compiled script on-chain, at every optimisation level, so wallets and ledger nodes never diverge. Over every history of such transactions, locked value is conserved exactly as the validator's rules say: helper functions that locate the own input, output, datum or totals count each input, output and token exactly once, and computations on datum, redeemer and transaction give what plain Python gives (except that the text form of a byte string always uses apostrophes as quotes).",
 ["histories", "schedules", "inputs"],
 "For every history of transactions by honest and adversarial parties on a simulated ledger, with delays, duplicates, reordering and rollbacks.",
 "Tests evaluate single hand-written script contexts; multi-party histories, adversarial transaction shapes and cross-level comparison are not covered.",
 ["opshin/prelude.py", "opshin/ledger/api_v3.py", "opshin/std/builtins.py", "opshin/compiler.py"],
 [("ledger helpers", "opshin/prelude.py"), ("compiled form of the same source", "opshin/compiler.py, opshin/type_impls.py")],
 observe=["verdict of every replica on every transaction", "ledger balances against the reference accounting"])

prop("C13", "The size gate never passes when a size is unknown or grew too much",
 "The binary-size gate (comparing against a stored baseline, directly or through the local check script) reports success only if every configured contract was actually built and measured in that very run at every configured optimisation level, the baseline was read, and no size and no recorded execution cost grew beyond the configured warning threshold at a level that is not ignored; when nothing failed and nothing grew it does report success. A failing or killed build or evaluation, a missing, unreadable or stale artifact, a missing or corrupt baseline or a failed download is never taken for an unchanged size. Generating a baseline either stores exactly what was measured or fails and leaves the previously stored baseline as it was.",
 ["fault_sequences", "histories", "inputs", "crash_points"],
 "For every configuration, every history of sizes, costs and stored baselines, and every fault or crash of build processes, evaluation processes, file operations and downloads.",
 "No test runs the size tooling at all.",
 ["scripts/binary_size_tracker.py", "scripts/check_binary_sizes.py"],
 [("measurement of every contract and level by child processes", "scripts/binary_size_tracker.py compile_contract/evaluate_contract/measure_contract_sizes"), ("comparison with thresholds and exit status", "scripts/binary_size_tracker.py compare_with_baseline/main"), ("baseline stored only when complete", "scripts/binary_size_tracker.py generate_baseline")],
 observe=["exit status", "stored baseline before and after", "builds and evaluations the simulated farm really performed"])

prop("C14", "Every diagnostic points at its own program and line",
 "Every error and log message of a compile refers to the file and position in the program of that very call, and carries that program's error, whatever was compiled before or is being compiled at the same time. A program rejected with a position is always rejected with the same position and message.",
 ["schedules", "histories", "programs"],
 "For every history of earlier compiles, every interleaving with concurrent compiles, and every faulty program.",
 "Tests check that an error is raised and occasionally its line, one compile at a time.",
 ["opshin/util.py", "opshin/compiler.py", "opshin/__main__.py", "opshin/rewrite/rewrite_import.py"],
 [("current-node tracking for log records", "opshin/util.py FileContextFilter"), ("error wrapped with the node being processed", "opshin/util.py CompilerError")],
 state=[("current node of the log filter", "the node whose position is stamped on log records", "opshin/util.py OPSHIN_LOG_CONTEXT_FILTER")],
 observe=["log records and raised errors of every call with their positions"])

prop("P01", "Compiled programs behave like the Python program",
 "For every accepted program and every input, the compiled script returns the value the Python program returns, and fails exactly when the Python program raises.",
 ["programs", "inputs"], "For every accepted program and all inputs.",
 "Tests compare a limited set of programs on sampled inputs.",
 ["opshin/compiler.py", "opshin/type_impls.py", "opshin/fun_impls.py"], [("translation of typed syntax trees", "opshin/compiler.py")])
prop("P02", "Optimisation levels preserve behaviour",
 "Every optimisation level and flag gives a script with the same result on every input; optimisations change cost only.",
 ["programs", "inputs", "configurations"], "For every program, input and flag combination.",
 "Tests run most programs at one level.",
 ["opshin/optimize/", "opshin/compiler_config.py"], [("optimisation passes", "opshin/optimize/")])
prop("P03", "Accepted programs are type-safe on chain",
 "A program the compiler accepts never fails on chain because of an operation applied to a value of the wrong type, and ill-typed programs are rejected.",
 ["programs", "inputs"], "For every program.", "Tests sample programs.",
 ["opshin/type_inference.py", "opshin/type_impls.py"], [("type inference", "opshin/type_inference.py")])
prop("P04", "Data encoding round-trips and matches the ledger format",
 "Every structured value converts to on-chain data and back without loss, and command line and library parameter parsing in JSON and CBOR give the same value.",
 ["inputs"], "For every value of every declared type.", "Tests sample values.",
 ["opshin/bridge.py", "opshin/__main__.py", "opshin/builder.py"], [("conversion functions", "opshin/bridge.py, opshin/__main__.py")])
prop("P05", "The standard library computes what its Python definition computes",
 "Every function of the standard library (fractions, bitmaps, math, hashing, curve operations, builtins) returns the mathematically specified value both in Python and compiled.",
 ["inputs"], "For all inputs.", "Tests sample inputs.",
 ["opshin/std/"], [("library functions", "opshin/std/")])
prop("P06", "Integrity checks accept exactly well-formed data",
 "A declared integrity check passes for a datum exactly when it is a well-formed encoding of the declared type.",
 ["inputs", "programs"], "For every type and datum.", "Tests sample data.",
 ["opshin/rewrite/rewrite_import_integrity_check.py", "opshin/std/integrity.py"], [("integrity check generation", "opshin/rewrite/rewrite_import_integrity_check.py")])
prop("P07", "The blueprint describes the contract's interface correctly",
 "The generated blueprint conforms to the blueprint standard and its schemas describe exactly the data the validator accepts.",
 ["programs"], "For every contract interface.", "Tests check a few contracts.",
 ["opshin/builder.py"], [("schema generation", "opshin/builder.py to_plutus_schema")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
