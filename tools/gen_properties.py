#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

# ---------------------------------------------------------------- llrl0: concurrent front end
p("C01", "Source collection loads exactly the import closure, once each",
  "For any entry points and package layout, collecting sources terminates and yields exactly one source for every module reachable through imports (with the implicit builtin and std imports) and nothing else, each loaded exactly once however many modules import it. A module that is missing, unreadable or malformed is recorded as an error on exactly that module, and recoverable conditions (interrupted or short reads) change nothing.",
  ["schedules", "fault_sequences", "inputs"],
  "all import graphs (cyclic ones included), all interleavings of the collecting tasks on any number of worker threads, all placements of disk faults",
  "The tests collect a few fixed graphs on whatever schedule the host happens to give and never see a read fault; the duplicate-load and lost-insert windows need specific interleavings of two importers.",
  ["llrl0/src/source/collector.rs", "llrl0/src/source/loader.rs", "llrl0/src/source/set.rs", "llrl0/src/source.rs"],
  [("ongoing-set deduplication under a mutex", "llrl0/src/source/collector.rs Collector::collect"), ("error turned into a source carrying it", "llrl0/src/source.rs Source::from_error")],
  ["SourceSet::sources/errors after collect_sources", "opens and reads seen by the simulated disk"],
  [("ongoing", "paths whose load has been started", "source/collector.rs"), ("result", "loaded sources by path", "source/collector.rs")])
p("C02", "Every source location names the file and range it came from",
  "A location attached to any syntax node or diagnostic resolves to the module the node was written in and to the exact start and end position of its text. This holds no matter how many modules are loaded at the same time.",
  ["schedules", "inputs"],
  "all sets of modules loaded concurrently, all interleavings",
  "Tests parse one text at a time with a private locator; only concurrent loading can attribute a location to the wrong module.",
  ["llrl0/src/source_loc.rs", "llrl0/src/source/collector.rs", "llrl0/src/interning.rs", "llrl0/src/lexer.rs", "llrl0/src/parser.rs"],
  [("per-module locator registered under the table lock", "llrl0/src/source_loc.rs begin_locate/complete_locate")],
  ["SourceLocationTable::review of every node of every collected source", "fmt of module errors"])
p("C03", "Import cycles are rejected, acyclic imports are ordered dependencies first",
  "Given successfully collected sources, ordering succeeds exactly when no modules import each other in a cycle, and then lists every source once with all its imports before it. When it fails, the reported modules are exactly one set of mutually importing modules. The order, or the reported set, is the same for every schedule and every hash seed.",
  ["schedules", "inputs", "configurations"],
  "all import graphs, in every insertion order and under every hash-table seed",
  "The sort is tested on small fixed graphs of integers; the real input is the iteration order of two nested randomised hash tables filled by concurrent tasks.",
  ["llrl0/src/source/set.rs", "llrl0/src/topological_sort.rs"],
  [("strongly connected components in dependency order", "llrl0/src/topological_sort.rs run"), ("components larger than one are errors", "llrl0/src/source/set.rs resolve_dependencies_order")],
  ["result of SourceSet::resolve_dependencies_order"])
p("C04", "Modules build after their imports and reach the backend exactly once",
  "In every parallel build, each module that builds successfully is handed to the backend exactly once with the right entry-point flag, and only after every module it imports has been handed over; the work on a module (its macro calls included) never starts before that. The build always finishes, and its result accounts for every source exactly once.",
  ["schedules", "inputs"],
  "all import graphs, all schedules, all numbers of worker threads",
  "Module tests build with whatever schedule the host gives; early release of a follower or a lost release shows only under particular interleavings of two leaders finishing together.",
  ["llrl0/src/module/parallel.rs", "llrl0/src/module.rs"],
  [("per-module count of unfinished leaders, released last", "llrl0/src/module/parallel.rs release_dependency_one"), ("result published before followers are released", "llrl0/src/module/parallel.rs")],
  ["sequence of backend calls during build_modules", "pair returned by build_modules"],
  [("leader_count", "imports not yet finished (+1 guard)", "module/parallel.rs"), ("result", "built module or error", "module/parallel.rs")])
p("C05", "A failing module affects exactly its importers, with the same diagnostics",
  "The modules that fail are exactly the ones whose own text is faulty plus the ones that import them directly or indirectly; the latter are reported as blocked by a dependency, and all others build. For every schedule, thread count and hash seed the same modules fail, and each is reported with exactly the same diagnostic, which is about (one of) its own faults.",
  ["schedules", "inputs", "configurations"],
  "all programs with any mix of faulty modules, all schedules, thread counts and hash-table seeds",
  "Each test runs once with one schedule and one random hash seed and looks only at the kind of the first error; order-dependent resolution needs the same program run under many seeds.",
  ["llrl0/src/module/parallel.rs", "llrl0/src/module/sema/importer.rs", "llrl0/src/module/sema/exporter.rs", "llrl0/src/module/sema/resolver.rs", "llrl0/src/module/sema/type_inference.rs", "llrl0/src/module/error.rs"],
  [("initial result is the dependency failure, replaced only by the module's own build", "llrl0/src/module/parallel.rs BuildingModule::new"), ("followers released on success only", "llrl0/src/module/parallel.rs")],
  ["errors returned by build_modules, displayed against the location table"])
p("C06", "Concurrent macro expansions get their own answer, and fresh names stay fresh",
  "When many modules expand macros at once, every expansion receives the result computed from its own macro and its own argument, in the order the module asked, and a macro that reports an error fails only the module that called it. Symbols generated to be unique are never generated twice in one compilation.",
  ["schedules", "inputs"],
  "all sets of modules expanding macros concurrently, all interleavings of requesters, lowering thread and execution thread",
  "Macro tests expand in one module at a time; crossed responses or a lost wake-up need two requesters in flight together.",
  ["llrl0/src/lowering.rs", "llrl0/src/backend/chibi.rs", "llrl0/src/backend/llvm.rs", "llrl0/src/backend/native/execution.rs", "llrl0/src/module/sema/ast_builder.rs", "rt/rt.c"],
  [("one rendezvous reply channel per request", "llrl0/src/lowering.rs execute_macro"), ("all generated code runs on one dedicated thread", "llrl0/src/backend/native/execution.rs"), ("gensym counter", "rt/rt.c llrt_string_genid")],
  ["expanded programs (their printed constants) and module errors", "values produced by the macros"])
p("C07", "Top-level statements run once each, imports before importers",
  "For a set of entry points, the program executes the top-level statements of every reachable module exactly once, in the order written within a module, and all of a module's imports run before its own first statement. Modules reachable from no entry point contribute nothing.",
  ["schedules", "inputs"],
  "all import graphs and entry-point sets, all arrival orders of built modules at the lowering stage",
  "Execution tests use one entry module with few imports; statement collection interleaves with module arrival in a way that only the schedule decides.",
  ["llrl0/src/lowering.rs", "llrl0/src/module/sema/importer.rs", "llrl0/src/module/sema/ast_builder.rs"],
  [("visited set and statement queue", "llrl0/src/lowering.rs MainStatements"), ("initialisation dependency recorded per import", "llrl0/src/module/sema/importer.rs")],
  ["sequence of initialisation statements given to the backend", "output of the produced program"])
p("C08", "The backend always receives a complete program before it is used",
  "Whatever order modules arrive in and however macro requests interleave with them, every definition is delivered to the backend exactly once, and whenever a macro runs or an initialisation statement is delivered everything it can reach has been delivered before. The set of definitions delivered by the end is the same for every schedule up to naming.",
  ["schedules", "inputs"],
  "all programs, all interleavings of module arrival, macro requests and statement lowering",
  "Back-end tests lower one program in one order; a definition skipped because another request is believed to have produced it depends on the interleaving.",
  ["llrl0/src/lowering.rs", "llrl0/src/lowering/context.rs", "llrl0/src/lowering/translator.rs"],
  [("populate emits each newly needed definition once", "llrl0/src/lowering/context.rs populate")],
  ["sequence of put_def / put_main / execute_macro calls"])
p("C09", "Compiling the same sources always gives a program with the same behaviour",
  "For a given set of sources, both back ends produce, under every schedule, thread count, hash seed and garbage-collection timing of the compiler, either the same diagnostics or an executable with the same output and exit status, namely those that the sources define.",
  ["schedules", "programs", "configurations"],
  "all programs, all schedules, hash seeds and collector timings inside the compiling process",
  "The tests compile each program once; a definition dropped, duplicated or miscompiled only for some arrival order or collection point shows in one run out of many.",
  ["llrl0/src/lowering.rs", "llrl0/src/backend/chibi.rs", "llrl0/src/backend/llvm.rs", "llrl0/src/backend/native/data.rs", "xten0/src/jit.rs"],
  [("requests to a back end are processed in arrival order on one thread", "llrl0/src/backend/chibi.rs, llrl0/src/backend/llvm.rs")],
  ["output and exit status of the produced executable"])
p("C10", "A failed link or write is reported and leaves nothing behind",
  "If any step of producing the executable fails (creating temporary files, writing objects, spawning the linker, the linker failing or being killed), the compiler ends unsuccessfully instead of reporting success or running a program, and it never hangs. The temporary directory it created is gone when it ends, whether it succeeds or fails.",
  ["fault_sequences", "crash_points"],
  "all positions of a failing system call or failing linker in the production of an executable, for both back ends",
  "No test makes a system call or the linker fail.",
  ["llrl0/src/backend/native/linking.rs", "llrl0/src/backend/native.rs", "llrl0/src/pipeline.rs", "llrl0/src/main.rs", "xten0/src/elf/adapter.rs"],
  [("scoped temporary directory", "llrl0/src/backend/native/linking.rs"), ("linker status checked", "llrl0/src/backend/native/linking.rs")],
  ["exit status and diagnostics of llrl0", "contents of the temporary directory"])
p("C11", "Running a program reports that program's outcome",
  "When the compiler is asked to run what it built, its exit status is zero exactly when the program ran and exited with zero, and the program's own exit code when it exited normally; a program ended by a signal or one that could not be started counts as a failure. The program receives exactly the given arguments and standard streams.",
  ["fault_sequences", "inputs"],
  "all exit codes, terminating signals, argument lists and spawn failures",
  "Tests use -o and run the binary themselves; nobody looks at the status of a program that dies.",
  ["llrl0/src/main.rs", "llrl0/src/pipeline.rs"],
  [("status of the child returned by the pipeline", "llrl0/src/pipeline.rs run"), ("status mapped to the exit code", "llrl0/src/main.rs main")],
  ["exit status of llrl0"])

# ---------------------------------------------------------------- runtime: processes
p("R01", "Spawning a program reports success or the right error, under any failure",
  "Starting a program from llrl code either reports success, and then the requested program is running with the requested arguments and connected streams, or it reports the error that prevented it; it never reports success for a program that was not started nor the reverse. Waiting returns the exit code of a program that exited, and 'none' for one that was killed.",
  ["schedules", "fault_sequences"],
  "all interleavings of parent and child, all placements of failing, interrupted or partial system calls",
  "The tests run one existing program and one missing one; no system call ever fails or is interrupted there.",
  ["rt/rt.c", "std/system.llrl"],
  [("error number sent over a close-on-exec pipe", "rt/rt.c llrt_spawn_process"), ("wait status decoding", "rt/rt.c llrt_wait")],
  ["result of process/spawn!, process/execute!, process/wait!", "programs started in the simulated kernel"])
p("R02", "Process handling leaks nothing and duplicates no output",
  "After a program has been started, waited for and its streams closed, or has failed to start, the parent holds no additional open file descriptors and no unreaped children. Output the parent has buffered is written exactly once, whatever happens in the child.",
  ["schedules", "fault_sequences"],
  "all interleavings of parent and child, all placements of system-call failures, all amounts of buffered output",
  "Tests do not count descriptors or children, and never fail an exec with output pending.",
  ["rt/rt.c", "std/system.llrl"],
  [("pipe ends closed on both sides", "rt/rt.c"), ("close-on-exec pipes", "rt/rt.c")],
  ["descriptor table and process table of the simulated kernel", "bytes that reached the parent's standard output"])

# ---------------------------------------------------------------- std: I/O
p("L01", "Reading a file yields its bytes or an error, never wrong or missing data",
  "Data returned successfully by file and stream reads is exactly the next bytes of the file, a successful read is short only at the end of the file, and reading to the end returns the whole content. A read the system refuses is reported as an error and never mistaken for the end of the file, however the data is split into chunks.",
  ["fault_sequences", "inputs"],
  "all contents and read sizes, all chunkings, all placements of read errors and interruptions",
  "Tests read small local files that arrive whole and never fail.",
  ["std/io/file.llrl", "std/rw.llrl", "std/string-reader.llrl", "std/io/error.llrl", "rt/rt.c"],
  [("short count distinguished by the end-of-file flag", "std/io/file.llrl file/read!"), ("loop until zero bytes", "std/rw.llrl read-bytes-to-end-into!")],
  ["values returned by file/read!, read-bytes-to-end!, read-string-to-end!"])
p("L02", "Data acknowledged as written is in the file",
  "When writing, flushing and closing a file have all been reported successful (also through the scoped file helper), the file holds exactly the bytes written, in order. If any byte could not be stored, at least one of those operations reports an error.",
  ["fault_sequences", "inputs"],
  "all sequences of writes, flushes and closes, all chunkings, all placements of full-disk, I/O and interrupt errors",
  "Tests write small files to a disk that never fills up.",
  ["std/io/file.llrl", "std/rw.llrl", "std/string-writer.llrl", "std/io.llrl"],
  [("result of every C call checked", "std/io/file.llrl"), ("handle invalidated on close", "std/io/file.llrl file/close!")],
  ["results of file/write!, file/flush!, file/close!, with-file!", "content of the simulated disk"])
p("L03", "Recursive removal deletes the given tree and nothing else",
  "Removing a path recursively deletes that file or directory tree and never anything outside it, in particular nothing that is reachable only through a symbolic link. It reports success only if the path is gone, and listing a directory yields each entry once.",
  ["fault_sequences", "inputs"],
  "all directory trees (symbolic links, empty and nested directories), all placements of failing directory operations, all listing orders",
  "The test removes one small tree without links on a disk that never fails.",
  ["std/io.llrl", "std/io/directory.llrl", "std/io/path.llrl", "rt/rt.c"],
  [("recursive descent, then removal of the emptied directory", "std/io.llrl remove-all!")],
  ["simulated file tree before and after remove-all!", "entries returned by directory/entries!"])
p("L04", "Hash maps and sets behave like maps and sets under every hash seed",
  "Any sequence of insertions, updates, lookups, removals, merges and iterations on the mutable and persistent hash maps and sets gives the answers a plain association list would give. The random hash seed drawn at run time, and thus collisions and table layout, never changes an answer.",
  ["histories", "configurations"],
  "all operation sequences, all seeds delivered by the system's random source (extreme and failing ones included)",
  "Tests perform a handful of operations under one random seed per run; collision chains, displaced entries and resize boundaries depend on the seed.",
  ["std/hash-map.llrl", "std/hash-set.llrl", "std/persistent/hash-map.llrl", "std/hash.llrl", "std/xxhash.llrl", "rt/rt.c"],
  [("open addressing with displaced entries", "std/hash-map.llrl"), ("trie of hash bits", "std/persistent/hash-map.llrl"), ("per-map seed", "rt/rt.c llrt_xxh_seed")],
  ["values returned by the map operations"])

# ---------------------------------------------------------------- memory management
p("G01", "Garbage collection never changes what a compiled program does",
  "A program compiled by either back end produces the same output and exit status no matter at which allocations the collector runs and what happens to the memory it frees. Every object the program can still reach survives.",
  ["schedules", "programs"],
  "all programs, all subsets of allocation points at which a collection happens",
  "The tests allocate little, so the collector rarely runs at all; a pointer the generated code keeps only where the collector cannot see it is harmless until a collection falls exactly there.",
  ["llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/llvm/codegen.rs", "llrl0/src/backend/llvm/runtime.rs", "llrl0/src/lowering/heap2stack.rs", "rt/rt.c", "std/internal/array-vector.llrl"],
  [("live values kept on the native stack or in registers, scanned conservatively", "llrl0/src/backend/*/codegen.rs"), ("all heap data allocated as scanned blocks", "rt/rt.c, codegen")],
  ["standard output and exit status of the compiled program"])
p("G02", "Garbage collection never changes a macro expansion",
  "While macros run inside the compiler, a collection at any allocation leaves every expansion result, and thus the compiled program or its diagnostics, unchanged.",
  ["schedules", "programs"],
  "all programs with macros, all subsets of allocation points during expansion at which a collection happens, both back ends",
  "A test compilation allocates too little on the collected heap for a collection to fall between building a value and handing it over.",
  ["llrl0/src/backend/native/data.rs", "llrl0/src/backend/native/execution.rs", "llrl0/src/backend/chibi.rs", "llrl0/src/backend/llvm.rs", "xten0/src/jit.rs"],
  [("host values copied to and from the collected heap on the execution thread", "llrl0/src/backend/native/data.rs"), ("only one thread ever uses the collected heap", "llrl0/src/backend/native/execution.rs")],
  ["lowered program and module errors"])

# ---------------------------------------------------------------- JIT and object files
p("J01", "JIT code is linked correctly wherever its memory lands",
  "Objects loaded into the JIT engine call and read exactly the symbols they name, in whatever order the objects arrive and wherever the system places their memory; a reference that cannot be encoded or resolved is reported as an error and never left or patched wrong. An object that is refused leaves nothing behind: its symbols stay unknown, no later object is linked to it, and it can be loaded once the reason is gone. Memory protection and placement failures are reported and do not corrupt what was loaded before.",
  ["fault_sequences", "inputs", "histories"],
  "all orders of loading objects and defining symbols, all placements of their memory, all failing memory-mapping calls",
  "Tests load a few objects that the system places close together and never fail.",
  ["xten0/src/jit.rs", "xten0/src/jit/segment.rs", "xten0/src/jit/mmap.rs", "xten0/src/jit/address_table.rs", "xten0/src/jit/symbol_table.rs"],
  [("every reference resolved or refused when its object is loaded", "xten0/src/jit.rs"), ("indirection table for far targets", "xten0/src/jit/address_table.rs"), ("range checks on patched values", "xten0/src/jit.rs")],
  ["results of calling the loaded functions", "errors returned by the engine"])
p("J02", "An object file is written completely or an error is returned",
  "Writing an object file in ELF form to any destination either delivers exactly the same bytes as writing it to memory or returns an error, however the destination splits, interrupts or refuses the writes.",
  ["fault_sequences", "inputs"],
  "all objects, all write chunkings, all positions of a refused write",
  "Tests write to files that accept everything.",
  ["xten0/src/elf.rs", "xten0/src/elf/adapter.rs", "xten0/src/elf/format.rs"],
  [("every write result propagated", "xten0/src/elf/format.rs")],
  ["bytes accepted by the destination", "result of the write"])

# ---------------------------------------------------------------- llrl1
p("S01", "The self-hosted compiler's result does not depend on chance",
  "Compiling the same sources with the self-hosted compiler gives the same verdict, the same diagnostics, the same linker command and byte-identical objects under every value of the random source (hash seeds), collector timing, placement of the heap, chunking of file reads, clock and scheduling.",
  ["configurations", "schedules", "programs"],
  "all programs, all values of the run-time hash seed, all collection points, all chunkings of input files",
  "The tests run each compilation once under one random seed.",
  ["llrl1/pipeline.llrl", "llrl1/source/set.llrl", "llrl1/module/builder.llrl", "llrl1/lowering.llrl", "std/hash-map.llrl", "rt/rt.c"],
  [("ordered containers or order-insensitive use of hash containers", "llrl1/")],
  ["exit status and diagnostics of the compiler", "linker command and contents of the linked objects", "files left"])
p("S02", "The self-hosted compiler never reports success after an I/O failure",
  "If reading a source, writing an intermediate file, spawning the linker or the linker itself fails, the self-hosted compiler ends with a failure status and does not run a stale or partial program; it never reports success without a usable executable, it says what went wrong instead of crashing, it fails only if something failed, and it removes its temporary directory.",
  ["fault_sequences", "crash_points"],
  "all placements of failing or short file operations and of linker failures during a compilation",
  "No test makes an operation fail.",
  ["llrl1/pipeline.llrl", "llrl1/main.llrl", "llrl1/util.llrl", "llrl1/backend/native/linking.llrl", "llrl1/backend/native.llrl", "llvm1/target-machine.llrl", "std/io/file.llrl", "std/system.llrl", "rt/rt.c"],
  [("results of I/O operations propagated", "llrl1/backend, std/io")],
  ["exit status of the compiler", "existence and behaviour of the produced executable"])

# ---------------------------------------------------------------- pure functions of their input: listed, not claimed
p("N01", "Accepted programs are well typed",
  "A program that passes type inference never applies an operation to a value of the wrong representation at run time.",
  ["programs"], "all programs", "Tests sample a few accepted and rejected programs.",
  ["llrl0/src/module/sema/type_inference.rs", "llrl0/src/unification.rs"], [("unification", "llrl0/src/unification/types.rs")], ["accepted programs"])
p("N02", "Pattern matching is checked for exhaustiveness and useless clauses",
  "A match that is accepted never falls through, and a clause is reported useless exactly when no value reaches it.",
  ["programs"], "all pattern matrices", "Tests sample a few matrices.",
  ["llrl0/src/pattern_matching.rs", "llrl0/src/pattern_matching/matrix.rs"], [("usefulness check", "llrl0/src/pattern_matching/matrix.rs")], ["diagnostics"])
p("N03", "Assembled instructions encode what was asked",
  "Every instruction the assemblers accept is encoded so that the processor executes exactly that instruction with those operands.",
  ["inputs"], "all instructions and operands", "Tests compare samples with a reference assembler.",
  ["xten0/src/asm", "xten1/asm.llrl", "xtencg/src"], [("instruction table", "xtencg")], ["bytes emitted"])
p("N04", "Both back ends and both compilers give a program the same meaning",
  "For every program, the executables produced by the LLVM and the chibi back end of either compiler behave alike.",
  ["programs"], "all programs", "Tests compare expected results of a fixed suite.",
  ["llrl0/src/backend", "llrl1/backend", "llrl0/src/lowering"], [("common intermediate representation", "llrl0/src/lowering/ir.rs")], ["program output"])
p("N05", "Printing and parsing expressions are inverse",
  "Every s-expression printed by the system is read back as the same expression, and number, string and character literals keep their value.",
  ["inputs"], "all s-expressions", "Tests sample a few.",
  ["llrl0/src/sexp.rs", "llrl0/src/lexer.rs", "llrl1/sexp"], [("formatter and lexer", "llrl0/src/sexp.rs")], ["parsed values"])
p("N06", "Numeric conversions and text formatting are exact",
  "Conversions between numbers and text, between numeric types and between UTF-8 and characters give the mathematically right value or report failure.",
  ["inputs"], "all values", "Tests sample boundary values.",
  ["rt/rt.c", "std/conv.llrl", "std/string.llrl", "std/internal/utf-8.llrl"], [("digit loops with overflow checks", "rt/rt.c")], ["values"])
p("N07", "Ordered maps behave like sorted association lists",
  "Any sequence of operations on the ordered maps and sets gives the answers of a sorted association list and keeps the tree balanced.",
  ["histories"], "all operation sequences", "Tests perform a handful of operations.",
  ["std/ord-map.llrl", "std/ord-set.llrl", "std/persistent/ord-map.llrl"], [("tree rebalancing", "std/ord-map.llrl")], ["values returned"])
p("N08", "Macro expansion is hygienic for captured uses",
  "A construct captured by reference in a macro denotes the construct visible where the macro was defined, whatever the expanding module defines under that name.",
  ["programs"], "all programs", "Tests sample a few captures.",
  ["llrl0/src/module/sema/ast_builder.rs", "llrl0/src/module/sema/resolver.rs"], [("captured use values", "llrl0/src/ast/builtin.rs")], ["resolved programs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
