#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which harness decides which property, and why the others are not claimed."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESSES = ["syntax", "ffi", "pkgs", "os", "os-sync", "web", "db", "compiler", "codegen", "tool"]
CHECKS = {
 "S01": ("syntax", "property-based fuzzing of the parser: token soups, random text, mutated and truncated sources; invariant oracle on results and error positions",
         "Generated-input search; no panic, crash, hang or mislocated error on the explored inputs. Nesting depth is bounded because parsing nested lists and ifs takes exponential time."),
 "S02": ("syntax", "grammar-based generation of modules with known syntax trees, random layouts; round-trip against the generated tree",
         "Every generated program must be parsed to the tree it was written from. The grammar model is trusted; it was written from the language reference and the grammar."),
 "S03": ("syntax", "grammar-based generation; positions compared with token offsets of the generated layout",
         "Exact comparison of the position of every node and of comments; rendering compared with an independent rendering."),
 "S04": ("syntax", "grammar-based generation with known comments; differential check against an independent scanner on arbitrary text",
         "Exact comparison of the comment list and positions."),
 "S05": ("syntax", "metamorphic: parse(format(parse(text))) equals parse(text) on generated and mutated repository programs",
         "Trees compared up to import order. Comments included. The parser is trusted as decided by S02."),
 "S06": ("syntax", "metamorphic: comments before and after formatting on generated programs with comments at every token boundary",
         "Exact comment list up to line-end comments sharing a line."),
 "S07": ("syntax", "metamorphic: format twice, and format two layouts that differ in blanks only",
         "The domain leaves out three known causes of instability; each is checked with one fixed input and listed as a known finding."),
 "S08": ("syntax", "model-based: documentation of generated packages read back and compared with the generated public interface",
         "Every section, entry, comment and signature of the output is compared; signatures by parsing them."),
 "F01": ("ffi", "model-based: random histories of handles against a model of owners, on a checking allocator (double free, use after free, overflow, leak) with counted payloads",
         "After every operation the number of live payloads and blocks is compared with the model."),
 "F02": ("ffi", "schedule-owning concurrency testing: every count operation is a yield point of a scheduler that picks the next thread from the generated choices; happens-before checked with vector clocks; plus free-running threads",
         "The memory orders the code passes are interpreted by the vector clocks, so missing acquire/release edges are found without weak hardware. Needs the pen_verif observer."),
 "F03": ("ffi", "model-based: strings and buffers against byte vectors over all conversions", "Exact comparison of contents, equality, ordering and hashes."),
 "F04": ("ffi", "model-based: histories of erasing, cloning, converting and dropping against typed values", "All pairs of source type and requested type are reached; counted payloads and the checking allocator decide drops."),
 "F05": ("ffi", "model-based: push/pop histories over 39 value types against a list, on a checking allocator", "Contents compared bit by bit; overflow found by guard bytes."),
 "F06": ("ffi", "differential: random programs of nested calls through every calling form (await, import, call, closure, thunk) against their direct value, under a harness-owned poller", "Values, evaluation counts, wake-ups, payload and memory balance; protocol of asynchronous stacks against a state machine."),
 "F07": ("ffi", "model-based: lists built from parts and read back as streams under a harness-owned poller", "Elements, order, laziness (number of nodes and elements looked at), early stops, balance of payloads and memory."),
 "P01": ("pkgs", "round-trip and differential: exported functions on generated numbers and texts against the exact decimal semantics", "Formatting checked by exact round trip, parsing against an independent recogniser and exact rational comparison, rounding and powers against exact or interval references."),
 "P02": ("pkgs", "model-based: text operations against operations on sequences of characters", "Exact comparison over generated texts with multi-byte characters, every index class (fractional, negative, infinite, not-a-number)."),
 "P03": ("pkgs", "model-based: byte operations, views and builders against byte arrays", "Exact comparison; also that results keep their bytes after the sources are dropped."),
 "P04": ("pkgs", "metamorphic: equality implies equal hashes; index tree walk tells apart different hashes", "Values built in different ways; all levels; distribution bound on random keys."),
 "P05": ("pkgs", "differential: compiled expressions against a backtracking reference matcher written for the generated pattern grammar", "Leftmost-first semantics with groups; repeated parts are never empty in the reference's domain."),
 "P06": ("pkgs", "round-trip and invariant: escaping decoded by an independent decoder; forbidden characters", "All byte strings, with emphasis on the characters of markup."),
 "P14": ("pkgs", "differential: exported functions against 64-bit integer arithmetic", "Operand bits compared exactly."),
 "P07": ("os", "differential, stateful: histories of operations through the exported functions on one directory and through std::fs on a twin", "Results, contents, kinds and open descriptors compared after every operation; operations on one handle at the same time."),
 "P08": ("os-sync", "differential, stateful: histories of operations through the exported functions on one directory and through std::fs on a twin", "Results, contents, kinds and open descriptors compared after every operation; operations on one handle from several threads."),
 "P09": ("os", "model-based, stateful: send, receive, shut down and drop histories over loopback against byte queues and datagram queues", "Both ends are the tested functions or std::net."),
 "P10": ("os", "model-based: trees of spawned functions with demands from several tasks, and races of sources whose elements wait for what the consumer has got; one or three worker threads", "Runs, results, handles and marks of shared values counted; deadlocks and hangs are violations."),
 "P11": ("db", "model-based, stateful: histories of changes and queries with generated parameters against tables in memory, on SQLite databases in memory and in files", "Values compared bit by bit; failing statements must be errors and change nothing."),
 "P12": ("web", "model-based: generated messages between the client function, the server function and an independent HTTP/1.1 implementation over loopback", "Framings, pieces, pipelining, truncated and malformed messages; one and several threads."),
 "P13": ("os", "model-based: allocate, resize and free histories against a model of blocks", "Contents, alignment and disjointness checked after every operation."),
 "P15": ("os", "model-based: a process of the real application runs generated scripts; what it sees and makes is compared with the script", "The program stands for a compiled one; standard streams are pipes or files."),
 "P16": ("os-sync", "model-based, stateful: send, receive, shut down and drop histories over loopback against byte queues and datagram queues", "Both ends are the tested functions or std::net."),
 "P17": ("os-sync", "model-based: a process of the real application runs generated scripts; what it sees and makes is compared with the script", "The program stands for a compiled one; standard streams are pipes or files."),
 "P18": ("os-sync", "model-based: allocate, resize and free histories against a model of blocks", "Contents, alignment and disjointness checked after every operation."),
 "P19": ("pkgs", "statistical invariants over generated histories of draws from one or several threads and processes: range, spread, pairs, digits, repetition", "Bounds of 8.5 standard deviations, so that chance alone raises no alarm."),
 "C01": ("compiler", "differential: generated well-typed programs, compiled by the compiler's own crates and run by an interpreter of the intermediate language, against an independent evaluator of the language",
         "Result, marks left in order by foreign functions, and marks left on demand are compared. Generated code is C07's."),
 "C02": ("compiler", "generated well-typed programs must be accepted and never get stuck; generated programs with one mistake of a known kind must be refused within the definition that holds it",
         "28 kinds of mistakes; compilation must never end in an internal error."),
 "C03": ("compiler", "differential: generated programs run after each pass over the intermediate language, with a type check after each",
         "Results and marks must be the same after every pass; closed elements of lists may be evaluated once for all after lambda lifting."),
 "C04": ("compiler", "invariant: generated programs run with their reference counts on a counting heap: no use after release, no double release, nothing left",
         "The heap follows exactly the clone and drop operations that the compiler inserted."),
 "C05": ("compiler", "model-based: generated programs of several modules with the same names everywhere, compiled one after another and run by an interpreter, against a model of what each name means where; uses of names that are not to be had must be refused",
         "The tool's own finding of modules is A02's; here interfaces come straight from the compiler's crates and values are run."),
 "C06": ("compiler", "model-based: generated test modules compiled as tests and each test's foreign function called in an interpreter, against the outcome its construction gives; modules with public functions that are no tests must be refused",
         "Outcomes come from nested calls, conditions, propagation of errors and conversions; the heap is checked as well."),
 "C07": ("codegen", "differential: generated programs compiled to F-- by mir-fmm and run over checked memory of bytes, against the interpreter of the intermediate program; counts of references of every block followed to the end",
         "The generated code is built with a stand-in of the fmm crate, whose types and builders are written from their uses; optimisation and LLVM are out of reach. Tasks are run at once, but a plain write of a count that a running task shares is a violation."),
 "L01": ("compiler", "model-based, stateful: histories of insertions, removals, merges and rebuilds on versions of maps against finite maps, with chosen hashes of keys that share index paths", "The functions of packages/prelude, compiled by the compiler's own crates and run by an interpreter of the intermediate language; ownership is checked too."),
 "L02": ("compiler", "model-based, stateful: histories of literals, spreads, comprehensions and queries over versions of lists against finite sequences, with the trace of what was computed and when", "The functions of packages/prelude, compiled by the compiler's own crates and run by an interpreter of the intermediate language; ownership is checked too."),
 "L03": ("compiler", "round-trip and differential: generated values encoded and decoded; generated and mutated texts decoded and compared with an independent reader of the JSON grammar", "The package as compiled by the compiler's own crates and run by an interpreter of the intermediate language."),
 "L04": ("compiler", "model-based: exported functions against operations on characters, bytes and lists; histories of views against byte slices", "The package as compiled by the compiler's own crates and run by an interpreter of the intermediate language."),
 "L05": ("compiler", "model-based: generated command lines against an independent reading of the documented rules", "The package as compiled by the compiler's own crates and run by an interpreter of the intermediate language."),
 "L06": ("compiler", "round-trip: generated element trees rendered and read back by an independent reader", "The package as compiled by the compiler's own crates and run by an interpreter of the intermediate language."),
 "L07": ("compiler", "model-based and metamorphic: pairs of generated values compared, shown, asserted and converted, against structural equality", "The packages as compiled by the compiler's own crates and run by an interpreter of the intermediate language."),
 "A01": ("tool", "model-based: generated graphs of packages at every kind of place, built by the real command with a runner of build scripts that takes any order and parallelism; what is linked, in which order, against a model, and errors for cycles and missing packages", "The real command, built with small stand-ins for crates that are not in the offline cache, as an unprivileged process; the programs that it calls are stand-ins, and objects are lists of symbols, because LLVM cannot be built."),
 "A02": ("tool", "model-based: generated trees of modules over several packages, and mistakes in them, built by the real command; objects, symbols and success against a model of what each import means", "The real command, built with small stand-ins for crates that are not in the offline cache, as an unprivileged process; the programs that it calls are stand-ins, and objects are lists of symbols, because LLVM cannot be built."),
 "A03": ("tool", "stateful, metamorphic: histories of edits, builds, builds stopped at any point and failing commands; each build's result against a clean build of the same sources, and a second build must do nothing", "The real command, built with small stand-ins for crates that are not in the offline cache, as an unprivileged process; the programs that it calls are stand-ins, and objects are lists of symbols, because LLVM cannot be built."),
 "A04": ("tool", "model-based: generated packages with tests, whose test programs are compiled by rustc with stand-ins for the tests of known outcome; list, messages, summary and exit code against a model", "The real command, built with small stand-ins for crates that are not in the offline cache, as an unprivileged process; the programs that it calls are stand-ins, and objects are lists of symbols, because LLVM cannot be built."),
 "A05": ("tool", "metamorphic and model-based: generated trees of files given to format, format --check, document and create; all files before and after against what the libraries say of each source", "The real command, built with small stand-ins for crates that are not in the offline cache, as an unprivileged process; the programs that it calls are stand-ins, and objects are lists of symbols, because LLVM cannot be built."),
}
# Properties with a second part: the modules of the package around the foreign functions
SECOND = {i: "compiler" for i in ["P05", "P07", "P08", "P09", "P10", "P11", "P12", "P15", "P16", "P17", "P19"]}
MODULES = "; model-based: the package's modules, compiled by the compiler's own crates and run by an interpreter, with foreign functions that answer as a generated script says"
REASONS = {}
def main():
    ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
    checks = []
    for i in ids:
        if i not in CHECKS: continue
        h, technique, note = CHECKS[i]
        if i in SECOND:
            technique += MODULES
        arguments = f"{h} {i} {SECOND[i]}" if i in SECOND else f"{h} {i}"
        checks.append(dict(property=i, quick_cmd=f"./check.sh {arguments}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {arguments}",
            technique=technique, level="exploration", level_note=note))
    hooks = dict(guard="pen_verif", enable="RUSTFLAGS='--cfg pen_verif' (set by check.sh from harness/ffi/rustflags): lib/ffi/src/verif.rs reports every operation on a reference count to an observer",
        source_commits=["51802d4"])
    m = dict(version=1, setup_cmd="./check.sh --build " + " ".join(HARNESSES), hooks=hooks, checks=checks,
        not_applicable=[dict(property=i, reason=REASONS.get(i, "no check built yet")) for i in ids if i not in CHECKS],
        notes="Own property-based testing engine in harness/pbt (choice sequences, shrinking, replay, worker processes). ./check.sh --replay HARNESS FILE re-runs a saved failure.")
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(f"{ROOT}/MANIFEST.json", "a").write("\n")
if __name__ == "__main__": main()
