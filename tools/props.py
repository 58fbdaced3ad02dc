#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source; the .jsonl is committed too)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- source language front end
p("S01", "Parsing any text terminates cleanly",
  "For every input text, parsing a module, its comments and a file path terminates without panicking and yields either a syntax tree or one parse error. The location of a parse error lies inside the input: its line exists, its column is inside that line and the quoted source line is that line of the input.",
  ["inputs"], "all texts: random bytes decoded as UTF-8, token soups, and mutated valid modules, with and without trailing newline",
  "Unit tests parse a few dozen hand-written snippets; they do not reach arbitrary malformed text, multi-byte characters or truncated modules.",
  ["lib/parse/src/lib.rs", "lib/parse/src/parser.rs", "lib/parse/src/input.rs", "lib/parse/src/error.rs"],
  [("parse / parse_comments", "lib/parse/src/lib.rs"), ("ParseError::new", "lib/parse/src/error.rs")], ["result of parse::parse and ParseError::position"])
p("S02", "Parsing recovers exactly the written program",
  "For every module of the language grammar and every way of laying it out with white space, comments, optional separators and redundant parentheses, parsing yields exactly the written structure: definitions, imports, types, literals, names and nesting. Binary operators group by the documented precedence levels and associate to the left, and postfix forms bind tighter than prefix operators, which bind tighter than binary ones.",
  ["programs"], "all syntax trees up to a size bound crossed with all layouts",
  "Tests pin single constructs with one fixed layout each; nesting, precedence and layout combine without bound.",
  ["lib/parse/src/parser.rs", "lib/parse/src/operations.rs", "lib/ast/src/ast"],
  [("grammar combinators", "lib/parse/src/parser.rs"), ("reduce_operations", "lib/parse/src/operations.rs")], ["tree returned by parse::parse"])
p("S03", "Source positions point at the construct",
  "Every position in a syntax tree or comment names the given path, the 1-based line and column of the first token of its construct (for a binary operation, call, field access or error propagation, of its operator token), columns counting bytes, and quotes that source line verbatim. A position renders as path, line and column with the line text, and a caret under that column.",
  ["programs"], "all modules and layouts, including multi-line and multi-byte text",
  "Most parser tests compare trees with a fake position that ignores line and column, so positions are almost untested.",
  ["lib/parse/src/parser.rs", "lib/parse/src/input.rs", "lib/position/src/lib.rs"],
  [("input::position", "lib/parse/src/input.rs"), ("Display for Position", "lib/position/src/lib.rs")], ["position() of tree nodes", "Position's Display"])
p("S04", "Comment extraction finds all and only comments",
  "For every module text, comment extraction returns exactly the line comments of that text in source order, each with its text after the comment mark and its position, and never mistakes a comment mark inside a string literal for a comment. It succeeds on every text that parses as a module.",
  ["programs"], "all modules and layouts with comments at any token boundary and '#' inside strings",
  "Tests have a handful of snippets; the interplay of strings, escapes and comments is unbounded.",
  ["lib/parse/src/parser.rs", "lib/parse/src/lib.rs"], [("comments", "lib/parse/src/parser.rs")], ["result of parse::parse_comments"])
p("S05", "Formatting preserves the program",
  "For every module that parses, the formatted text parses too, and to the same program: the same definitions in the same order with the same types, literals, names, operators and nesting, and the same imports, whose order alone may change.",
  ["programs"], "all modules of the grammar and all layouts, with comments at any token boundary",
  "The formatter's tests compare chosen inputs with chosen outputs and never re-parse; an expression whose meaning changes when its parentheses are dropped is invisible to them.",
  ["lib/format/src/lib.rs", "lib/format/src/context.rs"], [("format", "lib/format/src/lib.rs"), ("operand parenthesisation", "lib/format/src/lib.rs")], ["parse(format(parse(text)))"])
p("S06", "Formatting preserves every comment",
  "Formatting a module keeps every comment exactly once and in the same order, with its text unchanged except for trailing white space, and turns nothing else into a comment. Only comments at the ends of lines that the formatter joins may come to share a line, still complete and in order.",
  ["programs"], "all modules with comments at any token boundary",
  "Tests place comments at a few boundaries one at a time; loss or duplication depends on which construct encloses the comment.",
  ["lib/format/src/lib.rs", "lib/format/src/context.rs"], [("comment draining by line", "lib/format/src/context.rs")], ["parse_comments(format(text))"])
p("S07", "Formatting is stable",
  "Formatting is idempotent: formatting the formatted text of a module gives the same text, for modules without comments inside definitions, string literals over several lines and operations whose operator is not on the line where they begin. Formatted text ends with exactly one newline and has no line with trailing white space, and modules that differ only in blanks between the tokens of a line format identically.",
  ["programs"], "all modules of the grammar and all layouts",
  "No test formats twice; a format checker run in CI on already formatted code relies on it.",
  ["lib/format/src/lib.rs"], [("format", "lib/format/src/lib.rs")], ["format(parse(format(parse(text))))"])
p("S08", "Documentation lists exactly the public interface",
  "Generated documentation of a package lists every public module and under it every public type and then every public function of that module exactly once, in source order, each with its definition or signature in the language's own syntax in a code block and the block of comment lines immediately above it, and nothing else: no private module, private name, name configured as hidden, or field of a record that has a private field. The comment block at the very top of a module documents the module, unless it stands immediately above the first definition.",
  ["programs"], "all module sets of the grammar with comments above, inside and around definitions",
  "Snapshot tests cover a few modules; which comments belong to which definition, privacy and type rendering vary with every program.",
  ["lib/doc/src/lib.rs", "lib/doc/src/markdown.rs", "lib/ast/src/analysis.rs"], [("generate", "lib/doc/src/lib.rs")], ["text returned by doc::generate"])

# ---------------------------------------------------------------- runtime interface
p("F01", "Reference counted values are freed exactly once",
  "For every history of creating, cloning, reading, mutating and dropping shared runtime values (reference counted boxes, buffers, strings, closures, type-erased values), each payload is dropped exactly once, when its last handle goes, its memory is released exactly once and never touched afterwards, and exclusive access is granted exactly to a sole owner. Marking a value as shared between threads changes none of this. (Payloads occupy memory and are aligned to at most a machine word, as the layout shared with compiled code requires.)",
  ["histories"], "all operation sequences over several handles of several payload types and sizes",
  "Tests run about a dozen fixed short sequences and cannot see use after free, leaks or double frees without an instrumented allocator.",
  ["lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_block.rs", "lib/ffi/src/arc/arc_buffer.rs", "lib/ffi/src/any.rs", "lib/ffi/src/closure.rs"],
  [("ArcBlock clone / drop / synchronize", "lib/ffi/src/arc/arc_block.rs")], ["drop counters of payloads", "allocation log"])
p("F02", "Shared values survive any thread interleaving",
  "Once marked as shared between threads, a value's handles can be cloned, read and dropped by different threads in any interleaving: the payload is dropped exactly once, after the last handle, and what one thread wrote to it before handing it over is what others read.",
  ["schedules"], "all interleavings of the count operations of a few threads each running a short script of clones and drops, explored by a schedule the harness owns, and free-running threads",
  "No test runs two threads; a wrong interleaving is not reached by chance.",
  ["lib/ffi/src/arc/arc_block.rs"], [("synchronised count: fetch_add / fetch_sub", "lib/ffi/src/arc/arc_block.rs")], ["payload drop counters", "allocation log"],
  "an observer call around the atomic operations on the count, behind --cfg pen_verif")
p("F03", "Strings and buffers hold exactly their bytes",
  "Strings and shared buffers behave as immutable byte sequences: whatever sequence of constructions, conversions, clones and comparisons is run, each holds exactly the bytes it was made from, reports that length, and equals and hashes exactly as those bytes do.",
  ["inputs", "histories"], "all byte sequences including empty, non-text and large ones, and all conversion sequences",
  "Tests use a few short literals.", ["lib/ffi/src/string.rs", "lib/ffi/src/arc/arc_buffer.rs"],
  [("ByteString / ArcBuffer", "lib/ffi/src/string.rs")], ["as_slice, equality, hash, len"])
p("F04", "Type-erased values keep type and value",
  "A value put into the universal type is recovered unchanged exactly when asked for at its own type, and a request at any other type fails without touching the value. Kind tests (boolean, number, string, list, error, none) are true for exactly the kind of the value. Cloning and dropping go to the payload's own behaviour exactly once per handle.",
  ["histories"], "all payload types (inline and boxed, all sizes up to several words) and operation sequences",
  "Tests erase one or two payload types.", ["lib/ffi/src/any.rs", "lib/ffi/src/type_information.rs", "lib/ffi-macro/src/any.rs"],
  [("Any / TypeInformation, macro any", "lib/ffi/src/any.rs")], ["TryFrom<Any>", "drop counters"])
p("F05", "The continuation stack is last-in first-out",
  "For every sequence of pushes and pops of values of any size and alignment on the continuation stack, each pop returns the bits of the matching push, however often the stack had to grow in between, and no storage outside the stack is written.",
  ["histories"], "all well-bracketed push and pop sequences over all value sizes and initial capacities",
  "Tests push a few words.", ["lib/ffi/src/cps/stack.rs", "lib/ffi/src/cps/async_stack.rs"], [("Stack::push / pop", "lib/ffi/src/cps/stack.rs")], ["popped values", "allocation log"])
p("F06", "Asynchronous calls deliver each result exactly once",
  "A native asynchronous function called through the continuation-passing convention, and a continuation-passing function awaited as a future, yield the value the callee produced exactly once, for every pattern of suspensions, wake-ups and nested calls. The caller is resumed only after the value is ready, every wake-up of a suspended callee reaches the caller's waker, and arguments and results are dropped exactly once. An asynchronous stack accepts only the action its state allows (suspend, then resume, then restore) and names that action otherwise. However many calls a program makes in a row, the machine stack stays bounded.",
  ["schedules", "histories"], "all nesting and suspension patterns up to a bound, driven by a harness-owned poller",
  "Tests await a few immediately ready or once-suspended functions.", ["lib/ffi/src/future", "lib/ffi/src/cps", "lib/ffi-macro/src/bindgen.rs"],
  [("from_closure / to_closure / call_function", "lib/ffi/src/future"), ("AsyncStack", "lib/ffi/src/cps/async_stack.rs")], ["values, wake counts, drop counters"])
p("F07", "List values round-trip through the native interface",
  "A native sequence turned into a language list and traversed as a stream yields the same elements in the same order, lazily one element at a time, and every element and closure is released once the handles are gone, even if the traversal stops early.",
  ["histories"], "all element sequences and all traversal prefixes",
  "Tests build one small list.", ["lib/ffi/src/list.rs", "lib/ffi/src/extra"], [("List / from_list stream", "lib/ffi/src/extra")], ["elements collected", "drop counters"])

# ---------------------------------------------------------------- standard packages, native half
p("P01", "Number formatting and parsing agree",
  "Formatting a number and parsing the text back gives the same number for every finite number, and infinities and not-a-number keep their class; parsing accepts exactly the texts the documented decimal notation accepts, gives the nearest number and reports an error otherwise without crashing. Rounding, powers, roots and remainder agree with their mathematical definition.",
  ["inputs"], "all 64-bit patterns and all texts near the number grammar", "Tests format a handful of numbers.",
  ["packages/core/ffi/src/number.rs", "packages/core/Number.pen", "packages/json/ffi/src"], [("_pen_core_* number functions", "packages/core/ffi/src")], ["exported functions"])
p("P02", "Text operations work on characters",
  "Length, slicing, splitting, joining, containment, prefix, suffix and code point conversions of texts agree with the corresponding operations on the sequence of their characters, for every text and every index including out-of-range, fractional and non-finite ones, and never split a character or crash.",
  ["inputs"], "all texts with multi-byte characters and all numeric indices", "Tests use short ASCII samples and integer in-range indices.",
  ["packages/core/ffi/src/string", "packages/core/String/Utf8.pen"], [("utf8 functions", "packages/core/ffi/src/string/utf8.rs")], ["exported functions"])
p("P03", "Byte operations work on bytes",
  "Length, slicing, concatenation, searching and views of byte strings agree with the corresponding operations on byte arrays for every string, including invalid text, and every index a caller can pass; views and builders see exactly the bytes they were made from.",
  ["inputs", "histories"], "all byte arrays, indices and operation sequences", "Tests use short ASCII samples.",
  ["packages/core/ffi/src/string", "packages/core/String/Byte.pen", "packages/prelude/ffi/src"], [("byte functions, view, builder", "packages/core/ffi/src/string")], ["exported functions"])
p("P04", "Hashes and orders are consistent with equality",
  "Equal numbers and equal strings have equal hashes, hashing is a function of the value alone, and combining hashes and indexing by hash level always yields an index inside the branching range, so that two keys with different hashes are told apart at some level.",
  ["inputs"], "all numbers, strings, hash pairs and levels", "Tests compare a few pairs.",
  ["packages/prelude/ffi/src"], [("hash and index functions", "packages/prelude/ffi/src")], ["exported functions"])
p("P05", "Regular expressions match as specified",
  "Compiling a pattern succeeds exactly for valid patterns, matching agrees with a reference matcher on every pattern and byte string, and a match yields every group at its own index with exactly the matched bytes and an absent value for a group that took no part.",
  ["inputs"], "generated patterns and subjects", "Tests try two patterns.", ["packages/regex/ffi/src", "packages/regex/Expression.pen"], [("regex functions", "packages/regex/ffi/src")], ["exported functions"])
p("P06", "HTML text escaping is safe and lossless",
  "Escaped text contains no character that could open a tag, an entity or close an attribute, decodes back to the original text, and leaves all other characters unchanged.",
  ["inputs"], "all byte strings", "The package has no test.", ["packages/html/ffi/src", "packages/html"], [("encode", "packages/html/ffi/src")], ["exported functions"])
p("P07", "File operations act like a file system",
  "Any sequence of file and directory operations through the asynchronous system package has the effect of the same sequence on a plain file system model: the same contents, listings, sizes and kinds, and an error, with no partial effect, exactly when the model says the operation is impossible. Offsets, append, truncate and create-new modes follow the options given.",
  ["histories"], "all operation sequences over a few paths with interleaved open handles", "Tests read or write one file.",
  ["packages/os/ffi/library/src", "packages/os/File.pen", "packages/os/File", "packages/os/Directory.pen", "packages/os/Context/context.pen"], [("file and directory functions", "packages/os/ffi/library/src")], ["exported functions, scratch directory"])
p("P08", "Synchronous file operations act like a file system",
  "The synchronous system package gives for any sequence of file and directory operations the effects and results of a plain file system model, and so the same as the asynchronous one.",
  ["histories"], "all operation sequences over a few paths with interleaved open handles", "Tests read or write one file.",
  ["packages/os-sync/ffi/library/src", "packages/os-sync/File.pen", "packages/os-sync/File", "packages/os-sync/Directory.pen", "packages/os-sync/Context/context.pen"], [("file and directory functions", "packages/os-sync/ffi/library/src")], ["exported functions, scratch directory"])
p("P09", "Sockets deliver bytes in order and once",
  "With the asynchronous system package, bytes sent on a stream connection arrive at the peer complete, in order and once, in whatever pieces they are sent and received, the end of the stream is reported as an empty read, and datagrams keep their boundaries and sender address. Refused or invalid addresses are reported as errors.",
  ["histories"], "all send and receive splits over loopback", "Tests do not open sockets.",
  ["packages/os/ffi/library/src/tcp.rs", "packages/os/ffi/library/src/udp.rs", "packages/os/Tcp.pen", "packages/os/Tcp", "packages/os/Udp.pen", "packages/os/Udp", "packages/os/Context/context.pen"], [("tcp and udp functions", "packages/os/ffi/library/src")], ["exported functions, loopback"])
p("P10", "Concurrency primitives run everything once",
  "Spawning with the asynchronous system package runs the given function exactly once, whether or not its result is asked for, and its result is available to every waiter, on any thread, any number of times. Racing a list of lists yields each element of every source exactly once, in per-source order, without one source holding back the elements of others (the synchronous system package takes one source after another), and ends only after all sources end.",
  ["schedules"], "all source lists and suspension patterns", "There is no test of these functions.",
  ["packages/os/ffi/application/src", "packages/os-sync/concurrency.pen"], [("spawn and race", "packages/os/ffi/application/src")], ["exported functions"])
p("P11", "Database values round-trip and bind by position",
  "Every value bound to a query comes back unchanged from the database (booleans and not-a-number as what the database has for them), parameters bind in the order given, rows and columns come back in query order, and a failing statement reports an error and leaves the pool usable.",
  ["histories"], "generated values, parameter lists and statements on SQLite databases in memory and in files", "Tests run four fixed queries.",
  ["packages/sql/ffi/src", "packages/sql/Pool.pen", "packages/sql/Context"], [("pool functions", "packages/sql/ffi/src")], ["exported functions"])
p("P12", "HTTP messages pass through unchanged",
  "A request made by the client function reaches a server with its method, path, headers and body unchanged and its response comes back with the server's status, headers and body unchanged; the server function passes each request to its handler once and answers with the handler's response. Malformed methods, addresses or headers are errors.",
  ["histories"], "generated methods, paths, headers and bodies over loopback", "Tests never send a request.",
  ["packages/http/ffi/src", "packages/http/Client.pen", "packages/http/Server.pen", "packages/http/Context"], [("client and server functions", "packages/http/ffi/src")], ["exported functions, loopback"])
p("P13", "The heap functions behave as an allocator",
  "Blocks given out by the allocation functions of the asynchronous runtime are aligned, disjoint while live, keep their contents until freed and, when re-sized, keep the common prefix.",
  ["histories"], "all allocate, resize and free sequences", "There is no test of these functions.",
  ["packages/os/ffi/application/src/heap.rs"], [("_pen_malloc / _pen_realloc / _pen_free", "packages/os/ffi/application/src/heap.rs")], ["exported functions"])
p("P14", "Bit operations agree with 64-bit integers",
  "And, or, exclusive or, complement and both shifts of numbers taken as 64-bit integers agree with those operations on 64-bit unsigned integers for every operand, shifting by the width or more giving zero, and converting a number to an integer and back is the truncation of the number wherever the integer is representable.",
  ["inputs"], "all 64-bit operands and shift counts, all numbers", "Tests use a few small operands.",
  ["packages/core/ffi/src/bit.rs", "packages/core/Bit.pen"], [("_pen_core_bit_* functions", "packages/core/ffi/src/bit.rs")], ["exported functions"])
p("P15", "Programs see and make exactly the bytes of their process",
  "A program built on the asynchronous system package gets exactly the command line arguments and environment variables it was started with, reads the bytes of its standard input in order and once up to an end reported as empty, and has its writes arrive at the standard output and error whole, in order and before the write returns, those at the same time unmixed. It ends with the exit code given, losing no output, commands it runs get exactly the arguments given and have ended when it goes on, and it sleeps no shorter than asked.",
  ["histories"], "all scripts of operations with all arguments, variables, inputs and kinds of standard streams", "There is no test of these functions.",
  ["packages/os/ffi/library/src/stdio.rs", "packages/os/ffi/library/src/argument.rs", "packages/os/ffi/library/src/environment_variable.rs", "packages/os/ffi/library/src/process.rs", "packages/os/ffi/library/src/time.rs", "packages/os/ffi/application/src/main.rs", "packages/os/File.pen", "packages/os/Environment.pen", "packages/os/Process.pen", "packages/os/Time.pen"], [("standard streams, arguments, exit", "packages/os/ffi/library/src")], ["a process of the application with a program that runs scripts"])
p("P16", "Synchronous sockets deliver bytes in order and once",
  "With the synchronous system package, bytes sent on a stream connection arrive at the peer complete, in order and once, in whatever pieces they are sent and received, the end of the stream is reported as an empty read, and datagrams keep their boundaries and sender address. Refused or invalid addresses are reported as errors.",
  ["histories"], "all send and receive splits over loopback", "Tests do not open sockets.",
  ["packages/os-sync/ffi/library/src/tcp.rs", "packages/os-sync/ffi/library/src/udp.rs", "packages/os-sync/Tcp.pen", "packages/os-sync/Tcp", "packages/os-sync/Udp.pen", "packages/os-sync/Udp", "packages/os-sync/Context/context.pen"], [("tcp and udp functions", "packages/os-sync/ffi/library/src")], ["exported functions, loopback"])
p("P17", "Synchronous programs see and make exactly the bytes of their process",
  "A program built on the synchronous system package gets exactly the command line arguments and environment variables it was started with, reads the bytes of its standard input in order and once up to an end reported as empty, and has its writes arrive at the standard output and error whole, in order and before the write returns, those at the same time unmixed. It ends with the exit code given, losing no output, and sleeps no shorter than asked.",
  ["histories"], "all scripts of operations with all arguments, variables, inputs and kinds of standard streams", "There is no test of these functions.",
  ["packages/os-sync/ffi/library/src/stdio.rs", "packages/os-sync/ffi/library/src/argument.rs", "packages/os-sync/ffi/library/src/environment_variable.rs", "packages/os-sync/ffi/library/src/process.rs", "packages/os-sync/ffi/application/src/main.rs", "packages/os-sync/File.pen", "packages/os-sync/Environment.pen", "packages/os-sync/Process.pen", "packages/os-sync/Time.pen"], [("standard streams, arguments, exit", "packages/os-sync/ffi/library/src")], ["a process of the application with a program that runs scripts"])
p("P18", "The synchronous heap functions behave as an allocator",
  "Blocks given out by the allocation functions of the synchronous runtime are aligned, disjoint while live, keep their contents until freed and, when re-sized, keep the common prefix.",
  ["histories"], "all allocate, resize and free sequences", "There is no test of these functions.",
  ["packages/os-sync/ffi/application/src/heap.rs"], [("_pen_malloc / _pen_realloc / _pen_free", "packages/os-sync/ffi/application/src/heap.rs")], ["exported functions"])

p("P19", "Random numbers are in range, evenly spread and not repeated",
  "Every random number is at least zero and less than one; numbers, pairs of successive numbers and their binary digits are spread as chance would have it; sequences do not repeat, neither within a thread nor in other threads or other runs of a program. Each call of the package's function draws one new number and gives it.",
  ["histories"], "all lengths of histories over several threads and processes", "There is no test of this package.",
  ["packages/random/ffi/src/lib.rs", "packages/random/Random.pen", "packages/random/Context"], [("_pen_random_number", "packages/random/ffi/src/lib.rs")], ["exported function"])

# ---------------------------------------------------------------- libraries written in the language
p("L01", "Built-in maps are finite maps",
  "After any history of insertions, updates, removals, merges and look-ups, over keys whose hashes may agree in any number of bits, a map holds exactly the entries a finite map would hold: its size, its look-ups and the set of its traversed keys and values agree, older versions of the map are unchanged, and maps with equal entries are equal and hash equally however they were built.",
  ["histories"], "all operation histories, including adversarial hash collisions", "Feature tests insert a couple of keys; deep and colliding tries are never built.",
  ["packages/prelude/Map.pen", "packages/prelude/Hash.pen"], [("hash array mapped trie", "packages/prelude/Map.pen")], ["interpreted prelude functions"])
p("L02", "Built-in lists are lazy sequences",
  "Construction, spreading, first and rest, size, comprehension, equality and conversion of lists give what the same operations on finite sequences give, whatever was evaluated before and however many versions share parts; an element is computed only when it is asked for, an element of a literal at most once in all, and an element of a comprehension at most once in each traversal.",
  ["histories"], "all list expressions up to a bound", "Feature tests evaluate a few fixed lists.",
  ["packages/prelude/List.pen"], [("list nodes and lazy closures", "packages/prelude/List.pen")], ["interpreted prelude functions"])
p("L03", "JSON encoding and decoding agree",
  "Decoding an encoded value gives the value back, encoding a decoded text gives an equivalent text, and decoding accepts exactly the texts of the JSON grammar and reports an error on any other without crashing.",
  ["inputs"], "generated values and texts", "Tests encode and decode a few samples.", ["packages/json"], [("encode and decode", "packages/json")], ["interpreted package functions"])

p("L04", "Core functions on numbers, text, lists and byte views",
  "The exported functions of the core package that are written in the language itself give what their names and documentation say for every argument: number and text conversions, joining and searching, list selection, and byte views whose slices, seeks and comparisons agree with the same operations on the bytes they stand for.",
  ["inputs"], "generated arguments and histories of views", "Test modules try a few literals for each function.",
  ["packages/core"], [("number, boolean, string and view modules", "packages/core")], ["interpreted package functions"])
p("L05", "Command-line flags are parsed as documented",
  "For every list of words, parsing flags takes each word that starts with a hyphen, up to the first other word or a separator `--`, for a flag named by the rest of the word whose value is the next word (the last one where a flag is repeated), leaves all words after that as positional flags in order, and is an error exactly when a flag's value is missing.",
  ["inputs"], "generated command lines", "Tests parse a few short command lines.",
  ["packages/flag"], [("parse", "packages/flag/Flag.pen")], ["interpreted package functions"])
p("L06", "Rendered HTML means the tree it was made from",
  "Reading the rendered text of an element tree back gives the same elements, attributes and texts in the same order, whatever characters texts and attribute values hold, and a tree with a name that cannot be written is refused.",
  ["inputs"], "generated element trees", "Tests render a few trees.",
  ["packages/html"], [("render", "packages/html/Render.pen")], ["interpreted package functions"])
p("L07", "Values of any type are compared, shown and asserted consistently",
  "Equality of any values is structural and symmetric; the debugging text of a value is the value as the language writes it, with its types and all of its parts; assertions succeed exactly when their condition holds and otherwise tell the values; converting values for foreign functions and back gives the same values.",
  ["inputs"], "generated pairs of values", "Tests compare a few values.",
  ["packages/reflect", "packages/test", "packages/ffi"], [("reflection, assertions, foreign values", "packages/reflect/Any.pen")], ["interpreted package functions"])

# ---------------------------------------------------------------- compiler
p("C01", "Compilation preserves meaning",
  "For every accepted program, the compiled intermediate program computes the value the language reference gives to the source: evaluation order, laziness, numbers, booleans, equality, records, unions, closures, recursion, error propagation and collections.",
  ["programs"], "generated well-typed programs", "Compiler unit tests compare trees or only check that compilation succeeds; feature tests run a few dozen programs.",
  ["lib/ast-hir/src", "lib/hir/src", "lib/hir-mir/src", "lib/mir/src"], [("lowering passes", "lib/hir-mir/src")], ["value computed by an interpreter of the intermediate program"])
p("C02", "Type checking is sound and total",
  "The compiler accepts or rejects every parsed module without crashing; each program it accepts is well-typed in every intermediate form and never gets stuck when run, and each ill-typed program is rejected, with an error inside the definition that holds the mistake where there is one.",
  ["programs"], "generated well-typed programs, their single-mistake mutants, and edits of them that a separate checker judges", "Unit tests check chosen small modules.",
  ["lib/hir/src/analysis", "lib/hir-mir/src", "lib/mir/src/analysis/type_check.rs"], [("type inference, coercion, checking", "lib/hir/src/analysis")], ["result of compilation; interpreter"])
p("C03", "Intermediate passes preserve meaning",
  "Each pass over the intermediate program (string concatenation, renaming, normalisation, lambda lifting, environment inference, reference counting) yields a well-typed program that computes the same values with the same calls to foreign functions in the same order, except that a closed element of a list may be evaluated once for all lists rather than once per list.",
  ["programs"], "programs compiled from generated sources", "Unit tests compare chosen trees.",
  ["lib/mir/src/analysis"], [("mir::analysis passes", "lib/mir/src/analysis")], ["interpreter of the intermediate program"])
p("C04", "Reference counting is balanced",
  "In every compiled program each heap value is released exactly once, never used after its last release, and nothing but the module's own constants is left when the program ends.",
  ["programs"], "generated programs run on a counting heap", "Unit tests compare chosen trees; leak tests run a few programs.",
  ["lib/mir/src/analysis/reference_count"], [("clone / drop insertion", "lib/mir/src/analysis/reference_count/transformation.rs")], ["counting interpreter"])
p("C05", "Modules see exactly what is exported",
  "A module's interface contains exactly its public types and functions; a name is usable in another module exactly when it is imported and public, always means the definition of its own module, and two modules or packages with equal names inside never clash.",
  ["programs"], "generated multi-module packages", "Feature tests build a few packages.",
  ["lib/ast-hir/src", "lib/interface/src", "lib/hir-mir/src/module_interface.rs"], [("import resolution and qualification", "lib/ast-hir/src/import.rs")], ["compilation results and interfaces"])

p("C06", "Compiled tests give their outcomes",
  "Compiling a test module makes a test of each of its public functions, under the function's own name and position and a foreign name of its own; calling it gives an empty text exactly when the function gives none, the message when it gives an error of a non-empty string, and some other text when it gives any other error, for every way a test comes to its outcome. A public function that is no test (it has arguments, or can give anything but none and errors) is refused, while private functions are free. Nothing is left on the heap by running tests.",
  ["programs"], "generated test modules run in an interpreter", "Unit tests compile two functions.",
  ["lib/hir-mir/src/test_function.rs", "lib/app/src/test_linker.rs"], [("foreign functions of tests", "lib/hir-mir/src/test_function.rs")], ["texts given by the foreign functions of tests"])

p("C07", "Generated code does what the program says and keeps memory safe",
  "For every well-typed program, code is generated for it, and the code is well-typed. Running it gives the result, and the marks in their order, that the intermediate program has. It never reads memory that was not written, that lies outside its block or that was released, never writes to constants, releases each block once, and leaves nothing on the heap once its global values are released. A value computed on demand is computed at most once, also if its computation ends early by `?`, and every later use gives the same value. Values that tasks share have atomic counts: no plain write of a count happens to a block that a task at work shares with another one.",
  ["programs", "schedules"], "generated programs run in an interpreter of the generated code", "The crate's tests look at a few hand-written functions, and cannot be built without network.",
  ["lib/mir-fmm/src"], [("thunks", "lib/mir-fmm/src/entry_function.rs"), ("counts", "lib/mir-fmm/src/reference_count/pointer.rs"), ("closures", "lib/mir-fmm/src/closure/drop.rs"), ("expressions", "lib/mir-fmm/src/expression.rs")], ["results of the generated code", "blocks and counts on the heap"])

# ---------------------------------------------------------------- build system
p("A01", "Packages are found and built in dependency order",
  "For every graph of packages, building the main package finds every package it depends on, directly or through others, by its URL (a file, a repository, a package of the language, or a URL relative to the package that names it), once, and keeps packages of similar URLs apart. An application links the main package first, each package after all that depend on it, and the packages of the language last; each object and each package's foreign code is there exactly once, and every symbol that is used is defined. The result does not depend on the order in which independent parts are built or on where the main package lies. A cyclic graph, a missing package, no link script or several of them are errors, and a cycle is told as one.",
  ["configurations", "schedules"], "all graphs of packages of every kind and way of naming them, and all orders of building them",
  "The tests of the build system use up to two packages with stand-ins for files and never run a build.",
  ["lib/app/src/external_package_topological_sorter.rs", "lib/app/src/external_package_configuration_reader.rs", "lib/app/src/package_build_script_compiler.rs", "lib/infra/src/external_package_initializer.rs", "lib/infra/src/ninja_build_script_compiler.rs"],
  [("sort", "lib/app/src/external_package_topological_sorter.rs"), ("package ids", "lib/app/src/common/package_id_calculator.rs"), ("compile_application", "lib/app/src/package_build_script_compiler.rs")], ["exit code of pen build", "archives given to the link script"])
p("A02", "Imports reach exactly the modules they name",
  "For every package and every arrangement of its modules, an import of a module of the same package or of a package it depends on gives the public names of the one source file at that path, under the prefix or names the import says, with the types that module gives them, even through further modules; calls refer to the functions of that module. Each module file is compiled to one object and all of them are built; hidden directories, test files and files of other kinds are no modules. A package builds exactly if all its modules are well-formed and every import names a module and every use a public name with a fitting type; modules that import each other do not build. The context given to the main function has the contexts of all system packages it depends on.",
  ["configurations", "programs"], "all trees of modules over several packages with equal names at different places, and mistakes in them",
  "Tests resolve a few literal paths; interfaces between modules are only ever tested with hand-written ones.",
  ["lib/app/src/module_dependency_resolver.rs", "lib/app/src/common/file_path_resolver.rs", "lib/app/src/common/module_id_calculator.rs", "lib/app/src/module_compiler.rs", "lib/ast-hir/src", "lib/interface/src"],
  [("resolve", "lib/app/src/module_dependency_resolver.rs"), ("compile_main", "lib/app/src/module_compiler.rs"), ("import compilation", "lib/ast-hir/src/import_compiler.rs")], ["exit code of pen build", "symbols of the objects"])
p("A03", "Incremental builds are like builds from scratch",
  "For every history of edits of the main package (changed, new, moved, removed and broken modules, changed types that others use, changed, added and removed dependencies, foreign code) and of builds between them, also ones that were killed or failed anywhere, a build succeeds exactly if a build of the same files from scratch does, and then leaves the same archives and application. A build with nothing changed runs no commands.",
  ["histories", "crash points"], "all histories of edits, builds and interrupted builds, with a build runner that goes by modification times or by contents",
  "No test builds twice.",
  ["lib/infra/src/ninja_build_script_compiler.rs", "lib/infra/src/ninja_build_script_dependency_compiler.rs", "lib/infra/src/ninja_build_script_runner.rs", "lib/infra/src/external_package_initializer.rs", "lib/app/src/module_dependency_resolver.rs"],
  [("build statements and their inputs", "lib/infra/src/ninja_build_script_compiler.rs"), ("dynamic dependencies", "lib/infra/src/ninja_build_script_dependency_compiler.rs")], ["archives and application after each build", "commands that were run"])
p("A04", "Tests of a package are all run and told about",
  "For every package, the command to test builds and runs a program with each public function of each test module exactly once, under its module and name, linked with the package and all it depends on; functions that are not public are no tests. The program tells for each whether it passes, the message of those that fail, and counts that add up; it exits with success exactly if all pass, and so does the command. The command fails if anything it needs does not build. This holds after every history of edits, builds and interrupted builds.",
  ["configurations", "histories"], "all packages with test modules, and histories of edits of them",
  "The tests of the linker and of test modules do not build or run test programs.",
  ["lib/app/src/test_runner.rs", "lib/app/src/package_test_builder.rs", "lib/app/src/package_test_information_compiler.rs", "lib/infra/src/test_linker.rs", "lib/hir-mir/src/test_function.rs"],
  [("link", "lib/infra/src/test_linker.rs"), ("compile_test", "lib/app/src/package_build_script_compiler.rs")], ["exit code of pen test", "output of the test program"])
p("A05", "Formatting, documenting and creating packages",
  "For every package, formatting rewrites exactly its module and test module files, wherever they lie in its directories, to what the formatter makes of them, whatever directory of the package the command runs in; nothing else changes, and neither does a module that does not parse. Checking fails exactly if some module would change, names exactly those, and writes nothing. Formatting standard input gives the same as formatting a file. Documenting a package tells about exactly its modules other than tests, as the documentation of those modules says, without the functions that make contexts. Creating a package makes it in the directory given, formatted and ready to build.",
  ["configurations"], "all trees of modules, test modules, hidden files and other files in all layouts",
  "No test runs these commands on directories.",
  ["lib/app/src/package_formatter.rs", "lib/app/src/package_format_checker.rs", "lib/app/src/file_finder.rs", "lib/app/src/package_documentation_generator.rs", "lib/app/src/package_creator.rs", "cmd/pen/src"],
  [("format / check", "lib/app/src/package_formatter.rs"), ("find", "lib/app/src/file_finder.rs"), ("create", "cmd/pen/src/package_creator.rs")], ["files after the command", "exit code and messages"])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
