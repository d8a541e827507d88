"""The properties: what each says, what decides it, and the bounds. gen.py turns this into properties.jsonl, MANIFEST.json and the DESIGN.md sections."""
SPEC = {}
def P(pid, title, stmt, over, qtext, why, files, mech, bounds, how, outside=""):
    SPEC[pid] = dict(title=title, stmt=stmt, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds, how=how, outside=outside)

P("C01", "Integer arithmetic is exact 64-bit arithmetic or a reported error",
  "For every two integers, + - * / % and unary minus give the mathematically exact result (division truncating toward zero), or, when that result does not exist or does not fit in 64 signed bits, abort the program with a reported error. No operand makes the interpreter crash or yield a wrapped result, and an abort stops evaluation at that step.",
  ["inputs"], "all pairs of 64-bit integers for each operator; all triples for chains of two additive operators; every nesting of unary signs listed",
  "Tests sample a handful of small literals per operator; the failures are at a few of 2^128 operand pairs.",
  ["src/lib/runtime.c"], [("integer operator evaluation", "src/lib/runtime.c: do_math_op, do_math_op_2"), ("constant and variable operands", "src/lib/compiler/codegen.c")],
  "all 2^128 pairs of operands for + - * / %, all 2^64 for unary forms, all 2^192 triples for the 4 chains of + and -; program shapes fixed",
  "Programs `out(A op B)` with A,B symbolic 64-bit integers are compiled and run by the symbolically executed interpreter; the result is compared by the solver with the compiler's overflow-checked arithmetic (a different implementation from the interpreter's).")
P("C02", "Float arithmetic is IEEE double arithmetic; wrong operand types abort",
  "When at least one operand is a float, + - * / yield exactly the IEEE-754 double result of the promoted operands, and dividing by zero aborts with an error. Any arithmetic or ordering operator applied to an operand that is not a number aborts with an error before anything after it runs.",
  ["inputs"], "all pairs of doubles (NaN, infinities, subnormals included), int/float mixes, and every ordered pair of value kinds",
  "Tests use a few round decimal literals and never NaN, infinities, huge ints or most operand kind pairs.",
  ["src/lib/runtime.c"], [("promotion and float operators", "src/lib/runtime.c: do_math_op"), ("operand type checks", "src/lib/runtime.c: do_math_op, do_relational_op")],
  "all bit patterns of both doubles and all 64-bit ints in mixes; 11 operand kinds in both positions x 9 operators",
  "As C01, with symbolic IEEE bit patterns and the solver's floating-point theory; kind pairs are forked with symbolic contents.")
P("C03", "Ordering comparisons agree with the numeric order",
  "< > <= >= on two numbers give the numeric order (ints compared as ints, mixed operands after promotion to float, NaN unordered) and always yield a bool. Swapping the operands mirrors the answer.",
  ["inputs"], "all pairs of ints, of doubles, and of int/double mixes", "Tests compare a few small constants.",
  ["src/lib/runtime.c"], [("relational operators", "src/lib/runtime.c: do_relational_op")],
  "all 64-bit ints and all doubles, in all four int/float combinations and both operand orders", "All eight comparisons of two symbolic numbers in one program against the C semantics.")
P("C04", "Equality is typed, reflexive and total",
  "== and != are defined on every pair of values: values of different types are different, ints, floats, bools, strings, types and none are equal exactly when their contents are (NaN excepted), and != is always the negation of ==.",
  ["inputs"], "all contents of two scalar values and every ordered pair of the 11 value kinds", "Tests compare a few constants of the same type.",
  ["src/lib/objects/objects.c", "src/lib/objects/o_string.c", "src/lib/runtime.c"], [("comparison dispatch", "src/lib/objects/objects.c: Object_Compare"), ("per-type comparison", "src/lib/objects/o_*.c")],
  "all ints, doubles, bools; strings of up to 3 ASCII bytes each; 11 x 11 kinds", "Symbolic operand contents; the oracle is written over the harness's own copies of the operands. Lists, maps, buffers and functions have no equality in the code although the documentation promises it: four known findings.")
P("C05", "Logic operators short-circuit left to right on booleans only",
  "and, or and not compute the boolean function they name, evaluate operands left to right and only when needed, and conditions of if, while and do-while must be bools. Any other value reached as a condition or logic operand aborts the program.",
  ["inputs", "programs"], "every boolean expression tree up to the bound, all operand values, every kind of operand", "Tests use literal true/false and do not observe which operands ran.",
  ["src/lib/compiler/codegen.c", "src/lib/runtime.c"], [("short-circuit code", "src/lib/compiler/codegen.c"), ("conditional jumps", "src/lib/runtime.c")],
  "all trees of depth <= 2 over and/or/not with up to 4 leaves, all values; 10 non-bool kinds x 7 positions", "Leaves are calls into the harness that record the evaluation order and return symbolic bools; a direct evaluator is the oracle.")
P("C06", "Expressions group by the documented precedence and associativity",
  "An expression means what its operator precedence, left associativity (right for assignment) and parentheses say, whatever operators are combined. Printing a tree with the minimal or the full set of parentheses gives the same value.",
  ["programs", "inputs"], "every well-typed expression tree with up to three operators, and symbolic operand values", "Tests contain a few fixed combinations out of hundreds.",
  ["src/lib/compiler/parse.c", "src/lib/compiler/codegen.c"], [("operator precedence parsing", "src/lib/compiler/parse.c: parse_expression_2")],
  "all integer and boolean trees with 1 to 3 operators from + - * / % unary- assignment < >= == != and or not; operands symbolic for small trees",
  "The tree shape is forked, its text is produced with minimal parentheses by a printer that encodes the documented table, and the interpreter's value is compared with direct evaluation of the tree.")
P("C07", "Statements execute exactly in the order control flow dictates",
  "if/else, while, do-while, break, return and blocks run exactly the statements the language defines, for every outcome of their conditions, at any nesting. break outside a loop is rejected before anything runs.",
  ["programs", "inputs"], "every statement tree up to the bound and every sequence of condition outcomes", "Tests contain single loops with constant conditions.",
  ["src/lib/compiler/codegen.c", "src/lib/compiler/codegenctx.c", "src/lib/runtime.c"], [("jump generation and break targets", "src/lib/compiler/codegen.c"), ("label patching", "src/lib/compiler/codegenctx.c")],
  "all statement trees with up to 3 compound statements (if, if-else, while, do-while, block) over leaves call/break/return, at top level and in a function; first 3 condition outcomes symbolic, later ones false",
  "Conditions and leaves are harness calls that log their identity; the log must equal that of a direct interpreter of the tree.")
P("C08", "Calls bind arguments and return values by position",
  "A call binds parameters to arguments in order, fills missing or none arguments with the default value or none, drops extra arguments, and evaluates each argument once, left to right. The returned values reach the assignment targets in order, missing ones being none, and the caller's variables are untouched by the call.",
  ["programs", "inputs"], "all argument/parameter/default/return count combinations up to the bound, all integer values", "Tests use one or two arguments with matching counts.",
  ["src/lib/compiler/codegen.c", "src/lib/runtime.c", "src/lib/objects/o_closure.c"], [("call protocol", "src/lib/compiler/codegen.c, src/lib/runtime.c"), ("function objects", "src/lib/runtime.c")],
  "up to 4 parameters x 5 arguments with every default/none pattern; up to 8 return values and 8 targets; recursion depth up to the frame limit; integers symbolic",
  "Programs are generated per combination with symbolic argument values and compared to the binding rules written in the harness.")
P("C09", "Name lookup is lexical and closures capture their defining scope",
  "A variable read yields the value of the innermost enclosing scope that defines the name, assignments create or change names only in the current function's scope, and closures keep seeing the frame they were created in. Reading an undefined name aborts with an error naming it.",
  ["programs"], "every program up to the bound of nested functions, assignments and reads over a small set of names", "Tests hold a couple of fixed closures.",
  ["src/lib/runtime.c", "src/lib/objects/o_closure.c", "src/lib/compiler/codegen.c"], [("variable lookup", "src/lib/runtime.c"), ("closure chain", "src/lib/objects/o_closure.c")],
  "function nesting depth <= 2 with 2 statements per body (3 at depth 1) over two names; closure programs with symbolic values; names up to the identifier grammar's bounds in t_names",
  "All programs in the grammar are forked, run, and compared with an environment-chain interpreter in the harness.")
P("C10", "A type accepts exactly its values, in assertions and istypeof",
  "istypeof(T, v), the assertion of an annotated parameter, and type(v)/typename(v) agree with the documented meaning of basic types, unions, nullable types, list and map structure types and any. A rejected call does not run the function's body; matching a malformed type is an error or a mismatch, never a crash.",
  ["programs", "inputs"], "all type expressions and value expressions up to the bound", "Tests check a few pairs.",
  ["src/lib/objects/o_sum.c", "src/lib/objects/o_nullable.c", "src/lib/objects/o_any.c", "src/lib/objects/o_list.c", "src/lib/objects/o_map.c", "src/lib/runtime.c"],
  [("type matching", "src/lib/objects/objects.c: Object_IsTypeOf and per-type istypeof"), ("parameter assertions", "src/lib/compiler/codegen.c")],
  "types with up to 2 constructors and values with up to 2 (quick: reduced base set for the deepest pairs), the quotient over all scalar contents",
  "Types and values are forked as trees; a recursive matcher in the harness is the oracle, used through both istypeof and annotated parameters.")
P("C11", "Maps behave as finite functions keyed by value",
  "After any sequence of insertions, selecting a key gives the value last inserted with an equal key or none, count is the number of distinct keys, and iteration lists each once; keys are kept as copies of the values given. This holds across growth, for int, float, bool, string and none keys, and for keys that collide. The library's namespaces are such maps, except that they can't be changed.",
  ["inputs", "histories"], "all key values of up to two symbolic keys against every growth phase; long insertion histories", "Tests insert a few short keys.",
  ["src/lib/objects/o_map.c", "src/lib/utils/hash.c"], [("open addressing and growth", "src/lib/objects/o_map.c"), ("hash/equality agreement", "src/lib/objects/o_*.c, src/lib/utils/hash.c")],
  "0..10 earlier keys x one fresh 6-bit symbolic key (two 3-bit symbolic keys for 3 and 4 earlier keys), strides 1 and 8, negative keys; kind pairs with 2 symbolic bytes per number and 2-byte strings; histories of 24 and 70 keys in 3 kinds x 4 strides with a symbolic value",
  "An association list in the harness is the oracle for every lookup.")
P("C12", "Lists behave as growable arrays with checked indices",
  "Reading index i of a list gives the item last stored there or none outside [0,count); writing replaces inside, appends at count, and aborts anywhere else. Order and all other items are preserved through growth, and lists are shared by reference.",
  ["inputs", "histories"], "all 64-bit indices for up to 3 writes and one read from any starting size around the growth steps; long append histories", "Tests index small lists in range.",
  ["src/lib/objects/o_list.c", "src/lib/objects/objects.c"], [("index checks and growth", "src/lib/objects/o_list.c: select, insert")],
  "starting sizes 0,2,6,7,8; 3 writes at symbolic 64-bit indices and a read at a symbolic 64-bit index; 40 appends; 9 kinds of index", "An array model in the harness decides every read, write, count and abort.")
P("C13", "String operations equal their mathematical definition",
  "Concatenation, length, character selection, slicing and trimming compute exactly what they name for every string, leave their operands unchanged, and abort on offsets outside of the string instead of reading past it.",
  ["inputs"], "all short ASCII strings with every 64-bit offset and length; long strings around internal buffer sizes", "Tests use a few literals and in-range offsets.",
  ["src/lib/builtins/string.c", "src/lib/objects/o_string.c"], [("string built-ins", "src/lib/builtins/string.c"), ("string objects", "src/lib/objects/o_string.c")],
  "strings up to 3-4 symbolic bytes (0..127, NUL included); offsets and lengths all 64-bit; concatenations from 120 to 408 bytes", "Definitions restated over the harness's byte arrays.")
P("C14", "Text is accepted exactly when it is well-formed UTF-8",
  "A byte string becomes text exactly when it is well-formed UTF-8; counting and selecting work on whole characters; chr encodes every code point and refuses everything else, and ord inverts it.",
  ["inputs"], "every byte string up to the bound, every 64-bit integer for chr", "Tests hold a few well-formed samples; the boundaries are overlong forms, truncations and the last planes.",
  ["src/lib/utils/utf8.c", "src/lib/objects/o_string.c", "src/lib/builtins/string.c"], [("decoder and encoder", "src/lib/utils/utf8.c")],
  "all byte strings of length 0..5 (surrogate encodings excluded: either answer accepted); all 64-bit arguments of chr", "A reference decoder written from the UTF-8 table; every byte is symbolic.")
P("C15", "Buffers and their slices never reach outside their bytes",
  "A buffer holds the requested number of zero bytes; reads outside give none; writes outside the view or of values outside 0..255 abort; slices and slices of slices are windows that share the buffer's bytes. Converting to and from strings copies exactly the bytes.",
  ["inputs"], "all 64-bit sizes, slice offsets, lengths, indices and stored values", "Tests slice in range with small constants.",
  ["src/lib/objects/o_buffer.c", "src/lib/builtins/buffer.c"], [("bounds checks of views", "src/lib/objects/o_buffer.c"), ("built-ins", "src/lib/builtins/buffer.c")],
  "a 5-byte buffer, slice and subslice with all 64-bit offsets/lengths, one write and one read at all 64-bit indices of any of the three; sizes 0..16 or > 2^30; 3-byte conversions", "Byte-array model in the harness; the engine checks each memory access of the real code against its allocation.")

P("C16", "Garbage collection is invisible to programs",
  "Whenever a collection happens between two instructions, and however often, the program computes the same values: every reachable value keeps its content, its identity and its sharing, and nothing reachable is freed. With a heap too small, the only other outcome is an out-of-memory error.",
  ["schedules", "inputs"], "every point at which a collection can happen during each of the programs, and heap sizes that make the interpreter collect on its own", "Tests rarely allocate enough to collect once, and never at a chosen point.",
  ["src/lib/heap.c", "src/lib/runtime.c", "src/lib/run.c", "src/lib/objects/objects.h", "src/lib/objects/o_list.c", "src/lib/objects/o_map.c", "src/lib/objects/o_closure.c"],
  [("copying collector and moved references", "src/lib/heap.c"), ("roots", "src/lib/runtime.c: Runtime_CollectGarbage"), ("walk functions of each object type", "src/lib/objects/o_*.c, src/lib/run.c")],
  "13 programs that exercise sharing, cycles, maps, closures, buffers, calls in flight, recursion, types, strings, iterators, held built-ins and (nested) imports; one collection after any single instruction, or after every 1st/2nd/3rd (thorough: any two instructions); heaps of 9 sizes down to 1 byte; symbolic integers and strings as data; all graphs of 3 objects with up to 2 references each",
  "The same program is run without and with collections inside one symbolic path; all logged values must agree, and the engine reports any access to freed memory.")
P("C17", "Destructors run exactly once, when their object dies",
  "A collection destroys exactly the objects that became unreachable, each once, while their content is still intact; freeing the heap destroys the rest. A collection that fails destroys nothing, and a failing destructor is reported.",
  ["histories", "inputs"], "all object graphs, root sets, choices of destructible objects and heap sizes up to the bound", "No test counts destructions.",
  ["src/lib/heap.c"], [("pending destructor table", "src/lib/heap.c: Heap_StopCollection, Heap_Free")],
  "3 objects with 2 references each to any of them, to static objects or to nothing; 2 roots; 5 heap sizes; 2 collections and the final release; up to 40 destructible objects in 6 keep patterns",
  "The C API of the heap is driven with objects that count their destruction; reachability is recomputed in the harness.")
P("C18", "Heap allocations are disjoint, aligned and accounted",
  "Every allocation is aligned, does not overlap any other, is counted in the heap's usage, and succeeds beyond the pool's size outside of collections; impossible sizes are an error and leave the heap usable.",
  ["inputs", "histories"], "all sequences of allocations of the listed sizes in heaps of the listed sizes", "No test drives the allocator.",
  ["src/lib/heap.c"], [("bump allocation with overflow", "src/lib/heap.c: Heap_RawMalloc")],
  "4 allocations with sizes 0,1,7,8,9,16,17,40 in heaps of 10 sizes; one impossible size above 2^30", "Each allocation is filled with a symbolic pattern and read back after all others.")

P("C19", "Resource limits and stop requests end a program cleanly",
  "Call depth, pending values and stack size are limited: whatever exceeds a limit aborts with an error, whatever fits computes the right value every time, a limit never triggers on less than something that fit, and an error that names a limit's number names the enforced one. A host's stop request ends the program after at most one more instruction, with no output after it. Consecutive programs in one runtime are independent.",
  ["schedules", "inputs"], "every instruction as the stopping point; all depths, sizes and repetition counts up to the bound", "Tests never reach a limit or stop a program.",
  ["src/lib/runtime.c", "src/lib/run.c", "src/lib/utils/stack.c"], [("frame and stack limits", "src/lib/runtime.c: Runtime_Push, appendFrame"), ("stop requests", "src/lib/run.c: runInstructionsUntilSomethingHappens")],
  "nesting 0..22 in 4 call shapes repeated up to 30 times; 7 shapes with 1..37 pending values; 16 stack sizes x 3 programs; 7 programs (3 of them endless) stopped after any of their first 60 or all instructions, by callback, flag or from a built-in; 40 consecutive runs",
  "Each size is run next to its successor: values must be right, and success must be monotone; the limit's number itself is not assumed.")
P("C22", "Assembly text becomes exactly the instructions it lists",
  "Every well-formed listing assembles to the instructions, operands, jump targets and source positions it names, in any layout; everything else (bad tokens, operand counts or kinds, undefined or duplicate labels, out of range numbers) is refused with an error whose position lies in the source. Integers are exact over the whole 64-bit range; floats become the nearest double.",
  ["inputs", "programs"], "all listings and token sequences up to the bound; arbitrary bytes", "Tests assemble a fixed set of small listings.",
  ["src/lib/assembler/assemble.c", "src/lib/utils/labellist.c", "src/lib/executable.c"], [("lexing and operands", "src/lib/assembler/assemble.c"), ("labels", "src/lib/utils/labellist.c")],
  "listings of 2 instructions, any opcode first, in 4 layouts with symbolic digits and string bytes; sequences of 4 tokens over 14 (thorough 5); 4 (thorough 6) arbitrary bytes after each of 9 prefixes; 40 labels; strings around 1K; integers of 1..40 digits",
  "The listing is generated together with the instructions it means; token sequences are classified by a reference acceptor.")
P("C23", "Executables hold exactly the instructions appended to them",
  "Finalising a builder gives an executable whose instructions and operands are those appended, whether given directly or through promises; wrong operand counts or kinds and operands never provided are errors. Equivalence means equality of all instructions and operands.",
  ["inputs", "histories"], "all instructions with all operand values; long instruction sequences", "Tests only compare whole executables with the very function under test.",
  ["src/lib/executable.c", "src/lib/utils/bucketlist.c", "src/lib/utils/promise.c", "src/lib/utils/bpalloc.c"], [("builder, fetch and equivalence", "src/lib/executable.c"), ("bucket storage", "src/lib/utils/bucketlist.c"), ("promises", "src/lib/utils/promise.c")],
  "2 instructions of all kinds with symbolic 64-bit operands and 2-byte strings; up to 63 instructions with promises resolved before, after or never; all operand-kind lists of up to 4; opcode names with one byte changed or added",
  "The appended instructions are kept by the harness and compared field by field.", outside="the position of floats that are NaN under equivalence")
P("C24", "Every instruction has exactly its documented effect, on any stack",
  "Bytecode that is not the compiler's is executed safely: each instruction pops, pushes and changes exactly what it is meant to, and aborts with an error when the stack or the operands don't allow it. No instruction sequence reads or writes outside of its frame.",
  ["programs", "inputs"], "all instruction sequences up to the bound over several prepared stacks", "Tests only run what the compiler emits.",
  ["src/lib/run.c", "src/lib/runtime.c"], [("instruction dispatch", "src/lib/run.c: runInstruction"), ("frame stack", "src/lib/runtime.c")],
  "2 (thorough 3) arbitrary instructions out of 58 variants on 13 prepared stacks with symbolic integers and booleans, forward jumps only; floats, sums and exotic keys only for safety",
  "A stack machine written in the harness predicts the outcome, the remaining stack (deeply), the calls made and the variables.")
P("C20", "The parser accepts exactly the language and locates what it refuses",
  "Any byte sequence given as a program either compiles or is refused with a message and a location inside the text. A token sequence compiles exactly when the grammar generates it and it is meaningful (targets of assignments, tuples, arrows and breaks where they may be); a syntax error is located at the token that cannot be there.",
  ["inputs"], "all token sequences up to the bound in each context; all byte strings up to the bound after each prefix; every truncation and every one-byte change of a program using all constructs", "Tests compile a fixed set of mostly valid programs.",
  ["src/lib/compiler/parse.c", "src/lib/compiler/codegen.c", "src/lib/compiler/compile.c"], [("tokenizer and recursive descent", "src/lib/compiler/parse.c"), ("meaning of targets, tuples, break", "src/lib/compiler/codegen.c")],
  "3 tokens out of 27 (last: 31) in 16 contexts (thorough: 4 in 5 of them); 3 (thorough 4) symbolic bytes after each of 15 prefixes with and without a closing tail; a 300-byte program cut anywhere or with any byte replaced by any value",
  "A reference recogniser over tokens (precedence climbing, with its own tree and its own rules for meaningful targets) decides what must be accepted; the engine checks every memory access and the replay runs under AddressSanitizer.")
P("C21", "Literals and names denote exactly what is written",
  "An integer literal is its decimal value or, if that does not fit 64 bits, refused; a float literal is the nearest double; a string literal is its characters with \\\\ \\n \\t \\r and quote escapes decoded, other escapes and literals over 4095 bytes being refused; every word that is not a keyword is a name, compared in full.",
  ["inputs"], "all digit strings of the listed lengths, all string contents and words up to the bound", "Tests use short decimal literals and plain ASCII strings.",
  ["src/lib/compiler/parse.c", "src/lib/compiler/codegen.c", "src/lib/executable.c"], [("literal conversion", "src/lib/compiler/parse.c: parse_primary_expresion, parse_string_primary_expression"), ("keyword table", "src/lib/compiler/parse.c: tokenize")],
  "integers of 1,2,9,10,18..21 symbolic digits and 3 digits after 1..61 zeros; floats with 1+2 and 2+1 digits (thorough 2+2, 1+3) plus 17 fixed ones; strings of up to 4 arbitrary non-zero bytes in both quotes and 9 lengths up to 5000; words of 1,2,3,5 arbitrary characters and every keyword with one character added, changed or removed",
  "Reference decoders in the harness compute the value; decimal fractions are compared with an exact integer divided by a power of ten (correctly rounded).", "a zero byte inside a string literal (known finding KF-LIT-NUL)")
P("C31", "Layout and comments never change a program",
  "Blanks, line ends and comments between two tokens, before the first or after the last, can be added, removed where the tokens stay apart, or replaced: the compiled program is the same. A comment may contain any bytes and end with the text.",
  ["inputs"], "every gap between tokens of the programs x 6 kinds of separator with arbitrary bytes", "Tests never compare two layouts of a program.",
  ["src/lib/compiler/parse.c"], [("whitespace, comments and token boundaries", "src/lib/compiler/parse.c: tokenize")],
  "5 programs that use all constructs; at each gap: nothing, newline, all blank characters, two symbolic blanks, a comment of two symbolic bytes, comments with quotes; 5 beginnings x 7 ends",
  "Both layouts are compiled and the executables compared instruction by instruction.")
P("C25", "A failed run reports its error, every call in progress and the right lines",
  "When a run fails the report carries the message of the error and a stack trace that lists each call in progress, innermost first, with the function's name and the line of the expression being evaluated there; imported files appear under their own names; syntax errors name the file and line of the offending token; error(text) reports exactly that text, and an error that names an argument's position names the offending one's.",
  ["inputs", "histories"], "every chain of nested calls, every distribution of the program over lines, every message text", "Tests compare a few fixed messages and no traces.",
  ["src/lib/common/error.c", "src/lib/runtime.c", "src/lib/utils/source.c", "src/lib/builtins/basic.c", "src/lib/run.c"],
  [("frames and stack traces", "src/lib/runtime.c: Runtime_PrintStackTrace"), ("error records", "src/lib/common/error.c"), ("offsets of instructions", "src/lib/executable.c: Executable_GetInstrOffset")],
  "chains of up to 3 calls of 4 kinds, up to 2 extra line ends before each construct, 5 kinds of failing expression; multi-line expressions; syntax errors after up to 3 line ends in a program or an import; error texts of up to 3 symbolic bytes; each position of wrong arguments of functions and built-ins",
  "The program and the expected trace are generated together; the printed trace is compared as text.")
P("C27", "print, input, count, type, typename and keysof tell the truth",
  "print writes the text of its arguments in order and nothing else; every value has its documented text, shared and cyclic collections print finitely; input returns the lines of the standard input, whole and in order, then empty strings; count, type, typename and keysof describe exactly the value they were given.",
  ["inputs"], "all nested values, all byte contents of strings and of the standard input, all kinds of values", "Tests print a few values and never read input.",
  ["src/lib/builtins/basic.c", "src/lib/objects/o_list.c", "src/lib/objects/o_map.c", "src/lib/objects/o_string.c", "src/lib/objects/o_buffer.c"],
  [("printing", "src/lib/objects: the print methods"), ("input and description built-ins", "src/lib/builtins/basic.c")],
  "1-2 arguments of nesting depth 1-2 (thorough 2x2), strings of any bytes, integers -999..999, buffers of any byte; standard inputs of 3-4 symbolic bytes after fills of 0/253/254/508 bytes (the internal buffer is 256); every kind of value for count/type/typename/keysof",
  "Texts are built by an independent reference printer in the harness and compared byte by byte. Exact digits of floats are outside except fixed ones.")
P("C32", "The AST diagram is the tree of the program",
  "--diagram-ast writes one well-formed graph for every program that can be parsed: one root, one parent for each other node, labels that name each construct, literal and identifier exactly (floats to six significant digits), children in the order of the program (arguments possibly reversed); a text that is not a program is refused with an error.",
  ["inputs"], "every program up to the bounds, every byte in string literals", "No test draws a diagram.",
  ["src/lib/compiler/graphviz.c", "src/lib/diagram.c"], [("drawing", "src/lib/compiler/graphviz.c: nodeToGraphViz, exprToGraphViz"), ("driver", "src/lib/diagram.c")],
  "all expressions to depth 2 over 19 forms and all operators, all statements to depth 1 (thorough 2), parameter lists of 0-2 with types and defaults, string literals of 1-2 (3) arbitrary bytes, up to 38 children, 14 kinds of broken text after 0-2 statements",
  "A generator builds the program and the expected tree together; the graph is parsed back and compared as a tree.")
P("C35", "The command line does what its options say and its exit code tells the outcome",
  "Options may be given in any order, short or long; the first other word is the program and the rest is not interpreted; what is wrong with the command line is explained on the standard error and nothing runs; the program's output goes to the standard output; the exit code is zero exactly if everything asked for was done, otherwise the failure and a stack trace are on the standard error.",
  ["inputs", "fault_sequences"], "all selections, orders and spellings of options; every word that differs from an option in one character; every position of a failure", "No test runs the command line.",
  ["src/cli/main.c", "src/lib/run.c"], [("option parsing and exit codes", "src/cli/main.c: main")],
  "0-2 options (thorough 3) of 7 in any order and both spellings x 6 inputs (file, inline, assembly, absent) x trailing words; words with one symbolic character replaced, appended or cut; heap sizes 0-99 and 100000-9900000; option arguments that are missing or start with '-'; programs of 2 statements of 10 kinds that succeed or fail",
  "main is called with its arguments as data and both output streams captured; a reference in the harness computes what must happen. Signals are outside.")
P("C36", "Profiling counts every call and changes nothing else",
  "With profiling on, a program behaves as without; the table has the exact number of calls of each function, also for functions created repeatedly, recursive, nested, called as methods, or ended by an error; the report lists each function called with its name, file, calls and time, on the stream or in the file; with profiling off nothing is measured or written.",
  ["inputs", "histories"], "every call structure up to the bounds, with and without collections", "No test profiles.",
  ["src/lib/timing.c", "src/lib/run.c", "src/lib/runtime.c"], [("counting", "src/lib/run.c: func_call; src/lib/timing.c"), ("report", "src/lib/runtime.c: Runtime_SerializeProfilingResultsToStream")],
  "7 call structures x loop counts 0-3 x 0-2 x two heap sizes x on/off; up to 12 function objects of one name; report lines for names of 1, 20 and 26 characters and 1-11 calls",
  "Calls are counted independently by a native function the program calls. The clock is a counter; real durations are outside.")
P("C37", "Imports and script paths are relative to the file that contains them",
  "import loads the file named relative to the file whose code makes the call (the working directory for programs given as text), wherever that function is called from; it yields the variables of the module anew each time, or what the module returns; module and importer do not see or change each other's variables; getCurrentScriptLocation and getCurrentScriptDirectory name the file that contains the call; names that do not fit or files that fail end the program with an error.",
  ["inputs", "histories"], "all combinations of folders, relative forms and callers; names around the internal limits", "Tests import nothing from other folders.",
  ["src/lib/run.c", "src/lib/runtime.c", "src/lib/utils/path.c", "src/lib/utils/source.c", "src/lib/builtins/basic.c"], [("import resolution", "src/lib/run.c: makePathRelativeToScript, runFileRelativeToScript"), ("script folder", "src/lib/runtime.c: Runtime_GetCurrentScriptFolder")],
  "main programs in 5 places x 4 relative targets x absolute or not x called from the module or not; 8 module bodies with a symbolic value, imported once or twice; 6 failing imports; names of 1020-1200 characters in 3 forms; script places in 4 x 3 arrangements",
  "Runs on a virtual file system whose folders each have a module that says where it is; the outcome is compared with a reference resolution.")
P("C28", "Built-in functions accept exactly the kinds of arguments they are documented for",
  "A call of a built-in with arguments of the kinds its signature names is accepted; an argument of another kind, or none where one is needed, ends the program with an error before anything else happens; missing optional arguments are as none; more arguments than there are parameters are ignored.",
  ["inputs"], "every built-in x every argument position x 16 kinds of values x every number of arguments", "Tests call the built-ins with fitting arguments.",
  ["src/lib/builtins/utils.c", "src/lib/builtins/basic.c", "src/lib/builtins/string.c", "src/lib/builtins/buffer.c", "src/lib/builtins/files.c", "src/lib/builtins/math.c", "src/lib/builtins/random.c", "src/lib/builtins/net.c"], [("argument parsing", "src/lib/builtins/utils.c: parseArgs"), ("argument counts", "src/lib/run.c: func_call")],
  "52 built-ins; 0 to n+1 arguments; one argument of any of 16 kinds (integers, floats, booleans, strings, lists, maps, buffers, files, directories, types, functions, nullable and union types, none), the others fitting",
  "A table of signatures in the harness; programs are generated from it. Sockets are a model.")
P("C29", "Numbers, digits and values convert to text and back",
  "string.toInt gives the value of any text of digits that fits in 64 bits, otherwise none and a reason; toString gives the decimal text of every integer, the sign, integer part and first two decimals of every float for which there is one, and the structure of collections including their own toString methods; integerFromDigit accepts the ten digits only.",
  ["inputs"], "every text and every integer up to the bounds", "Tests convert a few constants.",
  ["src/lib/builtins/string.c", "src/lib/builtins/start.noja"], [("toInt", "src/lib/builtins/string.c: bin_toInt"), ("toString", "src/lib/builtins/start.noja")],
  "toInt: all ASCII texts of 0-3 (thorough 5) characters, and 2 (3) characters after five long prefixes around the limit of 64 bits; toString: all integers from -1200 to 1200 and 12 others including the extremes, 17 floats with exact decimals, nested values to depth 2 (3) over 10 kinds",
  "Symbolic characters and integers; the text of values is computed by the generator next to the program.", "texts of floats in general (the algorithm cuts off after two decimals and its rounding is not specified)")
P("C30", "Files are read and written exactly",
  "What a program writes to a file is in the file, in order and exactly, when the program ends or the file is no longer reachable and a collection has run; appending keeps what was there, writing empties it, reading changes nothing; each read gives the next bytes of the file, no more than asked for, than remain and than fit in the buffer, and leaves the rest of the buffer alone; handles are independent; files and directories that cannot be opened are none; a directory gives each entry once.",
  ["inputs", "histories"], "all contents, counts and sequences of operations up to the bounds", "No test uses a file.",
  ["src/lib/builtins/files.c", "src/lib/objects/o_file.c", "src/lib/objects/o_dir.c"], [("operations", "src/lib/builtins/files.c"), ("closing", "src/lib/objects/o_file.c: file_free")],
  "1-2 (thorough 3) writes of arbitrary bytes with 6 kinds of counts in 3 modes, with and without a previous file and collections; files of 0-5 arbitrary bytes read 7 times with buffers of 1-4 and 4 kinds of counts; every 64-bit mode and count; up to 6 files open; folders of 3-4 entries",
  "Runs on a virtual file system; replays run on real files in a scratch folder.", "disk errors, files changed by others at the same time")
P("C33", "Mathematical functions and random numbers",
  "Every function of math gives what the C library's function of that name gives, for every float; floor and ceil give the exact integer, or an error when it does not fit in 64 bits; random.generate gives an integer between its bounds, these included, for every state of the generator, and refuses bounds in the wrong order; the same seed gives the same numbers.",
  ["inputs"], "every float for each function; every pair of bounds for the order; every lower bound, twelve sizes and every number of the generator for the range", "Tests use no random numbers and a few constants.",
  ["src/lib/builtins/math.c", "src/lib/builtins/random.c"], [("math", "src/lib/builtins/math.c"), ("range", "src/lib/builtins/random.c: bin_generate")],
  "all 2^64 (2^128) arguments of 14 functions (transcendental functions are uninterpreted: only which one is called with which arguments is decided); 12 range sizes from 1 to 2^64 x all lower bounds x all 2^31 outputs of the generator; seeds 0-1000",
  "The arguments are symbolic floats and integers; rand() is a symbolic 31-bit number.", "the quality of the random numbers")
P("C34", "The start library does what its functions say",
  "abs, min and max choose by value, mixing integers and floats; append adds one item at the end; an iterator gives each value with its key and position once, in order, and then none for ever, independently of other iterators; an iterator made earlier visits the items there were, as they are when it gets to them; an object's own iterator and its own text (toString) are used unless declined; the exported types describe exactly their values; other kinds of arguments are refused.",
  ["inputs", "histories"], "all integers and floats; all collections up to the bounds", "Tests don't exercise the library beyond toString.",
  ["src/lib/builtins/start.noja"], [("library", "src/lib/builtins/start.noja")],
  "all pairs of 64-bit integers, of floats, and of floats with integers below 1000; lists of 0-17 items for append; lists and maps of 0-6 items iterated 9 times, and of 0-4 items changed at any step; 7 kinds of own methods, 4 ways to accept or decline them, objects inside others; 13 values x 5 types; 14 bad calls",
  "Programs calling the functions with symbolic values.")
P("C38", "Network calls reach the system exactly as written and report its answer",
  "Each function of net makes the system call of its name with exactly its arguments (addresses and ports in network order, data from and to exactly the buffer or slice given, never more than asked for or fits) and returns its result; a failure is none or a reason as a value and leaves no socket behind; numbers that don't fit the system's types are refused.",
  ["inputs", "fault_sequences"], "all 64-bit arguments; success and failure of each call", "Tests open no sockets.",
  ["src/lib/builtins/net.c"], [("socket calls", "src/lib/builtins/net.c")],
  "7 functions x all 64-bit integers as each argument x failure or success with any descriptor 0-100 and up to 4 bytes; slices of a buffer of 5 at every offset and length, arbitrary data",
  "The system calls are a recording model in the harness, in the executor and in the replays alike; nothing touches a network.", "delivery of the data by the system (C90)")

P("C39", "Memory a program no longer uses is given back",
  "However long a program runs, what it dropped is reclaimed: repeating a piece of work leaves after each round exactly the objects, heap bytes and blocks of process memory of the first round; as long as the live values fit, the heap in use never grows much beyond its configured size and the program runs to its end; and a runtime that is freed has given back every block and closed every file, however its program ended (result, error at any depth, mistake in the text, failed import, interruption at any instruction), in every form in which programs are run or drawn.",
  ["histories", "fault_sequences"], "any sequence of the pieces of work, every way of ending, interruption points", "Tests run short programs once and look at neither memory nor descriptors.",
  ["src/lib/objects/heap.c", "src/lib/runtime.c", "src/lib/run.c", "src/lib/utils/source.c", "src/lib/executable.c", "src/lib/compiler/compile.c", "src/lib/compiler/codegenctx.c"],
  [("collections during a run", "src/lib/run.c: runInstructionsUntilSomethingHappens"), ("reference counts of executables and sources", "src/lib/executable.c, src/lib/utils/source.c"), ("frames of failed runs", "src/lib/runtime.c: Runtime_Free"), ("destructors", "src/lib/objects/heap.c")],
  "12 pieces of work (nested and cyclic values, closures, buffers, types, iterators, imports, files, recursion, numbers, calls) in pairs, 3-8 rounds at 3 places, and alone for up to 70 rounds in heaps of 25, 40 and 100 KB; 24 ways of ending, once or twice in a runtime, profiled or not, and interruptions at 80 points; 8 programs and 8 assembly texts with names of 5 lengths up to 1000 in 6 forms of running and drawing",
  "Blocks are counted by the executor's memory model (by allocation hooks in the replays); the heap's own counts are read after a collection.")

P("C40", "Running out of memory ends a program cleanly",
  "When the system refuses an allocation, any one or all from some point on, the interpreter does nothing else wrong: it reports an error (or works all the same where it doesn't need the memory), what it did before is right, no memory is accessed that it doesn't have, everything is given back, and the next program runs as if nothing had happened.",
  ["fault_sequences"], "every allocation of each run as the first refused one, alone or with all that follow", "Tests never make an allocation fail.",
  ["src/lib/objects/heap.c", "src/lib/runtime.c", "src/lib/run.c", "src/lib/utils/bpalloc.c", "src/lib/executable.c", "src/lib/utils/source.c", "src/lib/compiler/parse.c", "src/lib/compiler/codegenctx.c"],
  [("allocation sites", "src/lib/**/*.c: malloc, realloc, BPAlloc_Malloc, Heap_Malloc"), ("error paths", "src/lib/runtime.c, src/lib/run.c")],
  "36 programs, two heap sizes, profiled or not; a program and an assembly text with every kind of construct, compiled, assembled and drawn after 0 to 23 further statements",
  "Allocations of the code are counted and refused by the harness, in the executor and in the replays alike.")

P("C41", "Files and directories that fail do no harm",
  "When the system refuses an operation on a file or a directory (opening, reading, writing, positioning, closing, listing, the current directory), any one or all from some point on, the operation's failure is told to the program in the documented way (none and a reason, the number of bytes really transferred, or an error) and to the user when the program itself or an imported file can't be read; nothing that could not be read is run, what was done before is right, every file is closed and everything given back; the command line succeeds only if the whole of what it was asked to write was written.",
  ["fault_sequences"], "every call to the file system of each run as the first refused one, alone or with all that follow", "Tests never make a file operation fail half way.",
  ["src/lib/builtins/files.c", "src/lib/builtins/basic.c", "src/lib/utils/source.c", "src/lib/utils/path.c", "src/lib/objects/o_file.c", "src/lib/objects/o_dir.c", "src/lib/run.c", "src/lib/runtime.c"],
  [("files and directories", "src/lib/builtins/files.c, src/lib/objects/o_file.c, src/lib/objects/o_dir.c"), ("program texts", "src/lib/utils/source.c: Source_FromFile"), ("imports", "src/lib/builtins/basic.c: bin_import")],
  "9 commands (programs, diagrams and profiles, to the standard output or to a file); 12 programs, run from text or from a file, in one of which files and directories are dropped and collected; a refused read or write transfers half of what was asked for",
  "Calls of the code to the file system are counted and refused by the harness, in the executor and in the replays alike. A failing close can't be told to anybody when an object is collected, so only its harmlessness is required.")

# Larger sizes: concrete data of the listed lengths with symbolic elements at chosen places.
def more(pid, text): SPEC[pid]["bounds"] += "; " + text
more("C04", "strings of 20 lengths between 5 and 300 that agree except in one symbolic character at the beginning, middle, end or at offsets 8 and 64, or of which one is a prefix of the other, ASCII or not (also as map keys)")
more("C05", "chains of many and/or operators with a symbolic value at a chosen operand (t_big_logic)")
more("C07", "loop counts, branches and nesting levels up to the ladder in t_big_control")
more("C08", "functions of 0..14 parameters called with 0..14 arguments, symbolic values (t_big_args)")
more("C09", "scopes with up to 300 variables and names that share long prefixes (t_big_scope, t_big_vars)")
more("C10", "sums of many types and long list and map types (t_big_types)")
more("C11", "maps of 130 entries (thorough 270, 500)")
more("C12", "lists of 20 sizes up to 300, built by a literal, by appending, or both")
more("C13", "string operands up to 300 characters and concatenations of up to 14 operands of mixed lengths")
more("C14", "texts up to 300 characters of every width, and every text of <= 4 bytes that is followed in memory by 3 arbitrary bytes (also through buffer slices)")
more("C15", "buffers of 20 sizes up to 300 bytes with symbolic contents at chosen places")
more("C21", "identifiers of up to 300 characters that differ in one symbolic character")
more("C22", "three labels of 25 lengths between 1 and 257 of which one is a prefix of another or differs in one symbolic character, in 3 orders with forward and backward uses")
more("C23", "1..300 instructions with string operands of 1..5000 bytes (up to 40 KB), symbolic last bytes and integer operands")
more("C24", "all triples of 10 kinds of values under each of 16 operand-taking instructions (thorough: followed by a second one)")
more("C01", "chains of 3..6 operands of + and - and accumulating loops of 6..12 steps with symbolic operands; loops that multiply by 7 constants")
more("C16", "9 programs that build lists, maps, nestings, texts, closures, buffers and slices of 10 sizes up to 129, collecting explicitly in the middle and at the end, or automatically in heaps of 20, 40 and 150 KB")
more("C17", "12 numbers of objects between 41 and 300, six ways of choosing the live ones, two heap sizes")
more("C18", "up to 22 allocations of 12 sizes up to 70000 bytes from heaps of 7 sizes")
more("C20", "14 kinds of long or deep programs of 12 sizes up to 300 (literals, nestings, operator chains, parameters, functions in functions), well-formed or with a mistake at the end")
more("C21", "text literals of 27 lengths up to 10000 with a symbolic character or an escape at 4 places")
more("C25", "call chains of 1..14 functions (or recursion) with 7..11 distances between lines up to 65536; up to 13 parameters with names of up to 1000 characters")
more("C27", "texts, lists, maps, nestings and buffers of up to 24 sizes up to 4097 with symbolic characters; input lines of 24 lengths up to 4097")
more("C29", "toString of lists and maps of 11 sizes up to 257; toInt of texts of 16 lengths up to 1000")
more("C30", "files of 28 sizes up to 9000 bytes, read or written in pieces of 5 sizes")
more("C31", "comments, blanks, newlines and runs of comments of 30 lengths up to 65537")
more("C36", "1..200 functions with several calls each")
more("C37", "chains of 1..5 files in folders (relative, up and down, absolute; folder names of 1..100 characters), imported at once or late; one file imported 1..257 times")
more("C22", "integers of any 3 last digits around 2^63, 2^64, 2^32 and 2^31 with signs and leading zeros; 16 floats with up to 43 decimals, signed and padded")
more("C05", "chains of 1-3 unary operators over 7 kinds of values")
more("C02", "chains of 1-3 unary operators over 7 kinds of values")
more("C09", "a name bound to any of 12 kinds of value (or unbound) at each of 3 levels, or hiding a built-in")
more("C08", "triples of 12 kinds of values through 8 ways of passing them on")
more("C33", "40 special points for the functions of one argument, 40 x 40 for pow and atan2")
more("C30", "pairs of 12 entry names, plain or folders")
more("C32", "7 kinds of names and texts of 17 lengths up to 1000; 16 numbers in 4 places; graphs of up to 900 nodes")
more("C25", "25 kinds of beginnings of an expression x 8 failing continuations x 9 surrounding statements x 3 layouts")
more("C20", "sources made from texts of 9 lengths with explicit or implied size")
more("C25", "arguments of 10 kinds of values refused by parameters of 5 types, the value and the type shown; the numbers of the calls in a report")
more("C11", "maps of up to 300 entries with the keys 0.0 and -0.0 among them")
more("C40", "61 programs after which the heap's main pool is full but for 0 to 1900 bytes, so that each object's own allocation is refused")
more("C39", "what buffers and long strings hold outside the heap counts only in blocks given back, not against the heap's limit")
more("C11", "12 names of 6 namespaces, whole, cut, doubled, or with one character added or changed to any other")
more("C22", "strings of 23 lengths up to 3000 with up to two escapes at any of 13 places")
more("C25", "messages of 12 lengths up to 2000 and of every length from 472 to 535")
more("C27", "lines of 35 lengths up to 4097")
more("C30", "names of files and directories with any one character in the middle, a zero byte included")
more("C37", "names of modules with any one character in the middle, a zero byte included")
more("C38", "an address followed by a zero byte")
more("C13", "concatenations of 2 to 13 texts that together exceed what a string can hold, two sizes, one symbolic")
more("C14", "buffers of more bytes than a string can hold, symbolic size")
more("C18", "up to 4 large blocks (32 MB to 2 GB, only promised) between small ones, 5 heap sizes")
more("C41", "files that claim more bytes than a program can have, symbolic size")
NA = {}
def N(pid, title, stmt, over, qtext, why, files, mech, reason):
    NA[pid] = dict(title=title, stmt=stmt, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason)
N("C90", "Network sockets deliver exactly the bytes sent, in order",
  "Bytes written to a connected socket arrive at the peer complete and in order, under every interleaving of the peers.",
  ["schedules", "fault_sequences"], "all interleavings of peers and all failures of the system calls", "No test opens a socket.",
  ["src/lib/builtins/net.c"], [("socket built-ins", "src/lib/builtins/net.c")],
  "what it promises is the behaviour of the kernel's TCP stack behind foreign system calls, which cannot be encoded; what the built-ins hand to the system and report of its answers is C38.")
