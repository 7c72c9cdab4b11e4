ENUM = "exhaustive enumeration of bounded programs on the real interpreter against an executable reference model"
HOOKS = {"guard": "NUJEL_VERIFY", "enable": "the checks compile the C sources with -DNUJEL_VERIFY together with harness/verify_hooks.c (lib/build.py, variants hook and ahook)",
         "source_commits": ["fe26b6445b8e54f118c97279b62cf7c345b6b395"]}
NOT_APPLICABLE = {}
NOTES = "Every check builds the interpreter, its compiler and its standard library from /repo's working tree into a scratch directory and explores a bounded space completely. See DESIGN.md."

PROPS = [

 dict(id="C01", title="Programs evaluate to what the language defines",
  statement="Evaluating a program built from literals, variables, lexical scopes, functions, conditionals, loops, assignments, lists, trees and arrays yields the value, and performs the side effects in the order, that the language defines (arguments left to right, exactly once; lexical scoping; only #nil and #f are false). How constructs are nested into each other makes no difference to what each of them does.",
  over=["programs"], quant="every nesting of the language's constructs up to a depth, with every kind of leaf, including uses of a value, of its side effects and of variables shared between the constructs",
  why="The tests evaluate one hand-written program per feature; miscompilations need a particular construct in a particular position of another one (operand, test, unused value, body of a loop or handler), and there are tens of thousands of such combinations.",
  files=["stdlib/compiler", "lib/vm.c", "stdlib/core/core.nuj", "stdlib/core/flow.nuj", "lib/closure.c"],
  mech=[("compiler backend", "stdlib/compiler/backend_bytecode"), ("compiler frontend", "stdlib/compiler/frontend"), ("virtual machine", "lib/vm.c")],
  level="model_checking", technique=ENUM, note="Complete for the enumerated nestings (depth 2, thorough 3); trusts the reference interpreter lib/refinterp.py."),
 dict(id="C02", title="Exceptions and early returns unwind exactly to their handler",
  statement="A thrown value, a failing operation or a return leaves every construct it is nested in and continues at the innermost handler or the end of the function it belongs to, with the thrown value, and with all scopes, variables and pending operands of what continues as they were. A handler can throw again, return, or use try itself, and neither depth nor repetition of unwinding changes anything.",
  over=["programs", "histories"], quant="every chain of up to three (thorough four) control constructs around every way of leaving them, and unwinding through any number of frames",
  why="Unwinding has to restore three stacks at once; whether that happens can only be seen in particular combinations of pending operands, scopes and handlers.",
  files=["lib/vm.c", "stdlib/compiler/backend_bytecode", "stdlib/core/flow.nuj"],
  mech=[("exception dispatch", "lib/vm.c"), ("try and return operations", "lib/vm.c")],
  level="model_checking", technique=ENUM, note="Complete for the enumerated chains; trusts the reference interpreter."),
 dict(id="C03", title="Integer arithmetic is exact modulo 2^64 and total",
  statement="Adding, subtracting, multiplying, dividing, taking remainders, raising to powers, shifting and combining the bits of integers yields the exact mathematical result truncated to 64 bits (division truncates towards zero, shifts move zeroes in and leave 0 beyond 63 bits). Dividing by zero is a catchable error and no operands end the process. The result is the same whether the operation is applied to literals, to variables, as a first-class function or inside a function.",
  over=["inputs", "programs"], quant="all pairs of operands of every integer operation, in every way a program can apply it",
  why="The tests try a handful of operand pairs; the failures hide at the ends of the 64-bit range, at zero, -1 and 63/64 bits and in the separate code paths of opcodes, native functions and the constant folder.",
  files=["lib/arithmetic.c", "lib/vm.c", "stdlib/math/math.nuj", "stdlib/bitmanip.nuj", "stdlib/compiler/frontend/constant_folding.nuj"],
  mech=[("native arithmetic functions", "lib/arithmetic.c"), ("arithmetic opcodes", "lib/vm.c"), ("constant folding", "stdlib/compiler/frontend/constant_folding.nuj")],
  level="model_checking", technique=ENUM, note="Complete for the listed edge operands (all pairs, five ways of applying each operation); trusts the Python reference of each operation."),
 dict(id="C04", title="Float arithmetic is IEEE double and never yields NaN or infinity",
  statement="Arithmetic with floats, and with floats and integers mixed, yields the correctly rounded double-precision result, and `/` always divides as floats. A result that would not be a finite number is a catchable error instead of a value, however the operation is applied. Rounding a float, converting it to an integer and back keeps within the range of the types or is a catchable error.",
  over=["inputs", "programs"], quant="all pairs of operands (zeroes, subnormals, halves, limits of the integer and float ranges) of every float operation, in every way it can be applied",
  why="Tests use a few round numbers; loss of precision, overflow and NaN only appear for particular magnitudes and only on some of the code paths.",
  files=["lib/arithmetic.c", "lib/vm.c", "lib/val.c", "lib/core-operators.c"],
  mech=[("native arithmetic functions", "lib/arithmetic.c"), ("arithmetic opcodes", "lib/vm.c"), ("creation of float values", "lib/nujel-private.h")],
  level="model_checking", technique=ENUM, note="Complete for the listed edge operands; trusts Python's floats and libm; last-bit differences of transcendental functions are tolerated."),

 dict(id="C05", title="Optimised and plain forms of an expression mean the same",
  statement="An operation yields the same value, or fails alike, whether its operands are literals the compiler can evaluate beforehand, variables, or results of calls, and whether it is called directly, through another name, through apply or as a function passed to another function. Lists, arrays and other values it creates are new ones each time in every form.",
  over=["programs", "inputs"], quant="every built-in operation with every combination of operands from a set of values of all types, in every form",
  why="There are separate implementations for constant folding, opcodes and native functions; tests exercise one of them per operation.",
  files=["stdlib/compiler/frontend/constant_folding.nuj", "stdlib/compiler/frontend", "lib/vm.c", "lib/arithmetic.c", "lib/core-operators.c"],
  mech=[("constant folding", "stdlib/compiler/frontend/constant_folding.nuj"), ("opcodes", "lib/vm.c"), ("native functions", "lib/core-operators.c")],
  level="model_checking", technique=ENUM, note="Complete for the chosen operations and values; deliberate differences (surplus operands) are left out."),
 dict(id="C06", title="Comparisons are consistent and equality is by content where promised",
  statement="For values that can be ordered exactly one of less, equal and greater holds, the order is transitive, and >=, <=, not= agree with it, in every form an operation can be applied. = tells apart values that differ and never those that are the same, and equal? compares pairs, arrays and trees by their contents at any depth.",
  over=["inputs", "programs"], quant="all pairs and triples of values from every type, nested in each other",
  why="Comparing values of different types or magnitude takes different paths; only looking at all pairs shows an inconsistency.",
  files=["lib/val.c", "lib/vm.c", "stdlib/core/predicates.nuj", "lib/core-operators.c"],
  mech=[("comparison", "lib/val.c"), ("equal?", "stdlib/core/predicates.nuj")],
  level="model_checking", technique=ENUM, note="Complete for the listed values."),
 dict(id="C07", title="Garbage collection never changes what a program does",
  statement="The result of a program is the same wherever and however often garbage is collected while it runs: every value a running program can still get at, through variables, scopes, pending operands, handlers, thrown values, containers, closures, metadata or symbols, survives any collection intact.",
  over=["schedules", "programs"], quant="every placement of one collection (and pairs of them, and collecting everywhere) at the points of a program where one may happen, for programs where a value of each kind is only kept alive by each kind of reference",
  why="Collections happen when a heap is nearly full, which tests hardly ever reach, and then at a single arbitrary point; a reference the collector overlooks only matters if it runs at the right moment.",
  files=["lib/garbage-collection.c", "lib/vm.c", "lib/symbol.c", "lib/allocator.c"],
  mech=[("marking of roots and values", "lib/garbage-collection.c"), ("safepoints", "lib/vm.c"), ("symbol table", "lib/symbol.c")],
  level="model_checking", technique="stateless exploration of every collection schedule (bounded number of collections) on the real runtime, with poisoned freed cells", note="Complete for one collection at any safepoint and collecting at all of them, pairs for short programs; hooks choose the safepoints."),
 dict(id="C08", title="Unreachable values are reclaimed so programs can run forever",
  statement="Values of every kind, symbols included, that a program can no longer get at are reclaimed: running something repeatedly doesn't use up more and more cells, and a loop can go on allocating without end whatever it allocates and however much stays reachable within the limits of the heaps.",
  over=["programs", "histories"], quant="every program of the corpus run repeatedly between complete collections, and loops over every kind of allocation with every fill level of the heaps",
  why="Tests allocate far less than the heaps hold, so that neither leaks nor collecting too late shows.",
  files=["lib/garbage-collection.c", "lib/allocator.c", "lib/symbol.c"],
  mech=[("sweep and thresholds", "lib/garbage-collection.c"), ("allocation", "lib/allocator.c"), ("symbol reclamation", "lib/symbol.c")],
  level="model_checking", technique="exhaustive enumeration of programs and heap fill levels on the real runtime, comparing complete counts of live cells", note="Live cells are counted exactly by a hook; memory behind buffers and arrays is only watched through its owner."),
 dict(id="C09", title="Calls work for any number of arguments and any depth",
  statement="A function receives its arguments in order, missing ones as #nil, surplus ones in the rest parameter or not at all, in every way of calling it; more operands than a call can take (255) is an error instead of a wrong call. Recursion works at any depth the heaps allow, with any number of operands, scopes and handlers pending in every frame.",
  over=["inputs", "programs"], quant="all combinations of parameter lists and argument counts, counts around every limit, and all depths around the sizes at which stacks grow",
  why="Tests call functions with a few arguments at shallow depth; the failures are at 8-bit limits and where a stack has to be enlarged.",
  files=["lib/vm.c", "lib/closure.c", "stdlib/compiler/backend_bytecode"],
  mech=[("calls and stacks", "lib/vm.c"), ("argument binding", "lib/closure.c")],
  level="model_checking", technique=ENUM, note="Complete for up to 5 (thorough 8) parameters and arguments; depth up to 10000."),
 dict(id="C10", title="Code of any size runs or is rejected",
  statement="Functions may use any number of literals, variables and nested functions and contain blocks of any length: each use of a literal or variable gets exactly that one and each branch, loop and handler continues at the right place, at whatever index or distance it is. Code that is too long for its jumps is rejected with an exception when it is compiled.",
  over=["programs"], quant="every number of literals around the limits of their operands followed by every kind of use, and every size of a block around the limits of jumps in every construct that jumps",
  why="Operands switch between encodings of 8 and 16 bits at exact counts, far above what hand-written functions in tests contain.",
  files=["stdlib/compiler/backend_bytecode/assembler.nuj", "lib/vm.c"],
  mech=[("literals and jumps in the assembler", "stdlib/compiler/backend_bytecode/assembler.nuj"), ("extended opcodes", "lib/vm.c")],
  level="model_checking", technique=ENUM, note="Complete for the listed counts and sizes; the upper limit of 65535 literals isn't reached in the time available."),
 dict(id="C11", title="Trees are balanced maps",
  statement="After any sequence of insertions, updates, copies and merges a tree maps each key to the value it was given last, lists every key and value exactly once, and knows absent keys from keys set to #nil. Copies are independent, aliases are not, and lookups stay logarithmic whatever the order of insertion.",
  over=["histories"], quant="all orders of inserting up to 7 keys (thorough 8) and all sequences of up to 3 (thorough 4) operations on two trees that may alias",
  why="Rebalancing depends on the order of insertion; tests insert in one order, and wrong heights aren't visible in a lookup.",
  files=["lib/tree.c", "lib/generic.c", "stdlib/collections/tree.nuj"],
  mech=[("insertion and rotations", "lib/tree.c"), ("tree library", "stdlib/collections/tree.nuj")],
  level="model_checking", technique="exhaustive exploration of operation sequences on the real implementation against a dictionary model", note="Complete up to the stated number of keys and operations."),
 dict(id="C12", title="A symbol or keyword is one value per name",
  statement="Two symbols (or two keywords) are the same value exactly if their names have the same bytes, however and whenever they were made, whatever other symbols exist or have been reclaimed since; converting them to strings gives the name back. Names that are too long or contain NUL are errors, and unused symbols make room for new ones.",
  over=["histories", "inputs"], quant="every sequence of making, holding, dropping and collecting symbols whose names collide in the hash table, names of every length differing in any byte, every fill level of the table",
  why="A symbol is only duplicated when its name collides with one that was reclaimed meanwhile, which takes a specific history of names nobody writes by chance.",
  files=["lib/symbol.c", "lib/garbage-collection.c"], mech=[("symbol table", "lib/symbol.c"), ("reclaiming symbols", "lib/garbage-collection.c")],
  level="model_checking", technique="exhaustive exploration of operation sequences on the real symbol table against a set model", note="Complete for sequences over four colliding names; the colliding names are picked by a copy of the hash function and the check reports how many really collide."),
 dict(id="C13", title="Arrays are bounded, growable sequences of values",
  statement="Reading or writing any index of an array that isn't one of its slots, however large or negative, or using anything else as an index, is a catchable error and changes nothing. Changing the length keeps the values of the slots that remain, and new slots are #nil. Arrays are shared by reference: every alias sees a change, no copy (cut, dup, append) does.",
  over=["inputs", "histories"], quant="every length and index around the limits, every change of length, every range, and every sequence of operations on two arrays that may alias",
  why="Tests use valid indices of small arrays; the failures are at indices beyond 32 bits, after shrinking and growing, and when two names share an array.",
  files=["lib/array.c", "lib/generic.c", "stdlib/collections/array.nuj", "lib/vm.c"],
  mech=[("array functions", "lib/array.c"), ("ref and set!", "lib/generic.c"), ("array library", "stdlib/collections/array.nuj")],
  level="model_checking", technique="exhaustive exploration of operation sequences on the real interpreter against a list model", note="Complete up to the stated lengths and numbers of operations."),
 dict(id="C16", title="Buffers and their views agree on every byte",
  statement="A buffer is a sequence of bytes and every view of it shows the same bytes as numbers of its kind: what is written through one is what all others read, truncated to the kind's size, and no access, copy, cut or change of length reaches outside of a buffer. Reads and writes outside of it, and writing to an immutable buffer or through an immutable view, are catchable errors that change nothing.",
  over=["inputs", "histories"], quant="every kind of view, every length, index and value around the limits, every combination of offsets and lengths of copying and cutting, and every sequence of operations on two buffers with views",
  why="Tests use a few aligned accesses in the middle of a buffer; the failures are at its end, with lengths that aren't a multiple of the element, negative and huge offsets, and overlapping copies.",
  files=["lib/buffer.c", "lib/generic.c", "lib/vm.c"],
  mech=[("buffer functions", "lib/buffer.c"), ("access through views", "lib/generic.c")],
  level="model_checking", technique="exhaustive exploration of operation sequences on the real interpreter (with AddressSanitizer) against a byte array model", note="Complete up to the stated lengths and numbers of operations."),
 dict(id="C17", title="String functions compute what they say on any bytes",
  statement="Searching, cutting, trimming, splitting, joining, replacing, padding, changing case, concatenating and converting strings gives the result defined on sequences of bytes, for strings of any length and any bytes, NUL included, and any start and end, however large or negative. Strings are never modified by it and nothing outside of them is used.",
  over=["inputs"], quant="every string over small alphabets up to a length, every range and index around the limits, every size around the growth of buffers",
  why="Tests use a few ASCII strings; the failures are at empty, repeated and overlapping needles, bytes that are 0 or above 127, extreme indices and sizes at which buffers grow.",
  files=["lib/string.c", "lib/generic.c", "bin/port.c", "stdlib/string/string.nuj"],
  mech=[("native string functions", "lib/string.c"), ("string library", "stdlib/string/string.nuj")],
  level="model_checking", technique=ENUM, note="Complete for the stated alphabets, lengths and indices."),
 dict(id="C18", title="Images restore what was serialized, whatever it refers to",
  statement="Deserializing the image of a value yields an equal copy of the same shape: what was shared or cyclic within it is so in the copy, nothing is shared with the original, what was immutable stays so, and functions do what they did with the variables they share. This holds at any offset up to the size limit, beyond which serializing is an error, and an image that was damaged or cut off is a catchable error or some value, never a crash.",
  over=["inputs", "histories"], quant="all graphs of up to three nodes of every kind with every change to a copy, every kind of value next to every other and at offsets around each limit, every prefix and changed byte of images",
  why="Tests serialize a few trees; sharing, cycles, offsets needing more bytes and damaged images are separate paths in the writer and reader.",
  files=["lib/imageWriter.c", "lib/imageReader.c"], mech=[("image writer", "lib/imageWriter.c"), ("image reader", "lib/imageReader.c")],
  level="model_checking", technique="exhaustive enumeration of value graphs and damaged images on the real implementation (with AddressSanitizer) against a graph model", note="Complete for graphs of up to three nodes; single changed bytes and pairs of neighbouring ones in damaged images; calling functions from damaged images isn't covered as bytecode isn't verified."),
 dict(id="C19", title="Text is read as the data it denotes or is a read error",
  statement="Reading a text yields exactly the values its syntax denotes: lists, dotted pairs, quotes, arrays, trees, strings with escapes, symbols, keywords, comments, characters, buffers and numbers in every base. A text that isn't well-formed, is nested too deeply or contains a literal that doesn't fit is a catchable read error, for any sequence of bytes whatsoever, and reading never uses anything beyond the text.",
  over=["inputs"], quant="every text up to four characters (thorough five) over the significant characters, every sequence of up to three (thorough four) tokens, every byte in every position of each literal, digits around every limit and sizes around every buffer of the reader",
  why="Tests read well-formed code; the meaning of unusual and malformed combinations and of sizes around internal buffers can only be had by trying all of them.",
  files=["lib/reader.c"], mech=[("reader", "lib/reader.c"), ("symbol lengths", "lib/symbol.c")],
  level="model_checking", technique="exhaustive enumeration of bounded texts on the real reader (with AddressSanitizer) against a reference reader", note="Complete for the stated alphabets, lengths and contexts; trusts the reference reader lib/refreader.py."),
 dict(id="C26", title="Files contain what was written, or writing fails",
  statement="Reading a file returns its bytes from the handle's position, as many as asked for or as there are, and writing stores exactly the given part of the data, at the position or at the end according to how the file was opened. Whatever can't be done (a missing, existing or unreadable file, a wrong handle or range, a disk that gets full) raises an exception or, for opening and reading whole files, returns #nil; an operation that reports success has done all of it.",
  over=["histories", "inputs", "crash_points"], quant="every sequence of opening, reading, writing, seeking and closing up to a length, every size around the sizes of buffers, and every amount of room that may be left on the disk",
  why="Tests write and read small files on a disk that never gets full; wrong offsets, lost tails and swallowed errors need particular sequences, sizes and moments of failure.",
  files=["bin/port.c", "binlib/io.nuj", "lib/compatibility.c"],
  mech=[("file handles", "bin/port.c"), ("whole files", "binlib/io.nuj")],
  level="model_checking", technique="exhaustive exploration of operation sequences and of every point at which the disk gets full on the real implementation against a model of a file", note="Complete for sequences of up to 4 (thorough 5) operations and the stated sizes; paths containing NUL aren't covered; one known finding (a closed handle may alias one opened later)."),
 dict(id="C27", title="Directories and commands do what they report",
  statement="Creating, removing, listing, inspecting and changing directories and files does to the file system exactly what its result says and nothing when it fails: a listing has every entry once (hidden ones when asked for), file/stat the kind and size there really is; a name with a NUL byte is rejected. Running a command returns all of its output and its exit status, nonzero when a signal ended it.",
  over=["histories", "inputs"], quant="every sequence of up to three operations on a small file system, compared as a whole after each, names of every kind, output of every size around the buffers and every status",
  why="Tests create and list one directory; failures concern unusual names, kinds and sizes of files, missing and existing paths and commands that fail.",
  files=["bin/io.c", "bin/misc.c", "binlib/io.nuj"],
  mech=[("file system functions", "bin/io.c"), ("popen", "bin/io.c")],
  level="model_checking", technique="exhaustive exploration of operation sequences on a real scratch directory against a model of a file system", note="Complete for sequences of up to 3 (thorough 4) operations; runs as root, so permissions aren't covered."),
 dict(id="C28", title="A program gets its surroundings and reports how it ended",
  statement="A program receives its arguments, its environment variables and every byte of its standard input unchanged, whichever way it reads them, and what it prints arrives completely. Its exit status is the one it asked for, and not that of success when it ends with an uncaught exception, when it or its image can't be loaded or when its output can't be written; connections carry all bytes both ways and a failed one is reported.",
  over=["inputs", "programs"], quant="every small list of arguments, environment, input text and exit value, each in a process of its own, and every way in which the surroundings can be unusable",
  why="The tests run inside one process with good surroundings; empty, odd and binary arguments, inputs without final newline and unusable outputs need processes of their own.",
  files=["bin/main.c", "bin/environment.c", "bin/misc.c", "bin/net.c", "bin/port.c", "stdlib/string/portng.nuj"],
  mech=[("start and end of the process", "bin/main.c"), ("environment", "bin/environment.c"), ("ports", "stdlib/string/portng.nuj"), ("sockets", "bin/net.c")],
  level="model_checking", technique="exhaustive enumeration of bounded surroundings of real processes against a model of what they have to print and return", note="Complete for the stated sizes; names of environment variables above 93 bytes are cut off by design."),
 dict(id="C29", title="A method call runs the method of the innermost definition",
  statement="(:name value args...) looks the name up in the value itself if it is a tree, then along its chain of prototypes, then in its type and the types that one is derived from, and calls what it finds first with the value as first argument; a property that isn't a function is its value. A name found nowhere is a catchable error, as is a wrong use of a method, whatever the prototypes are: missing, cyclic or not trees. Scopes can be asked for, looked into, extended and evaluated in the same way, and do what the code that closes over them sees.",
  over=["inputs", "histories"], quant="every value of every type with every method, every arrangement of definitions of a method over the tree, prototypes and types, every shape of prototype chain, and every sequence of operations on scopes up to a length",
  why="Tests call existing methods of good values; the failures are in what hides what, chains that are broken or cyclic, and scopes that are changed while closures use them.",
  files=["lib/type-system.c", "lib/vm.c", "lib/closure.c", "stdlib/core/classes.nuj"],
  mech=[("method lookup", "lib/type-system.c"), ("calling what was found", "lib/vm.c"), ("scopes", "lib/closure.c"), ("defining classes and methods", "stdlib/core/classes.nuj")],
  level="model_checking", technique="exhaustive enumeration of definitions, receivers and operation sequences on the real interpreter against a model of lookup", note="Complete for the stated arrangements; a scope that is its own parent makes lookups endless and is excluded."),
 dict(id="C30", title="No call of a built-in function ends or corrupts the process",
  statement="Every call of a built-in function or method, with any number of arguments that are any values, either returns a proper value that can be used like any other (inspected, indexed, converted, written) or throws an exception that can be caught. Afterwards the process goes on and its heaps are consistent. Exempt are the functions whose purpose it is to end or leave the process, and running out of memory.",
  over=["inputs"], quant="every native function, method and function of the library with all combinations of up to two values (small sets: up to four) out of 82 covering all types and their limits",
  why="Tests call functions with the arguments they were made for; a missing check of a type or a range shows only for the one argument nobody passes.",
  files=["lib/*.c", "bin/*.c"], mech=[("native functions", "lib/vm.c"), ("checks of arguments", "lib/type-system.c"), ("generic functions", "lib/generic.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated sets of values; run with AddressSanitizer and a check of the heaps after each function."),
 dict(id="C14", title="The collection library computes what it says",
  statement="Mapping, filtering, removing, counting, searching, reducing, reversing, appending, indexing, cutting, flattening, merging, replacing and sorting lists, arrays and trees gives the result its name says for every collection, the empty one included, calls the given function once per element in order, and leaves its arguments as they were except where it exists to change them. equal? holds exactly for values of equal structure, sorting returns the same elements in order, range exactly the numbers from start to before the end, and a wrong argument or an exception in the function reaches the caller.",
  over=["inputs"], quant="every list, array and tree of up to three (thorough five) elements over five values with every kind of function, every pair of values for equality, every range around the ends, every permutation of up to six (thorough seven) elements and large sizes",
  why="Tests use one or two collections per function; the failures are with empty ones, #nil and #f as elements, ends of ranges, ties and orders in sorting, and changed arguments.",
  files=["stdlib/collections/*.nuj", "lib/val.c", "lib/array.c", "lib/tree.c", "lib/generic.c", "lib/vm.c"],
  mech=[("collections", "stdlib/collections/"), ("natives", "lib/generic.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated collections; map on an array changes that array, as documented."),
 dict(id="C20", title="What is written reads back as an equal value",
  statement="Writing a value yields the one text its syntax defines, which read again is a value equal to it: numbers (floats to six decimals), strings and symbols with any bytes that can be read, quotes, lists, dotted pairs, arrays, trees and buffers, nested in each other. Displaying yields the same with strings as their own bytes and #nil as nothing. Neither depends on how long the text is, where it goes or what was written before.",
  over=["inputs"], quant="every value of up to a number of nodes, every atom in every context, every byte and pair of bytes in strings, every size around the buffers of ports and every readable text over an alphabet",
  why="Tests write a few values; unescaped bytes, sizes at the ends of buffers, nested quotes and dotted pairs and numbers with trailing zeros each need their own case.",
  files=["lib/core-operators.c", "stdlib/string/portng.nuj", "stdlib/string/string.nuj", "stdlib/string/printer.nuj", "lib/reader.c", "lib/string.c"],
  mech=[("writing", "stdlib/string/portng.nuj"), ("numbers", "lib/core-operators.c"), ("reading", "lib/reader.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated sizes; the order of a tree's keys is left open; values nested more than 200 deep, symbols that can't be read and macros are excluded."),
 dict(id="C21", title="Numbers convert to text and back exactly",
  statement="Converting an integer to decimal, hexadecimal, binary or octal text yields its digits without anything else for all 64-bit values that can be written so (a negative one in hexadecimal being an error), and a float its value rounded to six decimals without trailing zeros. Reading such a text, by the reader, read/int or read/float, yields the number again, and text that isn't a number is a catchable error.",
  over=["inputs"], quant="every power of two and of ten, their neighbours, negatives and halves, every small number, every length of digits and sizes of strings around the buffers",
  why="Tests convert a handful of small numbers; the digits change at powers of the base, the sign, the limits of 64 bits and in rounding of the last decimal.",
  files=["lib/core-operators.c", "stdlib/string/string.nuj", "lib/reader.c"],
  mech=[("floats", "lib/core-operators.c"), ("integers", "stdlib/string/string.nuj"), ("reading", "lib/reader.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated numbers; 18 decimal digits are the most the reader accepts."),
 dict(id="C22", title="Formatted text has the given parts in the given form",
  statement="(fmt ...) yields the text with every placeholder replaced by its argument, chosen by order, index or name, in the base and with the number of decimals asked for and padded to the width with spaces or zeros on the side asked for. Arguments are evaluated once, in order; the text between placeholders is unchanged; a malformed placeholder, a missing or an unused argument is an error.",
  over=["inputs"], quant="every combination of alignment, padding, width, decimals, base and debug with every kind of value, every arrangement of up to three (thorough four) placeholders and texts, every format of up to four (thorough five) characters over the significant ones",
  why="Tests use a few formats; options that work alone fail combined, and with widths shorter or longer than the value.",
  files=["stdlib/string/fmt.nuj", "stdlib/string/string.nuj", "lib/string.c", "lib/core-operators.c"],
  mech=[("formats", "stdlib/string/fmt.nuj"), ("padding and numbers", "stdlib/string/string.nuj")],
  level="model_checking", technique=ENUM, note="Complete for the stated formats; mixing named, numbered and plain placeholders isn't covered."),
 dict(id="C23", title="Checksums agree with their definitions",
  statement="crc32, crc32c, adler32 and md5 of a string or buffer are what the standards define for its bytes, whatever the length and bytes, whether it is a string or a buffer and whatever was hashed before. The data isn't changed and anything else is a catchable error.",
  over=["inputs"], quant="every length up to 300 and around larger block sizes with several contents, every byte, every single bit (quick: every fifth) of blocks around the padding limits",
  why="Tests compare known sums of a few short strings; carries of 32-bit arithmetic, lengths at block ends and bytes above 127 need their own inputs.",
  files=["stdlib_modules/crypto/*.nuj", "lib/arithmetic.c", "lib/vm.c", "lib/buffer.c"],
  mech=[("checksums", "stdlib_modules/crypto/"), ("bit operations", "lib/arithmetic.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated lengths and contents; oracle is Python's zlib and hashlib."),
 dict(id="C24", title="JSON text denotes the value it was made from",
  statement="Serializing a value to JSON yields a valid JSON text that denotes it: trees are objects with every key once, lists and arrays are arrays in order, strings, symbols and keywords are strings with every character, numbers, #t, #f and #nil are themselves. The value isn't changed, and values JSON can't express are a catchable error.",
  over=["inputs"], quant="every value of up to four (thorough five) nodes, every atom in every context, every ASCII character and a sample of each class of others in strings and keys, sizes and depths around the limits",
  why="Tests serialize a few values; a character that isn't escaped, an empty collection or a missing comma needs that value in that position.",
  files=["stdlib_modules/serialization/json.nuj", "stdlib/string/portng.nuj", "stdlib/string/string.nuj", "lib/core-operators.c"],
  mech=[("JSON", "stdlib_modules/serialization/json.nuj")],
  level="model_checking", technique=ENUM, note="Complete for the stated values; the oracle is Python's strict JSON parser. An empty list is #nil."),
 dict(id="C25", title="A module is evaluated once and shows only its exports",
  statement="A module is evaluated when first needed and only once, however often, by whatever relative name and from wherever it is loaded, so that all users share its state; one whose evaluation fails isn't kept. import, require and use define exactly the exported names, renamed or qualified as asked; what isn't exported can't be reached and a module's definitions don't change those outside of it. Names are resolved relative to the importing file; leaving the root, a missing module or export is a catchable error.",
  over=["inputs", "histories"], quant="every relative name of up to four (thorough five) components from several directories, every sequence of up to three (thorough four) definitions and uses of a module, every spelling of modules in files that import each other",
  why="Tests import a few modules once; evaluating twice, names with several parents, failing modules and shared state need sequences and combinations of names.",
  files=["stdlib/core/module.nuj", "binlib/io.nuj", "lib/closure.c", "lib/vm.c"],
  mech=[("modules", "stdlib/core/module.nuj"), ("loading from files", "binlib/io.nuj")],
  level="model_checking", technique="exhaustive enumeration of names and operation sequences on the real interpreter against a model of modules", note="Complete for the stated names and sequences; modules that require each other in a circle exhaust memory and are excluded."),
 dict(id="C15", title="Ports are sequences of bytes with a position",
  statement="Reading, writing, seeking and asking for the position or the content of a port, in any order, yields exactly the bytes and positions of a sequence of bytes with a position: a write replaces or appends bytes at the position, a read returns those at it up to what is asked for or there is, the end shows as such. This holds for the ports made from strings and the input and output ports of files, for bytes of any value, for single bytes, lines and blocks, and for sizes beyond their buffers. Wrong arguments and closed ports are errors which leave the port as it was, and a port isn't affected by another one.",
  over=["histories"], quant="every sequence of up to three (thorough four) operations on a string port, two of them, the output port and the input port of a file, every size around the growth and the ends of their buffers",
  why="Tests read or write a port once from its start; the failures need a seek or an error between, an end inside of a character or block, or a size at which a buffer grows.",
  files=["stdlib/string/portng.nuj", "lib/buffer.c", "bin/port.c", "bin/io.c", "lib/string.c"], mech=[("string ports", "stdlib/string/portng.nuj"), ("file handles", "bin/io.c"), ("buffers", "lib/buffer.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated operations and depths."),
 dict(id="C31", title="Code is data and evaluates the same however it is made",
  statement="A program evaluates to the same result whether it is quoted, built from lists, read, written and read back, made by quasiquotation, by a macro or passed through one, made part of a function or module, or evaluated by evaluated code, once or repeatedly, and evaluating code leaves it as it was. A quasiquotation is a fresh copy of its template in which every unquote is replaced by its value and every unquote-splicing by its elements. A macro gets exactly the forms written in its call, unevaluated, once per compilation, and the form it returns is evaluated in place of its call.",
  over=["inputs"], quant="every program of up to two (thorough: more kinds of two) nested constructs in every one of 16 ways to obtain code, every quasiquotation template of up to four (thorough five) nodes, every parameter list of macros with up to two (thorough three) of eleven forms",
  why="Tests evaluate a handful of programs in the one way they are written; code that works when read but not when built, or only once, needs a particular construct in a particular way.",
  files=["stdlib/core/*.nuj", "stdlib/compiler/*.nuj", "lib/vm.c", "lib/reader.c", "lib/printer.c"], mech=[("quasiquotation", "stdlib/core/quasiquote.nuj"), ("macro expansion", "stdlib/compiler/"), ("evaluation", "lib/vm.c")],
  level="model_checking", technique=ENUM, note="Complete for the stated programs and templates; nested quasiquotation isn't covered, and macros defined in a local scope can't be used within functions there."),
 dict(id="C32", title="An interactive session does what is typed, line by line",
  statement="At a read-eval-print loop every complete line is evaluated once in the session's scope and its value printed before the next prompt; brackets left open ask for more lines until they are closed, lines between [cmd] and [/cmd] are one text, and *1 *2 *3 are the latest values. An error in reading or evaluating is reported with its kind, leaves what was defined before as it is and the session running; the end of the input, wherever it is, ends the session successfully, and (exit n) with n. Each -x expression of the command line is evaluated in order in one scope, an error in one doesn't affect the others.",
  over=["histories", "inputs"], quant="every sequence of up to two (thorough three) of 28 lines and three (thorough four) of twelve, with and without a final newline, at both loops, every window of three lines in long sessions, every sequence of up to three (thorough four) of fifteen -x expressions",
  why="No test types at the loops; what fails is a continuation, an error within one, an end of input in the middle or a form whose effects on the session show only several lines later.",
  files=["stdlib_modules/repl.nuj", "binlib/tiny-repl.nuj", "binlib/init.nuj", "stdlib/string/portng.nuj", "lib/reader.c", "lib/vm.c"], mech=[("read-eval-print loop", "stdlib_modules/repl.nuj"), ("emergency loop", "binlib/tiny-repl.nuj"), ("command line", "binlib/init.nuj")],
  level="model_checking", technique="exhaustive enumeration of typed lines up to a length in real processes against a model of a session", note="Complete for the stated lines and lengths; input comes from a pipe, and of an error only the kind is compared."),
]
