"""Writes /verif/properties.jsonl (kept as a script so that the list stays in one readable place)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


VM, CO = "src/vm/vm.c", "src/vm/compiler.c"

prop("P01", "Expressions evaluate by their operands' values, in every position",
     "Evaluating an expression gives the value the documented operators, precedence and associativity prescribe, with operands evaluated left to right and `and`/`or`/`?:`/`?.` short-circuiting. The result does not depend on whether operands are literals, constants, globals, locals, captured variables, fields, elements or call results, on whether the compiler folded them, or on how many constants or locals the surrounding code already uses. Compound assignment on variables, fields and elements equal reading, applying the operator and writing back once.",
     ["programs"], "all expression trees up to a size bound over all operators and all ways of supplying each operand",
     "tests evaluate a few fixed expressions, nearly always literal operands at top level, so operand placement and folding combinations are never compared",
     [CO, VM], [("foldBinary/foldUnary constant folding", CO), ("binary arithmetic and comparison instructions", VM), ("dot/subscript compound assignment", CO)], ["printed value"])
prop("P02", "Statements and nested control flow execute structurally",
     "if/else, while, for, infinite loops, switch with multi-value cases and default, break, continue and return, nested in any way, execute exactly the statements structured semantics prescribe, in that order. Leaving or repeating a block, loop, switch or function by any route leaves every surrounding local variable with the value the program last gave it, and block-scoped names are not visible outside their block.",
     ["programs"], "all nestings of control statements up to a depth bound, with every placement of break/continue/return and of locals, over every vector of branch conditions",
     "tests exercise each statement alone; the jump patching and stack bookkeeping only go wrong in particular combinations of nesting, locals and exits",
     [CO, VM], [("loop, break and continue patching", CO), ("scope stack and local slots", CO)], ["trace of executed statements"])
prop("P03", "Closures capture variables, not values, with lexical scope",
     "A function refers to the innermost enclosing declaration of each name at its point of definition, and all closures capturing the same variable share it, before and after the defining scope ends. Each execution of a declaration (each loop iteration body, each call) creates a fresh variable. Parameters, locals and inner functions shadow outer names only within their own scope.",
     ["programs"], "all small families of nested functions and blocks that declare, capture, read and write a variable, in every interleaving of creation, escape and call",
     "tests use a few canonical counters; capture order, sharing after scope exit and nesting depth combinations are unbounded",
     [VM, CO], [("captureUpvalue / closeUpvalues", VM), ("resolveUpvalue", CO)], ["values read through each closure"])
prop("P04", "Constants never change after initialisation",
     "A variable declared `const` (global, local, captured or class constant) keeps its initial value for its whole lifetime: every assignment, compound assignment or redeclaration of it is rejected at compile time or by a runtime error before it takes effect. Names that are not constants stay assignable in the same program.",
     ["programs"], "all assignment forms x declaration kinds x scopes x declaration order x shadowing",
     "tests cover a handful of direct reassignments; nested functions, compound forms and ordering are unexplored",
     [CO, VM], [("constant check in namedVariable/declareVariable", CO), ("class constants", VM)], ["compile status, value read back"])
prop("P05", "Calls bind arguments by the declared protocol",
     "Calling any function, method, constructor, arrow function or bound method binds required, optional and variadic parameters positionally, evaluates missing optional defaults, spreads unpacked lists in place, and returns exactly one value, without disturbing the caller's variables. Exactly the calls whose argument count the declaration does not admit are rejected with a runtime error before the body runs.",
     ["programs"], "all signatures (required x optional x variadic) x callable kinds x argument counts and unpack positions x call contexts",
     "the product of signatures, argument shapes and callable kinds is unbounded; tests try a few per kind",
     [VM, CO], [("call, callValue, invoke, OP_UNPACK_LIST, OP_DEFINE_OPTIONAL", VM), ("argumentList, beginFunction", CO)], ["bound parameter values, error status"])
prop("P06", "Classes resolve members by inheritance, traits and visibility",
     "A method, static method, class variable or class constant resolves to the most derived definition of its kind (instance fields first, then methods, then class variables; traits override what the class had before the `use`), `super` to the superclass of the defining class, and `this` to the receiver, in every mix of inheritance depth, overriding, abstract and trait use. Abstract classes and incomplete concrete classes cannot be instantiated or declared, private members are reachable only through `this` inside the class, and isInstance/class introspection agree with the declared hierarchy.",
     ["programs"], "all class hierarchies up to a depth bound with every assignment of members to levels, and all access routes",
     "tests fix a few hierarchies; resolution rules quantify over all of them",
     [VM, CO, "src/vm/datatypes/instance.c", "src/vm/datatypes/class.c"], [("OP_INHERIT, OP_USE, OP_SUPER, invoke, get/set attribute", VM), ("classDeclaration, parseClassBody", CO)], ["resolved member, error status"])
prop("P07", "Garbage collection never changes what a program does",
     "Running the collector at any allocation point, in any combination, gives the same output and the same final result as never running it, and never touches freed memory. Everything still reachable by the program - from variables, the call stack, containers, closures, classes, results, files, module variables and native calls in progress - survives unchanged.",
     ["schedules", "programs"], "all placements of one or more collections over all allocation points of programs covering every object kind as holder and as payload, and every built-in",
     "the stress build collects at every allocation of the existing tests only, so it never drops a collection between two others and never checks the values kept alive",
     ["src/vm/memory.c", VM, "src/vm/object.c", "src/optionals", "src/vm/datatypes"], [("collectGarbage/markRoots/blackenObject", "src/vm/memory.c"), ("push/pop protection of temporaries in natives", "src/vm, src/optionals")],
     ["program output, AddressSanitizer"], hook="dictuMcGcPoint decides at each growing allocation whether to collect")
prop("P08", "Memory is reclaimed and fully accounted for",
     "Garbage is reclaimed: a loop that creates and drops values of any kind runs in memory bounded independently of the iteration count. When the interpreter shuts down, after success or after any error, every byte it allocated has been released and the byte accounting returns to zero.",
     ["programs", "histories"], "all object kinds, built-in calls and error exits, repeated a varying number of times",
     "tests never compare memory across iteration counts, and accounting is only printed in debug builds",
     ["src/vm/memory.c", VM, "src/optionals"], [("reallocate accounting, freeObject", "src/vm/memory.c")], ["final byte accounting, allocator balance"])
prop("P09", "Any source text is compiled or rejected, never mishandled",
     "For every source text the compiler terminates and either produces a program or reports an error with the line it occurred on and the compile-error status, without executing anything, crashing or reading out of bounds. After a rejected source the same interpreter still compiles and runs other sources correctly.",
     ["inputs"], "all token sequences and character strings up to a length bound, all single-token corruptions of valid programs, and programs at and beyond each encoding limit",
     "negative syntax tests are a few fixed snippets",
     ["src/vm/scanner.c", CO], [("panic-mode recovery, limits on constants, locals, jumps, arguments", CO)], ["status, stderr, AddressSanitizer"])
prop("P10", "Misuse of a built-in is reported as a runtime error and stops there",
     "Calling any built-in function, module function or method with any number and kinds of arguments, or applying any operator, subscript or attribute access to any kinds of values, either performs the documented operation or reports a runtime error (or an Error result). A runtime error prints a message and a trace whose lines name the active calls, stops the script immediately with the runtime-error status, and leaves the interpreter usable; nothing crashes, hangs or reads out of bounds.",
     ["inputs", "programs"], "all built-ins x argument counts x tuples of value kinds including boundary values",
     "tests call built-ins with valid arguments and a few wrong ones",
     [VM, "src/vm/natives.c", "src/vm/datatypes", "src/optionals"], [("argument count/type checks in every native", "src/vm/datatypes, src/optionals"), ("runtimeError", VM)], ["status, stderr, AddressSanitizer"])
prop("P11", "Number text and number values convert consistently",
     "Every numeric literal form (decimal, fraction, exponent, hex, digit separators) denotes its mathematical value rounded to double; printing and toString give the shortest-within-15-digits decimal form, and string-to-number conversion accepts exactly decimal number text and yields an Error result for anything else. Converting a number with at most 15 significant digits to a string and back gives the same number.",
     ["inputs"], "all digit strings over a small alphabet up to a length, all literal forms, and boundary magnitudes",
     "tests convert a few literals",
     ["src/vm/scanner.c", CO, "src/vm/value.c", "src/vm/datatypes/number.c", "src/vm/datatypes/strings.c"], [("number scanning and strtod", CO), ("valueToString", "src/vm/value.c")], ["printed numbers"])
prop("P12", "Equality, truthiness, ordering and type names are consistent",
     "Equality is reflexive, symmetric and transitive over all values other than NaN, compares numbers, strings, booleans, nil, lists, dicts and sets by value and other objects by identity, and agrees between `==`, `!=`, switch, list/dict/set membership and contains. Strings are equal exactly when their bytes are equal, however they were produced. Truthiness follows the documented falsey values and `not`, conditions, `and`/`or` and toBool agree on it.",
     ["inputs", "programs"], "all pairs and triples of values of every kind, including nested ones and ones built by different routes",
     "tests compare a few pairs",
     ["src/vm/value.c", VM, "src/vm/object.c"], [("valuesEqual, isFalsey, hashValue", "src/vm/value.c"), ("string interning", "src/vm/object.c")], ["comparison results"])
prop("P13", "Lists behave as growable sequences",
     "After any sequence of list operations (literals, push, insert, pop, remove, index assignment, extend, concatenation, slice, splice, reverse, contains, copy, aliasing through several variables) the list holds exactly the elements a plain sequence would, in order, with the same length, and each operation returns the documented value or error. Out-of-range positions are errors that leave the list unchanged.",
     ["histories"], "all operation sequences up to a depth over positions around the ends and lengths around the growth steps",
     "tests apply each method once or twice to a fixed list",
     ["src/vm/datatypes/lists/lists.c", VM], [("list methods", "src/vm/datatypes/lists/lists.c"), ("subscript get/set", VM)], ["list contents after each step"])
prop("P14", "Dictionaries behave as maps from key to value",
     "After any sequence of dictionary operations (literal, subscript assignment, get, remove, exists, keys, merge, forEach, copy) a dictionary holds exactly the key/value pairs a plain map would, with len, keys, iteration, exists and lookup agreeing, for every hashable key kind, through any number of removals, re-insertions, resizes and colliding keys. Reading an absent key by subscript and removing an absent key give the documented error, and unhashable keys are rejected.",
     ["histories"], "all operation sequences up to a depth over keys of each kind, including keys chosen to collide, and bulk insert/remove histories across resizes",
     "tests insert a few keys and never drive collisions, tombstones or resizes",
     ["src/vm/value.c", "src/vm/datatypes/dicts/dicts.c", VM], [("dictSet/dictGet/dictDelete, adjustDictCapacity", "src/vm/value.c")], ["contents after each step"])
prop("P15", "Sets behave as mathematical sets",
     "After any sequence of set operations (construction, add, remove, contains, len, containsAll, toString, copy) a set holds each value once and exactly the values a mathematical set would, with len, contains, printing and truthiness agreeing, through removals, re-insertions, resizes and collisions. Removing an absent value and adding an unhashable one give the documented error and change nothing.",
     ["histories"], "all operation sequences up to a depth over colliding and non-colliding members and bulk histories across resizes",
     "tests add and remove a few members",
     ["src/vm/value.c", "src/vm/datatypes/sets.c"], [("setInsert/setGet/setDelete", "src/vm/value.c")], ["contents after each step"])
prop("P16", "Sorting and functional collection methods match their definitions",
     "sort orders any list of numbers ascending and any list with a comparison function by that function, keeping the same multiset of elements; map, filter, reduce, find, findIndex, forEach, unique and the dictionary and set counterparts visit each element once, in order, and return what their definition prescribes for any callback. Errors raised inside a callback stop the script as errors do elsewhere.",
     ["inputs", "programs"], "all lists up to a length over a small alphabet x all callbacks of a finite family",
     "tests sort and map a few fixed lists",
     ["src/vm/datatypes/lists", "src/vm/datatypes/dicts"], [("quickSort/insertion sort", "src/vm/datatypes/lists/lists.c"), ("list.du, dict.du", "src/vm/datatypes")], ["resulting collection and visit order"])
prop("P17", "String methods return what their documentation defines",
     "Every string method (split, join, find, findLast, count, contains, startsWith, endsWith, replace, strip variants, upper, lower, title, repeat, wrap, collapseSpaces, format, toNumber, len and their optional arguments) returns what its documentation defines for every receiver and argument, including empty, whitespace-only, overlapping and absent patterns, and never modifies the receiver. The returned strings contain exactly the bytes defined and nothing else.",
     ["inputs"], "all receivers and arguments over a small alphabet up to a length bound",
     "tests use one or two typical words per method",
     ["src/vm/datatypes/strings.c", "src/vm/datatypes/lists/lists.c"], [("string methods", "src/vm/datatypes/strings.c")], ["returned values"])
prop("P18", "Indexing and slicing agree with sequence positions",
     "For strings and lists alike, s[i] is the element at position i, counted from the end when negative, and s[a:b] the elements from a up to but excluding b with missing ends defaulted and bounds clipped, for every combination; indexes outside the sequence or of another kind are errors. Slices are new values that do not alias the source.",
     ["inputs"], "all sequences up to a length x all start/end values around and beyond both ends x all index kinds",
     "tests slice a fixed string and list at a few positions",
     [VM], [("OP_SUBSCRIPT, OP_SLICE", VM)], ["returned elements"])
prop("P19", "Copies are isolated as deeply as promised",
     "A shallow copy is an equal new container whose elements are shared, a deep copy an equal new structure sharing no mutable part with the original; assignment and argument passing share. Mutating one side is visible on the other exactly where they share, for lists, dicts, sets, instances and any nesting of them.",
     ["histories"], "all nestings of containers up to a depth x copy kind x every mutation of every reachable part on either side",
     "tests copy one nesting per kind",
     ["src/vm/datatypes/copy.c", "src/vm/datatypes"], [("copyList/copyDict/copyInstance", "src/vm/datatypes/copy.c")], ["both structures after mutation"])
prop("P20", "Printed forms show the whole value, exactly",
     "print, toString and string formatting render every value in its documented form, containers recursively with nested strings quoted, whatever the sizes and nesting of the parts. The text is complete, has no bytes that are not part of the form, and is the same by every route.",
     ["inputs"], "all containers up to a depth and width, with element text lengths around every buffer size used while formatting",
     "tests print small fixed containers",
     ["src/vm/value.c", "src/vm/object.c"], [("valueToString, listToString, dictToString, setToString, instanceToString", "src/vm/object.c")], ["printed text"])
prop("P21", "Queues are FIFO and stacks are LIFO through any history",
     "After any sequence of push, pop, peek, len, cap, isEmpty and toString operations, a Queue delivers values in the order pushed and a Stack in reverse order, with length and emptiness exact, across growth, shrinking and wrap-around. Popping or peeking an empty one is a runtime error.",
     ["histories"], "all operation sequences up to a depth from every reachable (capacity, front position, length) state",
     "tests push and pop a few values and never wrap a full queue",
     ["src/optionals/queue.c", "src/optionals/stack.c"], [("ring buffer growth and shrink", "src/optionals/queue.c")], ["values popped"])
prop("P22", "Buffers store and return exact bytes at exact offsets",
     "A Buffer of n bytes starts zeroed, and after any sequence of reads and writes of any width, signedness, floating type or string at any offset and in either byte order, its bytes are exactly those written and every read returns the value those bytes encode. Accesses not entirely inside the buffer, with any index beyond the buffer or negative, return an Error and change nothing, and readString, subarray, resize, len and values agree with the contents. (A fractional index may be truncated or refused.)",
     ["histories", "inputs"], "all (operation, offset, value, byte order) pairs over sizes 1..N, including negative, fractional, huge and end-straddling offsets",
     "tests write and read back each type once at an easy offset",
     ["src/optionals/buffer.c"], [("bounds checks and byte swapping", "src/optionals/buffer.c")], ["values read, bytes"])
prop("P23", "BigInt arithmetic is exact integer arithmetic",
     "Construction from a decimal string, number or BigInt, addition, subtraction, multiplication, division and modulus (quotients truncate towards zero) and all comparisons on BigInts give the exact mathematical integer result for operands of any sign and length, as do the bitwise operations for operands that are not negative (for operands of any sign, and, or and xor obey their laws: the order of the operands does not matter, x|x and x&x are x, x^x is 0, 0 is neutral for or and xor), and printing gives its canonical decimal form. Invalid text and division by zero are reported as Errors, and operations change only the receiver they are documented to change.",
     ["inputs", "histories"], "all pairs of operands over word-boundary magnitudes and signs, and operation sequences on them",
     "tests add a few positive numbers",
     ["src/optionals/bigint.c", "src/optionals/bigint/bigint.c"], [("word carry/borrow, base conversion", "src/optionals/bigint/bigint.c")], ["decimal text"])
prop("P24", "JSON text and values correspond both ways",
     "JSON.parse accepts all JSON texts, giving the value they denote, and returns an Error for anything else (raw control characters and unknown escapes inside strings, and a byte order mark, may be tolerated; nesting beyond 500 levels may be refused); JSON.stringify of any serialisable value gives valid JSON denoting that value, and an Error when some part cannot be serialised. Parsing what was stringified gives back an equal value.",
     ["inputs"], "all JSON values up to a depth over scalar boundary values and escapes, all texts over the JSON alphabet up to a length",
     "tests parse and print a few documents",
     ["src/optionals/json.c", "src/optionals/json/jsonParseLib.c", "src/optionals/json/jsonBuilderLib.c"], [("parseJson / stringifyJson", "src/optionals/json.c")], ["values and text"])
prop("P25", "Encodings and digests agree with their standards for every length",
     "Base64 encoding and decoding are RFC 4648 inverses for strings of every length, and Hashlib's digests and HMACs equal the standard SHA-256 values for messages and keys of every length, in the documented output forms; bcrypt hashes and their verification agree with the standard $2a$/$2b$ scheme, and comparison of digests is equality. Text that is not base64 or not a hash is handled without reading beyond it and verifies nothing.",
     ["inputs"], "all messages up to several blocks in length, all key lengths around the block size, all short strings for decoding",
     "tests hash a few short words; padding and block boundaries are not enumerated",
     ["src/optionals/base64.c", "src/optionals/base64/base64Lib.c", "src/optionals/hashlib.c", "src/optionals/hashlib"], [("block padding", "src/optionals/hashlib/sha256.c")], ["digest text"])
prop("P26", "Path functions are total and mutually consistent",
     "Path.basename, dirname, extname, isAbsolute, join, realpath, exists, isDir and listDir return what their documentation defines for every path string, including empty, separator-only, trailing and repeated separators, and never read outside the given text. They agree with one another and with the file system state, and a failing lookup is the documented Error or false.",
     ["inputs"], "all path strings up to a length over the characters that matter, one to four join arguments, all small directory trees",
     "tests use a few typical paths",
     ["src/optionals/path.c"], [("path string functions", "src/optionals/path.c")], ["returned values"])
prop("P27", "File operations act on exactly the bytes in the file",
     "Through any sequence of open, read, readLine, write, writeLine, seek and close in any mode, the file and the values returned are those of the corresponding byte-stream model, for any content and line length, and misuse for the mode is an error. A `with` block closes its file on every way out, including break, continue, return and runtime error, so written data is visible afterwards, and System's file functions (remove, rename, mkdir, rmdir, copyFile, setCWD, chmod) change exactly the entries they name or return an Error.",
     ["histories", "fault_sequences"], "all operation sequences up to a depth over small contents, line lengths around buffer sizes, every exit route, every injected I/O failure",
     "tests read one fixture and write one file",
     ["src/vm/datatypes/files.c", VM, CO, "src/optionals/system.c"], [("OP_OPEN_FILE/OP_CLOSE_FILE", VM), ("withStatement", CO)], ["file contents, returned values"])
prop("P28", "Modules run once, are cached, and keep their names apart",
     "Importing a module runs it once, whatever the number and routes of imports, and every importer sees the same module; each module's globals are its own, visible to others only as attributes, and `as` and `from` forms bind exactly the requested names. A module that is missing or fails to compile or run stops the importer with the corresponding error and status.",
     ["programs", "histories"], "all import graphs up to a size with every import form, order and failing module",
     "tests import a few modules once",
     [VM, CO, "src/vm/util.c", "src/optionals/optionals.c"], [("OP_IMPORT, OP_IMPORT_FROM", VM)], ["execution trace, bound names"])
prop("P29", "Results carry success or error faithfully",
     "A Result created by Success/Error or returned by any operation reports success as constructed, unwrap, unwrapError, match and matchWrap (and their variants) deliver exactly the contained value to exactly the right branch, and taking the wrong side is a runtime error. This holds for every contained value and any nesting or chaining.",
     ["programs"], "all contained values x nesting x chains of result methods",
     "tests unwrap a few results",
     ["src/vm/datatypes/result", "src/vm/natives.c"], [("result methods", "src/vm/datatypes/result/result.c")], ["delivered values"])
prop("P30", "Enums have exactly their declared members",
     "An enum's names map to the declared or automatically numbered values, in every mix of explicit and automatic members and any size, and cannot be assigned; enum values read anywhere are equal to the declared value and unknown members are errors. Enum declarations behave the same at top level, in blocks, loops and functions.",
     ["programs"], "all member lists up to a size with every mix of explicit/automatic values, in every scope",
     "tests declare two enums",
     [CO, VM, "src/vm/datatypes/enums.c"], [("enumDeclaration, OP_SET_ENUM_VALUE", CO)], ["member values"])
prop("P31", "A session survives errors and keeps its state",
     "When several sources run in one interpreter, as in the REPL, globals, functions and classes defined by earlier successful statements keep their values and behaviour, and a compile error or runtime error at any depth discards only the failing source's unfinished work. Every later source behaves as if the failing statement had ended where it failed.",
     ["histories"], "all sequences of small sources up to a length, mixing definitions, uses and every kind of failure",
     "tests never run a second source after an error",
     [VM, CO, "src/vm/vm.c"], [("resetStack after an error", VM)], ["output of later sources"])
prop("P32", "Deep recursion and large programs work up to documented limits",
     "Recursion of any depth either completes with the right value or stops with a runtime error, never a crash, and the same program then continues to give right values. Functions, classes, literals and argument lists of any size the compiler accepts behave the same as small ones.",
     ["programs"], "recursion depths around every stack growth step through each call mechanism, and literal/constant/local/argument counts around each encoding boundary",
     "tests recurse shallowly and use small literals",
     [VM, CO], [("frame and stack growth", VM), ("operand width of instructions", CO)], ["returned values, status"])
prop("P33", "Sqlite round-trips values and reports every failure",
     "Values bound as parameters and read back by a query are equal to what was bound, rows come back complete and in order, and statements have the effect SQL prescribes on the database seen through any later query or connection. Wrong parameter counts, unbindable values, SQL errors and closed connections give an Error or runtime error and change nothing.",
     ["histories", "inputs"], "all short statement histories over bound values of every kind, including failing statements at each point",
     "tests create one table and read a few rows",
     ["src/optionals/sqlite.c"], [("parameter binding and row reading", "src/optionals/sqlite.c")], ["query results"])
prop("P34", "Process and socket data arrive complete and in order",
     "Process.run and exec deliver the arguments given to the child unchanged and return its exit status and, when requested, its whole output whatever its size and however reads are split; sockets send and receive exactly the bytes written, in order. Failures to start, connect, read or write are Errors, never crashes, hangs or truncated data presented as complete.",
     ["fault_sequences", "inputs"], "all splits of the child's output and of socket reads into short reads with injected errors, up to a bound, and output sizes around buffer sizes",
     "tests capture one short line of output",
     ["src/optionals/process.c", "src/optionals/socket.c"], [("read loop and buffer growth", "src/optionals/process.c")], ["captured bytes"], hook=None)
prop("P35", "Math and Random functions satisfy their definitions",
     "Math functions return the defined value for every combination of numbers given as arguments or as a list (min, max, sum, average, gcd, lcm, floor, ceil, round, abs, sqrt, trigonometry and the rest), and Random's functions return only values in the documented range, able to reach all of it. Undefined cases give the documented error and never crash.",
     ["inputs"], "all tuples of boundary numbers up to four arguments; every range bound pair",
     "tests evaluate a few points",
     ["src/optionals/math.c", "src/optionals/random.c"], [("math functions", "src/optionals/math.c")], ["returned numbers"])
prop("P36", "Date and time formatting and parsing are consistent",
     "Datetime.strftime renders any timestamp in any format completely, whatever the output length, strptime of a formatted time gives back the timestamp, and invalid input is an Error or runtime error as documented.",
     ["inputs"], "all short format strings x boundary timestamps, and format lengths around buffer sizes",
     "tests format one date",
     ["src/optionals/datetime.c"], [("strftime buffer growth", "src/optionals/datetime.c")], ["formatted text"])
prop("P37", "Reflection and dynamic attributes agree with direct access",
     "getAttribute, setAttribute, hasAttribute, methods, getMethod and the Object and Inspect modules report and change exactly the members that direct attribute access would see, for instances, classes, modules and inherited members, and fail the same way for absent or private ones.",
     ["programs"], "all member kinds x access routes x presence/absence/visibility",
     "tests query a few attributes",
     ["src/vm/datatypes/instance.c", "src/optionals/object/object.c", "src/optionals/inspect.c"], [("attribute natives", "src/vm/datatypes/instance.c")], ["reported members"])
prop("P38", "Program input arrives exactly: arguments, environment, standard input",
     "input() returns successive lines of standard input complete and without terminator, whatever their length and the final line's ending; System.argv gives the arguments unchanged; Env.get/set/readFile and Argparse deliver exactly the given variables and options with documented defaults and errors.",
     ["inputs"], "all short input texts, line lengths around buffer growth, argument vectors and environment files over a small alphabet",
     "tests cannot feed stdin and read one env file",
     ["src/vm/natives.c", "src/optionals/system.c", "src/optionals/env", "src/optionals/argparse"], [("line buffer growth in input()", "src/vm/natives.c")], ["values delivered"])
prop("P39", "String literals and formatting denote the written text",
     "A string literal denotes exactly its characters with the documented escapes replaced, raw and multi-line strings their characters unchanged, and comments nothing, wherever they occur; line numbers reported in errors are those of the offending line.",
     ["inputs"], "all literals up to a length over quotes, backslashes, escape letters, newlines and comment markers, in each quoting form",
     "tests use a few escapes",
     ["src/vm/scanner.c", CO], [("string scanning", "src/vm/scanner.c"), ("parseEscapeSequences", CO)], ["bytes of the value, reported line"])
prop("P40", "UnitTest and Log report exactly what happened",
     "A UnitTest suite runs every test method once with its hooks in documented order, counts exactly the assertions that held or failed, exits as documented, and every assertion passes exactly when its condition holds for the given values. A mock of a class has that class's methods with their signatures, returning the given values or nil. Log writes exactly the given text behind the time and the logger's prefix to its stream, and the fatal functions then exit with status 1.",
     ["programs", "inputs"], "all small suites with every pass/fail/skip vector and assertion x value pairs; mocks of every signature; all messages x logger functions",
     "the test suite itself relies on UnitTest and so cannot detect an assertion that wrongly passes",
     ["src/optionals/unittest", "src/optionals/log.c", "src/optionals/unittest/unittest.c"], [("UnitTest.du", "src/optionals/unittest")], ["report, exit status"])
prop("P41", "HTTP requests are sent as asked and their responses come back complete",
     "Every HTTP.get/post/put/head/options call, and every request of a client made by HTTP.newClient(), sends exactly one request (plus followed redirects) with the method, target, headers and body asked for, whatever earlier requests of the same client, other clients or failures were; client settings hold until they are changed. The Result holds the exact status code, header lines and content however the answer is framed and however it arrives; an answer that is cut off, a refused connection, an expired timeout or a failed TLS handshake gives an Error. Wrong arguments are runtime errors, nothing crashes, and the memory used is given back. The HTTP constants have the values their names say.",
     ["inputs", "histories", "faults"], "all argument lists x bodies; all answers of a grammar x framings, cut and split at every byte; all histories of client operations up to a depth, also with a collection at every allocation",
     "the suite's HTTP tests need the internet and send one request each",
     ["src/optionals/http/http.c", "src/optionals/http/http.du"], [("requests and responses", "src/optionals/http/http.c"), ("Response.json", "src/optionals/http/http.du")], ["what a server receives, the Response the program gets"])
prop("P42", "Programs see the host as it is, and end and start as documented",
     "System's ids, uname, platform, version, constants, time, clock, sleep and access() give what the operating system says, Term the attached terminal's size and which descriptors are terminals, Net.parseIp4 exactly the octets of valid addresses and an Error for any other text, and UUID well-formed distinct identifiers. System.exit(n) ends the program at once from anywhere with status n modulo 256, after what was printed and written; otherwise dictu exits with 0, 65 after a compile error, 70 after a runtime error and 74 if the file cannot be read, started from a file or with -c. isDefined() tells exactly the names that are defined, and assert() fails exactly for falsey values.",
     ["inputs", "environments"], "all texts up to a length and grids of octets; all combinations of ids, permissions, modes, terminal sizes and descriptors; all exit statuses x places x ways of starting",
     "tests run as one user, without a terminal, and only through files that succeed",
     ["src/optionals/system.c", "src/optionals/net.c", "src/optionals/uuid.c", "src/optionals/term.c", "src/vm/natives.c", "src/cli/main.c"], [("System", "src/optionals/system.c"), ("start and exit status", "src/cli/main.c")], ["printed values, exit status"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 4 and len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
