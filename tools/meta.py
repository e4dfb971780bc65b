VM = ["duckVM.c", "duckVM.h"]
COMP = ["duckLisp.c", "emitters.c", "generators.c", "assembler.c"]
NOT_APPLICABLE = []
BASE_NOTE = "Bounded: every path of the stated harnesses is explored with symbolic scalar data; "
PROPS = [
dict(id="C01", title="Arithmetic gives the exact value for every operand",
 statement="The operators +, -, * and / on any two Integer, Float or Boolean operands give the two's-complement 64-bit Integer result when both are Integer-like and the IEEE double result when either is a Float, wherever the operands come from (callback result, local, captured, global or literal) and however the operations nest. Integer division truncates toward zero; dividing an Integer by zero, and arithmetic on any other type, is an error after which the VM still works.",
 over=["inputs", "programs", "configurations"], quant="all pairs of 64-bit Integers, doubles and Booleans (not both Boolean), 6 operand placements, every two-operator nesting, all build configurations",
 why="No test evaluates arithmetic on more than a handful of literals; the value must be right for 2^64 operands and each operand encoding.",
 files=VM + ["generators.c"], mech=[("add/sub/mul/div instruction cases", "duckVM.c duckVM_executeInstruction"), ("arithmetic generators", "generators.c duckLisp_generator_add .. _divide")],
 observe=["duckVM_copySignedInteger", "duckVM_copyFloat"], note=BASE_NOTE + "both operands Boolean is left out (the manual gives no result)."),
dict(id="C02", title="Comparison and equality are right for every operand",
 statement="<, >, = , not and null? give Boolean results that agree with the mathematical order and equality of their operands for every combination of Integer, Float and Boolean operands and every operand placement. = on two values of unlike non-numeric type is false rather than an error, and ordering a value that is not a number is an error after which the VM still works.",
 over=["inputs", "programs", "configurations"], quant="all pairs of scalars including NaN, infinities and extreme Integers; strings, symbols, types and nil; all operand placements",
 why="Tests compare a few small integers; NaN, mixed types and extreme values are never reached.",
 files=VM + ["generators.c"], mech=[("equal/less/greater/not/null instruction cases", "duckVM.c duckVM_executeInstruction")], observe=["duckVM_copyBoolean"],
 note=BASE_NOTE + "not on strings and = on composites and closures are not claimed."),
dict(id="C03", title="Control flow and scoping follow the language definition",
 statement="Every program built from if, when, unless, while, local variables, assignment, nested scopes, sequencing and arithmetic evaluates to the value and leaves the variable contents that the language reference prescribes, whatever the values of its conditions. False, nil, a zero number or an empty vector as condition selects the else branch; any other number, list, string, symbol, vector or function does not. A name at the head of an expression means its innermost, latest definition (local variable, function, macro, host function or built-in word), and scopes whose last form leaves no value leave everything around them as it was.",
 over=["programs", "inputs", "configurations"], quant="all programs of the grammar with at most 3 (quick) or 4 (thorough) operators, over arbitrary Integer and Boolean inputs, all build configurations; endless loops in 14 branches of 10 surrounding forms; 0 to 4 redefinitions of a name in a scope, its functions and later programs; scopes that end in 9 forms without a value in 9 places; branches without a value",
 why="The tests hold about a dozen fixed programs; a wrong stack offset appears only under particular nestings of scopes, branches and variables.",
 files=COMP + VM, mech=[("expression/scope/if/while/var/setq generators", "generators.c"), ("locals and scope bookkeeping", "duckLisp.c"), ("jump resolution and peephole", "assembler.c")],
 observe=["value left on the VM stack"], note=BASE_NOTE + "reference interpreter in harness/vt_prog.h."),
dict(id="C04", title="Closures share and keep captured variables",
 statement="A function sees the current value of every variable it captured, assignments through any function or scope that shares the variable are seen by all of them, and the variable keeps its value after its scope or creating function has returned. Each evaluation of a scope or call of a function creates fresh variables.",
 over=["programs", "inputs", "histories"], quant="all programs of the closure grammar with at most 3 (quick) or 4 (thorough) operators plus variables captured through chains of up to 7 functions and listed deep-nesting templates; all programs of at most 3 operators that mix functions with host calls, apply, rest lists, recursion, globals, lists, vectors and composites; functions with 1 to 20, 129 and 256 captured variables that outlive a scope, a loop iteration, a function or a program; arbitrary Integers",
 why="Capture bugs depend on the combination of nesting depth, capture order and release point; tests contain five closure programs.",
 files=COMP + VM, mech=[("upvalue resolution", "duckLisp.c duckLisp_scope_getFreeLocalIndexFromName"), ("release/setUpvalue/pushUpvalue", "duckVM.c"), ("lambda generator", "generators.c duckLisp_generator_lambda_raw")],
 observe=["program results"], note=BASE_NOTE + "reference interpreter in harness/vt_prog.h."),
dict(id="C05", title="Calls deliver exactly the given arguments",
 statement="Calling a function of any arity, with or without a rest parameter, by name, through a variable, a global, apply, a composite or itself, binds each parameter to the corresponding argument in order and collects the remaining arguments in the rest list, with their types kept. A wrong argument count, a non-function, or a non-list apply tail is an error that leaves the VM usable.",
 over=["inputs", "programs"], quant="0 to 3 parameters, 0 to 4 arguments (4 and 6 in thorough), every call form, every split of apply arguments, arbitrary argument values",
 why="Tests call functions with one or two fixed arguments; the arity, form and split combinations are not enumerated.",
 files=VM + ["generators.c"], mech=[("call/acall/apply/return instruction cases", "duckVM.c duckVM_executeInstruction"), ("function call and apply generators", "generators.c")],
 observe=["host callback arguments", "program results"], note=BASE_NOTE + "stack-distance operands of one byte."),
dict(id="C06", title="Lists and vectors keep their contents under every history of operations",
 statement="cons, list, vector, make-vector, car, cdr, set-car, set-cdr, get-vector-element, set-vector-element, length and null? act as operations on shared mutable cells: after any sequence of them, including sharing, nesting, cdr views of vectors and truncation by set-cdr, every list and vector reads back what the operations put there. Element access outside a vector's current bounds, and access to anything that is not a sequence, is an error after which the VM still works.",
 over=["histories", "inputs", "configurations"], quant="every history of 2 and 3 operations from the stated initial states, vectors and lists of 0 to 5 elements, arbitrary scalar elements, arbitrary 64-bit indexes",
 why="The tests build a few literal lists; aliasing between views and truncated vectors is never combined.",
 files=VM + ["generators.c"], mech=[("cons/vector/car/cdr/setCar/setCdr/element/length instruction cases", "duckVM.c duckVM_executeInstruction")], observe=["host callback (out x)", "program results"],
 note=BASE_NOTE + "set-car and set-vector-element on strings are not claimed; get-vector-element is."),
dict(id="C07", title="Strings, symbols, types and composites behave as specified for every content",
 statement="make-string, concatenate, substring, string car/cdr/length/element access, equality, symbol-string and symbol-id give exactly the bytes and ids their operands determine, leaving the operands unchanged, for strings that are themselves tails or substrings of others. type-of distinguishes all kinds of value, new types are unique, and composites keep the value and function slots last set through any alias. Operands of the wrong type or out of range are errors after which the VM still works.",
 over=["inputs", "histories", "configurations"], quant="strings of 0 to 4 arbitrary bytes under 0 to 2 tails or substrings at arbitrary 64-bit indexes, 5 symbols, 14 kinds of value, composite histories of 3 operations",
 why="Tests use one or two literal strings; substring views, empty strings and wrong types never meet.",
 files=VM + ["generators.c"], mech=[("makeString/concatenate/substring/typeOf/makeType/makeInstance/composite instruction cases", "duckVM.c duckVM_executeInstruction")], observe=["host callback (out x)", "program results"],
 note=BASE_NOTE + "make-string of a circular list is left out (does not terminate)."),
dict(id="C08", title="Globals persist across compilations and executions",
 statement="A global defined or assigned by one execution, by a function called later, or by the host is what every later compilation, execution and host read of that global sees until the next assignment, whatever garbage collections, errors or same-named locals come between. Reading an undefined global is an error after which the VM still works.",
 over=["histories", "inputs", "configurations"], quant="every history of 2 and 3 steps out of 20 actions on two globals, 7 kinds of value, arbitrary Integers",
 why="Tests run one program per VM; the compiler and VM must agree on global keys over any sequence of compilations.",
 files=COMP + VM, mech=[("pushGlobal/setGlobal instruction cases", "duckVM.c duckVM_executeInstruction"), ("global and setq generators", "generators.c"), ("host access", "duckVM.c duckVM_pushGlobal, duckVM_setGlobal")], observe=["program results", "duckVM_pushGlobal"],
 note=BASE_NOTE + "up to three steps and two variables."),

dict(id="C09", title="Quotation, macros and compile-time evaluation mean what they expand to",
 statement="Quoted data reads back as the list, string, symbol, Boolean, Integer, Float or nil written, wherever it is quoted. A program spelled through macros (fixed or variadic, expanding to other macro calls, recursive, using generated or interned names, introducing variables) behaves exactly as its expansion, and a comptime form or macro body computes at compile time what the same code computes at run time. Compile-time globals persist over compilations, separate from run-time globals; generated symbols are unique; a failing macro or comptime form is a compilation error after which compiler and VM still work.",
 over=["programs", "inputs", "histories"], quant="every quoted datum of 2 lists and 6 leaf kinds; every program of at most 2 operators out of 13 spelled with macros or evaluated at compile time over arbitrary inputs; histories of 3 compilations; 12 failing forms",
 why="Tests hold two comptime programs and a handful of quoted literals; expansion must be transparent for every program and argument.",
 files=COMP + ["parser.c"], mech=[("macro call, comptime and quote generators", "generators.c duckLisp_generator_macro, duckLisp_generator_comptime, duckLisp_generator_quote"), ("object/AST conversion", "duckLisp.c duckLisp_objectToAST"), ("gensym, intern, read callbacks", "duckLisp.c")],
 observe=["program results", "compilation errors"], note=BASE_NOTE + "a comptime result that needs more than 32 bits, or that contains symbols, vectors or composites, is not claimed (see the findings)."),
dict(id="C10", title="The reader accepts exactly the documented syntax and never reads outside the source",
 statement="For every source text the reader either produces the syntax tree that the syntax rules prescribe (white space, comments, nested expressions, identifiers, Booleans, decimal and hexadecimal Integers, Floats, strings with escapes, literal expressions) or reports an error; it reads no byte beyond the given length, and the reader can be used again afterwards. An error message names a line and column of the source, shows that line, and marks an unterminated string at its opening quote.",
 over=["inputs", "configurations"], quant="all byte strings of length 0 to 4 (every byte arbitrary), plus texts of 5 to 9 bytes in the neighbourhood of each token kind; the messages for 1 to 3 lines with an error at any position",
 why="The existing tests read well-formed files only; malformed, truncated and boundary-length sources decide memory safety.",
 files=["parser.c", "parser.h"], mech=[("reader", "parser.c duckLisp_read and the parse functions it calls")], observe=["duckLisp_ast_compoundExpression_t produced by duckLisp_read"],
 note=BASE_NOTE + "reference reader in harness/c10.c; exact value of floats is C11."),
dict(id="C11", title="Literals have the value written",
 statement="An Integer literal in decimal or hexadecimal, a Float literal in any of its forms, a string literal of any bytes and escapes, and a symbol name of any length evaluate to exactly the value written (Floats to within rounding), whatever their size and wherever they occur: top level, operand, variable, quoted list, argument, global, comptime or vector.",
 over=["inputs", "configurations"], quant="all decimal literals of 1 to 4 digits and around every operand-width boundary, all 2-digit hexadecimal literals, floats of 1+1 digits and exponents, strings of 0 to 3 arbitrary bytes and 254 to 257 bytes",
 why="Encoding width, sign extension and escape processing each depend on the exact digits; tests use small positive numbers.",
 files=["parser.c", "assembler.c", "emitters.c", "duckVM.c"], mech=[("number and string parsers", "parser.c, DuckLib/string.c"), ("operand width selection", "assembler.c duckLisp_assemble"), ("pushInteger/pushString/pushSymbol cases", "duckVM.c")], observe=["program results"],
 note=BASE_NOTE + "Integer literals beyond 32 bits are a known finding."),
dict(id="C12", title="The compiler is total: every program text is compiled or rejected, safely",
 statement="For every program, however malformed (unknown heads, missing or surplus arguments, arguments of the wrong kind, misplaced declarations, non-functions in head position, failing or odd compile-time code), duckLisp_loadString either returns bytecode or returns an error and no bytecode; it accesses no memory out of bounds or after its release. A keyword with a number of arguments its description does not allow, a declaration of or an assignment to something that is not a name, and a malformed parameter list are refused wherever they stand. Bytecode it returns executes to a result or a run-time error without such an access either, and after a rejection or a run-time error the same compiler and VM compile and run correct programs as before.",
 over=["programs", "configurations"], quant="every keyword, function, macro, variable and non-function at the head of an expression of 0, 1 or 2 (thorough: 3) of 18 arguments, in 7 contexts; every keyword with every number of arguments from 0 to 5, every declaration with 9 kinds of non-names and 16 malformed parameter lists, at 6 places; gensym, intern and read with every kind of argument",
 why="The tests compile well-formed programs only; what the compiler does with the argument lists of ill-formed forms is otherwise unobserved.",
 files=COMP + ["parser.c", "duckVM.c"], mech=[("all form generators", "generators.c"), ("argument checks", "duckLisp.c duckLisp_checkArgsAndReportError"), ("object/AST conversion", "generators.c duckLisp_consToExprAST")],
 observe=["duckLisp_loadString", "duckVM_execute"], note=BASE_NOTE + "leaks after a rejected program are documented behaviour and not claimed; non-terminating programs are left out."),

dict(id="C13", title="Run-time errors are contained",
 statement="A run-time error in any operation, at any argument position, call depth, loop or host callback, makes duckVM_execute return an error without executing anything after it. After duckVM_softReset (or duckVM_popAll at top level) the stack is empty, globals and the variables captured by surviving functions hold the values they had at the error, and every later execution, collection and call works as on a VM where the failed program ended at that point; nothing is leaked at quit, and failing and resetting again and again takes no more memory than a few times. An error that the language defines is reported whatever optimisation is enabled and whether or not the failing expression's value is used.",
 over=["programs", "histories", "inputs"], quant="30 failing operations in 21 contexts, sequences of 3 failing programs, failing callbacks that leave objects, 60 failures in each context at depths of up to 40, arbitrary Integers in the surviving variables",
 why="The tests stop at the first error; none runs anything afterwards.",
 files=VM + ["assembler.c"], mech=[("soft reset and popAll", "duckVM.c duckVM_softReset, duckVM_popAll"), ("execution loop and stacks", "duckVM.c duckVM_executeWithIp, stack_push, call_stack_push"), ("push-pop peephole", "assembler.c duckLisp_assemble")], observe=["duckVM_execute", "duckVM_stackLength", "program results"],
 note=BASE_NOTE + "errors caused by exhausted memory are C14 and C16."),
dict(id="C14", title="Garbage collection is invisible",
 statement="Whatever the size of the heap and wherever collections happen, a program either gives the value it gives with unlimited memory or fails with an out-of-memory error after which the VM can be reset and used; no reachable object is lost or changed, including variables of functions that are running, operands of pending calls and functions made by earlier executions; unreachable objects are reclaimed so that repeated execution does not exhaust the heap. The same holds for macros and compile-time code. The destructor of a user object runs exactly once, not before it is unreachable and at the latest at quit.",
 over=["programs", "histories", "inputs"], quant="8 structures in 9 kinds of holder against 7 kinds of garbage under heaps of 10 to 58 objects; a collection at any operand of 21 operations, or at exactly one allocation of 37; 12 kinds of structure of 1 to 20 components; functions that drop the last reference to themselves; sequences of 5 definitions, drops, calls and collections across executions; compile-time heaps of 10 to 58 (20 to 79 with `read`); user objects with markers in 8 holders; user-object histories of 3 steps",
 why="Tests use heaps so large that a collection seldom happens, and never at the moment that matters.",
 files=VM, mech=[("mark and sweep", "duckVM.c duckVM_gclist_markObject, duckVM_gclist_garbageCollect"), ("heap allocation", "duckVM.c duckVM_gclist_pushObject"), ("rooting in instructions", "duckVM.c duckVM_executeInstruction")], observe=["program results", "destructor calls"],
 note=BASE_NOTE + "a user object stored in several heap cells is outside (each cell is an object of its own)."),
dict(id="C15", title="The C API does to the stack exactly what its description says",
 statement="For a host program, every duckVM_* stack operation (push, set, copy, pop, typeOf, is*, first/rest/element/length, setCar/setCdr/setElement, composites, symbols, types, globals, linkCFunction, popAll, softReset, call) has exactly its described effect on the stack and on shared data, for every value, every positive or negative index and every history: what was pushed is read back, indices and types that do not fit are refused with an error and no effect, data made by the host is the same to a program as data made by the program and vice versa, collections in between change nothing, duckVM_call replaces the arguments with exactly one value, objects made by hand with the object makers are those of a program, captured variables are read and set by the host as by the function, and nothing is leaked at quit.",
 over=["histories", "inputs", "configurations"], quant="12 kinds of object against every operation; all 64-bit indices, counts, keys, symbol numbers, Integers and Floats; histories of 2 (thorough: 3) of 14 operations on shared conses and vectors; 16 uses and 11 readings of data across the host boundary; 5 kinds of function called with 0 to 4 arguments",
 why="The tests call a handful of pushes from one callback; most of the API is never called at all.",
 files=VM, mech=[("C API", "duckVM.c from duckVM_linkCFunction to duckVM_length"), ("stack access", "duckVM.c stack_get, stack_set, stack_pop_multiple")], observe=["duckVM_* API results", "program results"],
 note=BASE_NOTE + "objects made by hand that are inconsistent in themselves are outside."),
dict(id="C16", title="An allocation failure is reported and harms nothing",
 statement="If any single allocation fails, at any point of initialisation, compilation, execution, collection or a pushing API operation, that call returns an error or its right result; no memory is accessed out of bounds, after its release or freed twice. Afterwards the VM can be reset, globals hold their values, later programs (with macros and compile-time code) compile and run correctly, and the run-time side leaks nothing at quit.",
 over=["fault schedules", "programs", "inputs"], quant="one failing allocation, at an arbitrary (symbolic) position, in 18 programs compiled and executed, in init, in collections and in 20 API operations; arbitrary Integers",
 why="No test makes an allocation fail; every error path of every allocation is otherwise dead code.",
 files=COMP + ["duckVM.c", "DuckLib/array.c", "DuckLib/trie.c"], mech=[("array growth", "DuckLib/array.c"), ("trie insertion", "DuckLib/trie.c"), ("symbol creation", "duckLisp.c duckLisp_symbol_create"), ("heap allocation", "duckVM.c duckVM_gclist_pushObject")], observe=["error results", "program results", "live allocations"],
 note=BASE_NOTE + "memory the compiler leaks on an error is documented behaviour and not claimed; for an exhausted arena see C19."),
dict(id="C17", title="Parenthesis inference reads a text as its fully parenthesised form",
 statement="With parenthesis inference enabled, reading a text in which call parentheses are left out gives exactly the tree of the fully parenthesised text according to the declared types of the names in scope: built-in words and host functions in either spelling, names introduced by declare, and names introduced by the declaration scripts of var, defun, lambda and of user declarations, with their scopes, literal (L), inferred (I) and variadic arguments with a default count, and #. A parenthesised call with a wrong number of arguments or of an undeclared name or of a variable is an error. Malformed declarations and declaration scripts are accepted or refused without an access out of bounds, and the compiler works afterwards.",
 over=["inputs", "programs", "histories"], quant="every form of at most 4 (thorough: 5) elements over names of every type, nested to depth 2; every name type with at most 2 positional letters; every program of 3 declarations, uses and scopes; every built-in word with 0 to 4 arguments; 21 well-formed or malformed types and 30 scripts; declaration scripts under every small heap",
 why="The tests hold a handful of inferred programs; which parentheses are added depends on the combination of types, positions and scopes.",
 files=["parenthesis-inferrer.c", "parser.c", "duckLisp.c"], mech=[("inference of a call", "parenthesis-inferrer.c inferArguments, inferArgument, infer_expression"), ("declaration scopes", "parenthesis-inferrer.c findDeclaration, pushDeclarationScope, popDeclarationScope"), ("declaration scripts", "parenthesis-inferrer.c runVm and its callbacks"), ("built-in declarations", "duckLisp.c duckLisp_init")], observe=["syntax tree produced by duckLisp_read", "program results"],
 note=BASE_NOTE + "oracle: the parenthesised text read without inference; nested types, declare inside literal arguments and infer-and-get-next-argument called from a function of the script are left out."),
dict(id="C18", title="The size of a program never changes its meaning",
 statement="Every operation does the same whatever the distance of its operands on the stack (8-, 16- and 32-bit operands, at top level and inside functions, captured or not), every conditional, loop and function transfers control correctly whatever the length of the code in between and however many jumps the program has, names mean the same however many are in use, strings of any length have their bytes, and expressions, scopes, functions, quoted data and recursion mean the same however deep they are nested. (nop) changes nothing.",
 over=["programs", "inputs", "configurations"], quant="90 operations with 1 to 262 and 65490 to 65537 variables between the operands; 9 control structures over 85 to 135 and 32735 to 32768 bytes of code, sequences of 12 and 60 of them; 200 to 262 and 65450 to 65600 names; strings of 2^15 and 2^16 bytes; nesting to 258; arbitrary Integers",
 why="The tests are all small: no operand, jump or name ever needs more than 8 bits.",
 files=["assembler.c", "emitters.c", "generators.c", "duckVM.c"], mech=[("operand width selection and jump relaxation", "assembler.c duckLisp_assemble"), ("16- and 32-bit instruction variants", "duckVM.c duckVM_executeInstruction"), ("operand indices", "emitters.c")], observe=["program results"],
 note=BASE_NOTE + "operands beyond 32 bits and strings beyond 128 KiB are outside."),
dict(id="C19", title="The portable allocator",
 statement="With USE_DUCKLIB_MALLOC, for every arena, fit and history of dl_malloc, dl_realloc and dl_free: a block that is handed out lies aligned inside the arena, overlaps neither another allocated block nor the allocator's table, and keeps its contents until it is freed, also when it is resized; a request that does not fit (of any size) is refused with an out-of-memory error and changes nothing, the pointer included; each block can be freed exactly once, freed memory can be used again, and dl_memory_usage is the sum of what is allocated. A compiler or VM whose arena is exhausted reports an error, and everything they allocated is free after they quit.",
 over=["histories", "inputs", "fault schedules", "configurations"], quant="every sequence of 5 (thorough: 6) operations on 3 blocks of 3 sizes in 4 arenas with 4 fits; every 64-bit size from the arena's on; arenas of 1 to 400 bytes; 5 programs in arenas of 120 sizes up to, and 40 around, the size they need",
 why="The tests use one huge arena whose history is whatever the compiler happens to do.",
 files=["DuckLib/memory.c", "DuckLib/trie.c"], mech=[("block search, split and merge", "DuckLib/memory.c dl_memory_findBlock, dl_memory_splitBlock, dl_memory_mergeBlocks"), ("growth of the block table", "DuckLib/memory.c dl_memory_reserveTableEntries"), ("allocation functions", "DuckLib/memory.c dl_malloc, dl_realloc, dl_free")], observe=["pointers, contents and errors of dl_malloc, dl_realloc and dl_free", "dl_memory_usage", "error results"],
 note=BASE_NOTE + "requests of 0 bytes and releases of NULL are errors there and not claimed; pointers that were never handed out are outside; which free block a fit chooses is not claimed."),
dict(id="C20", title="Containers, sorting and conversions (DuckLib)",
 statement="For every history of dl_array operations with either strategy and any element size, an array holds exactly the elements put there, in order and contiguous; indices, counts and pops beyond its length are refused without an effect; clearing and quitting free its memory. A dl_trie maps exactly the inserted keys to their last values. A failing allocation leaves array and trie as they were. heapsort and both quicksorts leave the same items in order. Decimal texts of integers, sizes and bytes are exact and are read back as the same number; a text is read as an Integer, Float or Bool exactly if it is one, with its value; comparisons, copies (overlapping or not) and clears touch and compare exactly the given bytes.",
 over=["inputs", "histories", "fault schedules"], quant="every sequence of 3 (thorough: 4) of 8 array operations with arbitrary contents and 64-bit indices; 3 (thorough: 4) arbitrary trie keys of 1 to 3 bytes; 0 to 5 arbitrary items; Integers of at most 3 digits and around powers of 2 and 10; arbitrary texts of 0 to 5 (thorough: 7; Floats 6) bytes; one failing allocation",
 why="The tests use containers only through small programs.",
 files=["DuckLib/array.c", "DuckLib/trie.c", "DuckLib/sort.c", "DuckLib/string.c", "DuckLib/core.c"], mech=[("array growth and access", "DuckLib/array.c"), ("node splitting and lookup", "DuckLib/trie.c dl_trie_insert_helper, dl_trie_find"), ("sorting", "DuckLib/sort.c"), ("conversions", "DuckLib/string.c")], observe=["results of the DuckLib functions"],
 note=BASE_NOTE + "dl_array_copy and dl_array_append (in no header), keys of 0 bytes, elements given by a pointer into the array itself and 0x without digits are left out; dl_string_toDouble is C11."),
dict(id="C21", title="Host programs extend the compiler: parser actions and generators",
 statement="A parser action runs exactly once for every parenthesised form whose head is its name, wherever the form stands (nested, quoted, in functions, with or without parenthesis inference), is given the whole form, and what it makes of the form (a literal, another form, a parsed text) is what is compiled. A generator runs for the forms with its name, including those made by macros, actions and other generators, and what it emits or rewrites has the meaning of the instructions or forms it produced, next to variables and inside functions, loops and branches. Forms with other heads, also with names that share letters, are left alone. If a hook refuses its form, the program is refused and nothing of it runs; later programs compile and run with all hooks.",
 over=["programs", "inputs", "fault schedules"], quant="heads of 1 to 4 letters against 3 names that share letters, added in 3 orders, with 0 to 2 operands; every expression of 3 actions, 3 generators, a macro and host functions nested to depth 1 in 5 places and to depth 2; refusals with 4 errors in 4 places; arbitrary Integers",
 why="No test registers an action or a generator.",
 files=["parser.c", "duckLisp.c", "emitters.c"], mech=[("parser actions", "parser.c runAction, duckLisp.c duckLisp_addParserAction"), ("generators", "duckLisp.c duckLisp_addGenerator, duckLisp_compile_expression"), ("what hooks build on", "emitters.c, parser.c duckLisp_parse_compoundExpression, duckLisp.c duckLisp_compile_compoundExpression")], observe=["calls of the hooks", "program results", "error results"],
 note=BASE_NOTE + "what hooks leak when they refuse is documented behaviour; reading with duckLisp_read inside an action, generators added twice under one name and literals beyond 32 bits are left out."),
dict(id="C22", title="The disassembly of a program shows its bytecode",
 statement="With the compiler's disassemble flag set, every program compiles to the same bytecode as without it, and its disassembly (and that of its macros and compile-time code) names every instruction of the bytecode in order, with its width and exactly its operands, and ends where the bytecode ends. Nothing beyond the bytecode is read, and all texts are released with the compiler.",
 over=["programs", "inputs", "configurations"], quant="every instruction with 0 to 2 or 258 counted entries or bytes and any one byte of its operands arbitrary; 29 programs of all kinds with and without symbol names; arbitrary strings of at most 2 bytes and symbols, Integers at the width boundaries; 8 programs with 16-bit operands and jumps",
 why="No test disassembles anything; a wrong operand count shifts everything behind it and reads past the end.",
 files=["assembler.c", "duckLisp.c", "generators.c"], mech=[("disassembler", "assembler.c duckLisp_disassemble"), ("where it is called", "duckLisp.c duckLisp_loadString, generators.c comptime and defmacro")], observe=["text of the disassembly", "compiled bytecode"],
 note=BASE_NOTE + "the operand layout of each instruction is written down in the harness, from what duckVM_executeInstruction reads; the value of a Float is not shown by the disassembler and not claimed; the obsolete call and acall are left out."),
]
