prop("C05", "Values kept in variables and memory are never lost, mixed up or invented",
     "For every valid function, each read of a variable, array element, member or dereferenced pointer yields the value last stored to that object, through loops, joins, swaps, "
     "aliasing pointers, aggregate copies, recursion and calls. The optimizations the compiler performs never change the observable behaviour.",
     ["programs", "inputs"], "all well-defined data flow between stores and loads, on all inputs",
     T + "data flow through promotion to registers, phi nodes, scheduling and stack slots depends on program shape",
     ["src/optimize/mem2reg.c", "src/optimize/peephole.c", "src/optimize/remove_dead.c", "src/ir/global_code_motion.c", "src/ir/dominator_tree.c", "src/codegen/codegen.c"],
     "values of objects during execution", [("memory to value promotion", "src/optimize/mem2reg.c"), ("scheduling", "src/ir/global_code_motion.c"), ("phi lowering", "src/codegen/codegen.c")],
     "events emitted by the compiled program", DIFF, "random data-flow programs with aliasing and aggregates")
prop("C06", "Types have the platform's size and layout, and members are independent",
     "For every struct, union, array, enum and bit-field type, sizes, alignments, member offsets and bit positions are those of the platform ABI, and storing to one member "
     "changes exactly the bytes or bits of that member.",
     ["programs"], "all nested aggregate types with all member types, bit-field widths, packing and alignment specifiers",
     T + "layout rules interact over unbounded nesting",
     ["src/arch/x64.c", "src/types.c", "src/parser/declaration.c", "src/parser/expression_to_ir.c", "src/ir/ir.c"], "the bytes of aggregate objects",
     [("layout", "src/arch/x64.c"), ("member access", "src/parser/expression_to_ir.c"), ("bit-field access", "src/ir/ir.c")],
     "byte images of objects written member by member", DIFF, "random aggregate types; byte-for-byte object images")
prop("C07", "Initializers give every object exactly the value the language defines",
     "For every valid initializer - nested or flattened braces, designators, overrides, strings, compound literals, unsized arrays, unions and bit-fields - the initialized object "
     "has the defined value in every member, with everything not mentioned set to zero, for static and automatic storage alike.",
     ["programs"], "all valid initializers for all aggregate types and storage durations",
     T + "designator and brace-elision combinations are unbounded",
     ["src/parser/declaration.c", "src/codegen/rodata.c", "src/ir/ir.c"], "the contents of initialized objects",
     [("initializer parsing", "src/parser/declaration.c"), ("static data emission", "src/codegen/rodata.c")],
     "all members of the initialized objects", DIFF, "random types and initializers, static and automatic")
prop("C08", "Calls interoperate with the System V ABI in both directions",
     "For every supported function signature, a function compiled by this compiler can call and be called by code compiled by the platform's compiler: arguments, aggregates by value, variable "
     "arguments and return values arrive unchanged, the stack is aligned at calls and callee-saved registers are preserved.",
     ["programs", "inputs"], "all supported signatures (scalars, pointers, aggregates by value, variadic) and argument values",
     T + "argument classification and register exhaustion depend on the whole signature",
     ["src/abi/sysv.c", "src/abi/abi.c", "src/arch/calling.c", "src/codegen/codegen.c"], "registers and stack at call boundaries",
     [("classification", "src/abi/sysv.c"), ("variadic access", "src/abi/sysv.c")],
     "argument values recorded on both sides of cross-compiler calls", "differential trace monitor plus call-boundary register monitor over cross-compiled caller/callee pairs",
     "random signatures and values, both directions")
prop("C09", "Calls interoperate with the Microsoft x64 ABI in both directions",
     "With the Microsoft ABI selected, for every supported function signature, compiled code can call and be called by code using that convention: arguments, aggregates by value, variable arguments "
     "and return values arrive unchanged, shadow space is provided, the stack is aligned and non-volatile registers are preserved.",
     ["programs", "inputs"], "all supported signatures and argument values under the Microsoft ABI",
     T + "only a few signatures are run under wine",
     ["src/abi/microsoft.c", "src/abi/abi.c", "src/arch/calling.c"], "registers and stack at call boundaries",
     [("argument passing", "src/abi/microsoft.c")],
     "argument values recorded on both sides of cross-compiler calls", "differential trace monitor plus call-boundary register monitor over cross-compiled caller/callee pairs",
     "random signatures and values, both directions, on Linux through ms_abi functions")
prop("C10", "Preprocessing yields the token sequence the language defines",
     "For every valid source file, macro expansion (object-like, function-like, variadic, # and ##, rescanning and self-reference), conditional inclusion and file inclusion produce exactly the token "
     "sequence the language defines.",
     ["programs"], "all valid preprocessor inputs",
     T + "macro interaction is unbounded",
     ["src/preprocessor/macro_expander.c", "src/preprocessor/directives.c", "src/preprocessor/tokenizer.c", "src/preprocessor/preprocessor.c"], "the token stream after preprocessing",
     [("expansion", "src/preprocessor/macro_expander.c"), ("directives", "src/preprocessor/directives.c")],
     "the output of -E, and values observed when compiled", "trace monitor over the token stream emitted by -E, the reference preprocessor is the oracle",
     "random macro sets, conditional trees and include graphs")
prop("C11", "Literals denote exactly the values the language defines",
     "Every integer, floating, character and string literal - any base, suffix, prefix, escape sequence, universal character name, adjacent concatenation, line splice or comment placement - denotes the "
     "value, type and array contents the language defines.",
     ["inputs"], "all literals", T + "literal spellings are unbounded",
     ["src/preprocessor/tokenizer.c", "src/escape_sequence.c", "src/utf8.c", "src/arch/x64.c", "src/preprocessor/string_concat.c"], "values of literals",
     [("escape sequences", "src/escape_sequence.c"), ("number parsing", "src/arch/x64.c"), ("concatenation", "src/preprocessor/string_concat.c")],
     "bytes and sizes observed in the compiled program", DIFF, "random literals")
prop("C12", "Object output and assembly output describe the same program",
     "For every program, the machine code, data, symbols and relocations of the object file written directly are the ones obtained by assembling the assembly output with the system assembler.",
     ["programs"], "all programs the compiler accepts, in both code models",
     T + "tests run both outputs on fixed programs but never compare them; an encoding used by no test goes unseen",
     ["src/assembler/assembler.c", "src/assembler/encode.c", "src/assembler/instructions.h", "src/linker/elf.c", "src/linker/object.c"], "section contents, symbols and relocations",
     [("instruction encoding", "src/assembler/encode.c"), ("text emission", "src/assembler/assembler.c")],
     "decoded instructions, data bytes and relocations of both objects", "offline checker over the decoded contents of both outputs of each compilation",
     "random programs; instruction-level and byte-level comparison", level="translation_validation")
prop("C13", "Object files are well formed and link by the names and linkage of the source",
     "Every object file written is a well-formed relocatable file in which each external definition is a global symbol, internal linkage stays local, tentative definitions are defined once, and every reference "
     "resolves, so that programs split over several files by either compiler link and behave as one program.",
     ["programs"], "all distributions of declarations and definitions with any linkage over translation units",
     T + "tests are single-file programs",
     ["src/linker/elf.c", "src/linker/object.c", "src/parser/declaration.c", "src/parser/symbols.c"], "symbol tables, sections and relocations",
     [("object writing", "src/linker/elf.c"), ("linkage rules", "src/parser/declaration.c")],
     "symbol tables, and events of linked programs", "structural object-file checker plus differential trace monitor over multi-file programs", "random multi-file programs")
prop("C14", "Executables linked by the compiler itself behave like the program",
     "When the compiler links several source files itself into an executable, cross-file references, data relocations and calls resolve as in the source and the executable runs with the defined behaviour.",
     ["programs"], "all freestanding multi-file programs within the linker's documented scope",
     T + "no test uses the internal linker",
     ["src/linker/linker.c", "src/linker/object.c", "src/linker/elf.c", "src/main.c"], "the executable image",
     [("linking", "src/linker/linker.c"), ("executable writing", "src/linker/elf.c")],
     "exit status and system-call output of the executable", "differential trace monitor over executables linked by the compiler", "random freestanding programs")
prop("C15", "Windows objects behave like the program",
     "Objects written for Windows are well-formed COFF files with the code, data, symbols and relocations of the program, and link with the MinGW toolchain into programs with the defined behaviour.",
     ["programs"], "all programs the compiler accepts for Windows", T + "only the fixed tests are run under wine",
     ["src/linker/coff.c", "src/abi/microsoft.c", "src/linker/object.c"], "COFF sections, symbols and relocations", [("object writing", "src/linker/coff.c")],
     "decoded objects, and events of programs run under wine", "structural checker over COFF objects plus differential trace monitor under wine", "random programs")
prop("C16", "The compiler never crashes, hangs or misuses memory, whatever it is given",
     "For every byte sequence as input file and every option combination, the compiler terminates with success or with an error message and failure status; it never crashes, reads or writes outside its objects, "
     "executes undefined behaviour or runs forever.",
     ["inputs", "configurations"], "all input files, valid or not", T + "invalid inputs are almost absent from the tests",
     ["src/preprocessor/tokenizer.c", "src/preprocessor/macro_expander.c", "src/preprocessor/directives.c", "src/parser/declaration.c", "src/parser/expression.c", "src/main.c"], "compiler memory and termination",
     [("tokenizing", "src/preprocessor/tokenizer.c"), ("parsing", "src/parser/declaration.c")],
     "sanitizer reports, exit status, running time", "AddressSanitizer and UndefinedBehaviorSanitizer builds under mutation and grammar-based hostile inputs", "random mutations and generated programs")
prop("C17", "Compilation is a deterministic function of its inputs",
     "Compiling the same source with the same options gives byte-identical output every time, whatever the compiler's own build, memory layout, environment, working directory or previous runs; no decision depends on uninitialised memory.",
     ["configurations", "programs"], "all programs, repeated under different heap contents, address layouts and compiler builds",
     T + "only the compiler's own sources are compared between two generations",
     ["src/main.c", "src/ir/ir.c", "src/parser/symbols.c", "src/assembler/assembler.c"], "output bytes", [("whole pipeline", "src/main.c")],
     "output bytes of repeated compilations, MemorySanitizer reports", "MemorySanitizer build plus output-equality monitor over perturbed repetitions", "random programs and perturbations")
prop("C18", "The self-compiled compiler is the same compiler",
     "The compiler compiled by itself accepts and rejects the same inputs and writes byte-identical output and diagnostics as the compiler built by the platform's compiler, for every input.",
     ["programs", "inputs"], "all inputs, valid and invalid", T + "the generations are only compared on the compiler's own source and the tests",
     ["src"], "outputs and diagnostics of both compilers", [("self compilation", "Makefile")],
     "output bytes, messages and exit status of both compilers", "output-equality monitor between the reference-built and the self-compiled compiler", "random valid and invalid programs")
prop("C19", "Valid programs are accepted and constraint violations are rejected",
     "Every program violating one of the constraints the compiler diagnoses is rejected with an error message and failure status and leaves no usable output, while the corrected program is accepted.",
     ["programs"], "all placements of each diagnosed kind of constraint violation",
     T + "the should_fail tests hold one instance of each of a few kinds",
     ["src/parser/expression.c", "src/parser/declaration.c", "src/parser/symbols.c", "src/common.c"], "exit status and messages", [("type checking", "src/parser/expression.c"), ("declarations", "src/parser/declaration.c")],
     "exit status and message of each pair", "acceptance monitor over generated valid/invalid program pairs", "seeded violations of each kind in random contexts")
prop("C20", "Dependency files name exactly the files read",
     "With dependency output enabled, the written make rule has the requested target and lists the source and exactly the files that were opened during preprocessing, each usable by make.",
     ["programs", "configurations"], "all include graphs and option combinations", T + "no test covers dependency output",
     ["src/preprocessor/preprocessor.c", "src/preprocessor/input.c", "src/main.c", "src/arguments.c"], "the dependency file", [("dependency writing", "src/preprocessor/preprocessor.c")],
     "the dependency file against the traced set of opened files", "system-call trace (strace) of the compiler checked against the dependency file", "random include graphs and options")
prop("C21", "Command-line options and include search have their documented effect",
     "Macro definitions and undefinitions, include directories in order, output selection and naming, and target selection given on the command line have the effect of the corresponding source or the documented option, in any order and combination.",
     ["configurations"], "all combinations and orders of the documented options", T + "tests use one fixed command line",
     ["src/arguments.c", "src/main.c", "src/preprocessor/input.c"], "output files and their contents", [("option parsing", "src/arguments.c"), ("include search", "src/preprocessor/input.c")],
     "files opened and written, observed values", "differential monitor over option combinations and include trees", "random command lines")
prop("C22", "Variable length arrays are distinct, correctly sized and released",
     "For every use of variable length arrays and pointers to them, sizeof yields the run-time size, elements are addressed correctly in every dimension, live arrays never overlap each other or other objects, and storage is reclaimed so that loops "
     "creating them run in bounded stack.",
     ["programs", "inputs"], "all scopes, dimensions, loops and jumps around variable length arrays", T + "few shapes are tested",
     ["src/codegen/codegen.c", "src/types.c", "src/parser/declaration.c", "src/parser/expression_to_ir.c"], "stack storage of arrays", [("allocation", "src/codegen/codegen.c"), ("size evaluation", "src/types.c")],
     "contents, sizes and address overlap monitored in the compiled program", DIFF, "random programs with variable length arrays")
prop("C23", "Library facilities for variable arguments read every argument",
     "For every sequence of arguments passed through an ellipsis, reading them with the variable-argument macros - directly, through copies, and through functions receiving the list - yields each argument's value in order.",
     ["programs", "inputs"], "all argument type sequences and access patterns", T + "few sequences are tested",
     ["src/abi/sysv.c", "src/abi/microsoft.c", "include/linux/stdarg.h"], "variable argument lists", [("va_arg", "src/abi/sysv.c")],
     "values read by the callee", DIFF, "random argument sequences in both conventions")
prop("C24", "Declarators, pointers and function types mean what the language says",
     "For every declarator built from pointers, arrays, functions, qualifiers, typedefs and parameter adjustments, declared entities have the defined type, and pointer arithmetic, comparison, subscripting, calls through pointers and decay behave accordingly.",
     ["programs", "inputs"], "all declarators and uses", T + "declarator nesting is unbounded",
     ["src/parser/declaration.c", "src/types.c", "src/parser/expression.c"], "types and addresses", [("declarators", "src/parser/declaration.c"), ("pointer arithmetic", "src/parser/expression_to_ir.c")],
     "sizes, addresses and values observed in the compiled program", DIFF, "random declarators and pointer expressions")
prop("C25", "Names resolve to the declaration the scope rules select",
     "For every valid arrangement of scopes, name spaces, shadowing, forward declarations, static locals, extern declarations and block-scope types, each identifier refers to the entity the language's scope and linkage rules select.",
     ["programs"], "all nestings of scopes and name spaces", T + "shadowing combinations are unbounded",
     ["src/parser/symbols.c", "src/parser/declaration.c", "src/parser/function_parser.c"], "symbol tables", [("scopes", "src/parser/symbols.c")],
     "values identifying the entity each use refers to", DIFF, "random scope trees")
prop("C26", "Every expression has the type the language defines",
     "For every valid expression, its type - as observed through generic selection, sizeof, typeof-like contexts, assignment conversion and argument conversion - is the type the language defines.",
     ["programs"], "all valid expressions", T + "types of intermediate results are hardly observed",
     ["src/parser/expression.c", "src/ir/operators.c", "src/arch/x64.c", "src/types.c"], "types of expressions", [("type calculation", "src/parser/expression.c")],
     "type indices observed in the compiled program", DIFF, "random typed expressions in generic selections")
prop("C27", "The large code model preserves behaviour",
     "Under the large code model every program behaves as under the small one, and no 32-bit absolute or relative reference leads out of the section it is in, so that code and data may lie anywhere in the address space.",
     ["programs", "configurations"], "all programs", T + "no test selects the large model",
     ["src/codegen/codegen.c", "src/assembler/encode.c"], "relocations and behaviour", [("address materialisation", "src/codegen/codegen.c")],
     "events, and relocation types of each object", DIFF + "; relocation checker", "random programs; images linked above 4 GiB")
prop("C28", "Line and file information is exact",
     "The values of the line and file macros, the function name, and the file and line in each diagnostic equal the physical or directive-assigned position in the source, through splices, comments, includes and macro expansion.",
     ["programs"], "all source layouts", T + "positions are checked for almost no layout",
     ["src/preprocessor/tokenizer.c", "src/preprocessor/input.c", "src/preprocessor/directives.c", "src/common.c"], "positions", [("position tracking", "src/preprocessor/input.c")],
     "values in the compiled program and parsed diagnostics", DIFF + "; diagnostic position monitor", "random source layouts")
prop("C29", "Failed reads and writes are never reported as success",
     "When a source, header, output or dependency file cannot be opened, read or completely written, the compiler reports failure with a nonzero status; whenever it reports success the output is complete.",
     ["fault_sequences"], "all I/O failures at any point", T + "no test injects a failure",
     ["src/main.c", "src/linker/elf.c", "src/linker/coff.c", "src/assembler/assembler.c", "src/preprocessor/input.c"], "exit status and outputs", [("output writing", "src/linker/elf.c")],
     "exit status against the completeness of the output under injected faults", "fault injection at every I/O system call with an outcome monitor", "every write and open of a set of compilations", level="fault_enumeration")
prop("C30", "Compiled code touches only the objects of the program",
     "For every well-defined program, compiled code never reads or writes memory outside the objects the program accesses, its own stack frame and the registers its calling convention gives it.",
     ["programs", "inputs"], "all well-defined programs", T + "stray accesses next to an object go unnoticed",
     ["src/codegen/codegen.c", "src/abi/abi.c", "src/codegen/registers.c"], "memory around objects, frames and registers", [("copies and stores", "src/codegen/codegen.c")],
     "guard pages and canaries around every object, stack and register", "guard-page, canary and register monitors around compiled functions", "random programs with objects placed against guard pages")
prop("C31", "The system's headers and library mean the same as with the platform's compilers",
     "Programs that include the platform's standard and POSIX headers (those that do not ask for GNU C), in any order and combination and under any feature test macros, are accepted; every macro, type, member, enumeration constant and function the headers declare has the type, size, offset and value the platform's own compilers give it; and programs calling the library behave as when compiled by them.",
     ["programs", "configurations"], "all programs using the platform's headers", T + "the tests declare what they call themselves or look at output of one call",
     ["include/linux/float.h", "include/linux/stddef.h", "src/preprocessor/directives.c", "src/parser/declaration.c"], "values of header facts, output of programs", [("own headers", "include/linux"), ("declarations", "src/parser/declaration.c")],
     "facts about headers and library calls as seen by compiled programs, against gcc and clang", "a recording program for the facts of the headers and an event comparison with two reference compilers", "every header alone, random combinations, random library programs")
