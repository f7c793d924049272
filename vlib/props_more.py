from .props import prop
X64 = ['src/cc/backend/codegen.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/regalloc.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/arch/x64/emit_x64.c']
LOCK = 'bounded-exhaustive enumeration of programs x inputs, run in lock-step against a reference semantics'

prop('C03', 'Control flow reaches exactly the statements C prescribes',
 'For every nesting of if, while, do, for, switch (dense, sparse, with ranges of labels of every integer type, with and without default, fall-through, labels inside loops), break, continue, goto, labels, &&, ||, ?:, comma and return, a compiled program executes exactly the sequence of statements the C abstract machine does, for every value of the controlling expressions and whether they are constants or not.',
 ['programs', 'inputs'], 'all skeletons of control statements up to the depth bound x all truth assignments / switch values around every label',
 'The tests run a fixed set of loops and switches with one or two inputs; which jump table, search tree or merged basic block is generated depends on label spread, sign, order and nesting that they do not vary.',
 ['src/cc/frontend/parser.c', 'src/cc/backend/codegen.c', 'src/cc/backend/optimize.c'],
 [('switch lowering', 'src/cc/backend/codegen.c gen_switch_cond*'), ('conditional jumps', 'src/cc/backend/codegen_expr.c gen_cond_jmp'), ('block merging', 'src/cc/backend/optimize.c remove_unnecessary_bb')],
 LOCK, 'All statement skeletons to depth 3, all label sets of size <=6 over boundary values per type, each with every selector value around every label; trace equality with the reference for each.')
prop('C04', 'Composed expressions and functions keep every value through the optimiser and the register allocator',
 'Whatever the shape and depth of an expression, the number of simultaneously live values, the mix of integer and floating values live across calls, loop-carried copies and swaps, inlined functions, lvalue chains, calls with stack arguments and memory-resident locals, the compiled program computes the same result and the same side effects, in the order C defines, as the source. This holds for the default pipeline and equally with --apply-ssa.',
 ['programs', 'inputs'], 'all expression trees up to the operator bound, 1..100 live values, all short statement sequences in loop skeletons, inline bodies x arguments x contexts',
 'Spilling, parallel copies, dead-code removal and inlining only go wrong for particular shapes and pressures; the tests and the self-build exercise one shape each.',
 X64 + ['src/cc/backend/optimize.c', 'src/cc/backend/ssa.c', 'src/cc/frontend/fe_misc.c'],
 [('linear-scan allocation and spill code', 'src/cc/backend/regalloc.c'), ('SSA construction and phi resolution', 'src/cc/backend/ssa.c'), ('frame layout for calls', 'src/cc/arch/x64/emit_x64.c'), ('inline expansion', 'src/cc/backend/codegen_expr.c gen_inlined')],
 LOCK, 'Every program of the bounded families is compiled twice (default, --apply-ssa) and run on every input, trace-compared with the reference, with callee-saved registers and stack pointer checked.')
prop('C05', 'Functions compiled by xcc and by the platform compiler can call each other (x86-64 System V)',
 'For every signature built from integer, floating and pointer parameters and results (any number, any order, register and stack passed), variadic calls, function pointers and callbacks, code compiled by xcc can call code compiled by the system compiler and the reverse: all argument values, results, callee-saved registers and stack alignment are as the System V x86-64 ABI requires. Struct arguments and va_list forwarding work between xcc-compiled functions.',
 ['programs', 'inputs'], 'all signatures up to the length bound over the scalar types x caller/callee compiler assignment x values',
 'The tests only call xcc-compiled code from xcc-compiled code (plus libc prototypes with a few arguments); both sides share any mistake.',
 ['src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/arch/x64/emit_x64.c', 'include/stdarg.h'],
 [('argument placement', 'src/cc/backend/codegen_expr.c gen_funcall'), ('parameter placement', 'src/cc/arch/x64/emit_x64.c move_params_to_assigned'), ('variadics', 'include/stdarg.h')],
 'bounded-exhaustive enumeration of signatures, each run in all caller/callee compiler combinations', 'All signatures up to length 3 over 12 scalar types plus long homogeneous/mixed ones, in every caller/callee combination, with an assembly trampoline checking preserved registers. Small structs by value across compilers are out of scope (xcc deliberately passes them in memory).')
prop('C06', 'Struct, union and bit-field members occupy their own storage and keep their values',
 'For every struct and union type, sizes, alignments and member offsets follow the platform layout; each access reads or writes exactly the addressed member. A bit-field of any type, width and position stores its value truncated to its width and yields it sign- or zero-extended; no other member changes, under every operator including compound assignment, increment, whole-struct copy and initialisation; and the value and promoted type of each such expression are as C prescribes.',
 ['programs', 'inputs'], 'all member lists up to the length bound over 25 member kinds; all (type, width, offset) bit-field configurations x operations x values',
 'The tests declare a handful of structs and about ten bit-field layouts.',
 ['src/cc/frontend/type.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/cc_misc.c', 'src/cc/backend/codegen.c'],
 [('layout', 'src/cc/frontend/type.c calc_struct_size, calc_bitfield_size'), ('bit-field access', 'src/cc/frontend/fe_misc.c extract_bitfield_value, assign_bitfield_member'), ('aggregate copy', 'src/cc/backend/codegen.c gen_memcpy')],
 LOCK, 'Layout compared with clang for types without bit-fields; with bit-fields (whose placement is implementation-defined) disjointness and read-back are compared for all operations.')

prop('C07', 'Every object starts with exactly the value its initializer denotes',
 'For every object type and every initializer list that C allows (brace elision, nested braces, designators in any order and overlapping, strings, omitted elements, unions, bit-fields, unknown-size arrays), each element holds the value the C rules assign and everything not mentioned is zero. This holds identically for static, static-local, automatic (every time the declaration is reached, whatever the stack held before) and compound-literal objects, for constant expressions of every type, for address constants, and for string literals with any escapes.',
 ['programs'], 'all initializer lists up to the item bound from all item forms x 17 object shapes x storage kinds; constant expression x type table; address constants; strings x array sizes',
 'The set of initializer lists is combinatorial (position tracking across designators and elided braces); tests list a few dozen.',
 ['src/cc/frontend/initializer.c', 'src/cc/backend/emit_code.c', 'src/cc/frontend/lexer.c', 'src/cc/frontend/parser_expr.c'],
 [('initializer flattening', 'src/cc/frontend/initializer.c flatten_initializer_multi'), ('run-time initialization', 'src/cc/frontend/initializer.c assign_initial_value'), ('static data emission', 'src/cc/backend/emit_code.c construct_initial_value')],
 LOCK, 'All lists of up to 2 items (3 over a sub-alphabet; all 3 in thorough) for 17 shapes that gcc and clang accept as valid ISO C, each in five storage forms over a dirtied stack, trace-compared.')

prop('C08', 'Macro expansion yields exactly the token sequence the C standard prescribes',
 'For every set of macro definitions (object-like, function-like, variadic) and every text using them, the preprocessor outputs the token sequence that the C rules give: complete argument substitution, # and ## (with empty arguments), no re-expansion of a name inside its own expansion, rescanning with the following source tokens, invocations spanning lines and comments, #undef and redefinition. Tokens that were separate stay separate in the output, and what was expanded earlier has no influence on later expansions.',
 ['inputs', 'histories'], 'all macro bodies up to the length bound over an alphabet of body elements x argument shapes; all pairs of adjacent tokens; all define/undef sequences; all use histories',
 'Expansion is a recursive rewriting process: hide sets, placemarkers, pre-expansion and glueing interact, and the tests have about 60 hand-written cases.',
 ['src/cpp/macro.c', 'src/cpp/pp_parser.c', 'src/cpp/preprocessor.c', 'src/cc/frontend/lexer.c'],
 [('substitution', 'src/cpp/macro.c subst'), ('expansion and rescanning', 'src/cpp/macro.c macro_expand'), ('argument collection', 'src/cpp/pp_parser.c pp_funargs'), ('output', 'src/cpp/preprocessor.c process_line')],
 'bounded-exhaustive enumeration of macro definitions, uses and histories, token-compared with a reference preprocessor', 'About 32000 definition/use texts (all bodies of <=2 elements over the alphabets, thorough <=3), each token sequence compared with gcc -E; inputs gcc rejects are dropped.')

prop('C09', 'Conditional inclusion, file inclusion and line tracking select exactly the text the C standard prescribes',
 'For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif with #define and #undef, exactly the lines of the groups whose conditions hold are kept; nothing in a skipped group has any effect, however malformed. #if expressions evaluate every operator with C precedence in intmax_t, or uintmax_t when an operand is unsigned, with defined, character constants and macros. #include, <> and "", -I, -isystem, -idirafter, #include_next, #pragma once and macro-expanded names find the file the documented search order gives, and an unfindable header is an error. __LINE__, __FILE__ and the emitted line markers attribute every token to its source file and line, after any mix of comments, continuations, macro calls over several lines, skipped groups, includes and #line.',
 ['inputs', 'histories'], 'all operator x value pairs and operator pairs; all balanced directive sequences up to the bound; all placements of a header in 5 directories x option orders x include forms; all pairs of line-affecting constructs',
 'Headers in the wild hit combinations (unsigned arithmetic, garbage in dead groups, header shadowing) that the tests do not list.',
 ['src/cpp/preprocessor.c', 'src/cpp/pp_parser.c', 'src/util/util.c'],
 [('conditional groups', 'src/cpp/preprocessor.c process_directive'), ('#if arithmetic', 'src/cpp/pp_parser.c binary'), ('include search', 'src/cpp/preprocessor.c search_sysinc'), ('line markers', 'src/cpp/preprocessor.c adjust_output_lineno')],
 'bounded-exhaustive enumeration of directive sequences, expressions and header layouts, compared with a reference preprocessor', 'About 51000 texts: token lists compared with gcc -E, header layouts compared including file and line of every token, line attribution compared with a physical-line model.')

prop('C10', 'Every literal has the value and type that C assigns to its spelling',
 'For every integer literal (decimal, octal, hexadecimal, binary, any suffix), character constant, string literal (escapes, concatenation, multibyte characters, wide strings) and floating literal (decimal and hexadecimal), the compiled program sees exactly the value, type and size that the C rules assign, in expressions, in static initializers, as case labels and in #if.',
 ['inputs'], 'boundary integers x spellings x suffixes; every single-character escape; all pairs of string pieces; a grid of floating mantissas x exponents x suffixes',
 'Type selection and escapes depend on value ranges and adjacency; tests sample a few.',
 ['src/cc/frontend/lexer.c', 'src/cc/frontend/parser_expr.c', 'src/cc/backend/emit_code.c', 'src/as/parse_asm.c'],
 [('number scanning', 'src/cc/frontend/lexer.c read_num, read_flonum'), ('literal types', 'src/cc/frontend/parser_expr.c literal'), ('escapes', 'src/cc/frontend/lexer.c backslash'), ('data emission', 'src/cc/backend/emit_code.c')],
 LOCK, 'About 12000 literals in 1300 programs compared with gcc through value, _Generic type code, sizeof, static data. u8/u/U prefixes and multi-character constants are not supported by xcc; long double is double.')

prop('C14', 'The x86-64 assembler encodes every instruction exactly as written',
 'For every mnemonic the assembler accepts and every combination of register, immediate, memory (base, index, scale, displacement, RIP-relative) and branch operands, the emitted bytes decode to the instruction, operand sizes, addresses and immediates that the source line says, and relocations carry the right kind, place and addend; operand combinations that have no encoding are rejected instead of being silently changed.',
 ['inputs'], 'all mnemonics x operand shapes x all registers / boundary immediates / all base x index x scale x displacement classes',
 'The assembler tests encode a few hundred chosen lines; ModRM/SIB/REX special cases depend on particular register and displacement combinations.',
 ['src/as/arch/x64/asm_code.c', 'src/as/arch/x64/parse_x64.c', 'src/as/parse_asm.c'],
 [('encoding', 'src/as/arch/x64/asm_code.c assemble_inst'), ('operand parsing', 'src/as/arch/x64/parse_x64.c')],
 'bounded-exhaustive enumeration of instructions, each decoded back by a reference disassembler/assembler and compared', 'About 150000 instruction lines; assembled bytes and relocations compared with the LLVM assembler after canonical disassembly.')
prop('C15', 'Labels, expressions, sections, alignment and branch relaxation resolve to the right addresses',
 'For every assembly text the object file contains, at every label and in every section, the data and code the text denotes: labels equal their final positions whatever the order of sections and alignments, branches reach their target whichever size is chosen for them (at every distance around the short/long boundary, in chains and with alignment in between), data directives and constant expressions have the written value, symbols have the written binding.',
 ['inputs'], 'all sequences of section switches/labels/data/alignments up to the bound; all branch distances around the limits x interleaved branch patterns; all expression trees up to 2 operators; symbol binding x definition x reference order',
 'Relaxation is a fixed-point computation whose mistakes appear only at exact distances and nestings.',
 ['src/as/as_util.c', 'src/as/parse_asm.c', 'src/as/emit_elf.c', 'src/as/as.c', 'src/as/arch/x64/*'],
 [('relaxation', 'src/as/as_util.c calc_label_address, resolve_relative_address'), ('ELF output', 'src/as/emit_elf.c'), ('expressions', 'src/as/parse_asm.c')],
 'bounded-exhaustive enumeration of assembly texts, objects compared with a reference assembler', 'Section images, symbols and relocations of every enumerated text compared with GNU as.')
prop('C16', 'The linker binds every reference to the right definition and places every section where it is aligned and disjoint',
 'For every set and order of object files and archives: each symbol reference is bound to the definition C and ELF rules select (strong over weak, first archive member that defines a needed symbol, local symbols stay local), duplicate and missing definitions, missing or corrupt inputs are reported with a failing exit status, all and only needed archive members are linked whatever their order and file names, sections of any size and alignment keep contents, alignment and zero-initialised storage, relocations of any kind receive the final address, constructors and destructors run once in order.',
 ['inputs', 'histories'], 'all symbol-kind assignments to 3 objects x link orders x archive/object placement; all member orders/splits of a call chain; all pairs of section size/alignment shapes',
 'Resolution depends on order and combination of inputs; the tests link a couple of files in one order.',
 ['src/ld/ld.c', 'src/util/archive.c', 'src/util/elfutil.c'],
 [('symbol resolution', 'src/ld/ld.c resolve_symbols_elfobj'), ('layout', 'src/ld/ld.c ld_calc_address'), ('relocation', 'src/ld/ld.c resolve_rela_elfobj'), ('archives', 'src/util/archive.c load_archive')],
 'bounded-exhaustive enumeration of link configurations; acceptance and run-time behaviour compared with GNU ld', 'About 5500 configurations linked and run by the tree and by GNU ld; layout pairs run self-checking programs. Weak variables are not supported by the compiler; when several archive members define a symbol and are pulled for other reasons too, the choice is unspecified and excluded.')

LIBT = 'bounded-exhaustive enumeration of calls and call histories, library run in lock-step against a reference C library'
prop('C21', 'The string, memory and character functions compute what C prescribes for every argument',
 'For all strings, byte values (including those above 127), lengths, alignments and overlaps, every function of string.h, strings.h and ctype.h in the tree\'s C library returns the value and writes exactly the bytes that C (or POSIX) prescribes, and nothing outside the destination; natively and as WebAssembly.',
 ['inputs'], 'all strings up to the length bound over three alphabets, all ordered pairs, all counts; memory functions at all alignments x lengths x overlaps; ctype over -1..255',
 'The tests contain almost no test of these functions; errors hide in high bytes, counts that end exactly at the terminator and overlaps.',
 ['libsrc/string/*', 'libsrc/misc/*', 'include/string.h', 'include/ctype.h'],
 [('string functions', 'libsrc/string'), ('character classes', 'include/ctype.h, libsrc/misc')],
 LIBT, 'Every call compared with glibc including result, destination and guard bytes.')
prop('C22', 'Text to number conversion yields the correctly rounded value and the right end position',
 'For every text and base, strtol, strtoul, strtoll, strtoull, atoi, atol, atoll, strtod, strtold and atof in the tree\'s C library return the value that C prescribes (saturated with ERANGE when out of range; floating results correctly rounded, decimal or hexadecimal, inf and nan), set the end pointer to the first unconsumed character and leave errno alone otherwise; natively and as WebAssembly.',
 ['inputs'], 'all strings of length <=3 over 13 significant characters x bases; boundary values x radixes; mantissa x exponent grid including exact halfway points',
 'Ranges, prefixes, rounding and partial matches interact; the tests sample a few well-formed inputs. The compiler itself reads its literals with these functions when self-hosted.',
 ['libsrc/stdlib/strtod.c', 'libsrc/stdlib/_strtoull_sub.c', 'libsrc/stdlib/_parse_sign.c', 'libsrc/stdlib/strtol.c', 'libsrc/stdlib/strtoll.c', 'libsrc/stdlib/strtoul.c', 'libsrc/stdlib/strtoull.c', 'libsrc/stdlib/ato*.c'],
 [('integer scanning', 'libsrc/stdlib/_strtoull_sub.c'), ('floating scanning', 'libsrc/stdlib/strtod.c')],
 LIBT, 'Value, end pointer and errno bit-compared with glibc for every enumerated text; a few subnormal hexadecimal texts that glibc itself misrounds are excluded.')
prop('C23', 'The heap never hands out overlapping, misaligned or lost memory, whatever the allocation history',
 'After every history of malloc, calloc, realloc and free, live blocks are aligned, disjoint and inside the heap, keep their contents (realloc preserves the common prefix, calloc is zeroed), freed memory is reused so repeated histories do not grow the heap without bound, and requests that cannot be satisfied (exhausted, huge, overflowing) return NULL and leave everything else intact; natively and as WebAssembly.',
 ['histories', 'faults'], 'all operation sequences up to the depth bound over 3 blocks and a set of sizes, including under memory limits; every shorter sequence repeated to detect growth',
 'Splitting and coalescing errors need particular orders of operations on neighbouring blocks.',
 ['libsrc/stdlib/malloc.c', 'libsrc/stdlib/calloc.c', 'libsrc/stdlib/realloc.c', 'libsrc/stdlib/_malloc.h', 'libsrc/unistd/sbrk.c'],
 [('free list', 'libsrc/stdlib/malloc.c'), ('growth in place', 'libsrc/stdlib/realloc.c')],
 'explicit-state exploration of the real allocator (process forked at every state) with a shadow-model monitor', 'All reachable histories up to the depth bound explored on the real implementation with invariants evaluated in every state.')
prop('C24', 'A stdio stream transfers exactly the bytes of its file, whatever the sequence of operations and however short the transfers',
 'For every open mode, file length and legal sequence of reads, writes, pushes back, seeks, flushes and closes, a stream of the tree\'s C library returns the data, counts, positions and end-of-file state that C prescribes and leaves exactly the bytes that were written in the file; short reads and writes by the system lose or duplicate nothing and a failing write is reported; memory streams behave alike. Natively and as WebAssembly.',
 ['histories', 'faults'], 'all operation sequences up to the depth bound x modes x lengths around the buffer sizes; every system call in turn short or failing for 14 transfer scripts',
 'Buffer state (position, read-ahead, push-back, end-of-file) depends on the history; the tests write and read one file once and never see a short transfer.',
 ['libsrc/stdio/*', 'libsrc/unistd/*'],
 [('buffering', 'libsrc/stdio/_file.c'), ('memory streams', 'libsrc/stdio/fmemopen.c, open_memstream.c')],
 LIBT + '; system-call faults injected at every point', 'Lock-step with glibc after every operation of every sequence; fault points enumerated by an interposed write/read.')
prop('C25', 'printf and its relatives produce exactly the text C prescribes',
 'For every conversion, flag set, width, precision, length modifier and value, the printf family of the tree\'s C library produces the characters and the return value that C prescribes (floating conversions exactly rounded), consumes its arguments in step with the format, never writes more than the given buffer size and always terminates it, gives the same result for every destination, and reports a failed write; natively and as WebAssembly.',
 ['inputs'], 'all flag subsets x widths x precisions x lengths x conversions x boundary values; all powers of two; all 3-conversion sequences; every buffer size',
 'The cross product of flags, width, precision and value is far larger than the forty formats in the tests; rounding errors appear for particular values only.',
 ['libsrc/stdio/vfprintf.c', 'libsrc/stdio/*printf.c', 'libsrc/stdio/fmemopen.c'],
 [('format interpretation', 'libsrc/stdio/vfprintf.c parse_spec'), ('decimal conversion', 'libsrc/stdio/vfprintf.c to_decimal, round_decimal')],
 LIBT, 'Every call compared with glibc (characters and return value). %a, %n and wide conversions are not provided by the library.')
WT = 'bounded-exhaustive enumeration of programs x inputs compiled by wcc, executed in node in lock-step with a reference compiler'
WF = ['src/wcc/gen_wasm.c', 'src/wcc/gen_wasm_func.c', 'src/wcc/gen_wasm_expr.c', 'src/wcc/traverse.c', 'src/wcc/emit_wasm.c', 'src/wcc/*.c']
prop('C17', 'wcc: integer and floating expressions have exactly the values C specifies (WebAssembly)',
 'For every integer and floating operator, conversion, increment, compound assignment and comparison, on every combination of operand types and for every operand value, a program compiled by wcc computes in a WebAssembly engine the value that C prescribes (including NaN, infinities, signed zeros and wrapping of narrow types), accepts the program, and produces a module the engine validates.',
 ['programs', 'inputs'], 'all operators x type pairs x operand forms x boundary values, integer and IEEE',
 'WebAssembly has only 32/64-bit operations, so narrow types need explicit wrapping after exactly the right operators; the wasm tests reuse the hand-written value tests on small values.',
 WF + ['src/cc/frontend/*.c'], [('expression code', 'src/wcc gen_expr'), ('narrow wrapping and conversions', 'src/wcc gen_cast, gen_arith')], WT,
 'Every (program, input) executed in node; result, observation trace, traps and the shadow stack pointer compared with clang for wasm32.')
prop('C18', 'wcc: control flow and composition of code preserve the meaning of the program (WebAssembly)',
 'For every nesting of if/for/while/do/switch/break/continue/return, every set of case labels and selector, every boolean combination, and every composition of expressions, lvalues, calls, sequences and frames, a program compiled by wcc performs exactly the sequence of observable actions the C program prescribes, in that order, and leaves the shadow stack balanced.',
 ['programs', 'inputs'], 'all statement trees to depth 3; label sets x selectors; boolean trees; expression trees and value permutations as in C03 and C04',
 'Structured blocks, br_table and branch depths depend on nesting; wrong depths show only for particular nestings and paths.',
 WF, [('structured control', 'src/wcc gen_stmt, gen_switch, br depths'), ('shadow stack', 'src/wcc gen_defun')], WT,
 'All programs of the bounded spaces run on all inputs in node against clang for wasm32. goto and labels inside nested statements are not supported by wcc (diagnosed) and are left out.')
prop('C19', 'wcc: objects are laid out, initialised and accessed as C defines (WebAssembly)',
 'For every member list (including bit-fields and nested aggregates), object shape and initialiser, static or automatic, a program compiled by wcc reads from every element what C prescribes, stores to one element never disturb another, and sizes and offsets agree with the wasm32 ABI.',
 ['programs', 'inputs'], 'the layout, access, bit-field and initialiser spaces of C06 and C07 on wasm32',
 'Data segments, alignment and address constants on a 32-bit target differ from the native path and are sampled by few tests.',
 WF + ['src/cc/frontend/initializer.c'], [('data segments', 'src/wcc gen_wasm / emit data'), ('initialisers', 'src/cc/frontend/initializer.c')], WT,
 'Lock-step with clang for wasm32. Initialisers on which native gcc and clang disagree decide nothing and are dropped and counted.')
prop('C20', 'wcc: calls, variadic arguments and structures by value transfer exactly the values passed (WebAssembly)',
 'For every signature of scalars, structures and variadic tails, direct or through a pointer, recursive or nested, functions compiled by wcc receive exactly the argument values that were passed, in order, return exactly the returned value, and leave caller objects and the shadow stack intact.',
 ['programs', 'inputs'], 'all signatures to length 3 over 12 scalar types, long lists, all parameter lists mixing 5 structures with scalars, variadic tails and structure results (as in C05)',
 'Argument placement on the shadow stack depends on the whole parameter list (sizes and alignments).',
 WF, [('calls', 'src/wcc gen_funcall'), ('va_arg', 'include/stdarg.h, src/wcc')], WT,
 'All signatures executed in node; each argument observed bit for bit by callee.')
prop('C11', 'Declarations give identifiers the type, scope, linkage and lifetime C defines',
 'For every declarator, list of specifiers in any order, nesting of scopes, sequence of repeated declarations and definitions at file or block scope, static or automatic lifetime and variable length array, the program compiled by xcc sees for each identifier exactly the entity, type, size and value that C prescribes: types are compatible exactly when C says so (as _Generic, redeclaration and pointer arithmetic show), inner declarations hide outer ones only in their scope, repeated declarations denote one object with its initial value, static objects keep their value and automatic objects are separate per activation.',
 ['programs'], 'all declarators of <=4 derivations x base types; all ordered pairs of 54 types; all orders of specifiers; 9 declaration kinds at 3 nested scopes; all declaration sequences of <=4 for variables, functions, arrays and incomplete types; lifetime and variable length array programs',
 'Declaration handling depends on histories (which declarations came before, in which scope); tests use each form once in the usual order.',
 ['src/cc/frontend/parser.c', 'src/cc/frontend/parser_type.c', 'src/cc/frontend/type.c', 'src/cc/frontend/var.c', 'src/cc/frontend/fe_misc.c'],
 [('declarators', 'src/cc/frontend/parser_type.c parse_declarator'), ('redeclaration', 'src/cc/frontend/fe_misc.c find_var_from_scope, src/cc/frontend/var.c define_global'), ('compatibility', 'src/cc/frontend/type.c same_type')],
 'bounded-exhaustive enumeration of declaration sequences, executed in lock-step against a reference compiler', 'Every enumerated program compiled by both compilers and its observations compared in one process. enum compatibility and sizeof(_Bool) are implementation-defined and not asked.')
prop('C31', 'The driver reports success exactly when every stage succeeded, and then, and only then, leaves complete outputs',
 'For every list of inputs, output mode and way the stages of the pipeline (cpp, cc1, as, ld) can finish - successfully, with an error, killed, not started, unable to write all of their output - and every order in which they finish, xcc terminates with no stage left running; its exit status is 0 exactly when every stage succeeded; on success each output exists, is complete, is named as documented and, for a program, is executable; on failure there is a diagnostic and no partial output is left; inputs, special files at the output path and other files are never modified, and no temporary file remains. No tool (cpp, cc1, as, ld, wcc) exits with success when its output could not be written.',
 ['histories', 'schedules', 'crash_points', 'inputs'], 'all lists of <=2 inputs (3 with <=1 fault) of 20 kinds x 4 modes x -o x existing output; every byte (block) at which an output can be cut off, 11 tool runs; all combinations of 7 x 9 x 7 stage behaviours in all feasible finishing orders',
 'Which process finishes first, dies early or cannot write depends on scheduling, sizes against the pipe buffer and the disk; tests run the pipeline only in the ordinary way on good inputs.',
 ['src/xcc/main.c', 'src/util/util.c', 'src/cpp/cpp.c', 'src/cc/cc1.c', 'src/as/as.c', 'src/as/emit_elf.c', 'src/ld/ld.c', 'src/wcc/wcc.c'],
 [('pipeline', 'src/xcc/main.c compile, compile_csource'), ('output names', 'src/xcc/main.c do_compile'), ('write failures', 'src/util/util.c flush_output')],
 'exhaustive exploration of finishing orders and fault points of the real driver under controlled stub tools, and of all short input lists on the real tools', 'The real driver runs under stub stages gated to finish in each feasible order; a model of the pipes decides feasibility. Output failures are injected with a file-size limit at every byte.')
prop('C12', 'Optimisation with SSA never changes the observable behaviour of a program',
 'For every program, code compiled with --apply-ssa (SSA construction, copy propagation, constant folding of branches, dead code removal, phi resolution) is accepted, assembles and links, and performs exactly the same observable actions with the same values as the C program prescribes, whatever its control-flow graph, loop-carried values, register pressure and reachable or unreachable blocks.',
 ['programs', 'inputs'], 'all control-flow graphs of <=3 blocks over 10 actions and 7 terminators, all loop-carried maps of 3 variables in 8 skeletons, and the program spaces of C01-C04, each on all listed inputs',
 'Phi placement, parallel copies and unreachable code depend on the shape of the whole graph; tests compile ordinary structured programs.',
 ['src/cc/backend/ssa.c', 'src/cc/backend/optimize.c', 'src/cc/backend/ir.c', 'src/cc/backend/codegen.c'],
 [('SSA construction and phi resolution', 'src/cc/backend/ssa.c make_ssa, resolve_phis'), ('copy propagation and folding', 'src/cc/backend/optimize.c copy_propagation, remove_unnecessary_bb')],
 'bounded-exhaustive enumeration of control-flow graphs, executed in lock-step against a reference compiler', 'All graphs compiled with and without SSA and run on all branch patterns of the listed set next to gcc.')
prop('C30', 'The mathematical functions return the correct value, or the correct kind of value, for every argument',
 'For every double, floor, ceil, round, fabs, sqrt, modf, frexp, ldexp, fmod, copysign and the classification functions return exactly what the C standard (with IEEE 754) defines, including signed zeros, subnormals, infinities and NaNs; sin, cos, tan and their inverses, the hyperbolic functions and their inverses, exp, log, log10, log2, pow and atan2 return NaN, an infinity or a sign exactly when C does and otherwise a value within the library accuracy (1e-7 relative; trigonometric functions for arguments up to 1e4); none traps or loops; on x86-64 and WebAssembly alike.',
 ['inputs'], 'every exponent x sign x 12 boundary mantissas (plus every single-bit mantissa around the integers) for one argument; all pairs over 31 exponents x 9 mantissas for fmod; every exponent x 29 shifts for ldexp; all pairs of 59 values x signs for pow and atan2; thorough: 130 mantissas and 140 exponents',
 'Range reduction, subnormals and special values depend on the exponent; tests use a few ordinary values.',
 ['libsrc/math/floor.c', 'libsrc/math/fmod.c', 'libsrc/math/pow.c', 'libsrc/math/exp.c', 'libsrc/math/log.c', 'libsrc/math/ldexp.c', 'libsrc/math/frexp.c', 'libsrc/math/atan2.c', 'include/math.h'],
 [('exact functions', 'libsrc/math floor.c ceil.c round.c modf.c fmod.c frexp.c ldexp.c'), ('transcendental functions', 'libsrc/math exp.c log.c pow.c sin.c atan.c')],
 'exhaustive enumeration of a boundary grid of the double format, in lock-step with the platform library', 'Every point computed natively and in WebAssembly and compared with glibc bit for bit or within the stated accuracy.')
prop('C13', 'The standard headers describe the target exactly',
 'Every limit macro is the actual limit of its type, has that type\'s width and signedness and works in #if; every constant the headers share with the platform (errno, open flags, modes, signals, ELF numbers) has the platform\'s value; fixed-width typedefs have their widths; structures shared with the kernel or with ELF files have the platform layout; wait-status, file-mode and ELF macros give the platform\'s answer for every argument; format macros convert exactly one argument of their type; offsetof and the constants are usable in constant expressions; on x86-64, and for the language limits on WebAssembly.',
 ['inputs', 'programs'], 'every object-like macro of 16 headers; all 65536 wait statuses and modes; every power of two and neighbours for each format macro',
 'A wrong type or sign of a constant shows only in particular comparisons; tests use few of the constants.',
 ['include/limits.h', 'include/stdint.h', 'include/inttypes.h', 'include/float.h', 'include/errno.h', 'include/sys/stat.h', 'include/sys/wait.h', 'include/elf.h'],
 [('limits', 'include/limits.h, include/stdint.h'), ('format macros', 'include/inttypes.h'), ('status macros', 'include/sys/wait.h')],
 'exhaustive enumeration of the header constants and of the domains of the header macros, in lock-step with the platform headers', 'Each macro evaluated by the tree\'s compiler and by gcc.')
prop('C26', 'wcc: the linker binds every reference to the right definition and builds a module that runs as the C program says (WebAssembly)',
 'For every set of objects, archives and libraries, in every order, wcc either links them into a module in which each reference - to a function, by call or by address, to data, across objects or within one - denotes the definition C and the usual linker rules select (strong over weak, static only within its object, archive members only when needed, duplicates and missing definitions diagnosed), function pointers compare equal exactly when they designate the same function and call it with its signature, data of different objects is disjoint, aligned and holds its initial values, and constructors run once, in order, before main; or it fails with a diagnostic and leaves no output.',
 ['programs', 'histories'], 'all assignments of 6 kinds of definition to a symbol in 3 objects x link orders; as archive members x wanted subsets; chains over archive orders and splits; constructor orders; all pairs of 20 data shapes; all 512 address-taking patterns of 3 objects; 1200 pairs of signature subsets; library options',
 'Index renumbering and symbol resolution depend on the combination of files; tests link one or two fixed files.',
 ['src/wcc/wasm_linker.c', 'src/wcc/emit_wasm.c', 'src/wcc/wcc.c', 'src/util/archive.c'],
 [('symbol resolution', 'src/wcc/wasm_linker.c resolve_symbols'), ('renumbering and relocation', 'src/wcc/wasm_linker.c renumber_symbols, apply_relocation'), ('function table', 'src/wcc/wasm_linker.c renumber_indirect_functions'), ('libraries', 'src/wcc/wcc.c search_library')],
 'exhaustive enumeration of small link configurations, linked by wcc and executed under node, in lock-step with the platform linker', 'Every configuration linked and executed on both sides.')
prop('C27', 'A program starts with its arguments, ends with its status, runs every exit handler once and loses no output; long jumps restore the caller',
 'For every argument vector and environment, main receives exactly the strings given; constructors run before main. For every history of atexit registrations (at least 32, also from exit handlers), stream operations, constructors and destructors and every way to end (return from main, exit at any depth), each handler and destructor runs exactly once in the order C prescribes, all buffered output of all streams reaches the files, and the process ends with the given status. For every nesting of functions that call setjmp, in every syntactic form C allows (for wcc: the forms it accepts, within the if statement), and every sequence of longjmp, control returns to the right call with the right value, and every local variable that was not modified keeps its value. Natively and as WebAssembly.',
 ['histories', 'programs', 'inputs'], 'all histories of <=3 actions out of 12 x 5 ways to end; all argument vectors of <=3 of 8 strings; all environments of <=3 of 6 variables; all plans of <=3 long jumps over all nestings to depth 3 of 12 setjmp forms x 5 sets of live locals',
 'Handler order, table limits and register preservation depend on the history and on register pressure; tests register one handler and jump once.',
 ['libsrc/stdlib/exit.c', 'libsrc/stdlib/atexit.c', 'libsrc/stdlib/__cxa_atexit.c', 'libsrc/crt0/_start.c', 'libsrc/_wasm/crt0/*.c', 'libsrc/misc/setjmp.c', 'libsrc/misc/longjmp.c', 'libsrc/stdio/_fileman.c', 'src/wcc/traverse_setjmp.c'],
 [('exit chain', 'libsrc/stdlib/exit.c exit, atexit.c call_atexit_funcs'), ('start-up', 'libsrc/crt0/_start.c start2'), ('jump buffers', 'libsrc/misc/setjmp.c, longjmp.c'), ('variables across setjmp', 'src/cc/backend/codegen.c alloc_variable_registers'), ('wasm exceptions', 'src/wcc/traverse_setjmp.c modify_if_setjmp')],
 LIBT, 'Every history is a process (or module instance) of its own, compared with the same source under glibc: status, standard output and every file.')
prop('C28', 'qsort, bsearch, the random generators, getenv and mkstemp do what C and POSIX define',
 'For every array, element size and consistent comparison function, qsort leaves a sorted permutation of the elements, calls the comparison only with pointers to elements, touches nothing else and uses bounded stack; bsearch returns an element that compares equal exactly when there is one, passing key and element in order; nrand48, erand48, lrand48, drand48 give the POSIX sequences from every state; rand stays in range and repeats after srand; abs, labs, llabs are exact; getenv finds exactly the first variable of that name; mkstemp and mkstemps create a new file named after the template or fail with EINVAL. Natively and as WebAssembly.',
 ['inputs'], 'all arrays of <=6 elements over 4 keys and all permutations of <=7, element sizes 1..40, 5 comparison functions, long patterns; all sorted arrays <=7 x keys x sizes; 343 boundary generator states; all environment vectors of <=4 of 9 strings',
 'Partitioning errors show only for particular arrangements of equal keys and sizes; tests sort one or two arrays.',
 ['libsrc/stdlib/qsort.c', 'libsrc/stdlib/bsearch.c', 'libsrc/stdlib/nrand48.c', 'libsrc/stdlib/lrand48.c', 'libsrc/stdlib/getenv.c', 'libsrc/stdlib/mkstemps.c'],
 [('partition', 'libsrc/stdlib/qsort.c'), ('halving', 'libsrc/stdlib/bsearch.c'), ('linear congruence', 'libsrc/stdlib/nrand48.c'), ('name match', 'libsrc/stdlib/getenv.c')],
 LIBT, 'Sorting and searching are judged by their definition on every array of the bound; the rest in lock-step with glibc.')
prop('C32', 'The POSIX file and process interface (open ... waitpid) behaves as the system interface defines, natively and under WASI',
 'For every history of open (all modes and flags), read, write, lseek, close, dup, pipe2, fstat, stat, lstat, fstatat, mkdir, rmdir, unlink, unlinkat, mkdirat, openat, chmod, fchmodat, chdir, getcwd, isatty, fork, execve, wait and waitpid, every call returns what POSIX specifies: the value on success, -1 with the right errno on failure; structures filled in have the fields the kernel reports; data, sizes, modes and directory contents afterwards are those the history produces. Under WASI the calls offered there succeed or fail exactly when POSIX says and produce the same contents.',
 ['histories'], 'all histories of <=3 (thorough 4) of 44 operations (28 under WASI) from a fresh file system of one file, one directory and one symbolic link; result, errno, data and the complete state after every step',
 'Wrong errno conventions, call numbers, argument registers and structure layouts show only on the failing or unusual call; tests use few calls and mostly their success.',
 ['libsrc/unistd/*.c', 'libsrc/_wasm/unistd/*.c', 'include/fcntl.h', 'include/sys/stat.h'],
 [('system call stubs', 'libsrc/unistd/_syscall.h SYSCALL_RET, SET_ERRNO'), ('status structure', 'include/sys/stat.h, libsrc/_wasm/unistd/_set_stat.c'), ('WASI paths', 'libsrc/_wasm/unistd/open.c'), ('flags', 'include/fcntl.h')],
 LIBT, 'Every history runs against the real kernel (node for WASI) with the tree\'s library and with glibc, from identical fresh directories.')
prop('C33', 'Every input is either translated or diagnosed at its place: no crash, no hang, no silent acceptance of what violates a constraint',
 'For every input text, the compilers, the preprocessor and the assembler end by themselves, with status 0 or with status 1 and a diagnostic; they never crash, hang or run into an assertion. A diagnostic of the compiler names the source file and a line inside the offending text, also under #line. A program that violates a constraint of C (one that the two reference compilers both make a hard error even with warnings off in their lenient mode) draws a diagnostic; a strictly valid program (accepted by both under -std=c11 -pedantic-errors) within the supported language is not rejected, and what the compiler accepts the assembler accepts.',
 ['programs'], 'all token sequences of length <=3 over 32 tokens in 3 contexts; all single-token edits of 21 snippets; all pairs of 51 operand kinds x operators, all operand kinds x casts, initialisations, postfix forms and statements; preprocessor directive and assembler token sequences of length <=3 and 4',
 'A malformed program takes paths no test takes (the error tests are a few dozen fixed programs); a missing constraint check shows only for one combination of operand types.',
 ['src/cc/frontend/parser.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/parser_type.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/type.c', 'src/cpp/preprocessor.c', 'src/as/parse_asm.c'],
 [('diagnostics', 'src/cc/frontend/fe_misc.c parse_error, lexer.c lex_error'), ('assignment compatibility', 'src/cc/frontend/type.c can_cast, fe_misc.c check_assign_err'), ('operand constraints', 'src/cc/frontend/fe_misc.c new_expr_num_bop, new_expr_addsub, new_expr_cmp'), ('statement constraints', 'src/cc/frontend/parser.c')],
 'exhaustive enumeration of bounded token sequences and operand combinations, each translated by the tree, verdicts compared with two reference compilers', 'Every text is run through the tree\'s own tools; the verdicts of clang and gcc on the same text decide where they differ.')

prop('C29', 'The toolchain reproduces itself, and the output of every tool is a function of its inputs',
 'For every input, each tool (preprocessor, compiler, assembler, linker, WebAssembly compiler) writes the same bytes and the same diagnostics whichever compiler it was built with - gcc at -O0 and -O2, clang, and the toolchain itself over two generations, with and without the SSA passes, wcc also as the WebAssembly module it makes of itself - and whatever the environment is: address-space layout, environment variables, locale, working directory, allocation pattern. In particular a self-compiled toolchain is a fixed point.',
 ['inputs', 'histories'], 'all stages of the toolchain on every source of the repository (tools, library, examples, tests) and packs of all generated families x 8 builds of the tool x 7 environments, two link orders, two optimisation levels',
 'The self-hosting test compares generations 2 and 3 of the tools on their own sources once; a pointer-ordered traversal, an uninitialised byte, a host-dependent overflow or a miscompilation that the compiler itself does not exercise stays invisible.',
 ['src/cc/backend', 'src/cc/frontend', 'src/as', 'src/ld', 'src/wcc', 'src/util/table.c', 'Makefile'],
 [('self-hosting', 'Makefile gen2, gen3, wcc-self-hosting'), ('containers', 'src/util/table.c'), ('emission', 'src/cc/backend/emit_code.c, src/as/emit_elf.c')],
 'exhaustive exploration of the configuration space (builder x generation x environment) for every bounded input, all executions compared byte for byte', 'All configurations of all inputs are executed; one differing byte, status or diagnostic line is a violation.')

prop('C34', 'Command-line options have their documented effect in every order, spelling and combination',
 'For every sequence of options of the compiler drivers, placed before or after the source files, the effect is the documented one: -D (objects, functions, with and without value, later definitions winning), -I / -isystem / -idirafter search orders among themselves and against the standard include directory, -C, -E, -W and -Wno- switches and -Werror, -fcommon, -L and -l search, -nostdlib, -nodefaultlibs, -Wl, -Xlinker, -std, -O, -g, -x; for wcc also -e, --entry-point, --stack-size, --import-module-name. An option never consumes, drops or reorders another word of the command line, and an invalid value is an error with a message.',
 ['inputs', 'histories'], 'all sequences of up to 2 (thorough: 3) options over per-purpose option alphabets, on both sides of the source file, for xcc and wcc',
 'Tests use each option in a handful of fixed command lines; that one option swallows, negates or outranks another shows only for a particular pair in a particular order.',
 ['src/xcc/main.c', 'src/wcc/wcc.c', 'src/cpp/cpp.c', 'src/cpp/preprocessor.c', 'src/cc/cc1.c', 'src/util/util.c'],
 [('driver options', 'src/xcc/main.c parse_options'), ('wcc options', 'src/wcc/wcc.c parse_options'), ('option parsing', 'src/util/util.c optparse'), ('include search', 'src/cpp/preprocessor.c add_inc_path'), ('predefined macros', 'src/cpp/preprocessor.c define_macro')],
 'exhaustive enumeration of option sequences up to a depth, each executed on the real drivers and compared with the reference driver or a small model of the option', 'All sequences within the bound are run; preprocessed tokens, program behaviour, warnings, statuses and module exports are compared.')
