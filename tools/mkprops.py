#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements stay readable and reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

RUN = ["output and exit status of the program assembled and linked from the compiler's assembly"]
p("C01", "Integer expressions evaluate to the values C17 prescribes",
  "For every program without undefined behaviour, an integer expression built from any integer types (_Bool, char, short, int, long, long long, their unsigned forms, enumerations) and any operators (arithmetic, bitwise, shift, relational, logical, conditional, comma, cast, assignment, compound assignment, increment and decrement) yields, in the compiled program, exactly the value C17 gives it on an LP64 two's-complement target, and leaves exactly the prescribed values in the objects it modifies. This covers integer promotions, the usual arithmetic conversions, truncation and sign extension on conversion, and every boundary value.",
  ["programs", "inputs"], "every well-defined integer expression over every combination of operand types, operand values and nesting",
  "The end-to-end and system tests fix a few dozen operand/type/operator combinations; the space is the product of 11 types, about 30 operators, nesting and boundary values.",
  ["source/ast-translator/nodes/binary_operation.c", "source/ast-translator/nodes/unary_operation.c", "source/ast-translator/nodes/assignment_operator.c", "source/ast-translator/typeconv.c", "source/ast/type_conv.c", "source/ast/analyzer/nodes/binary_operation.c", "source/runtime/amd64_sysv.s"],
  [("usual arithmetic conversions", "source/ast/type_conv.c"), ("value conversion and normalisation after each operation", "source/ast-translator/typeconv.c"), ("threaded-code integer opcodes", "source/runtime/amd64_sysv.s")], RUN)
p("C02", "Floating-point arithmetic and conversions are bit-exact",
  "For every program without undefined behaviour, operations on float, double and long double (arithmetic, negation, comparison, logical tests, assignment, compound assignment, increment, decrement), including signed zeros, subnormals, infinities and NaNs, give bit-for-bit the result of the platform's arithmetic for the type of the expression. Every conversion among integer and floating types, explicit or implicit, gives the value C17 and the platform prescribe.",
  ["programs", "inputs"], "every well-defined expression over the three floating types mixed with all integer types, and every operand value including special values",
  "Tests use a handful of ordinary finite operands; special values, unsigned 64-bit conversions and mixed-type compound assignments are not reached.",
  ["source/ast-translator/typeconv.c", "source/ast-translator/nodes/binary_operation.c", "source/ast-translator/nodes/unary_operation.c", "source/runtime/amd64_sysv.s", "source/ast-translator/temporaries.c"],
  [("per-type float opcodes", "source/runtime/amd64_sysv.s"), ("float/integer conversion selection", "source/ast-translator/typeconv.c"), ("long double temporaries", "source/ast-translator/temporaries.c")], RUN)
p("C03", "Statements execute in exactly the order C17 prescribes",
  "For every program without undefined behaviour, the sequence of side effects produced by arbitrarily nested if/else, switch (with any case values, fall-through, default anywhere, interleaved blocks), while, do, for, goto, labels, break, continue, return, &&, ||, ?: and comma is exactly the sequence C17 prescribes. Operands that must not be evaluated are not evaluated and every jump lands on its target with all live variables intact.",
  ["programs"], "every nesting of control-flow constructs and every run-time path through it",
  "Tests contain single instances of each construct; interactions (continue inside switch inside do, default in the middle, goto into and out of nested blocks) are unbounded.",
  ["source/ast/flow_control.c", "source/ast-translator/flow_control.c", "source/ast-translator/jump.c", "source/ast-translator/nodes/switch_statement.c", "source/ast-translator/nodes/for_statement.c", "source/ast-translator/nodes/do_while_statement.c", "source/ast-translator/nodes/conditional_operator.c"],
  [("flow-control tree resolving break/continue/case/goto", "source/ast/flow_control.c"), ("jump translation", "source/ast-translator/jump.c")], RUN)
p("C04", "Pointers, arrays, structures and unions behave as C17 objects",
  "For every program without undefined behaviour, reading and writing through any lvalue path (nested members, array subscripts in any dimension, pointer arithmetic and difference, pointer comparison, address-of and dereference, unions, whole-structure assignment, structures passed and returned by value) reads or changes exactly the bytes of the designated object. Every other object keeps its value.",
  ["programs", "histories"], "every aggregate type, every access path into it and every sequence of reads, writes and copies",
  "Tests use a few fixed aggregates; element sizes 1..n, nested paths and copies of arbitrary size form an unbounded family.",
  ["source/ast-translator/lvalue.c", "source/ast-translator/value.c", "source/ast-translator/nodes/array_subscript.c", "source/ast-translator/nodes/struct_member.c", "source/ast-translator/nodes/assignment_operator.c", "source/runtime/amd64_sysv.s"],
  [("element-pointer and member-offset computation", "source/codegen/amd64/system-v/instr.c"), ("load/store width selection", "source/ast-translator/value.c"), ("block copy", "source/runtime/amd64_sysv.s")], RUN)
p("C05", "Bit-fields hold their own bits and never disturb neighbours",
  "For every structure or union with bit-fields of any declared integer type, width and order, reading a bit-field gives the value last stored in it (truncated to its width, sign-extended if signed), and storing, compound-assigning, incrementing or decrementing it changes no bit of any other member. The bits are the ones the System V ABI assigns, so objects can be exchanged with code from other compilers.",
  ["programs", "histories"], "every bit-field structure and every sequence of member updates",
  "Tests cover a few widths; the type x width x position x neighbour space (including 3, 5, 6 and 7 byte accesses) is far larger.",
  ["source/codegen/amd64/system-v/bitfields.c", "source/ast-translator/value.c", "source/ast-translator/nodes/assignment_operator.c", "source/ast-translator/nodes/unary_operation.c", "source/runtime/amd64_sysv.s"],
  [("bit-field allocation", "source/codegen/amd64/system-v/bitfields.c"), ("bit extraction and insertion opcodes", "source/runtime/amd64_sysv.s"), ("partial-width loads and stores", "source/ast-translator/value.c")],
  RUN + ["raw bytes of the structure"])
p("C06", "Type sizes, alignments and member offsets follow the System V ABI",
  "For every complete object type a program can declare (scalars, enumerations, pointers, arrays, nested and anonymous structures and unions, bit-fields, _Alignas, flexible array members), sizeof, _Alignof and the offset of each member equal those of the platform's System V AMD64 compilers. Objects of the type are placed at addresses satisfying that alignment.",
  ["programs"], "every type definable in C17 (without complex and atomics)",
  "Unit tests check some fixed types; padding, tail padding, anonymous members, alignas and bit-field interplay are unbounded.",
  ["source/codegen/amd64/system-v/abi/data_layout.c", "source/codegen/amd64/system-v/bitfields.c", "source/ast/type_layout.c", "source/ast-translator/type_translate.c", "source/ast/type/struct.c"],
  [("ABI data layout", "source/codegen/amd64/system-v/abi/data_layout.c"), ("AST type layout", "source/ast-translator/layout.c")],
  ["values of sizeof/_Alignof/offsetof in compiled programs", "member addresses exchanged with gcc-compiled code"])
p("C07", "Calls interoperate with the platform compiler in both directions",
  "For every non-variadic function type, a call from code compiled by kefir to code compiled by the platform compiler, and the reverse, passes every argument and the return value intact, whatever the mix of integer, pointer, float, double, long double, structure and union parameters and however many spill to the stack. The call preserves the callee-saved registers and stack alignment the ABI requires.",
  ["programs", "inputs"], "every function signature and every argument value, in both call directions",
  "Tests use fixed signatures; eightbyte classification combined with register exhaustion yields an unbounded family of signatures.",
  ["source/codegen/amd64/system-v/abi/qwords.c", "source/codegen/amd64/system-v/abi/registers.c", "source/codegen/amd64/system-v/abi/invoke.c", "source/codegen/amd64/system-v/abi/prologue.c", "source/codegen/amd64/system-v/abi/epilogue.c", "source/ast-translator/nodes/function_call.c"],
  [("eightbyte classification", "source/codegen/amd64/system-v/abi/registers.c"), ("argument marshalling", "source/codegen/amd64/system-v/abi/invoke.c"), ("prologue/epilogue", "source/codegen/amd64/system-v/abi/prologue.c")],
  ["argument and return values observed on both sides of a kefir/gcc call"])
p("C08", "Variadic calls and va_arg deliver every argument unchanged",
  "For every variadic function and every list of arguments (integers, pointers, float promoted to double, long double, structures and unions of any class), the callee reads with va_arg exactly the values passed, in order, whichever of the two compilers built the caller, the callee and a function the va_list is handed to. va_copy yields an independent cursor and passing a va_list on continues from where it stands.",
  ["programs", "inputs"], "every argument list, every split between named and variadic parameters, every va_list hand-over",
  "Tests cover three fixed variadic functions.",
  ["source/codegen/amd64/system-v/abi/vararg.c", "source/codegen/amd64/system-v/abi/builtins/vararg.c", "source/ast-translator/nodes/builtin.c", "source/runtime/amd64_sysv.s", "source/codegen/amd64/system-v/abi/invoke.c"],
  [("va_arg by class", "source/codegen/amd64/system-v/abi/vararg.c"), ("register save area", "source/runtime/amd64_sysv.s")],
  ["values read with va_arg on either side"])
p("C09", "Objects with static storage start with exactly their initial value",
  "Every object with static storage duration (file scope, block-scope static, compound literal at file scope, string literal; zero-initialised, brace-initialised, designated, nested, partially initialised, with strings, addresses with offsets, function pointers, bit-fields, unions, floating values) holds, before the first statement of main executes, the value C17 prescribes for its initialiser. All members not mentioned are zero.",
  ["programs"], "every type and every constant initialiser for it",
  "Tests contain a few fixed initialisers; designator sequences, overrides, brace elision and address constants nest without bound.",
  ["source/ast-translator/scope/data_initializer.c", "source/ast/initializer_traversal.c", "source/ast/analyzer/initializer.c", "source/ir/data.c", "source/codegen/amd64/system-v/abi/static_data.c", "source/ast/constant_expression"],
  [("initialiser traversal", "source/ast/initializer_traversal.c"), ("static data emission", "source/codegen/amd64/system-v/abi/static_data.c")],
  ["member values and addresses of static objects read at program start by gcc-compiled code"])
p("C10", "Automatic initialisation stores exactly the values C17 prescribes",
  "Every automatic object and block-scope compound literal with an initialiser (scalar, brace-enclosed, designated with any nesting and order, brace elision, strings, structure-valued expressions, non-constant elements) holds, right after its declaration or evaluation, the value C17 prescribes, with every member not mentioned equal to zero. This holds each time control passes the declaration, whatever the memory held before.",
  ["programs", "histories"], "every type, every initialiser shape, every repeated execution of the declaration",
  "Tests use a few fixed initialisers on fresh stack memory.",
  ["source/ast-translator/initializer.c", "source/ast/initializer_traversal.c", "source/ast/analyzer/type_traversal.c", "source/ast/analyzer/initializer.c", "source/ast-translator/nodes/compound_literal.c"],
  [("initialiser traversal shared with static data", "source/ast/initializer_traversal.c"), ("zero fill of unmentioned members", "source/ast-translator/initializer.c")],
  ["member values read after initialisation on dirtied stack memory"])
p("C11", "Constant expressions mean the same at compile time and at run time",
  "Every constant expression (integer, floating, address) that the program places where a constant is required (array bound, enumerator, case label, bit-field width, _Static_assert, _Alignas, static initialiser) has exactly the value C17 gives it, which is the value the same expression has when evaluated at run time. This includes sizeof, _Alignof, casts, enumerators, character constants, conditional and logical operators.",
  ["programs"], "every constant expression and every position that needs one",
  "Unit tests enumerate a few constant expressions, with no boundary or mixed-signedness families.",
  ["source/ast/constant_expression", "source/ast/analyzer/constant_expression.c", "source/ast-translator/scope/data_initializer.c"],
  [("AST constant evaluator", "source/ast/constant_expression/binary_operation.c")],
  ["array sizes, enumerator values, case selection, static values in compiled programs"])
p("C12", "Macro expansion yields the token sequence C17 prescribes",
  "For every set of object-like and function-like macro definitions and every invocation (nested, recursive, with empty, parenthesised or multi-line arguments, __VA_ARGS__, # and ##, rescanning that picks up following text), preprocessing yields the token sequence C17 prescribes, the same one the platform compiler's preprocessor yields. Expansion always terminates.",
  ["inputs"], "every macro program whose expansion C17 fully specifies",
  "Integration tests contain fixed macro files; expansion is a rewriting system with unboundedly many interactions.",
  ["source/preprocessor/user_macro.c", "source/preprocessor/substitutions.c", "source/preprocessor/token_sequence.c", "source/preprocessor/macro_scope.c", "source/preprocessor/format.c"],
  [("substitution with rescanning", "source/preprocessor/substitutions.c"), ("token sequence tracking macros in progress", "source/preprocessor/token_sequence.c")],
  ["tokens printed by --preprocess", "tokens of --dump-tokens"])
p("C13", "Conditional inclusion, includes and line control select the right text",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif with any controlling expression (intmax_t/uintmax_t arithmetic, defined, character constants, macros, short-circuiting), exactly the groups C17 selects are processed, and skipped groups have no effect. #include resolves to the file the quote/bracket search order prescribes, #define/#undef/#error/#line take effect from their position on, and __LINE__, __FILE__ and the other predefined macros have their prescribed values.",
  ["inputs", "configurations"], "every directive program, include graph and include-path configuration",
  "Tests include a few files; nesting, expression values and include-path orders are unbounded.",
  ["source/preprocessor/preprocessor.c", "source/preprocessor/directives.c", "source/preprocessor/predefined_macro.c", "source/cli/filesystem_source.c", "source/preprocessor/ast_context.c"],
  [("directive interpreter", "source/preprocessor/preprocessor.c"), ("#if evaluation through the AST constant evaluator", "source/preprocessor/preprocessor.c"), ("include search", "source/cli/filesystem_source.c")],
  ["tokens printed by --preprocess", "exit status"])
p("C14", "Tokens and literals are recognised with their exact value and type",
  "For every source text, the lexer splits it by maximal munch into the tokens C17 prescribes: integer constants get the value and the type their base, magnitude and suffix demand, floating constants the correctly rounded value and type, character constants and string literals (all prefixes, escape sequences, concatenation) their exact element values. Line splices, comments, digraphs and whitespace separate or join tokens exactly as C17 says.",
  ["inputs"], "every spelling of every token and every juxtaposition of tokens",
  "Tests enumerate a few spellings per token class.",
  ["source/lexer/lexer.c", "source/lexer/tokens", "source/lexer/source_cursor.c", "source/preprocessor/convert.c", "source/preprocessor/tokenizer.c", "source/ast/nodes/constant.c", "source/parser/rules/string_literal.c"],
  [("token scanners", "source/lexer/tokens"), ("string literal concatenation", "source/lexer/tokens/string_literal")],
  ["literal values and _Generic types in compiled programs", "--dump-tokens output"])
p("C15", "Any input is compiled or rejected cleanly",
  "Whatever bytes the input file contains and whatever combination of supported options is given, the compiler terminates with exit status 0 and output, or with a non-zero status and a diagnostic. It never crashes, never reads or writes memory outside its objects, and never executes undefined behaviour.",
  ["inputs", "configurations"], "every input byte sequence and option set",
  "Tests only feed valid programs; malformed inputs are an unbounded space.",
  ["source/lexer", "source/preprocessor", "source/parser", "source/ast", "source/ast-translator", "source/codegen", "source/main/main.c"],
  [("error propagation by result codes", "headers/kefir/core/util.h")],
  ["exit status, stderr, AddressSanitizer/UBSan reports of the compiler"])
p("C16", "Memory is released on every path, including allocation failure",
  "When the compiler library is driven with an allocator that fails at any chosen allocation, every compilation entry point returns an error instead of crashing or reporting success with wrong output. In that case, after any compile error and after success, releasing the contexts returns every allocated block exactly once.",
  ["fault_sequences", "inputs"], "every input program and every allocation index at which the allocator starts to fail",
  "Valgrind in the test suite sees only successful compilations with no failing allocation.",
  ["source/core", "source/compiler/compiler.c", "source/preprocessor", "source/parser", "source/ast", "source/ast-translator", "source/codegen"],
  [("explicit allocator argument and unwind-on-error code", "headers/kefir/core/mem.h")],
  ["allocator bookkeeping (outstanding blocks, double frees)", "result codes", "AddressSanitizer reports"])
p("C17", "Programs that violate a C17 constraint are rejected with a diagnostic",
  "For every otherwise valid program into which one constraint or syntax violation is introduced (type errors in operators, calls, assignments, initialisers and returns; undeclared or conflicting declarations; misplaced labels, case, break and continue; invalid declarators, bit-fields, sizes, qualifiers and storage classes), the compiler exits with non-zero status, prints a diagnostic that names the file and a line at or next to the violation, and emits no assembly for it. The unmodified program is accepted.",
  ["programs"], "every valid program and every constraint violation of the listed kinds inserted at any place",
  "Tests check a few rejections at unit level on hand-built AST nodes.",
  ["source/ast/analyzer", "source/parser", "source/ast/scope.c", "source/ast/local_context.c", "source/ast/global_context.c", "source/ast/flow_control.c", "source/core/error_format.c"],
  [("semantic analysis", "source/ast/analyzer"), ("source error reporting", "source/core/source_error.c")],
  ["exit status and stderr (tabular and JSON) of the compiler"])
p("C18", "Output depends only on the token sequence and options",
  "Compiling the same program again gives byte-identical output, wherever the process is loaded, whatever its environment (apart from the character encoding of its locale), and whether the source comes from a file or standard input and the output goes to a file or standard output. Rewriting the source without changing its tokens (whitespace, comments, line splices, digraphs, or replacing it by the compiler's own preprocessed output) leaves the generated assembly unchanged.",
  ["programs", "configurations"], "every program and every token-preserving rewriting or invocation variant of it",
  "The asmgen tests compare a fixed handful of outputs.",
  ["source/main/main.c", "source/preprocessor/format.c", "source/preprocessor/tokenizer.c", "source/lexer/tokens/whitespace.c", "source/ir/module.c", "source/codegen/amd64"],
  [("deterministic traversal of symbol structures", "source/core/hashtree.c"), ("preprocessed-output printer", "source/preprocessor/format.c")],
  ["bytes of the generated assembly and dumps"])
p("C19", "Token, AST and IR dumps are well-formed and describe the program",
  "For every accepted program, each JSON dump (tokens, AST, IR, with or without detailed output) is one well-formed JSON document, whatever characters its literals and identifiers contain. The token dump lists exactly the program's tokens with their values, and the AST and IR dumps list exactly the functions and objects the program defines. The AST dump describes the whole program: written out as C again (floating constants, which it prints to six decimals, aside) it compiles to the same code.",
  ["programs"], "every accepted program",
  "Integration tests compare fixed dumps of fixed inputs.",
  ["source/util/json.c", "source/lexer/format.c", "source/ast/format.c", "source/ir/format.c"],
  [("JSON writer with escaping", "source/util/json.c")], ["stdout of --dump-tokens, --dump-ast, --dump-ir"])
p("C20", "Language extensions are off by default and exact when enabled",
  "Each optional feature the help text lists changes acceptance of exactly the construct it names: by default (or with the --no- form given last) a program using the construct is rejected, and with the feature enabled it is accepted and behaves as the platform compiler's extension does. Enabling features leaves the code generated for programs that do not use them unchanged.",
  ["programs", "configurations"], "every program and every subset of feature switches",
  "End-to-end tests enable three features on three programs.",
  ["source/cli/options.c", "source/main/main.c", "source/parser", "source/ast/analyzer", "source/ast-translator/nodes/statement_expression.c", "source/ast-translator/nodes/label_address.c"],
  [("feature configuration structures", "source/main/main.c")], ["exit status and generated assembly per feature set", "behaviour of compiled programs"])
p("C21", "Variable-length arrays and alloca are sized and released correctly",
  "For every program using variable-length arrays, variably modified types or alloca, each object has the run-time size its bounds had when its declaration was reached, element addresses and sizeof follow from it, and no two live objects overlap. Leaving a block in any way (end, break, continue, goto, return) releases the block's arrays without disturbing any other object, so loops run in bounded stack.",
  ["programs", "histories"], "every set of run-time bounds, nesting of scopes and way of leaving them",
  "Six small VLA tests with fixed bounds.",
  ["source/ast-translator/scope/local_scope_layout.c", "source/ast-translator/declaration_translator.c", "source/ast-translator/jump.c", "source/ast-translator/nodes/compound_statement.c", "source/runtime/amd64_sysv.s", "source/ast/flow_control.c"],
  [("VLA storage in scopes", "source/ast-translator/scope/translator.c"), ("pushscope/popscope opcodes", "source/runtime/amd64_sysv.s")], RUN)
p("C22", "Names denote the declared entity across scopes and translation units",
  "For every set of translation units, each use of an identifier denotes the declaration C17 scoping and linkage rules select: shadowing in nested blocks, prototype and file scopes, separate name spaces for tags, members and labels, extern and static linkage, tentative and repeated declarations, block-scope extern, typedef names hidden by objects. Objects have the storage duration that goes with it (static locals persist, automatic objects are per activation, thread-local objects per thread), also when units are compiled by different compilers.",
  ["programs", "histories"], "every arrangement of declarations in nested scopes and linked units",
  "Tests contain isolated cases of shadowing, linkage and thread-locals.",
  ["source/ast/scope.c", "source/ast/local_context.c", "source/ast/global_context.c", "source/parser/scope.c", "source/ast-translator/scope", "source/codegen/amd64/system-v/abi/tls.c"],
  [("block-structured scopes", "source/ast/local_context.c"), ("linkage resolution", "source/ast/global_context.c")], RUN)
p("C23", "Every declaration and expression has the type C17 gives it",
  "For every declarator (any nesting of pointers, arrays and functions, qualifiers, typedefs, tags, any order of specifiers) the declared entity has exactly the type C17 prescribes, and for every operator the result has the prescribed type, as shown by _Generic, sizeof and acceptance of redeclarations. Compatible types are accepted and incompatible ones rejected wherever compatibility is required.",
  ["programs"], "every declarator, every expression and every pair of types",
  "Unit tests enumerate a few declarators and type pairs.",
  ["source/ast/analyzer/declarator.c", "source/ast/type.c", "source/ast/type", "source/ast/analyzer/nodes", "source/ast/constant_expression/generic_selection.c", "source/parser/rules/declarator.c", "source/parser/rules/declaration_specifier.c"],
  [("declarator analysis", "source/ast/analyzer/declarator.c"), ("type compatibility and composite types", "source/ast/type")],
  ["_Generic selections in compiled programs, accept/reject verdicts"])
p("C24", "Core containers behave like their abstract data types",
  "For every sequence of operations the containers of the core library (hash tree, list, vector, linked stack, tree, trie, block tree, string buffer, symbol table, token buffer) return what the abstract map, sequence, stack, tree or set returns after the same sequence. Removal callbacks run exactly once per removed element, iteration visits exactly the live elements in the specified order, and failed operations leave the contents unchanged.",
  ["histories", "fault_sequences"], "every sequence of insertions, lookups, deletions, iterations and failed allocations",
  "There are no unit tests for the core containers.",
  ["source/core/hashtree.c", "source/core/list.c", "source/core/vector.c", "source/core/linked_stack.c", "source/core/tree.c", "source/core/trie.c", "source/core/block_tree.c", "source/core/string_buffer.c", "source/core/symbol_table.c", "source/lexer/token_buffer.c"],
  [("AVL-balanced hash tree", "source/core/hashtree.c"), ("growable buffers", "source/core/string_buffer.c")],
  ["return codes and contents through the public container functions"])
p("C25", "The compiler compiled by itself is the same compiler",
  "When kefir compiles its own sources, the resulting compiler behaves on every input like the one built by the platform compiler: the same assembly, dumps, diagnostics and exit status, byte for byte.",
  ["inputs", "programs"], "every input given to both compilers",
  "The bootstrap is not part of the test suite and only compares the compiler's own sources.",
  ["bootstrap.mk", "source", "headers"],
  [("two-stage bootstrap", "bootstrap.mk")], ["stdout, stderr and exit status of both compilers"])
p("C26", "Command-line options take effect exactly as documented",
  "For every command line, each documented option has its documented effect in its short and long forms, later occurrences of an option override earlier ones, -D, -I and --include take effect in command-line order, and the requested action is the one performed. Unknown options, missing arguments, contradictory actions, unreadable inputs and unwritable outputs are reported with non-zero status.",
  ["configurations"], "every sequence of documented options and operands",
  "The unit test parses a dozen fixed argument vectors.",
  ["source/cli/options.c", "source/main/main.c", "source/cli/input.c", "source/cli/filesystem_source.c"],
  [("option table and getopt loop", "source/cli/options.c")], ["exit status, stdout, stderr, output files of the compiler"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
