"""Definitions of the properties and of how each is decided."""

TECHNIQUE = ("contracts on the real functions, discharged by Kani (CBMC/SAT) over their full input "
             "domain; the same contracts run natively as a bounded search")

NOTES = ("Proved contracts are counted separately from bounded ones in each evidence file. "
         "See DESIGN.md for what each contract says and what is left out.")

TRUSTED = [
    "Kani 0.68 (translation of MIR to GOTO) and CBMC 6.11 with CaDiCaL",
    "rustc's MIR generation and the Rust standard library as compiled by Kani",
    "the contracts in /verif/contracts, which are read as the specification",
    "the guarded hooks in /repo (core/src/verif.rs, core/src/vm/verif.rs, std/src/verif.rs), which only forward calls to private items",
]

ASSUMPTIONS = [
    "the dispatch from an encoded instruction to the function that implements it, the parser and the compiler are only "
    "exercised by the bounded whole-program contracts (see `bounded_executions`), never proved",
    "Kani proves the absence of panics and the stated postconditions, not termination",
    "contracts under `bounded_contracts` and `bounded_executions` hold only up to the bounds stated in their source",
]

VM = "core/src/vm/context.rs"

# What is common to the properties that Verus decides in part.
VERUS_TECHNIQUE = ("contracts with loop invariants and lemmas on functions extracted from /repo, discharged by Verus (Z3); contracts on the "
                   "real functions discharged by Kani (CBMC/SAT); the same contracts run natively as a bounded search")

VERUS_ONLY_TECHNIQUE = ("contracts with loop invariants and lemmas on functions extracted from /repo, discharged by Verus (Z3); contracts on whole "
                        "programs run natively as a bounded search")

VERUS_TRUSTED = [
    "Verus 0.2026.09.13 with Z3 and its specifications of the standard library, and the extraction of functions in /verif/verus/verus_run.py "
    "with the substitutions listed in the evidence",
]

PROCESSOR_TRUSTED = [
    "in the contracts of Verus: decoders of instructions are uninterpreted functions with the types of the invocations of `instr!` (Kani proves them under P05); "
    "the arithmetic of doubles and the text of errors are unspecified; assumed contracts of slice::fill, Option::copied, i32::checked_neg, the concatenation of String and &str",
    "in the contracts of Verus: usize has 64 bits, the limit of the stack of calls is at most 2^24, the program at most 2^48 instructions, and a panic is not excluded where the compiler "
    "guarantees the types of operands (stated as preconditions)",
]

# Planted bugs that the checks do not catch.
MISSED = []

PROPERTIES = [
    {
        "id": "P01",
        "title": "Integer arithmetic is exact or reports an error",
        "statement": "For any two 32-bit integers, the operators +, -, *, /, MOD, ^ and unary minus either produce the exact "
                     "mathematical result (with division truncating towards zero and the remainder taking the sign of the dividend) "
                     "or, when that result is undefined or does not fit in 32 bits, raise a runtime error at the offending operation. "
                     "They never wrap around, crash the interpreter, modify their operands, or store a value after failing.",
        "over": ["inputs", "programs"],
        "quantifier": "all pairs of 32-bit integers, all operators, and all ways to provide the operands (literals, variables of any scope, array elements, parameters)",
        "why": "The tests evaluate a few dozen sample expressions; wrap-around and asymmetric corner cases such as MIN / -1 only show for specific operands out of 2^64 pairs.",
        "files": [VM, "core/src/compiler/exprs.rs"],
        "mechanism": [("checked integer operations", VM + ": checked_*_integer, do_binary_integer_op, do_power_integer, do_negate_integer"),
                      ("operand compilation", "core/src/compiler/exprs.rs")],
        "observe": ["value produced by an expression", "runtime error reported to the user"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_add_integer", "Context::do_subtract_integer", "Context::do_multiply_integer", "Context::do_divide_integer",
                      "Context::do_modulo_integer", "Context::do_negate_integer", "Context::do_power_integer", "Context::do_binary_integer_op",
                      "checked_{add,sub,mul,div,mod,pow}_integer"],
        "verus": "Verus proves for all operands that every instruction of integer arithmetic gives the exact result or fails without effect, with truncating division, and powers of any exponent.",
        "note": "Kani proves on the compiled code that +, -, *, negation are exact or fail with the right error and frame, that /, MOD fail exactly in the two undefined cases, and that negative exponents are rejected. How expressions compile to these instructions is searched natively.",
        "trusted": ["i32::overflowing_mul (quick tier of the multiplication contract)", "std::fmt::format stubbed in the contracts on ^"],
        "assumptions": ["i32::checked_pow and i32::checked_neg behave as documented (contract of Verus)"],
    },
    {
        "id": "P02",
        "title": "Bitwise, logical and shift operators follow two's complement semantics",
        "statement": "For any integers, AND, OR, XOR and NOT produce the bit-by-bit result on their 32-bit two's complement representation, and on "
                     "booleans they produce the logical result. Shifting left fills with zeros and shifting right replicates the sign, for any "
                     "non-negative number of bits including 32 or more, and a negative number of bits is a runtime error that leaves all variables unchanged.",
        "over": ["inputs", "programs"],
        "quantifier": "all pairs of 32-bit integers or booleans, all operators, and all ways to provide the operands",
        "why": "The tests try a handful of constants; wrong sign handling or shift counts at and beyond the word size only show for specific pairs.",
        "files": [VM, "core/src/compiler/exprs.rs"],
        "mechanism": [("bitwise and shift instructions", VM + ": checked_{and,or,xor,shl,shr}_integer, do_bitwise_not"),
                      ("boolean operators", "core/src/compiler/exprs.rs")],
        "observe": ["value produced by an expression", "runtime error reported to the user"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_bitwise_and", "Context::do_bitwise_or", "Context::do_bitwise_xor", "Context::do_bitwise_not",
                      "Context::do_shift_left", "Context::do_shift_right", "checked_{and,or,xor,shl,shr}_integer"],
        "verus": "Verus proves the five binary instructions and NOT for all operands, including shifts by any number of bits.",
        "note": "Full-domain proof of every instruction: result, frame, and exactly when it fails; shifts are proved against repeated doubling and halving. "
                "The text of the shift errors and the way expressions compile to these instructions are only searched natively.",
        "trusted": ["std::fmt::format stubbed in the shift contracts"],
    },
    {
        "id": "P03",
        "title": "Conversions between doubles and integers are exact or report an error",
        "statement": "Whenever a double is converted to an integer, implicitly by an assignment or argument or explicitly with CINT, INT or FIX, the result is the "
                     "value rounded (half away from zero for implicit conversions and CINT, down for INT, towards zero for FIX), and if that is not a 32-bit "
                     "integer, or the double is infinite or not a number, the program gets a runtime error and no value. Converting an integer to a double "
                     "is exact and converting it back yields the same integer.",
        "over": ["inputs", "programs"],
        "quantifier": "all double-precision values and all 32-bit integers, and all places where a conversion happens",
        "why": "Tests sample a few values; errors hide at the limits of the integer range, at exact halves, and at non-finite values.",
        "files": [VM, "std/src/numerics.rs", "core/src/compiler/exprs.rs"],
        "mechanism": [("conversion instructions", VM + ": do_double_to_integer, do_integer_to_double"),
                      ("library conversion", "std/src/numerics.rs: double_to_integer, CintFunction, IntFunction, FixFunction")],
        "observe": ["value stored in the variable", "runtime error reported to the user"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_double_to_integer", "Context::do_integer_to_double", "numerics::double_to_integer"],
        "note": "Full-domain proof (all 2^64 doubles, all 2^32 integers) against an independent definition of rounding. That CINT, INT, FIX, "
                "assignments and arguments go through these functions with the right rounding is only searched natively, as is the text of the errors.",
        "trusted": ["std::fmt::format stubbed", "CBMC's model of IEEE-754 arithmetic and of f64::round"],
    },
    {
        "id": "P04",
        "title": "Comparisons and double arithmetic follow the numeric and textual order",
        "statement": "The operators =, <>, <, <=, > and >= agree with the mathematical order on integers and doubles (mixing both compares their exact values, and not-a-number "
                     "is unordered and different from everything), with logical equality on booleans and with the order of code points on strings, wherever they appear: "
                     "expressions, IF, WHILE, DO and SELECT. Arithmetic with at least one double operand is IEEE-754 double arithmetic on the promoted operands and never fails.",
        "over": ["inputs", "programs"],
        "quantifier": "all pairs of integers, doubles, booleans and strings, and all statements that evaluate a condition",
        "why": "Tests check a few pairs per operator; swapped or non-strict comparisons only show on equal, signed-zero, non-finite or prefix-related operands.",
        "files": [VM, "core/src/compiler/exprs.rs", "core/src/compiler/top.rs"],
        "mechanism": [("comparison instructions", VM + ": do_equal_*, do_less_*, do_greater_*"),
                      ("promotion of mixed operands", "core/src/compiler/exprs.rs"),
                      ("SELECT compilation", "core/src/parser.rs and core/src/compiler/top.rs")],
        "observe": ["value produced by an expression", "branch taken by a statement"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_{equal,not_equal}_{boolean,double,integer}", "Context::do_{less,less_equal,greater,greater_equal}_{double,integer}",
                      "Context::do_negate_double", "Context::do_{add,subtract,multiply,divide}_double (thorough tier)"],
        "verus": "Verus proves the comparisons of integers and booleans for all operands.",
        "note": "Full-domain proof of the integer, boolean and double comparisons (doubles against the order of their bit patterns, not against the machine's "
                "own comparison) and of negation. Double arithmetic is attempted in the thorough tier only; strings and whole programs are searched natively.",
        "trusted": ["CBMC's model of IEEE-754 arithmetic"],
        "assumptions": ["remainder and power of doubles are compared against the same standard library functions, natively"],
    },
    {
        "id": "P05",
        "title": "Every instruction operand and memory reference survives encoding",
        "statement": "Whatever variables, constants, temporaries, jump targets and references a program needs, the bytecode that the compiler emits decodes to exactly the operands "
                     "that were encoded, and references to variables, heap entries and constants lead to the entity that they were created for, of the same type. Programs that need more "
                     "registers, constants or code than an instruction can address are rejected at compile time with an error; they never run with a truncated operand.",
        "over": ["inputs", "programs"],
        "quantifier": "all opcodes with all values of their operands, all references, and all programs up to and beyond the limits of the encoding",
        "why": "Tests encode a few operands per instruction; truncated or overlapping fields only show for large register numbers, far jumps or many constants, which golden tests never reach.",
        "files": ["core/src/bytecode.rs", "core/src/mem.rs", VM, "core/src/compiler/codegen.rs", "core/src/compiler/syms.rs"],
        "mechanism": [("instruction encoding", "core/src/bytecode.rs: instr! definitions, RawValue"),
                      ("references", "core/src/bytecode.rs: TaggedRegisterRef, core/src/mem.rs: DatumPtr"),
                      ("limits", "core/src/compiler/syms.rs, core/src/compiler/codegen.rs, core/src/compiler/top.rs (TargetTooFar)")],
        "observe": ["values seen by the callables of a program", "compilation errors"],
        "hook": "encoders and decoders of each instruction (core/src/verif.rs) and single-step access to the processor",
        "functions": ["bytecode::make_* and bytecode::parse_* of every opcode", "bytecode::opcode_of", "TaggedRegisterRef::{new,parse}", "DatumPtr::{for_heap,from,heap_index}",
                      "Context::do_load_integer", "Context::do_move (thorough tier)", "Context::exec (natively)"],
        "note": "Proof for every opcode and all operands that decoding inverts encoding, that encodings of different opcodes differ, and that references decode to what they were built "
                "from. That the execution loop runs the function under contract for each opcode, and that whole programs at the limits of the encoding behave, is searched natively.",
    },
    {
        "id": "P06",
        "title": "Arrays keep every element apart and reject out-of-range subscripts",
        "statement": "Once its DIM has run, an array holds one independent element per combination of in-range subscripts, initially the default of its type: an element reads as the last value stored in it, and "
                     "storing into one changes no other element, array or variable. A subscript that is negative or not below its dimension, or a wrong dimension in DIM, LBOUND or UBOUND, is an error that changes "
                     "nothing, and a DIM whose size is not positive or cannot be allocated is an error. LBOUND is 0 and UBOUND is the dimension minus 1.",
        "over": ["inputs", "histories"],
        "quantifier": "all numbers and sizes of dimensions, all subscripts, all types of elements, and all histories of stores and loads, locally, globally and in functions",
        "why": "Tests use one- and two-dimensional arrays with small subscripts; wrong strides alias elements only for particular shapes, and overflows need huge dimensions.",
        "files": ["core/src/mem.rs", VM, "core/src/compiler/top.rs", "std/src/arrays.rs", "core/src/callable.rs"],
        "mechanism": [("element addressing", "core/src/mem.rs: ArrayData::flat_index"),
                      ("access and allocation", VM + ": resolve_array_index, do_load_array, do_store_array, do_alloc_array"),
                      ("bounds functions", "std/src/arrays.rs")],
        "observe": ["values read from the array", "runtime errors"],
        "hook": "flat_index and single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["ArrayData::flat_index", "Context::resolve_array_index", "Context::do_load_array", "Context::do_store_array", "Context::do_alloc_array"],
        "verus": "Verus proves, for any number and size of dimensions, that flat_index is the row-major position exactly when all subscripts are in range, that different subscripts have different positions, and that DIM, loads and stores do what they say to the one element and nothing to any other entry of the heap.",
        "note": "Kani repeats parts on the compiled code for small shapes. LBOUND and UBOUND, the compilation of accesses, and histories of programs are searched natively against a model.",
        "trusted": ["std::fmt::format stubbed", "growth of the register file proved absent by a stub that fails"],
        "assumptions": ["the compiler passes registers that lead to an array of the right shape (precondition)"],
    },
    {
        "id": "P07",
        "title": "Calls have their own variables and return where they came from",
        "statement": "A call of a user-defined FUNCTION or SUB evaluates its arguments in the caller, gives the callee its own parameters and local variables, and continues right after the call with the "
                     "caller's variables, parameters and intermediate results unchanged (other than shared variables the callee modified), for any nesting and recursion. A FUNCTION yields the last value assigned to "
                     "its name, or the zero value of its type. GOSUB runs in the variables of its caller and RETURN continues after it. Exceeding the depth of the call stack, or a RETURN without "
                     "a GOSUB, is a runtime error that changes no variable.",
        "over": ["programs", "histories"],
        "quantifier": "all programs of functions, subroutines and GOSUBs with any parameters, local variables, nesting and recursion",
        "why": "Tests have a few small call chains; clobbered registers depend on how many variables and temporaries are alive in the caller and the callee.",
        "files": [VM, "core/src/compiler/exprs.rs", "core/src/compiler/top.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs"],
        "mechanism": [("frames", VM + ": do_call, do_gosub, do_return, push_frame"),
                      ("calls in expressions", "core/src/compiler/exprs.rs: compile_expr"),
                      ("bodies and assignments", "core/src/compiler/top.rs: compile_user_callable, compile_assignment"),
                      ("allocation of registers", "core/src/compiler/syms.rs")],
        "observe": ["values of variables before and after calls", "results of functions", "runtime errors"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_call", "Context::do_gosub", "Context::do_return", "Context::push_frame", "Context::get_reg", "Context::set_reg"],
        "verus": "Verus proves every instruction to write at most one register, shared or of the current call, that calls, GOSUB and RETURN are exact, and, by lemmas over histories of any length, that callers find their variables, frame and position as they left them.",
        "note": "Kani repeats CALL, GOSUB and RETURN on the compiled code, for all values and "
                "representative registers. How the compiler allocates registers around calls is searched natively with random layered programs against a direct simulation.",
        "trusted": ["growth of the register file proved absent by a stub that fails"],
        "assumptions": ["the compiler's allocation of registers is only checked on generated programs"],
    },
    {
        "id": "P08",
        "level": "other",
        "title": "Structured statements execute as written and variables keep their value",
        "statement": "IF, SELECT CASE, FOR, WHILE, DO (all five forms), EXIT, GOTO and sequences of statements execute exactly the statements that their conditions select, in order and the right number of "
                     "times, for any nesting. Limits and steps of FOR are integers, a loop whose range is empty does not run, and after a loop that ends normally its variable holds the first value past the limit. A variable reads as the "
                     "last value assigned to it, whatever other variables, of any type and scope, were assigned in between.",
        "over": ["programs", "histories"],
        "quantifier": "all programs made of these statements, with any nesting, conditions and operands",
        "why": "Tests have one small program per statement; wrong jump targets and clobbered registers appear in combinations: a loop inside a SELECT guard, an EXIT from the right one of several loops, an IF without ELSE at the end of a body.",
        "files": ["core/src/compiler/top.rs", "core/src/compiler/exprs.rs", "core/src/compiler/syms.rs", "core/src/parser.rs", VM],
        "mechanism": [("jumps", VM + ": do_jump, do_jump_if_false"),
                      ("statements", "core/src/compiler/top.rs: compile_if, compile_select, compile_for, compile_while, compile_do"),
                      ("loops in the parser", "core/src/parser.rs: parse_for, parse_do, parse_select")],
        "observe": ["order of side effects", "final values of variables"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_jump", "Context::do_jump_if_false", "Parser::parse_until", "Parser::parse_do_guard", "Parser::parse_do", "Parser::parse_while", "Parser::parse_step", "Parser::parse_for",
                      "Parser::maybe_parse_end", "Parser::parse_if", "Parser::parse_if_multiline", "Parser::parse_if_uniline", "Parser::parse_case_guards", "Parser::parse_select",
                      "Parser::expect_and_consume", "Parser::parse_required_expr"],
        "verus": "Verus proves for every instruction that it changes its destination and nothing else, which instruction is next, and that different registers are apart; and for every sequence of words, that the parser builds "
                 "the DO, WHILE, FOR, IF and SELECT that the words mean: which form of DO, the direction, condition and increment of FOR and when its step is refused, which statements are in which branch or case, every guard of a CASE, "
                 "and that an error is reported exactly for words that mean nothing.",
        "note": "Whole programs, and so the compilation of statements, are searched natively: thousands of random nested programs against a direct interpreter of the same statements.",
        "trusted": ["in Verus, what expressions and simple statements are is a function without definition of the words they start with; a statement takes at least one word, and only the end of a line or of the text has no statement",
                    "the words come from the lexer (P14 proves it)"],
        "assumptions": ["compilation of statements is only checked on generated programs (nesting up to 4, up to about 60 statements)"],
    },
    {
        "id": "P09",
        "title": "Strings are values and survive until they are replaced",
        "statement": "Assigning, passing, returning or storing a string in an array copies its value: no later operation on the original or on the copy changes the other, however long the program or session runs and "
                     "however many strings it makes. Concatenation yields exactly the characters of both operands in order. When the memory for strings is exhausted, the operation that needs more raises a runtime error and "
                     "leaves every existing string intact.",
        "over": ["histories", "inputs"],
        "quantifier": "all histories of operations on strings in variables, elements of arrays, parameters and results, for any number of live strings",
        "why": "Tests make a handful of short strings; aliasing between a variable and a temporary, and behaviour near the limit of the heap, need long histories.",
        "files": ["core/src/mem.rs", VM, "core/src/compiler/exprs.rs", "core/src/compiler/top.rs"],
        "mechanism": [("heap of strings", "core/src/mem.rs: Heap"),
                      ("concatenation", VM + ": do_concat"),
                      ("moves between registers", VM + ": do_move; core/src/compiler/top.rs: compile_assignment")],
        "observe": ["values of variables and elements", "runtime errors"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_alloc (strings)", "Heap::push", "Context::do_concat"],
        "level": "other",
        "verus": "Verus proves for every instruction that no text on the heap changes, that concatenation gives exactly both texts in order in an entry of its own, that a full heap fails without effect, and by a lemma that a text stays the same over any history.",
        "note": "Kani repeats the limit of the heap and concatenation of short strings on the compiled code. Histories of programs are searched natively against a model of independent values. Reference semantics hide a known finding (a string whose first assignment refers to itself).",
        "trusted": ["std::fmt::format stubbed", "growth of the register file proved absent by a stub that fails"],
        "assumptions": ["what built-in functions do to strings and how the compiler moves them is only checked on generated programs"],
    },
    {
        "id": "P10",
        "title": "ON ERROR handles exactly the errors it covers, where they happen",
        "statement": "After ON ERROR RESUME NEXT a failing statement has no effect and execution continues with the statement after it; after ON ERROR GOTO the first failing statement transfers control to the handler with the variables "
                     "that the completed statements left; after ON ERROR GOTO 0 errors stop the program. Errors raised in called functions and subroutines reach the handler in the variables of the code that set it. An error that no handler covers "
                     "is reported with the position of the statement or argument that failed.",
        "over": ["programs", "fault_sequences"],
        "quantifier": "all programs, all positions at which statements fail, and all sequences of handlers and errors",
        "why": "Tests raise one error in one or two positions; resuming at the end of blocks, within nested calls, and after several errors takes combinations.",
        "files": [VM, "core/src/vm/mod.rs", "core/src/compiler/top.rs", "core/src/image.rs"],
        "mechanism": [("handlers", VM + ": do_set_error_handler, set_exception"),
                      ("dispatch of errors", "core/src/vm/mod.rs: exec"),
                      ("start of statements", "core/src/image.rs: debug information; core/src/compiler/top.rs")],
        "observe": ["order of side effects", "values of variables", "message and position of errors"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_set_error_handler"],
        "level": "other",
        "verus": "Verus proves for every instruction that one that fails has no effect but the report of the error at its position, that only ON ERROR and RETURN touch the handler, and how.",
        "note": "What happens after an error depends on debug information kept in heap-allocated maps, out of the verifier's reach: it is searched natively with random nested programs that "
                "fail in random places against a direct interpreter. Errors in the conditions of statements are not generated. Known finding: a failed assignment may leave part of its expression in the variable.",
        "assumptions": ["resumption after errors is only checked on generated programs"],
    },
    {
        "id": "P11",
        "title": "Every running program can be interrupted between two statements",
        "statement": "Whatever a program does, a request to interrupt it is honoured after a bounded number of steps, including in loops with empty bodies, jumps and recursion. The program stops between two statements, everything before that point has "
                     "happened and nothing after it has. The session remains usable with the variables of that moment, and a program that is paused and not interrupted behaves as if it had not been paused.",
        "over": ["programs", "schedules"],
        "quantifier": "all programs, and all moments at which the interruption is requested",
        "why": "Tests interrupt two or three loops; a kind of loop without a pause, or a pause in the middle of a statement, needs a specific program and moment.",
        "files": [VM, "core/src/vm/mod.rs", "std/src/lib.rs"],
        "mechanism": [("requests for a pause", VM + ": do_jump, do_jump_if_false, do_call, do_return"),
                      ("pauses", "core/src/vm/mod.rs and " + VM + ": exec"),
                      ("interruption", "std/src/lib.rs: Machine::exec, should_stop")],
        "observe": ["side effects before the interruption", "whether the program stops", "variables afterwards"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_jump", "Context::do_jump_if_false", "Context::do_gosub", "Context::do_call", "Context::do_return"],
        "verus": "Verus proves the execution loop: no run goes on without allowing an interruption for more instructions than the size of the program times the limit of the stack of calls, requests are never forgotten, and interruptions happen only at the start of statements without losing or repeating an instruction.",
        "note": "Kani repeats jumps and returns on the compiled code. What the session sees after an interruption, and that programs with pauses behave as without, is searched natively with endless programs interrupted at random moments.",
        "trusted": ["growth of the register file proved absent by a stub that fails"],
        "assumptions": ["operands of instructions have the types that the compiler gives them (assumed before each instruction in exec)", "what the machine does between runs of exec is only checked on generated programs", "commands that block, such as INPUT, are not covered"],
    },
    {
        "id": "P12",
        "title": "Programs of a session see exactly what the earlier ones left",
        "statement": "Variables, arrays, functions and subroutines defined by a program that was entered in a session are available to the next ones with the values they had when it stopped, be it at its end, at END, at an error or at an interruption. A program that is rejected before "
                     "running leaves no trace, and clearing the session leaves nothing. END stops the program from anywhere with the given exit code, which must be in 0 to 127, or 0 without one.",
        "over": ["histories", "programs"],
        "quantifier": "all sequences of programs in a session, with any way to stop each of them",
        "why": "Tests enter one or two programs; a rejected program that leaves half of its definitions, or an error that leaves calls in progress, shows only in what later programs do.",
        "files": ["core/src/compiler/mod.rs", "core/src/compiler/syms.rs", "core/src/vm/mod.rs", VM, "std/src/lib.rs", "core/src/image.rs"],
        "mechanism": [("incremental compilation", "core/src/compiler/mod.rs: Compiler::compile_more; core/src/compiler/syms.rs"),
                      ("end of programs", VM + ": do_end, do_eof"),
                      ("sessions", "std/src/lib.rs: Machine")],
        "observe": ["values and callables visible to later programs", "exit codes", "errors"],
        "hook": "single-step access to the processor (core/src/vm/verif.rs)",
        "functions": ["Context::do_end", "Context::do_eof"],
        "level": "other",
        "verus": "Verus proves how END, the end of the code and upcalls stop, and what unwinding calls and clearing the state leave.",
        "note": "Sessions are searched natively: random sequences of accepted, rejected, failing, ended and interrupted programs against a model of what each leaves.",
        "trusted": ["std::fmt::format stubbed", "growth of the register file proved absent by a stub that fails"],
        "assumptions": ["incremental compilation is only checked on generated sessions"],
    },
    {
        "id": "P13",
        "title": "Graphics draw exactly the requested shapes, clipped to the screen",
        "statement": "For any coordinates, radii, colours and point lists, graphics statements either fail with an error or change the screen exactly as the mathematical shape demands: lines stay within half a pixel of the ideal one and include both ends, circles lie between the radius and one less, and filled shapes "
                     "leave no holes. What falls outside of the screen is discarded without touching other pixels, and what is shown matches what was drawn after every synchronisation. No coordinates make the interpreter crash, overflow or hang.",
        "over": ["inputs", "programs", "histories"],
        "quantifier": "all coordinates of 16 bits, all radii and polygons, all screen sizes and sequences of graphics statements",
        "why": "Tests draw a few small shapes near the origin; overflows, wrap-around to other rows and gaps appear only for distant, reversed, degenerate or partially visible shapes.",
        "files": ["std/src/console/drawing.rs", "std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/gfx/mod.rs"],
        "mechanism": [("rasterization", "std/src/console/drawing.rs: draw_line, draw_circle, draw_circle_filled, draw_poly_filled, edge_intersection"),
                      ("clamping", "std/src/console/graphics.rs: ClampedInto, ClampedMul, rect_points, tri_points, poly_points"),
                      ("frame buffer", "std/src/gfx/lcd/buffered/mod.rs: BufferedLcd")],
        "observe": ["pixels of the screen", "errors of graphics statements"],
        "hook": "direct calls to the private geometry functions (std/src/console/drawing.rs, std/src/console/graphics.rs, std/src/gfx/lcd/buffered/mod.rs)",
        "functions": ["draw_line", "draw_line_low", "draw_line_high", "draw_circle", "draw_circle::point", "draw_circle_filled", "draw_circle_filled::line",
                      "draw_rect", "draw_tri", "draw_poly", "edge_intersection", "tri_points", "poly_points", "rect_points",
                      "ClampedInto and ClampedMul for all types", "BufferedLcd::{clip_xy,clamp_xy,clip_x2y2,damage}"],
        "verus": "Verus proves, for all arguments and without bounds on the loops: draw_line draws one pixel per step within half a pixel of the line and both ends; draw_circle draws only pixels of the ring and every row of each octant; "
                "draw_circle_filled draws only chords of the ring and covers the disc; draw_rect, draw_tri and draw_poly draw exactly their sides; edge_intersection is within one pixel and counts each vertex once; none overflows and all terminate.",
        "note": "Kani proves the conversions, clipping and the damage area of the LCD. Pixels on the screen after sequences of statements are compared natively with an independent model.",
        "trusted": ["the trait RasterOps reduced to draw_pixel and draw_line with their effects as ghost lists",
                    "assumed contracts of i32::abs, i32::from(u16), i16::try_from(u16), Ord::min and Ord::max on i32"],
        "assumptions": ["flood filling, filled polygons as a whole, and the frame buffer's pixels are only checked on generated programs"],
    },
    {
        "id": "P14",
        "title": "Source text is read exactly, or rejected where its first fault is",
        "statement": "Any sequence of characters either is a program or is rejected with an error at the line and column of its first fault; none crashes, hangs or is read differently twice. "
                     "Literals denote exactly the value their characters spell (decimal, based and fractional numbers, texts with escapes), names and keywords are told apart by all their characters but not by case, and an error about a name points at that name. "
                     "Spacing, remarks, a first line for the shell, and the choice between line breaks and colons do not change what a program does.",
        "over": ["inputs", "programs"],
        "quantifier": "all texts, including those with tabs, remarks, characters beyond ASCII and bytes that are no text",
        "why": "Tests read a few dozen lines; faults in positions, in the end of words, in escapes or at the end of the text appear only for particular neighbours and combinations of characters.",
        "files": ["core/src/reader.rs", "core/src/lexer.rs", "core/src/parser.rs"],
        "mechanism": [("positions", "core/src/reader.rs: CharReader::next, peek, refill_and_next, next_pos"),
                      ("words", "core/src/lexer.rs: Lexer::read and all the functions it calls"),
                      ("lookahead", "core/src/lexer.rs: PeekableLexer")],
        "observe": ["values of literals", "position and text of errors of compilation", "outcome of programs"],
        "functions": ["CharReader::{next,peek,refill_and_next,next_pos}", "TokenSpan::new", "char::{is_separator,is_space,is_word}",
                      "Lexer::{handle_bad_read,consume_number,consume_integer,consume_integer_with_base,consume_operator,consume_symbol,consume_text,consume_label,consume_rest_of_line,advance_and_read_next,read}",
                      "PeekableLexer::{peek,read,consume_peeked}"],
        "verus": "Verus proves, for texts of any length, that reading a word consumes exactly the characters that the lexical rules assign to it (stated as independent functions of the text: numbers, based numbers, texts with escapes, names, keywords, labels, operators, "
                 "remarks), that it denotes the value or kind those rules give, that it is reported at the position of its first character (tabs count up to the next multiple of 8), that characters are neither lost nor repeated across lookahead and lines, and that reading terminates.",
        "note": "The parser as a whole, the independence from layout, and positions of errors in programs are checked natively: random texts and mutated programs, restyled programs, literals, planted faults.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["assumed contracts in Verus: BufReader::read_line (what it appends is what is read), String::chars().collect(), char::{is_alphanumeric,is_numeric,is_ascii_digit}, String::len, str::{parse,ends_with,to_uppercase}, u32::from_str_radix, "
                    "Option::replace, equality of &str as equality of their characters",
                    "texts have less than 2^41 characters"],
        "assumptions": ["programs nested so deeply that the compiler exhausts the stack are not considered"],
        "level": "other",
    },
    {
        "id": "P15",
        "title": "Expressions mean what precedence and grouping of operators say",
        "statement": "Powers bind tighter than signs and NOT, then come products (with MOD), sums, shifts, comparisons and last AND, OR and XOR; operators of the same level group from the left, and parentheses group explicitly. "
                     "Every accepted expression, of any length and nesting, has the value of that one grouping with each of its words used exactly once and in order, with operands and arguments of calls evaluated once, from left to right. "
                     "A sequence of words that is not an expression is rejected without crashing.",
        "over": ["inputs", "programs"],
        "quantifier": "all sequences of words: expressions of any length and nesting with all operators, parentheses and calls, and all sequences that are none",
        "why": "Tests check pairs of adjacent operators; a wrong comparison of levels needs three or more operators in a particular order, mixed with signs or parentheses, to show.",
        "files": ["core/src/parser.rs", "core/src/compiler/exprs.rs"],
        "mechanism": [("precedence", "core/src/parser.rs: ExprOp::priority, ExprOp::from, ExprOpSpan::apply"),
                      ("grouping", "core/src/parser.rs: Parser::parse_expr"),
                      ("arguments", "core/src/parser.rs: Parser::parse_comma_separated_exprs")],
        "observe": ["values of expressions", "order of side effects", "errors of compilation"],
        "functions": ["ExprOp::{from,priority}", "ExprOpSpan::{new,apply}", "Parser::{parse_expr,parse_comma_separated_exprs,parse_required_expr}"],
        "verus": "Verus proves, for any number of words, that whatever parse_expr returns is the reading of a tree whose words are exactly the consumed ones, in order, in which every operator on the left edge of a right operand binds tighter and every one on the right edge of a left operand at least as tightly, "
                 "that calls have the arguments between their parentheses, that it stops only before a word that ends expressions, terminates and cannot panic.",
        "note": "That all valid expressions are accepted, that their values are those of the tree, and that operands are evaluated once and in order is checked natively: random expressions of all types against a direct evaluation, and random sequences of words.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, the lexer is a sequence of words from which peek and consume_peeked take (P14 verifies them); conversion of its errors is dropped",
                    "Verus substitutions: the closure handle_operand becomes a function, Iterator::any a loop, constructors passed as functions are called directly, a guard of a match becomes an if"],
        "assumptions": ["expressions nested so deeply that the parser exhausts the stack are not considered"],
        "level": "other",
    },
    {
        "id": "P16",
        "title": "Text functions work on whole characters and undo each other",
        "statement": "Lengths, positions and counts in text functions (LEN, LEFT$, RIGHT$, MID$, INSTR, SPACE$, ASC, CHR$, trimming and case) count characters, whatever characters the text has: results are exactly the characters at those positions, INSTR gives the first occurrence at or after its start, and nothing splits a character or crashes. "
                     "Arguments out of range are errors where they are negative (or codes of no character) and otherwise select what there is. "
                     "VAL reads exactly the longest number at the start of a text, and undoes STR$.",
        "over": ["inputs", "programs"],
        "quantifier": "all texts of all characters and lengths, all numeric arguments, all compositions of the functions",
        "why": "Tests sample a few texts, almost all ASCII; errors of byte against character positions and of limits show only for particular combinations of characters and positions.",
        "files": ["std/src/strings.rs"],
        "mechanism": [("positions", "std/src/strings.rs: char_index_to_byte_index, byte_index_to_char_index, slice_by_char_range"),
                      ("numbers", "std/src/strings.rs: parse_numeric_prefix, format_double, format_integer"),
                      ("functions", "std/src/strings.rs: exec of all callables")],
        "observe": ["values of expressions", "errors of calls"],
        "functions": ["char_index_to_byte_index", "byte_index_to_char_index", "char_len", "slice_by_char_range", "parse_numeric_prefix", "format_{boolean,double,integer}",
                      "exec of {Asc,Chr,Instr,Lcase,Left,Len,Ltrim,Mid,Right,Rtrim,Space,Str,Trim,Ucase,Val}Function"],
        "verus": "Verus proves for texts of any length what each function returns as a sequence of characters, that byte offsets used in slices are boundaries of characters, that INSTR is the first occurrence, "
                 "and that what VAL parses is the longest numeral.",
        "note": "Round trips, composition of functions and text values left unchanged are checked natively on programs against sequences of codes.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, methods of str, char and String have contracts on sequences of characters and their UTF-8 widths; case conversion and formatting and parsing of numbers are uninterpreted functions",
                    "Scope gives arguments of the types that the syntax of the function declares (P13 checks it natively)"],
        "assumptions": ["texts have fewer than 2^31-1 characters"],
        "level": "other",
    },
    {
        "id": "P17",
        "title": "Commands on files act on exactly the file that a path names",
        "statement": "A path names at most one file: a drive (the current one if none is given, in any case of letters) and a name directly in it; no path reaches files outside of the mounted drives. "
                     "SAVE, COPY and KILL change that file only and completely (what is read afterwards is exactly what was written, whatever was there before), LOAD, COPY and DIR give exactly what is there, and a command that fails, MOUNT, UNMOUNT and CD leave all files as they are. "
                     "The stored program is replaced only as a whole, by the file's contents, and with unsaved changes only if the user agrees; changes count as saved only once they are in the file.",
        "over": ["inputs", "programs", "histories"],
        "quantifier": "all paths, contents, drives and stored programs, and all sequences of commands",
        "why": "Tests run single commands with a few well-formed paths; what goes wrong depends on the form of a path (roots, dots, separators, case, missing drives), on what was there before, and on the order of commands.",
        "files": ["std/src/storage/mod.rs", "std/src/storage/mem.rs", "std/src/storage/fs.rs", "std/src/storage/cmds.rs", "std/src/program.rs"],
        "mechanism": [("paths", "std/src/storage/mod.rs: DriveKey, Location, split_uri"), ("table of drives", "std/src/storage/mod.rs: Storage"),
                      ("drives", "std/src/storage/{mem,fs}.rs"), ("commands", "std/src/storage/cmds.rs and std/src/program.rs: exec and async_exec")],
        "state": [("drives", "mounted drives and the current one", "Storage"), ("files", "files of the drives", "InMemoryDrive::programs, directory of DirectoryDrive"), ("program", "name, text and unsaved changes of the stored program", "Program")],
        "observe": ["files of all drives and outside of them", "mounted drives and current drive", "name, text and modification mark of the stored program", "errors of commands"],
        "functions": ["DriveKey::{new,is_valid}", "Location::{new,with_drive_root,is_path_valid,leaf_name,set_leaf_name,set_extension,fmt}", "split_uri",
                      "Storage::{make_canonical,make_canonical_with_extension,attach,mount,unmount,cd,cwd,get_drive,get_drive_mut,delete,enumerate,get_location,get,get_acls,put_location,put,update_acls,system_path,copy}",
                      "InMemoryDrive::{delete,enumerate,get,get_acls,put,update_acls}", "DirectoryDrive::{delete,get,put,system_path}", "parse_boolean", "continue_if_modified",
                      "exec of {Load,New,Run,Save,Kill,Copy,Cd,Mount,Unmount}Command"],
        "verus": "Verus proves what every text names (a predicate on its characters, with a proof that it names one place), that drives are only ever asked for single components without separators, "
                 "that the drives in memory and in a directory keep the contract of drives with the changes on the disk confined to one entry of the directory, and for each command what it changes in terms of the file that its argument names.",
        "note": "Sequences of commands run natively on drives in memory and in scratch directories, as an unprivileged user, against a model of all files.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, methods of str, String, HashMap and HashSet have contracts on sequences, maps and sets",
                    "the operating system: opening, reading, writing and removing a file have contracts on a map of the disk, without links, other processes or crashes",
                    "cells (Rc<RefCell>) are what they hold, and await is dropped: operations on storage do not interleave",
                    "drives of factories are any drives that keep the contract; the cloud drive and the read-only drive of demos are not covered"],
        "assumptions": ["no other process changes the files"],
        "level": "other",
    },
    {
        "id": "P18",
        "title": "Editing changes exactly the text at the cursor, and shows it",
        "statement": "Every key pressed in the program editor does to the text and the cursor what it stands for and nothing else: no other line or character is changed, and the cursor is always at a place of the text. "
                     "The screen always shows a part of the text that has the cursor, with the cursor at its character, whatever the size of the screen and of the text. "
                     "A change of the text is always marked as unsaved, even if drawing it fails, and what is listed, run and saved afterwards is the text as edited.",
        "over": ["inputs", "histories"],
        "quantifier": "all texts, all sequences of keys and all sizes of the screen",
        "why": "Tests press a few keys in short texts of ASCII characters; mistakes need a combination of keys, indentation, lengths of lines, scrolling, characters of several bytes or errors of the console.",
        "files": ["repl/src/editor.rs", "std/src/console/linebuffer.rs"],
        "mechanism": [("text of a line", "std/src/console/linebuffer.rs: LineBuffer"), ("keys", "repl/src/editor.rs: edit_interactively"), ("screen", "repl/src/editor.rs: refresh, refresh_current_line, refresh_status")],
        "state": [("text", "lines of the program and whether they are saved", "Editor::{content,dirty,name}"), ("cursor", "line, column, and the column to return to", "Editor::{file_pos,insert_col}"), ("viewport", "first line and column on the screen", "Editor::viewport_pos")],
        "observe": ["text and modification mark of the stored program", "contents of the screen and position of the cursor whenever a key is waited for"],
        "functions": ["LineBuffer::{with_capacity,len,chars,end,start,range,is_empty,remove,insert,into_inner,insert_str,push_str,split_off,from}", "copy_indent", "find_indent_end",
                      "Editor::{default,join_next_line_into,refresh_status,refresh,refresh_current_line,move_down,move_up,edit_interactively,is_dirty,edit,load,name,set_name,text}"],
        "verus": "Verus proves that the text and the cursor after any number of keys are those that a recursive definition of editing gives (one function per key, on sequences of characters), that changes are marked before anything can fail, "
                 "that the cursor stays in the text and within the screen, and that no index or subtraction is out of range; the loop over keys is verified once per kind of key, with a proof that the kinds are all there are.",
        "note": "What the screen shows is compared natively after every key, on random texts, keys and sizes, against a terminal that keeps its cells; consoles that fail are tried as well.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, iterators over characters and methods of str and String have contracts on sequences of characters; String::with_capacity reserves exactly what is asked for",
                    "strings and vectors have at most isize::MAX elements",
                    "await is dropped, and the console is any console whose contract is to leave the keys alone except for read_key"],
        "assumptions": ["the console has at least two rows and one column, and its size does not change during editing", "every character takes one column"],
        "level": "other",
    },
    {
        "id": "P19",
        "title": "A line read from the console is what was typed, and shows as typed",
        "statement": "The line that a prompt, INPUT or a question for a password yields is the line that results from the keys typed, one after the other: no other character is changed, and earlier lines change only as the keys recall and edit them. "
                     "While typing, the row of the console shows the prompt and the part of the line that has the cursor, with the cursor at its character and nothing left over from before, and passwords show as asterisks. "
                     "A line that is abandoned is an error of that kind and leaves no trace among the earlier lines.",
        "over": ["inputs", "histories"],
        "quantifier": "all prompts, initial texts, earlier lines, sequences of keys and widths of the console",
        "why": "Tests type a few short lines; mistakes need a combination of scrolling, position, key, earlier lines, widths and characters of several bytes.",
        "files": ["std/src/console/readline.rs", "std/src/console/linebuffer.rs", "std/src/console/cmds.rs", "repl/src/lib.rs"],
        "mechanism": [("keys", "std/src/console/readline.rs: Readline::run and do_*"), ("row of the console", "std/src/console/readline.rs: redraw_line, erase_at, sync_rendered, adjust_view"),
                      ("earlier lines", "std/src/console/readline.rs: do_up_down, finish, read_line_interactive"), ("input without a terminal", "std/src/console/readline.rs: read_line_raw")],
        "state": [("line", "text and position of the cursor in it", "Readline::{line,pos}"), ("view", "first character on the screen and what is there", "Readline::{view_start,rendered,rendered_len}"),
                  ("earlier lines", "lines and which one is being edited", "Readline::{history,history_pos}")],
        "observe": ["line or error that reading yields, and the earlier lines afterwards", "contents of the row and position of the cursor whenever a key is waited for", "values that INPUT assigns"],
        "functions": ["Readline::{adjust_view,current_pos,render_line,sync_rendered,reset_view_to_end,redraw_line,erase_at,do_backspace,do_carriage_return,do_char,do_delete,do_end,do_eof_or_delete,do_home,do_ignore,do_interrupt,do_move_to,do_newline,do_up_down,finish,new,run}",
                      "read_line_interactive", "read_line_raw", "read_line", "read_line_secure"],
        "verus": "Verus proves that the line, the cursor and the earlier lines after any number of keys are those that a recursive definition of typing gives, that whenever a key is waited for the cells of the row after the prompt are the part of the line in view "
                 "followed by blanks with the cursor at its character, that nothing is ever drawn over the prompt or beyond the row, and that borrowed earlier lines are given back with exactly the line that was entered.",
        "note": "INPUT itself, which parses answers and asks again, is executed natively, as is everything that is proved, on random prompts, lines, keys and widths against a terminal that keeps its cells.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, the contracts of LineBuffer are taken for granted (P18 proves them), and iterators over characters and methods of str and String have contracts on sequences of characters",
                    "await is dropped; console functions either fail or do to one row of cells and its cursor what they say"],
        "assumptions": ["the console has between 1 and 32767 columns, its size does not change while typing, and the prompt starts at column 0 of an empty row", "every character takes one column"],
        "level": "other",
    },
    {
        "id": "P20",
        "title": "READ assigns the values of DATA in the order of the text",
        "statement": "Each variable of READ gets the next value that the DATA statements of all programs so far list, in the order of their text and wherever they are, converted to the type of the variable; a missing value is the default of that type. "
                     "When there are no more values, or one does not fit, READ fails at that variable, and only the variables before it have changed. "
                     "RESTORE and CLEAR go back to the first value, and DATA of a program that is rejected lists nothing.",
        "over": ["inputs", "histories"],
        "quantifier": "all lists of values of any types, all sequences of READ, RESTORE and CLEAR, and all programs of a session",
        "why": "Tests read a few values once; mistakes need errors in the middle of a READ, missing values next to present ones, values that almost fit, and more than one program in a session.",
        "files": ["std/src/data.rs", "core/src/parser.rs", "core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/image.rs", "core/src/callable.rs"],
        "mechanism": [("READ", "std/src/data.rs: ReadCommand::exec"), ("RESTORE and CLEAR", "std/src/data.rs: RestoreCommand::exec, ClearableIndex::reset_state"),
                      ("DATA", "core/src/parser.rs: parse_data; core/src/compiler/top.rs: data_expr_to_constant"), ("values of a session", "core/src/compiler/codegen.rs: build_image_delta; core/src/image.rs: append")],
        "state": [("values", "all values of DATA, in order", "Image::data"), ("position", "which value is next", "ReadCommand::index")],
        "observe": ["values of variables after each statement, and errors and where they are"],
        "functions": ["ReadCommand::exec", "assign_datum", "RestoreCommand::exec", "ClearableIndex::reset_state", "Parser::parse_data", "data_expr_to_constant"],
        "verus": "Verus proves that READ of any number of variables makes exactly the assignments that the values from the current position give, that on an error the variables before it, and no others, have changed and the position is after the value that did not fit, "
                 "that RESTORE and CLEAR set the position to the first value, and that DATA lists exactly the values that its words give, missing ones included.",
        "note": "The collection of values over the programs of a session is executed natively, on random sessions with DATA in branches, loops and rejected programs, against a list.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, the arguments of READ come as tags and references in turn, as the compiler lays them out, and assignments through a reference change the variable it refers to and nothing else",
                    "conversion of doubles to integers is a function without definition here (P03 proves it); the words of DATA come from the lexer (P14)"],
        "assumptions": ["READ has at most 127 variables, as the arguments of a call are limited to 255 registers"],
        "level": "other",
    },
    {
        "id": "P21",
        "title": "Numeric functions give the value they name or report an error",
        "statement": "ABS, ACOS, ASIN, ATN, COS, SIN, TAN, EXP, LOG, SQR, SGN, PI, MAX, MIN, ROUND, CINT, FIX and INT give the value they are named after for every number, or fail at the argument when there is none or it does not fit. "
                     "Angles are in the unit that the last DEG, RAD or CLEAR set. "
                     "Random numbers are between 0 and 1, those after a seed are always the same, and RND of 0 repeats the last one.",
        "over": ["inputs", "histories"],
        "quantifier": "all numbers, infinities and what is not a number included, any number of arguments of MAX and MIN, and all sequences of DEG, RAD, CLEAR, RANDOMIZE and RND",
        "why": "Tests call each function with a few numbers; mistakes are at the ends of the domains, with infinities, with far digits of ROUND, and in what one function leaves for another.",
        "files": ["std/src/numerics.rs"],
        "mechanism": [("functions", "std/src/numerics.rs: exec of each function"), ("angles", "std/src/numerics.rs: get_angle, to_angle, ClearableAngleMode"), ("random numbers", "std/src/numerics.rs: Prng")],
        "state": [("mode", "unit of angles", "AngleMode"), ("random numbers", "generator and last number", "Prng::{prng,last}")],
        "observe": ["values of functions, and errors and where they are"],
        "functions": ["{Abs,Acos,Asin,Atn,Cint,Cos,Exp,Fix,Int,Log,Max,Min,Pi,Rnd,Round,Sgn,Sin,Sqr,Tan}Function::exec", "{Deg,Rad,Randomize}Command::exec", "ClearableAngleMode::reset_state",
                      "get_angle", "to_angle", "Prng::{new_from_entryopy,new_from_seed,last,next}"],
        "verus": "Verus proves which operation on doubles each function applies to its argument in each mode, exactly which arguments are errors, that MAX and MIN of any number of arguments are one of them and no other is past it, and how each command and function "
                 "changes the mode and the generator.",
        "note": "What the operations on doubles yield is executed natively: nested functions of random numbers and special values against definitions of their own, ROUND against rounding of decimal texts, and random numbers of several sessions against each other.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, operations on doubles and the generator of random numbers are functions without definitions, and doubles that are numbers have an order with the infinities at its ends", "double_to_integer has the contract that P03 proves"],
        "assumptions": ["MAX and MIN have at most 255 arguments", "sines, logarithms and the like of the system's library are right"],
        "level": "other",
    },
    {
        "id": "P22",
        "title": "Console commands show exactly the text, colors and position they are given",
        "statement": "PRINT, CLS, COLOR, LOCATE, INKEY, SCRCOLS and SCRROWS ask the console for exactly what their arguments say, with PRINT's zones and blanks, or fail at the wrong argument and ask nothing. "
                     "INPUT asks again, with the last answer to correct, until the answer is a value of the variable's type, and stores that value. "
                     "Listings and help print every line in order, stop for a key whenever the screen is full, and fill paragraphs with all of their words.",
        "over": ["inputs", "configurations"],
        "quantifier": "all arguments, with any separators and missing values, all answers, all sizes of the console, and all texts of any characters",
        "why": "Tests print a few ASCII texts on consoles of one size; mistakes are in what separators do after other separators, at the edges of the console, and where characters are longer than one byte or the console is narrow.",
        "files": ["std/src/console/cmds.rs", "std/src/console/pager.rs", "std/src/console/format.rs", "std/src/help.rs"],
        "mechanism": [("commands", "std/src/console/cmds.rs: exec and async_exec of each command"), ("pages", "std/src/console/pager.rs: Pager::{print,write}"), ("paragraphs", "std/src/console/format.rs: refill, refill_many")],
        "state": [("page", "rows and columns since the last stop", "Pager::{cur_lines,cur_columns}")],
        "observe": ["what the console is asked to print, write, clear, color and locate, in order, and which keys it waits for", "variables that INPUT sets", "errors and where they are"],
        "functions": ["{Cls,Color,Locate,Print}Command::exec", "InKeyFunction::async_exec", "{ScrCols,ScrRows}Function::exec", "InputCommand::async_exec", "get_color", "get_coord", "Pager::{print,write}", "refill"],
        "verus": "Verus proves for any list of arguments what each command asks of the console as a function of the arguments, that INPUT stores only the value of the last of a chain of answers each of which was wrong before, "
                 "when the pager stops and what it counts after, and that refill gives the lines of greedy filling of all words.",
        "note": "The path from programs to arguments and from LIST and HELP to the pager is executed natively: random programs against a definition of their own of all that the console is asked, listings of any characters on consoles of any size, and help on pairs of widths.",
        "technique": VERUS_ONLY_TECHNIQUE,
        "trusted": ["in Verus, the console keeps a log of what it is asked and may fail, texts are sequences of characters, and numbers and answers become text and values by functions without definitions", "words of a paragraph are those that split_whitespace gives",
                    "arguments come as the compiler gives them (P02 and P16 execute that path)"],
        "assumptions": ["commands have at most 255 argument registers", "errors of the console end the command"],
        "level": "other",
    },
]
