#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 props.py)."""
import json, os
from registry import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state], "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})
NA = {}
EVF, TKF, SPF, CXF = "prexel/src/evaluator.rs", "prexel/src/tokenizer.rs", "prexel/src/utils/splitter.rs", "prexel/src/context.rs"

prop("E01", "Well-formed expressions evaluate as their operators prescribe",
 "Evaluating a well-formed expression applies exactly the operations that the operators' precedence and associativity, the grouping symbols, prefix and postfix operators and function calls prescribe, to the operands in the order written. Prefix operators bind tighter than postfix ones, and those tighter than binary operators; functions get their arguments in order, and as many as were written.",
 ["inputs", "configurations"], "every expression and every assignment of precedences and associativities to the operators (equal precedence implies equal associativity)",
 "The tests evaluate some dozens of fixed expressions with the built-in operators; the number of operator/grouping shapes grows exponentially with length and precedences are user-defined.",
 [EVF], [("infix_to_rpn (shunting yard)", EVF), ("rpn_eval", EVF)], [("operators", "operator stack of the conversion to postfix", EVF), ("arg_count", "arguments seen of each open call", EVF)], ["Evaluator::eval_tokens", "Evaluator::eval"])
prop("E02", "Malformed expressions are rejected, well-formed ones accepted",
 "Evaluation succeeds only for token sequences that form an expression: operands and operators alternate correctly, every grouping symbol is matched by its own partner, groups and argument positions are not empty, commas separate function arguments only, and function names are followed by an argument list. Anything else is an error, never a value.",
 ["inputs", "configurations"], "every token sequence, under both settings of custom function calls",
 "The tests reject a short list of malformed expressions; malformed sequences outnumber well-formed ones and a stack machine can leave exactly one value on the stack by accident.",
 [EVF], [("check_position", EVF), ("check_comma_position", EVF), ("push_grouping_close", EVF)], [], ["Evaluator::eval_tokens", "Evaluator::eval"])
prop("E03", "Implicit multiplication is an explicit multiplication",
 "With implicit multiplication enabled, a number or closed group directly followed by an operand evaluates exactly as if `*` had been written between them, with the precedence and associativity of `*`. Sequences that are malformed without that `*` for other reasons stay errors.",
 ["inputs", "configurations"], "every token sequence with implicit multiplication enabled and every precedence of `*`",
 "The tests cover a dozen juxtapositions with the built-in precedences and few neighbouring operators.",
 [EVF], [("push_implicit_mul", EVF), ("implicit multiplication block of infix_to_rpn", EVF)], [], ["Evaluator::eval_tokens"])
prop("E04", "The value of an expression string is that of the expression it spells",
 "Evaluating a string gives the value of the expression it spells under the documented lexical rules and operator grammar, and an error when it spells none. Case does not matter in operator, constant and function names; it does in variables.",
 ["inputs"], "every expression string", "Tokenizer and evaluator are tested separately on fixed strings; which reading an operator gets depends on its neighbours on both sides.",
 [EVF, TKF, SPF], [("Evaluator::eval", EVF), ("is_unary", TKF), ("split rules", SPF)], [], ["Evaluator::eval"])
prop("E05", "No expression string makes the evaluator panic",
 "Evaluating any string, well-formed or not, ends with a value or an error: it never panics and always terminates, under every setting of the context's options.",
 ["inputs", "configurations"], "every string, every combination of implicit multiplication, complex numbers and custom function calls", "Panics hide in indexing, unwrap and slicing on odd inputs, such as non-ASCII text, lone operators or operators at the ends, that no test lists.",
 [EVF, TKF, SPF], [("tokenize", TKF), ("infix_to_rpn", EVF), ("rpn_eval", EVF)], [], ["Evaluator::eval", "Tokenizer::tokenize"])
prop("L01", "Splitting an expression loses and invents nothing",
 "The lexemes of an expression, put together, are its characters without the whitespace, in order. A lexeme is a numeral (digits with at most one decimal point), an identifier, a maximal run of operator characters, or a single other character such as a comma or grouping symbol.",
 ["inputs"], "every expression string", "Tests split fixed strings; a rule that consumes a character without keeping it shows only on particular neighbours.",
 [SPF], [("SplitNumeric", SPF), ("SplitIdentifier", SPF), ("SplitOperator", SPF), ("SkipWhitespace", SPF)], [], ["DefaultSplitter::split_into_tokens"])
prop("L02", "Whitespace between tokens does not matter",
 "Inserting whitespace of any kind between two tokens of an expression, or at its ends, does not change its tokens.",
 ["inputs"], "every expression string, every token boundary, every kind of whitespace", "Tests use single spaces in a few places.",
 [SPF, TKF], [("SkipWhitespace", SPF)], [], ["DefaultSplitter::split_into_tokens"])
prop("L03", "Each lexeme becomes the token its spelling and place call for",
 "The tokenizer turns each lexeme into exactly one token carrying its spelling: numbers by parsing, names by looking them up in the context (a name of several kinds is the variable, else the constant, else the function, else the operator), grouping symbols and commas by character, unknown text as unknown. An operator is postfix if it may be and follows a complete operand, prefix if it may be and does not, and binary otherwise.",
 ["inputs"], "every expression string", "Whether `-` or `!` is unary depends on the token before, which may be any of ten kinds and any length.",
 [TKF], [("tokenize", TKF), ("is_unary", TKF)], [], ["Tokenizer::tokenize"])
prop("C01", "Case-insensitive names have consistent equality, order and hash",
 "Two case-insensitive names are equal exactly when they have the same lower-cased characters; equal names hash alike, compare as equal in the ordering, and the ordering is total and transitive. Owned and borrowed names agree on all of this.",
 ["inputs"], "every pair and triple of names", "Eq/Hash/Ord laws quantify over all pairs; a hash that disagrees with equality only shows as a failed lookup for some spellings.",
 ["prexel/src/utils/ignore_case_str.rs", "prexel/src/utils/ignore_case_string.rs"], [("IgnoreCaseStr", "prexel/src/utils/ignore_case_str.rs"), ("IgnoreCaseString", "prexel/src/utils/ignore_case_string.rs")], [], ["IgnoreCaseStr: Eq, Ord, Hash", "DefaultContext lookups"])

prop("E06", "Errors surface and evaluation has no other effect",
 "When an operation fails, evaluation fails with that operation's error and calls nothing more; otherwise each operation is called exactly once. An expression with an undefined name, unknown text or a token that is not part of expressions is an error, never a value or a panic. Evaluating does not change the context: evaluating again gives the same value, and a variable set in between is read with its new value.",
 ["inputs", "fault_sequences", "histories"], "every token sequence, every failing operation and kind of error", "Tests use operators that do not fail and names that exist.",
 [EVF], [("rpn_eval", EVF), ("infix_to_rpn", EVF)], [], ["Evaluator::eval_tokens"])
prop("X01", "A context holds exactly what was registered",
 "Variables are found under their exact name, constants, functions and operators under any spelling of their name or aliases, with the value or function registered; kinds do not mix. Setting a variable replaces and returns its old value. A variable cannot share its name with a constant, case ignored, and a function or operator cannot take a name or alias that another of its kind has: the registration is an error, and a failed registration leaves the context as it was. Registering never panics.",
 ["inputs", "histories"], "every history of registrations and every name", "Tests register one or two names; clashes between aliases, cases and kinds need particular histories.",
 [CXF], [("add_function_as, add_unary_function_as, add_binary_function_as", CXF), ("add_constant, set_variable", CXF)], [("variables, constants, functions, unary_functions, binary_functions", "what is registered", CXF)], ["Context::get_*, Context::is_*"])
prop("X02", "Grouping symbols pair up",
 "For every character, the grouping functions of Config and Grouping agree: ( ) [ ] { } are symbols of their own pair, an opening symbol has its closing one and the other way round, and no other character is a grouping symbol.",
 ["inputs"], "every character", "Six characters matter among a million, and seven functions must agree on each.",
 [CXF], [("Config::get_group_*, is_group_*", CXF), ("Grouping", CXF)], [], ["Config, Grouping"])
prop("X03", "Names are validated",
 "A token name is valid if it has at least one character and neither whitespace nor control characters, in all of Unicode; a name that is empty or all whitespace is reported as empty, another invalid one as invalid input.",
 ["inputs"], "every name", "Tests use printable names.",
 [CXF], [("check_token_name", CXF)], [], ["context::validate::check_token_name"])

prop("B01", "Binary operators compute on bits and bind as in C",
 "In the binary context & | ^ ~ << >> and the comparisons, under each of their names, compute what they name on 128-bit two's complement numbers, comparisons giving 1 or 0; a shift by a negative amount or by 128 bits or more never panics and gives no value but the arithmetical one. Shifts bind tightest, then order, equality, and, xor, or.",
 ["inputs"], "every pair of numbers, every pair of operators", "Tests apply each operator to one or two pairs of three-bit numbers, never two operators together, and no large shifts.",
 ["prexel/src/binary/mod.rs"], [("binary::math", "prexel/src/binary/mod.rs")], [], ["DefaultContext::new_binary"])
prop("B02", "Binary numerals and expressions read as written",
 "With the binary splitter, b followed by binary digits is the number they spell in base 2, digits alone are a decimal number, and any other word is no number; expressions of numerals, grouping and operators evaluate as they are spelled, in any spacing, and malformed ones are errors.",
 ["inputs"], "every expression string", "Tests use well-spaced expressions of two numerals.",
 ["prexel/src/binary/mod.rs", SPF], [("FromStr for Binary", "prexel/src/binary/mod.rs"), ("SplitBinary", SPF)], [], ["Evaluator::eval with binary_number_splitter"])

OPF, CKF, UCF, NMF, NTF = "prexel/src/ops/mod.rs", "prexel/src/ops/checked.rs", "prexel/src/ops/unchecked.rs", "prexel/src/num.rs", "prexel/src/numeric_traits/mod.rs"
prop("N01", "Checked integer arithmetic is exact or an error",
 "In a checked context over an integer type, +, -, *, /, mod, the signs and abs return the exact mathematical result whenever it fits the type. Otherwise they return an overflow error, and a division-by-zero error for a zero divisor; they never wrap around or panic.",
 ["inputs"], "every pair of operands of every signed integer type", "Overflow and sign corner cases are a vanishing fraction of the operand pairs tests sample.",
 [CKF, NMF], [("AddOperator .. ModOperator, UnaryMinus", CKF), ("CheckedAdd .. CheckedNeg", NMF)], [], ["DefaultContext::new_checked: get_binary_function, get_unary_function"])
prop("N02", "Powers and factorials of integers are exact or an error",
 "In a checked context over an integer type, b ^ e for e >= 0 and n! are the exact integers whenever they fit the type, and an overflow error otherwise; the factorial of a negative number is an error. A negative exponent gives the integer part of the reciprocal power, and an error for base 0. Every call terminates without panicking.",
 ["inputs"], "every base, exponent and operand of every signed integer type", "Rounding through floating point is invisible on small results, and the overflow borders are single values.",
 [CKF, OPF], [("PowOperator / checked_pow", CKF), ("factorial_with", OPF)], [], ["^ and ! of DefaultContext::new_checked"])
prop("N03", "Aggregates of integers are exact or an error",
 "Sum, product and average of integers in a checked context are exact (the average truncated like the type's division) or an overflow error, and max and min return one of their arguments that bounds all of them, for every number and order of arguments.",
 ["inputs"], "every argument list", "Tests pass two or three fixed lists; the position of the extreme element or of the overflow matters.",
 [OPF, CKF, UCF], [("SumFunction, ProdFunction, AvgFunction", CKF), ("MaxFunction, MinFunction", OPF)], [], ["sum, product, avg, max, min of DefaultContext::new_checked"])
prop("N04", "Elementary functions compute the function they name",
 "Each elementary function of the built-in contexts returns the value of the mathematical function of its name (angles in degrees, log of one argument decimal, of two arguments in the base given, atan of two arguments the angle of the point) as computed by the standard floating-point library, where results within 1e-10 of an integer may be taken for it. When that value is not finite or does not fit the number type the result is an error, never a NaN, an infinity or a panic. PI and E are the closest values.",
 ["inputs"], "every finite argument, over floats and integers", "Tests evaluate a few angles; domain borders and the interplay of rounding, degrees and reciprocals are not sampled.",
 [OPF], [("forward_func_impl, impl_trig, impl_arc_trig and their reciprocals", OPF), ("from_float", OPF), ("Approx", "prexel/src/utils/approx.rs")], [], ["functions of DefaultContext::new_checked over f64 and i64"])
prop("N05", "A wrong number of arguments is always reported",
 "Calling a built-in function with a number of arguments it does not accept is an InvalidArgumentCount error, whatever the arguments are: sum, product and avg take at least one, max and min at least two, log and atan one or two, random at most two, and the others exactly one.",
 ["inputs", "configurations"], "every function, every argument count, every argument values, checked and unchecked contexts", "Arity checks are per function; tests check few of them with few counts.",
 [OPF, CKF, UCF], [("args.len() checks", OPF)], [], ["Function::call"])
prop("N06", "Float and unchecked contexts compute with the type's own arithmetic",
 "Over floats the operators +, -, *, /, mod and the signs give the IEEE result bit for bit, and sum, product and average are the left-to-right folds, max and min the largest and the smallest argument; a zero divisor is a division-by-zero error. The unchecked context has the same operators and functions as the checked one, and they compute the same wherever nothing overflows.",
 ["inputs", "configurations"], "every finite operand, checked and unchecked contexts", "The unchecked operators and aggregates are separate implementations of which tests evaluate a handful of sums.",
 [UCF, OPF, CKF], [("unchecked operators", UCF), ("float impls of the checked traits", NMF)], [], ["DefaultContext::new_unchecked, DefaultContext::<f64>::new_checked"])
prop("N07", "Wrapped numbers behave as the number they wrap",
 "A number type built with the crate's macros for single-field types computes, compares, converts, parses and fails exactly as its field's type does, in every operation of the built-in contexts.",
 ["inputs"], "every value of the wrapped type, every operation", "The macros write out each trait by hand; the tests instantiate them once and compare few values.",
 [NTF], [("impl_unchecked_num_traits_with_field", NTF), ("impl_checked_num_traits_with_field", NTF)], [], ["the traits implemented, contexts over the wrapped type"])
prop("N08", "Random numbers lie within the bounds asked for",
 "Random() is in [0, 1], Random(max) in [0, max] and Random(min, max) in [min, max] for all finite bounds in order, whatever number is drawn; a negative max, bounds out of order or bounds that are not finite are errors.",
 ["inputs", "schedules"], "every pair of bounds and every random draw", "A test sees a few draws of a few ranges; overflow of the range and rounding at its ends need particular bounds and draws.",
 [OPF], [("RandFunction", OPF)], [], ["random of DefaultContext"])

DCF = "prexel/src/decimal/mod.rs"
prop("D01", "Decimal arithmetic is that of the decimal type, or an error",
 "In the decimal context + - * / mod, the unary signs, Sum, Product, Avg, Max, Min, Floor, Ceil, Truncate and Round give what the decimal type's own arithmetic gives; ^ with an integer exponent is the repeated product (or its reciprocal) and ! of a non-negative integer the product of the integers up to it, both exact. A result out of range is reported as an overflow, a zero divisor as a division by zero, and a wrong number of arguments as such; nothing panics.",
 ["inputs"], "every pair of decimals", "Tests compute a few small sums and factorials; overflow needs numbers near 2^96 and carries cross the 32-bit words of the mantissa.",
 [DCF, "prexel/src/decimal/decimal_ext.rs"], [("operators of the decimal context", DCF), ("DecimalExt::checked_powi", "prexel/src/decimal/decimal_ext.rs"), ("DecimalExt::checked_factorial", "prexel/src/decimal/decimal_ext.rs")], [], ["DefaultContext::new_decimal"])

prop("L04", "Imaginary numerals are read as one number",
 "With complex numbers enabled, a numeral followed by the imaginary unit `i` is one number, as if it were written as a numeral of its own: 2i^2 is (2i)^2 and -2i is -(2i). Everything else is read as without them; an `i` that follows no numeral stands for itself.",
 ["inputs"], "every expression string", "One test reads one such numeral; the merging looks one lexeme ahead in the middle of the operator classification.",
 [TKF], [("imaginary unit lookahead of tokenize", TKF)], [], ["Tokenizer::tokenize", "Evaluator::eval"])
ZF = "prexel/src/complex/mod.rs"
prop("Z01", "Complex operations are those of the complex type",
 "In the complex context + - * / mod ^, the signs, Sum, Product and Avg compute what the complex type's arithmetic does, the constants PI, E and i have their values, Log(x, b) takes any real base and reports others, division by zero is an error, and both parts of a Random number lie between the real bounds asked for, bounds out of order or not real being errors.",
 ["inputs", "schedules"], "every pair of complex numbers and every random draw", "The complex context is hardly tested; wrong parts or bounds show only on particular operands.",
 [ZF, "prexel/src/ops/unchecked.rs"], [("PowOperator, LogFunction, RandFunction", ZF), ("unchecked operators", "prexel/src/ops/unchecked.rs")], [], ["DefaultContext::new_complex"])
prop("Z02", "Complex functions are the ones their names say",
 "Sqrt, Ln, Exp, Log, the trigonometric and hyperbolic functions and their inverses, taken in radians, are those of the complex type; csc, sec, cot and their hyperbolic counterparts are reciprocals of sin, cos, tan; their inverses are the inverse functions of the reciprocal; a wrong number of arguments is reported as such.",
 ["inputs"], "every complex number", "The functions are forwarded by macros without tests; a swapped method or a reciprocal in the wrong place gives plausible numbers.",
 [ZF], [("forward_impl_func", ZF), ("forward_impl_func_inv", ZF), ("forward_impl_func_of_inv", ZF)], [], ["DefaultContext::new_complex"])
prop("M01", "Optional features change no result",
 "Whichever of the optional features (docs, linked-hashmap, decimal, complex, binary) are left out or added, the operators, functions and contexts that remain have the same names and compute the same: without docs and linked-hashmap, too, each of them does what the properties N01 to N06, D01, Z01, Z02, B01 and X01 say.",
 ["inputs", "configurations"], "every operand, in the build without the default features", "The docs feature selects between two copies of nearly every forwarding macro; all tests run with one set of features.",
 [OPF, ZF, "prexel/src/decimal/mod.rs", CXF], [("cfg(not(feature = docs)) macros", OPF), ("cfg(not(feature = docs)) macros", ZF), ("cfg(not(feature = docs)) macros", "prexel/src/decimal/mod.rs"), ("Map alias", CXF)], [], ["the contexts, built with --no-default-features"])

RP, CA = "eval/src/repl/repl.rs", "eval/src/collections/carray.rs"
prop("A01", "The prompt hands over the lines as typed, edited and recalled",
 "Each Enter hands over exactly the line on the prompt: the characters typed, minus those removed with Backspace, or a line recalled with Up and Down and edited. The history holds the last N distinct-from-their-predecessor non-blank lines, oldest first, for every N (0 and 1 too); Up moves to older lines and stops at the oldest, Down to newer ones and then to an empty line. Other keys and events change nothing, and no key sequence panics.",
 ["histories"], "every sequence of key events and every history size", "The prompt has no tests; the ring buffer is tested on a few fixed operation sequences, and the two meet only after the history has wrapped around.",
 [RP, CA], [("Repl::run", RP), ("CircularArray::push, get, remove", CA)], [("history", "ring of the last lines", RP), ("history_index", "place in the history", RP)], ["the lines passed to the closure of Repl::run", "CircularArray::iter"])
prop("A02", "The command line, the prompt and the server give the library's values",
 "For every number type, `eval`, the interactive prompt and the server's evaluation service answer an expression with the value the library's evaluator gives for that type (implicit multiplication enabled; complex and binary numerals where the type has them), and with an error, and no value, exactly where the evaluator fails. At the prompt `name = value` sets a variable for the following lines without an answer, `$result` is the last value, comparisons are not assignments, and `exit` ends the session; a failing line changes nothing. The server sets the given variables first and fails if one of them is not valid. The listings name every constant (with its value), operator and function of the type once and nothing else.",
 ["inputs", "histories"], "every expression and every session", "None of this has tests; each type has its own copy of the code in three places.",
 ["eval/src/repl/mod.rs", "eval/src/eval_expr.rs", "eval/src/list.rs", "prexel-server/src/services/evaluator.rs"], [("run_repl, is_assignment, set_variable", "eval/src/repl/mod.rs"), ("EvalExpr::eval", "eval/src/eval_expr.rs"), ("eval_expression", "prexel-server/src/services/evaluator.rs"), ("list", "eval/src/list.rs")], [], ["what is written to stdout and stderr", "EvalResult"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                     "technique": "symbolic execution of the compiled code's LLVM IR with z3 (bounded), counterexamples and path models replayed natively",
                     "level": "model_checking",
                     "level_note": "Within the bounds listed in the evidence (per entry point) the solver decides every branch and assertion over all values; nothing is claimed beyond them. " + (CHECKS[i].get("note", "") or "Trusts rustc/LLVM up to IR, z3 and the executor (checked by native replay of path models on each run).")}
                    for i in ids if i in CHECKS],
         "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in CHECKS],
         "notes": "engine/: symbolic executor for LLVM IR; harness/: entry points with symbolic inputs and the assertions; registry.py: bounds; check.py: driver; known_findings.txt: findings and fixes"}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(ids), "properties,", len(m["checks"]), "checks")
