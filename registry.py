"""Which harness entry points decide which property, and within what bounds."""

COMMON_ASSUMPTIONS = [
    "Decided on LLVM IR of the harness + /repo + dependencies + std, compiled by rustc 1.99.1 at opt-level 1 with overflow checks and debug assertions, panic=abort; rustc and LLVM up to that IR are trusted, and so is the executor's semantics of it (cross-checked by replaying path models natively on every run)",
    "Allocation never fails; formatting (core::fmt) is executed as an opaque operation with empty output except where a harness says otherwise; hash keys are constant (std RandomState and ahash), so no claim depends on hash-map iteration order",
    "z3 4.8.12 as a library decides every query; the thorough tier re-decides a sample with a second solver",
]

def E(entry, bounds, **k):
    d = {"entry": entry, "bounds": bounds}
    d.update(k)
    return d

Q, T = "quick", "thorough"
TOKS = "numbers, a variable, a constant, a function, commas, ( ) [ ], a prefix operator, a postfix operator and three binary operators whose 32-bit precedences and whose associativity are symbolic (equal precedence implies equal associativity)"
EV_TEXT = {1: "the expression evaluates to something other than what its operators' precedence, associativity and grouping prescribe", 2: "a malformed expression is accepted", 3: "a well-formed expression is rejected"}
TXT = "9 texts of 21 to 35 characters (names, numerals and operators of several characters) with any one character replaced by, or preceded by, any ASCII character, or left out"
ALPHA = "the 16 characters 1 0 . + - ^ * ! ~ ( ) , x f k and space"

EV_AS = ["The number type is a free term algebra: two results are equal only if the same operations were applied to the same operands in the same order"]
EV_OUT = "longer sequences than the stated bounds; contexts with other operator sets"
VALS = "every sequence of %d tokens that the reference grammar accepts, from: " + TOKS
BADS = "every sequence of %d tokens that the reference grammar rejects, from: " + TOKS

NUM_TEXT = {1: "a wrong value instead of the exact one", 2: "an error where the result fits the type, or a value where it does not", 3: "the wrong kind of error", 4: "a zero divisor or negative operand is not reported as such", 5: "wrong number of arguments not reported", 6: "the result is not one of the arguments", 7: "the result is not a bound of the arguments"}
FUN_TEXT = {1: "a function returns a wrong value", 2: "an error for a finite result", 3: "the wrong kind of error", 4: "an operation differs from the type's own arithmetic", 5: "a division by zero is not reported as such", 6: "a wrong number of arguments is not reported as such", 7: "a function is missing", 8: "a range without values is accepted", 9: "a constant has the wrong value", 10: "a random number is out of bounds", 11: "max or min is not the largest or smallest argument"}
FUN_AS = ["sin, cos, ln, pow and the like are uninterpreted functions (equal arguments, equal results); a counterexample is only reported with their real values", "values within 1e-10 of an integer may be taken for it, as documented"]

CHECKS = {
    "E01": {
        "group": "g_eval",
        "entries": [
            E("h_eval_small", "every sequence of 0 to 4 tokens from: " + TOKS, cover=[1, 2], time=60),
            E("h_eval_bin9", "every sequence of 9 number/binary-operator tokens, symbolic precedences and associativities", cover=[1, 2], time=60),
            E("h_eval_val7", VALS % 7, cover=[1], time=150),
            E("h_eval_pre9", "every accepted sequence of 9 tokens of: number ( ) prefix postfix and two binary operators", cover=[1], time=100),
            E("h_eval_fun10", "every accepted sequence of 10 tokens of: number ( ) function comma and one binary operator", cover=[1], time=60),
            E("h_long_args", "f with 0 to 40 arguments, alone or nested among the arguments of f", cover=[1], time=60),
            E("h_long_argk", "f with 1 to 20 arguments that are calls, groups or operations, 7 patterns", cover=[1], time=60),
            E("h_long_argbig", "f with 127, 128, 255, 256, 257, 511 or 512 arguments", cover=[1], time=60),
            E("h_long_deep", "8 patterns of nesting, 1 to 40 levels, balanced or one symbol off", cover=[1, 2], time=60),
            E("h_long_deepbig", "as h_long_deep, up to 130 levels", cover=[1, 2], time=60),
            E("h_long_chain", "chains of 3 to 32 operators in 7 patterns, symbolic precedences and associativities", cover=[1], time=60),
            E("h_long_runs", "1 to 40 prefix and postfix operators on an operand", cover=[1], time=60),
            E("h_long_runbig", "127 to 512 prefix and postfix operators on an operand", cover=[1], time=60),
            E("h_long_edit", "8 sequences of 13 to 18 tokens with any token replaced by, or preceded by, any other, or left out; symbolic precedences", cover=[1, 2], time=100),
            E("h_eval_bin11", "every sequence of 11 number/binary-operator tokens", cover=[1, 2], tier=T, ttime=600),
            E("h_eval_val8", VALS % 8, cover=[1], tier=T, ttime=1200),
            E("h_eval_pre10", "as h_eval_pre9 with 10 tokens", cover=[1], tier=T, ttime=1200),
            E("h_eval_fun12", "as h_eval_fun10 with 12 tokens", cover=[1], tier=T, ttime=1200),
        ],
        "asserts": [1, 3], "texts": EV_TEXT, "assumptions": EV_AS, "outside": EV_OUT,
    },
    "E02": {
        "group": "g_eval",
        "entries": [
            E("h_eval_small", "every sequence of 0 to 4 tokens from: " + TOKS, cover=[1, 2], time=60),
            E("h_eval_smallc", "the same with custom_function_call enabled", cover=[1, 2], time=60),
            E("h_eval_bad6", BADS % 6, cover=[2], time=100),
            E("h_eval_all5", "every sequence of 5 tokens from: " + TOKS, cover=[1, 2], time=60),
            E("h_eval_cust6", "every sequence of 6 tokens, custom_function_call enabled (f[..] is a call)", cover=[1, 2], time=60),
            E("h_eval_badfun8", "every rejected sequence of 8 tokens of: number ( ) function comma and one binary operator", cover=[2], time=60),
            E("h_eval_bad7", BADS % 7, cover=[2], time=250),
            E("h_long_deep", "8 patterns of nesting, 1 to 40 levels, balanced or one symbol off", cover=[1, 2], time=60),
            E("h_long_edit", "8 sequences of 13 to 18 tokens with any token replaced by, or preceded by, any other, or left out", cover=[1, 2], time=100),
            E("h_long_swap", "the same sequences with any two tokens exchanged", cover=[1, 2], time=60),
            E("h_eval_badfun10", "as h_eval_badfun8 with 10 tokens", cover=[2], tier=T, ttime=900),
            E("h_eval_all8", "every sequence of 8 tokens", cover=[1, 2], tier=T, ttime=3600),
        ],
        "texts": EV_TEXT, "assumptions": EV_AS, "outside": EV_OUT, "asserts": [2, 3],
    },
    "E03": {
        "group": "g_eval",
        "entries": [
            E("h_eval_smalli", "implicit multiplication on: every sequence of 0 to 4 tokens from: " + TOKS, cover=[1, 2], time=60),
            E("h_eval_imp6", "implicit multiplication on: every sequence of 6 tokens from: " + TOKS, cover=[1, 2], time=100),
            E("h_eval_impv7", "implicit multiplication on: " + VALS % 7, cover=[1], time=250),
            E("h_long_fact", "1 to 20 factors side by side, 5 patterns", cover=[1], time=60),
            E("h_long_editi", "8 sequences of 13 to 18 tokens with any token replaced by, or preceded by, any other, or left out", cover=[1, 2], time=60),
            E("h_long_swapi", "the same sequences with any two tokens exchanged", cover=[1, 2], time=60),
            E("h_eval_impv8", "implicit multiplication on: " + VALS % 8, cover=[1], tier=T, ttime=1800),
        ],
        "texts": EV_TEXT, "assumptions": EV_AS, "outside": EV_OUT,
    },
    "E04": {
        "group": "g_tok",
        "entries": [
            E("h_ev_s", "every ASCII string of 0 to 2 characters and every string of 4 over " + ALPHA, cover=[1, 2], time=60),
            E("h_ev3", "every ASCII string of 3 characters (accepted or not)", cover=[1, 2], time=60),
            E("h_va5", "every accepted ASCII string of 5 characters", cover=[1], time=100),
            E("h_va6a", "every accepted string of 6 characters over " + ALPHA, cover=[1], time=150),
            E("h_va8b", "every accepted string of 8 characters over 1 + - ! * ( ) ~", cover=[1], time=100),
            E("h_ev6b", "every string of 6 characters over 1 + - ! * ( ) ~", cover=[1, 2], time=100),
            E("h_va8c", "every accepted string of 8 characters over 1 - f ( , ) x !", cover=[1], time=100),
            E("h_txt_eval", TXT, cover=[1, 2], time=120),
            E("h_ev4", "every ASCII string of 4 characters", cover=[1, 2], tier=T, ttime=900),
            E("h_va6", "every accepted ASCII string of 6 characters", cover=[1], tier=T, ttime=1800),
            E("h_va7a", "every accepted string of 7 characters over " + ALPHA, cover=[1], tier=T, ttime=3600),
            E("h_va9c", "every accepted string of 9 characters over 1 - f ( , ) x !", cover=[1], tier=T, ttime=1800),
        ],
        "texts": EV_TEXT, "assumptions": EV_AS + ["context: binary + - ^ ** m (a word), prefix - ~, postfix !, function f, constant k, variable x"],
        "outside": "longer strings; other contexts; non-ASCII text (see E05)",
    },
    "E05": {
        "group": "g_tok", "only_panics": True,
        "entries": [
            E("h_np_s", "every ASCII string of 0 to 2 characters", cover=[1, 2], time=60),
            E("h_np3", "every ASCII string of 3 characters", cover=[1, 2], time=60),
            E("h_np4", "every ASCII string of 4 characters", cover=[1, 2], time=150),
            E("h_np3o", "every ASCII string of 3 characters under every combination of implicit_mul, complex_number, custom_function_call, with and without a * operator", cover=[1, 2], time=60),
            E("h_np4u", "strings of 4 characters, one of them (any position) one of 10 non-ASCII characters, the rest over 1 + - ! * ( ) ~", cover=[1, 2], time=100),
            E("h_np4v", "as h_np4u, the rest over 1 - f ( , ) x !", cover=[1, 2], time=100),
            E("h_txt_uni", "9 texts of 21 to 35 characters, one of 12 non-ASCII characters inserted anywhere or in the place of any character, under every configuration", cover=[1, 2], time=100),
            E("h_txt_opts", TXT + ", under every combination of implicit_mul, complex_number, custom_function_call", cover=[1, 2], time=200),
            E("h_np4o", "as h_np3o with 4 characters", cover=[1, 2], tier=T, ttime=1200),
            E("h_np5", "every ASCII string of 5 characters", cover=[1, 2], tier=T, ttime=3600),
        ],
        "outside": "longer strings; numeric types whose own parser or operators panic (see the arithmetic properties)",
    },
    "L01": {
        "group": "g_tok",
        "entries": [
            E("h_split_s", "every ASCII string of 0 to 3 characters", cover=[1], time=60),
            E("h_split4", "every ASCII string of 4 characters", cover=[1], time=60),
            E("h_split6", "every ASCII string of 6 characters", cover=[1], time=150),
            E("h_txt_split", TXT, cover=[1], time=60),
            E("h_txt_wsplit", "a name, numeral or run of operator characters of 1 to 20 characters with any two adjacent ones arbitrary ASCII, alone or between others", cover=[1], time=60),
            E("h_txt_wsplitbig", "the same with 31 to 257 characters, one of them (first, last, next to them or middle) arbitrary ASCII", cover=[1], time=60),
            E("h_split7", "every ASCII string of 7 characters", cover=[1], tier=T, ttime=1800),
        ],
        "texts": {1: "a token of the expression is lost", 2: "a token has the wrong extent", 3: "a token does not consist of the characters written", 4: "more tokens than the expression contains"},
        "outside": "longer strings; custom split rules",
    },
    "L02": {
        "group": "g_tok",
        "entries": [
            E("h_ws_s", "every ASCII string of 0 to 3 characters, whitespace inserted at every token boundary", cover=[1], time=60),
            E("h_ws4", "every ASCII string of 4 characters, a space inserted at every token boundary", cover=[1], time=100),
            E("h_ws3u", "every ASCII string of 3 characters, one of 10 kinds of whitespace (tab, newline, NBSP, U+3000, ...) inserted at every token boundary", cover=[1], time=100),
            E("h_txt_ws", "a space or tab inserted at every token boundary of: " + TXT, cover=[1], time=60),
            E("h_txt_wsu", "11 kinds of whitespace inserted at every token boundary of the 9 texts", cover=[1], time=60),
            E("h_ws5", "every ASCII string of 5 characters, a space inserted at every token boundary", cover=[1], time=150),
        ],
        "texts": {1: "whitespace between tokens changes the number of tokens", 2: "whitespace between tokens changes a token"},
        "outside": "longer strings",
    },
    "L03": {
        "group": "g_tok",
        "entries": [
            E("h_tok_s", "every ASCII string of 0 to 2 characters", cover=[1, 2], time=60),
            E("h_tok3", "every ASCII string of 3 characters", cover=[1, 2], time=60),
            E("h_tok6b", "every string of 6 characters over 1 + - ! * ( ) ~", cover=[1, 2], time=100),
            E("h_tok_over5", "every string of 5 characters over 1 - ! ( f m F and space in contexts where the function f or the operator m is also a variable or a constant", cover=[1, 2], time=60),
            E("h_tok5a", "every string of 5 characters over " + ALPHA, cover=[1, 2], time=250),
            E("h_txt_tok", TXT, cover=[1, 2], time=100),
            E("h_txt_wtok", "a name, numeral or run of operator characters of 1 to 20 characters, one of them arbitrary ASCII, alone or between others", cover=[1, 2], time=100),
            E("h_txt_wtokbig", "the same with 31 to 257 characters", cover=[1, 2], time=100),
            E("h_tok4", "every ASCII string of 4 characters", cover=[1, 2], tier=T, ttime=900),
        ],
        "texts": {1: "an expression that cannot be tokenized is accepted", 2: "a tokenizable expression is rejected", 3: "wrong number of tokens", 4: "a token is classified or spelled wrongly", 5: "a name is refused for a variable or a constant because a function or an operator has it"},
        "assumptions": ["how an operator written directly after an unknown token, a function name or a misplaced operator is classified is left open (such expressions are rejected by the evaluation anyway)"],
        "outside": "longer strings; other contexts",
    },
    "C01": {
        "group": "g_ci",
        "entries": [
            E("h_ci_ascii", "every pair of ASCII names of up to 3 characters", cover=[1, 2], time=60),
            E("h_ci_trans", "every triple of ASCII names of up to 2 characters", cover=[1], time=60),
            E("h_ci_uni", "pairs out of 28 characters with unusual case mappings, each also against its own lower case", cover=[1, 2], time=60),
            E("h_ci_unimix", "pairs of two-character names mixing a symbolic ASCII character with one of 5 unusual ones, in either order", cover=[1, 2], time=60),
            E("h_ci_ascii4", "every pair of ASCII names of up to 5 characters", cover=[1, 2], tier=T, ttime=900),
        ],
        "texts": {1: "owned and borrowed names disagree on equality", 2: "eq_ignore_case disagrees with ==", 3: "equality is not equality of the lower-cased characters", 4: "equal borrowed names hash differently", 5: "equal owned names hash differently", 6: "ordering disagrees with equality", 7: "ordering is not antisymmetric", 8: "owned and borrowed names are ordered differently", 9: "a name is not equal to itself", 10: "owned and borrowed name hash differently", 11: "the text of a name is altered", 12: "a character differs from its own lower case", 13: "ordering is not transitive"},
        "assumptions": ["the hash is the byte sequence fed to the Hasher"],
        "outside": "longer names; the whole of Unicode (the case-mapping tables are too large to encode: the non-ASCII characters are a fixed set, split by the executor)",
    },
    "E06": {
        "group": "g_eval",
        "entries": [
            E("h_err_fails", "as h_err_fail8, 1 to 4 tokens", cover=[1, 2], time=60),
            E("h_err_undefs", "as h_err_undef5, 1 to 4 tokens, with and without implicit multiplication", cover=[1], time=60),
            E("h_err_fail8", "every accepted sequence of 8 tokens of: number ( ) prefix postfix function comma and two binary operators; any one operation fails with any error kind", cover=[1, 2], time=60),
            E("h_err_undef5", "every sequence of 5 tokens of 16 kinds (9 of them meaningless in the context: undefined names of each kind, unknown text, argument counts, foreign grouping symbols), at least one meaningless", cover=[1], time=60),
            E("h_err_undefi4", "as h_err_undef5 with 4 tokens and implicit multiplication", cover=[1], time=60),
            E("h_err_again7", "every accepted sequence of 7 tokens of: number variable ( ) function comma and one binary operator, evaluated twice and once more after the variable was set", cover=[1], time=60),
            E("h_err_undef6", "as h_err_undef5 with 6 tokens", cover=[1], tier=T, ttime=900),
            E("h_err_fail9", "as h_err_fail8 with 9 tokens", cover=[1, 2], tier=T, ttime=900),
        ],
        "texts": {1: "a failing operation is ignored", 2: "the value is wrong", 3: "an operation is called more or less than once", 4: "an error without a failing operation", 5: "another error than the operation's", 6: "operations are called after a failure, or several times", 7: "an expression with a meaningless token has a value", 8: "evaluating again gives something else", 9: "setting a variable does not return its old value", 10: "a variable's old value is used"},
        "assumptions": EV_AS, "outside": EV_OUT,
    },
    "X01": {
        "group": "g_ctx",
        "entries": [
            E("h_c_val4", "every history of 4 set_variable/add_constant calls with one-character names (any visible ASCII), then a lookup of any name", cover=[1, 2, 3, 4], time=100),
            E("h_c_fun2", "every history of 2 registrations of functions, unary or binary operators, each with up to one alias, under its own or another name; then a lookup of any name", cover=[1, 2, 3], time=60),
            E("h_c_fun3", "as h_c_fun2, 3 registrations without aliases", cover=[1, 2, 3], time=60),
            E("h_c_fun2a", "as h_c_fun2, up to two aliases each", cover=[1, 2, 3], time=200),
            E("h_c_fun3a", "as h_c_fun2, 3 registrations", cover=[1, 2, 3], tier=T, ttime=900),
            E("h_c_val5", "as h_c_val4, 5 calls", cover=[1, 2, 3, 4], tier=T, ttime=900),
        ],
        "texts": {1: "a name clash between a variable and a constant is accepted", 2: "setting a variable fails or does not return its old value", 3: "a registration fails without a reason", 4: "wrong value of a variable", 5: "wrong value of a constant", 6: "is_* disagrees with get_*", 7: "a name that is taken is accepted", 8: "the wrong function is found", 9: "a name is found among names of another kind"},
        "assumptions": ["names are one character; longer names differ by their comparison only, which C01 decides", "the aliases and the name within one registration may coincide"], "outside": "longer histories; longer or non-ASCII names",
    },
    "X02": {
        "group": "g_ctx",
        "entries": [E("h_c_groups", "every Unicode character", cover=[1, 2], time=60)],
        "texts": {1: "get_group_symbol is wrong", 2: "get_group_open_for is wrong", 3: "get_group_close_for is wrong", 4: "is_group_open is wrong", 5: "is_group_close is wrong", 6: "open, close and symbols of a Grouping disagree", 7: "open_for or close_for of a Grouping is wrong"},
        "outside": "nothing (every char value)",
    },
    "X03": {
        "group": "g_ctx",
        "entries": [
            E("h_c_name2", "every name of up to 2 Unicode characters", cover=[1, 2], time=60),
            E("h_c_name3", "every ASCII name of up to 3 characters", cover=[1, 2], time=60),
            E("h_c_name5", "every ASCII name of up to 5 characters", cover=[1, 2], tier=T, ttime=900),
        ],
        "texts": {1: "a name is accepted or rejected wrongly, or with the wrong kind of error"}, "outside": "longer names",
    },
    "B01": {
        "group": "g_bin",
        "entries": [
            E("h_b_ops", "every operator under every alias, every pair of i128", cover=[1, 2], time=60),
            E("h_b_not", "every i128", cover=[1], time=30),
            E("h_b_prec", "a . b . c for every pair of operators, one operand complemented or none, operands -128 to 127", cover=[1], time=60),
            E("h_b_precw", "as h_b_prec, every i128", cover=[1], tier=T, ttime=900),
        ],
        "texts": {1: "an operator gives a wrong value", 2: "a shift by an amount out of range has a value, or one in range is an error", 3: "operators bind otherwise than in C", 4: "an operator is not found under its name or alias"},
        "assumptions": ["a shift to the right by too many bits may be the sign, one to the left 0, or either an error"], "outside": "longer expressions (E01 decides precedence for any operators)",
    },
    "B02": {
        "group": "g_bin",
        "entries": [
            E("h_b_parse5", "every ASCII string of up to 5 characters without sign as a numeral", cover=[1, 2], time=60),
            E("h_b_strs", "every string of 1 to 4 characters over b 0 1 2 & | ~ and space or b 1 < = ^ ( ) >", cover=[1, 2], time=60),
            E("h_b_str5", "every string of 5 characters over b 0 1 2 & | ~ and space", cover=[1, 2], time=60),
            E("h_b_str7", "every accepted string of 7 of them", cover=[1], time=60),
            E("h_b_strb5", "every string of 5 characters over b 1 < = ^ ( ) >", cover=[1, 2], time=60),
            E("h_b_strb7", "every accepted string of 7 of them", cover=[1], time=60),
            E("h_b_strb8", "every accepted string of 8 of them", cover=[1], tier=T, ttime=900),
            E("h_b_parse8", "as h_b_parse5, up to 8 characters", cover=[1, 2], tier=T, ttime=900),
        ],
        "texts": {5: "a numeral has a wrong value, or text is taken for one", 6: "an expression has a wrong value", 7: "a well-formed expression is rejected", 8: "a malformed expression has a value"}, "outside": "longer strings; the splitter of the REPL",
    },
    "N01": {
        "group": "g_num",
        "entries": [
            E("h_n_bin8", "+ - * / mod on every pair of i8", cover=[1, 2, 3], time=60),
            E("h_n_bin16", "+ - * / mod on every pair of i16", cover=[1, 2, 3], time=60),
            E("h_n_bin32", "+ - * / mod on every pair of i32", cover=[1, 2, 3], time=60),
            E("h_n_bin64", "+ - * / mod on every pair of i64", cover=[1, 2, 3], time=60),
            E("h_n_bin128", "+ - * / mod on every pair of i128", cover=[1, 2, 3], time=60),
            E("h_n_un8", "- + abs of every i8", cover=[1, 2], time=60),
            E("h_n_un64", "- + abs of every i64", cover=[1, 2], time=60),
            E("h_n_un128", "- + abs of every i128", cover=[1, 2], time=60),
        ],
        "texts": NUM_TEXT, "assumptions": ["an overflow of the remainder (least value mod -1) may be reported as such or as 0"], "outside": "unsigned types; isize; bit widths other than those listed",
    },
    "N02": {
        "group": "g_num",
        "entries": [
            E("h_n_pow8", "every i8 base, exponents 0 to 20", cover=[1, 2], time=150),
            E("h_n_pow8big", "every i8 base, exponents 21 to 127", time=60),
            E("h_n_pow64", "every i64 base, exponents 0 to 4", cover=[1, 2], time=60),
            E("h_n_pow64s", "bases -13 to 13, exponents 0 to 65, i64", cover=[1, 2], time=60),
            E("h_n_powneg", "bases -5 to 5, exponents -5 to -1, i64", cover=[1], time=60),
            E("h_n_fact8", "every i8", cover=[1, 2], time=60),
            E("h_n_fact16", "every i16", cover=[1, 2], time=120),
            E("h_n_fact64", "0 to 30, i64", cover=[1, 2], time=60),
            E("h_n_fact64big", "every i64 of at least 2^22", time=60),
        ],
        "texts": NUM_TEXT, "outside": "larger bases and exponents in wide types; factorials of i64 between 31 and 2^22 (loop too long to unroll)",
    },
    "N03": {
        "group": "g_num",
        "entries": [
            E("h_n_sum8", "sums of 1 to 4 i8", cover=[1, 2], time=60), E("h_n_sum32", "sums of 1 to 4 i32", cover=[1, 2], time=60),
            E("h_n_prod16", "products of i16", cover=[1, 2], time=60), E("h_n_prod64", "products of i64", cover=[1, 2], time=100),
            E("h_n_avg8", "averages of i8", cover=[1, 2], time=60), E("h_n_avg32", "averages of i32", cover=[1, 2], time=60),
            E("h_n_max8", "max of i8", cover=[1], time=60), E("h_n_max64", "max of i64", cover=[1], time=60),
            E("h_n_min8", "min of i8", cover=[1], time=60), E("h_n_min64", "min of i64", cover=[1], time=60),
            E("h_n_avgmany", "averages of 126 to 130 i8 zeros (the count is at the edge of the type)", time=60),
        ],
        "texts": NUM_TEXT, "assumptions": ["an aggregate whose partial sums overflow may be an error even if its value fits"], "outside": "longer argument lists; Decimal and Complex",
    },
    "N04": {
        "group": "g_num",
        "entries": [
            E("h_f_fwd1", "floor ceil truncate round sign sqrt of every finite f64", cover=[1], time=60),
            E("h_f_fwd2", "exp ln to_radians to_degrees and the hyperbolic functions of every finite f64", cover=[1, 2], time=120),
            E("h_f_trig", "sin cos tan csc sec cot of every finite f64", cover=[1, 2], time=150),
            E("h_f_arc", "asin acos atan acsc asec acot of every finite f64", cover=[1, 2], time=90),
            E("h_f_arch", "inverse hyperbolic functions, log and abs of every finite f64", cover=[1, 2], time=90),
            E("h_f_two", "log and atan with two arguments and ^ on every pair of finite f64", cover=[1, 2], time=90),
            E("h_f_int1", "floor to sqrt of every i64", cover=[1], time=100),
            E("h_f_int4", "inverse functions and log of every i64", cover=[1, 2], time=120),
            E("h_f_const", "PI and E in the checked and unchecked contexts"),
            E("h_f_int2", "the functions of h_f_fwd2 of every i64", tier=T, ttime=900),
            E("h_f_int3", "the functions of h_f_trig of every i64", tier=T, ttime=900),
        ],
        "texts": FUN_TEXT, "assumptions": FUN_AS, "outside": "the numerical accuracy of libm; non-finite arguments",
    },
    "N05": {
        "group": "g_num",
        "entries": [
            E("h_f_ari", "every function with 0 to 4 arguments it does not accept, any f64 values", cover=[1], time=100),
            E("h_f_ariu", "the same in the unchecked context", cover=[1], time=100),
            E("h_f_arii", "the same over i64", cover=[1], time=100),
        ],
        "texts": FUN_TEXT, "outside": "more than 4 arguments; the decimal and complex contexts",
    },
    "N06": {
        "group": "g_num",
        "entries": [
            E("h_f_ops", "+ - * / mod and the signs on every pair of finite f64", cover=[1, 3], time=60),
            E("h_f_opsu", "the same in the unchecked context", cover=[1, 3], time=60),
            E("h_f_opsui", "+ - * / mod on i64 pairs without overflow in the unchecked context", cover=[1, 3], time=60),
            E("h_f_agg", "sum product avg of 1 to 4 finite f64", cover=[1], time=60),
            E("h_f_aggu", "the same in the unchecked context", cover=[1], time=60),
            E("h_f_bounds", "max and min of 2 to 4 finite f64", cover=[1], time=60),
            E("h_f_boundsu", "the same in the unchecked context", cover=[1], time=60),
            E("h_f_unch1", "one-argument functions of the unchecked context (floor to coth), every finite f64", cover=[1, 2], time=150),
            E("h_f_unch2", "the other one-argument functions of the unchecked context", cover=[1, 2], time=200),
        ],
        "texts": FUN_TEXT, "assumptions": FUN_AS, "outside": "overflow in unchecked integer contexts (a panic or wrap-around by design)",
    },
    "N07": {
        "group": "g_num",
        "entries": [
            E("h_w_bin8", "all binary operators, wrapped and plain i8", cover=[1, 2], time=60),
            E("h_w_bin64", "+ - * / mod, wrapped and plain i64", cover=[1, 2], time=60),
            E("h_w_un8", "unary operators, wrapped and plain i8", cover=[1, 2], time=60),
            E("h_w_fun8", "abs and the aggregates, wrapped and plain i8", cover=[1, 2], time=60),
            E("h_w_fun8e", "elementary functions, wrapped and plain i8", cover=[1, 2], time=60),
            E("h_w_laws8", "comparison, conversion, zero, one, clone of every wrapped i8", cover=[1], time=60),
            E("h_w_laws64", "comparison, conversion, zero, one, clone of every wrapped i64", cover=[1], time=60),
            E("h_w_raw", "+ - * / % and negation of wrapped i64 (checked and unchecked macros)", cover=[1], time=60),
            E("h_w_parse", "strings of 1 to 4 characters over digits + - .", cover=[1], time=60),
        ],
        "texts": {1: "a wrapped number computes another value than its field", 2: "a wrapped number reports another error than its field", 3: "a wrapped number fails where its field does not, or the other way round", 4: "comparison differs from the field's", 5: "a clone differs", 6: "zero or one differs", 7: "a conversion differs", 8: "an operator differs from the field's", 9: "parsing differs from the field's"},
        "outside": "wrapped floats (the macros build zero from an integer)",
    },
    "N08": {
        "group": "g_num",
        "entries": [
            E("h_f_rnd0", "Random(), every drawn number", cover=[1], time=30),
            E("h_f_rnd1", "Random(max), max >= 0 with up to 9 significant bits, every drawn number", cover=[1], time=60),
            E("h_f_rnd2", "Random(min, max), every pair of finite bounds in order, every drawn number", cover=[1], time=60),
            E("h_f_rnd", "Random with a negative or non-finite bound, or min > max", cover=[1], time=60),
        ],
        "texts": FUN_TEXT, "assumptions": ["the rand crate is replaced by a stand-in that draws any float of [0, 1)"], "outside": "the distribution; non-float number types",
    },
    "D01": {
        "group": "g_dec",
        "entries": [
            E("h_d_same", "+ and - over every pair of 96-bit integers of either sign", cover=[1, 2], time=60),
            E("h_d_small", "+ - * over every pair of 16-bit mantissas of either sign, scales 0 1 2 and 0 2 4", cover=[1], time=60),
            E("h_d_huge", "+ - * of a number within 256 of the largest or smallest and another such or an 8-bit one", cover=[1, 2], time=60),
            E("h_d_div", "/ and mod of 5 numbers (up to the largest) by 8 divisors (two zeros, 1e-28, the largest, ...)", cover=[1, 2], time=60),
            E("h_d_div2", "every 8-bit integer of either sign divided by 0.5", cover=[1], time=60),
            E("h_d_rem", "mod over every pair of 8-bit integers of either sign", cover=[1, 2], time=60),
            E("h_d_unary", "unary - and + over every 96-bit mantissa, scales 0 14 28", cover=[1], time=30),
            E("h_d_sum", "sum of 1 to 3 numbers, each 8-bit or within 256 of the largest or smallest", cover=[1, 2], time=60),
            E("h_d_prod", "product of 1 or 2 numbers, each 8-bit of scale 1 or one of 4 largest or smallest", cover=[1, 2], time=120),
            E("h_d_prod3", "product of 1 to 3 five-bit numbers of scale 1", cover=[1], time=60),
            E("h_d_avg", "average of 1 to 3 out of 5 numbers (up to the largest and smallest)", cover=[1, 2], time=60),
            E("h_d_bounds", "max and min of 2 or 3 numbers of 32 bits and scale 0 or 3", cover=[1], time=60),
            E("h_d_round8", "floor ceil truncate round over every 8-bit mantissa of either sign, scales 0 to 3", cover=[1], time=60),
            E("h_d_power", "6-bit bases of either sign, scale 0 or 1, exponents 0 to 6", cover=[1], time=60),
            E("h_d_powbig", "12 powers at the edges of the range (10^28, 10^29, (10^14)^2, 0^-1, 2^95, a 96-bit exponent, ...)", cover=[1, 2], time=60),
            E("h_d_fact", "factorials of -2 to 30", cover=[1, 2], time=60),
            E("h_d_arity", "every function with 0, 2 or 3 arguments where it does not take as many", cover=[1], time=60),
            E("h_d_round12", "as h_d_round8, 12 bits", cover=[1], tier=T, ttime=300),
            E("h_d_round16", "as h_d_round8, 16 bits", cover=[1], tier=T, ttime=900),
        ],
        "texts": {1: "an operation differs from the decimal type's own arithmetic", 2: "an error where the result is in range, or a value where it is not", 3: "the wrong kind of error", 5: "max or min is not the largest or smallest argument", 6: "a number is rounded wrongly", 7: "a power is not the repeated product", 8: "a factorial is wrong", 9: "a function is missing", 10: "a wrong number of arguments is not reported as such"},
        "assumptions": ["the arithmetic of the rust_decimal crate (checked_add, checked_sub, ...) is executed, not modelled, and is itself the reference for the operators and aggregates"], "outside": "division by other divisors than those listed (a symbolic divisor makes the 96-bit long division intractable); mantissas wider than stated; roots, logarithms, exponentials and trigonometry of decimals (D02)",
        "note": "h_d_div, h_d_avg, h_d_powbig, h_d_fact and h_d_arity branch over a finite list of values: the solver decides only that their paths exist",
    },
    "L04": {
        "group": "g_tok",
        "entries": [
            E("h_imt_s", "tokens of every ASCII string of 1 or 2 characters and of 4 over 1 i . - ! ( ) space", cover=[1, 2], time=60),
            E("h_im_s", "values of every ASCII string of 1 or 2 characters, of 4 over 1 i . - ! ( ) space or 1 i x - ^ f ( )", cover=[1, 2], time=60),
            E("h_imt3", "tokens of every ASCII string of 3 characters", cover=[1, 2], time=60),
            E("h_imt5", "tokens of every string of 5 characters over 1 i . - ! ( ) space", cover=[1, 2], time=60),
            E("h_im3", "values of every ASCII string of 3 characters", cover=[1, 2], time=60),
            E("h_im6", "values of every string of 6 characters over 1 i . - ! ( ) space", cover=[1, 2], time=150),
            E("h_im7v", "every accepted string of 7 characters over the same", cover=[1], time=100),
            E("h_im6j", "values of every string of 6 characters over 1 i x - ^ f ( )", cover=[1, 2], time=100),
            E("h_im7j", "every accepted string of 7 characters over the same", cover=[1], tier=T, ttime=600),
        ],
        "texts": {1: "a string with imaginary numerals has a wrong value, or one that cannot be tokenized is accepted", 2: "a string is accepted or rejected wrongly", 3: "wrong number of tokens, or a well-formed expression is rejected", 4: "an imaginary numeral is read wrongly"},
        "assumptions": EV_AS + ["the number type reads i, 2i and 2.5i, as num_complex does"],
        "outside": "longer strings; other contexts",
    },
    "Z01": {
        "group": "g_cplx",
        "entries": [
            E("h_z_add", "+ and - of every pair of complex numbers of two floats each", cover=[1], time=60),
            E("h_z_mul", "*, every pair", cover=[1], time=60),
            E("h_z_div", "/, every pair", cover=[1, 2], time=60),
            E("h_z_rem", "mod, every pair", cover=[1, 2], time=60, lazy=True),
            E("h_z_pow", "^, every pair", cover=[1], time=60, lazy=True),
            E("h_z_unary", "unary - and +, every number", cover=[1], time=60),
            E("h_z_fold", "sum, product and average of every 1 to 3 numbers", cover=[1], time=60, lazy=True),
            E("h_z_const", "the constants", cover=[1], time=30),
            E("h_z_log2", "Log with every number and base", cover=[1, 2], time=60, lazy=True),
            E("h_z_random", "Random of no or two arguments, every number and draw", cover=[1, 2], time=100, lazy=True),
            E("h_z_random1", "Random(max), max with up to 9 significant bits, every draw", cover=[1, 2], time=60, lazy=True),
        ],
        "texts": {1: "an operation differs from the complex arithmetic it names", 2: "an error where there is a value", 3: "the wrong kind of error", 4: "a value instead of an error", 5: "a function is missing", 7: "a constant is wrong", 8: "a random number is out of bounds"},
        "assumptions": ["num_complex is executed and is the reference; the functions of the maths library it calls are uninterpreted", "the rand crate is replaced by a stand-in that draws any float of [0, 1)"], "outside": "accuracy of num_complex",
    },
    "Z02": {
        "group": "g_cplx",
        "entries": [
            E("h_z_fun1", "sqrt ln exp log of every complex number", cover=[1], time=60, lazy=True),
            E("h_z_fun2", "sin cos tan csc sec cot", cover=[1], time=60, lazy=True),
            E("h_z_fun3", "asin acos atan acsc asec acot", cover=[1], time=60, lazy=True),
            E("h_z_fun4", "sinh cosh tanh csch sech coth", cover=[1], time=60, lazy=True),
            E("h_z_fun5", "asinh acosh atanh acsch asech acoth", cover=[1], time=60, lazy=True),
            E("h_z_arity", "every function with 0, 2 or 3 arguments where it does not take as many", cover=[2], time=60),
        ],
        "texts": {1: "a function is not the one its name says", 2: "an error where there is a value", 4: "a value instead of an error", 5: "a function is missing", 6: "a wrong number of arguments is not reported as such"},
        "assumptions": ["num_complex is executed and is the reference; the functions of the maths library it calls are uninterpreted", "a reciprocal function is 1/f(x), an inverse of one f(1/x)"], "outside": "accuracy of num_complex",
    },
    "M01": {
        "group": "g_num,g_dec,g_cplx,g_ctx,g_bin", "nodefault": True,
        "entries": [
            E("h_f_fwd1", "floor ceil truncate round sign sqrt of every finite f64", cover=[1], time=60, of="N04"),
            E("h_f_fwd2", "exp ln to_radians to_degrees and the hyperbolic functions of every finite f64", cover=[1, 2], time=120, of="N04"),
            E("h_f_trig", "sin cos tan csc sec cot of every finite f64", cover=[1, 2], time=150, of="N04"),
            E("h_f_arc", "asin acos atan acsc asec acot of every finite f64", cover=[1, 2], time=90, of="N04"),
            E("h_f_arch", "inverse hyperbolic functions, log and abs of every finite f64", cover=[1, 2], time=90, of="N04"),
            E("h_f_two", "log and atan with two arguments and ^ on every pair of finite f64", cover=[1, 2], time=90, of="N04"),
            E("h_f_ops", "+ - * / mod and the signs on every pair of finite f64", cover=[1, 3], time=60, of="N06"),
            E("h_f_agg", "sum product avg of 1 to 4 finite f64", cover=[1], time=60, of="N06"),
            E("h_f_bounds", "max and min of 2 to 4 finite f64", cover=[1], time=60, of="N06"),
            E("h_f_ari", "every function with 0 to 4 arguments it does not accept, any f64 values", cover=[1], time=100, of="N05"),
            E("h_n_bin8", "integer operators, every i8 pair", cover=[1, 2, 3], time=60, of="N01"),
            E("h_n_fact8", "integer factorials, every i8", cover=[1, 2, 3], time=60, of="N02"),
            E("h_c_few3", "every history of 3 registrations of a variable, constant or function under 6 names, then a lookup", cover=[1, 2], time=60, of="X01"),
            E("h_b_ops", "binary operators, every pair of operands", cover=[1, 2], time=60, of="B01"),
            E("h_b_not", "binary not", cover=[1], time=30, of="B01"),
            E("h_b_prec", "precedences of the binary operators", cover=[1], time=60, of="B01"),
            E("h_d_same", "decimal + and - over 96-bit integers", cover=[1, 2], time=60, of="D01"),
            E("h_d_small", "decimal + - * over 16-bit mantissas", cover=[1], time=60, of="D01"),
            E("h_d_div", "decimal / and mod of 5 numbers by 8 divisors", cover=[1, 2], time=60, of="D01"),
            E("h_d_unary", "decimal signs over 96-bit mantissas", cover=[1], time=30, of="D01"),
            E("h_d_sum", "decimal sums", cover=[1, 2], time=60, of="D01"),
            E("h_d_avg", "decimal averages", cover=[1, 2], time=60, of="D01"),
            E("h_d_bounds", "decimal max and min", cover=[1], time=60, of="D01"),
            E("h_d_round8", "decimal floor ceil truncate round over 8-bit mantissas", cover=[1], time=60, of="D01"),
            E("h_d_arity", "decimal functions with a wrong number of arguments", cover=[1], time=60, of="D01"),
            E("h_z_add", "complex + and -, every pair", cover=[1], time=60, of="Z01"),
            E("h_z_unary", "complex signs", cover=[1], time=60, of="Z01"),
            E("h_z_fold", "complex sum, product and average", cover=[1], time=60, lazy=True, of="Z01"),
            E("h_z_fun1", "complex sqrt ln exp log", cover=[1], time=60, lazy=True, of="Z02"),
            E("h_z_fun2", "complex sin cos tan csc sec cot", cover=[1], time=60, lazy=True, of="Z02"),
            E("h_z_fun3", "complex asin acos atan acsc asec acot", cover=[1], time=60, lazy=True, of="Z02"),
            E("h_z_fun4", "complex sinh cosh tanh csch sech coth", cover=[1], time=60, lazy=True, of="Z02"),
            E("h_z_fun5", "complex asinh acosh atanh acsch asech acoth", cover=[1], time=60, lazy=True, of="Z02"),
            E("h_z_arity", "complex functions with a wrong number of arguments", cover=[2], time=60, of="Z02"),
        ],
        "assumptions": FUN_AS + ["the reference is that of the property that checks the same with the default features"], "outside": "tokenizing and evaluation without the default features (symbolic names in a SipHash map are out of reach); other combinations of features than none, the default and all but the default",
    },
    "A01": {
        "group": "g_app", "crate": "app",
        "entries": [
            E("h_a_ring", "every history of 4 operations (push, pop, remove, get_mut, get) on a ring of capacity 0 to 4, symbolic elements", cover=[1], time=60),
            E("h_a_keys5", "every sequence of 5 keys (a letter or space, Backspace, Enter, Up, Down, a key without effect, a resize), history of 1 to 3 lines", cover=[1, 2], time=60),
            E("h_a_keys6", "every sequence of 6 keys", cover=[1, 2], time=120),
            E("h_a_hist", "6 lines entered (repeated and blank ones among them), then every sequence of 5 keys; history of 0 to 4 lines or the default", cover=[1, 2], time=100),
            E("h_a_ring5", "every history of 5 operations on a ring of capacity 0 to 4", cover=[1], time=120),
        ],
        "texts": {1: "the prompt hands over too many or too few lines", 2: "a line handed over is not the one typed, edited or recalled", 3: "the wrong element is removed", 4: "the ring has a wrong length or capacity", 5: "the ring does not hold the last elements, oldest first"},
        "assumptions": ["crossterm and ctrlc are replaced by stand-ins: key events come from the harness, a read is always ready, styling and cursor movement are dropped"],
        "outside": "the position in the history after a blank line typed while an earlier line was recalled (not specified); what the screen shows; longer key sequences",
    },
    "A02": {
        "group": "g_app", "crate": "app",
        "entries": [
            E("h_a_num", "integer sessions of 3 lines over symbolic digits: x=#, x=-#; x*x, y = #; $result+x, x-y", cover=[1, 2, 3], time=60),
            E("h_a_any", "integer sessions of 3 lines, 7 patterns of the second with any one of 24 characters at a given place (24 solver-free branches each)", cover=[1, 2, 3], time=60),
            E("h_a_anyb", "binary sessions of 3 lines, 4 patterns with any one of 24 characters at a given place", cover=[1, 2, 3], time=60),
            E("h_a_int3", "every integer session of 3 lines out of 14 (branches only)", cover=[1, 2, 3, 4], time=60),
            E("h_a_bin3", "every binary session of 3 lines out of 12", cover=[1, 2, 3, 4], time=60),
            E("h_a_dec3", "every decimal session of 3 lines out of 12", cover=[1, 2, 3], time=60),
            E("h_a_flt3", "every float session of 3 lines out of 10", cover=[1, 2, 3], time=60),
            E("h_a_cpx3", "every complex session of 3 lines out of 10", cover=[1, 2, 3], time=60),
            E("h_a_cmd", "eval -t of 5 types on 24 expressions", cover=[1, 2], time=60),
            E("h_a_list", "constants, operators and functions of the 5 types, with and without colours", cover=[1], time=60),
            E("h_a_srv", "the server's evaluation of 24 expressions for 5 types and the default", cover=[1, 2], time=60),
            E("h_a_srvv", "the server's evaluation of 8 expressions with 1 or 2 variables out of 6 names and 11 values", cover=[1, 2], time=150),
        ],
        "texts": {1: "the value printed is not the library's", 2: "an error is reported next to a value", 3: "a failing line is not answered by an error", 4: "something is printed for a line that has no value", 5: "the session continues after exit", 6: "a value instead of an error", 7: "an error instead of a value", 8: "something is listed that the type does not have", 9: "something the type has is not listed exactly once"},
        "assumptions": ["crossterm and ctrlc are replaced by stand-ins: key events come from the harness, styling is dropped; what is printed goes to a buffer", "formatting is executed", "the reference is the library itself, whose values the other properties decide"],
        "outside": "other lines than the listed ones: apart from the digits of h_a_num the lines are chosen by branching over a list, not by the solver; the server's HTTP layer",
    },
}
