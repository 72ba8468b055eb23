# Read by mkprops.py.
AI = "abstract interpretation of the program's MIR (callees inlined, loops to a fixpoint)"

prop("P01", "No text makes the evaluator panic",
     "Reading, converting and evaluating any text, against any context, ends with a value or an error: no input makes the tokenizer, the "
     "infix-to-RPN conversion or the evaluation of the converted tokens abort.  (The builtin operations themselves are P02.)",
     ["inputs"], "every text and every token sequence, of any length, against every context",
     "The tests evaluate about 150 fixed texts; panics need odd combinations of tokens (unmatched closings, empty groups, multi-byte "
     "characters, commas at the start of the text), and every position of every index and unwrap matters.",
     [EVA, TOK, SPL, "prexel/src/token.rs", CTX],
     [("tokenize", TOK), ("infix_to_rpn", EVA), ("rpn_eval", EVA), ("Splitter", SPL)],
     check=(AI + ", every panic edge an obligation", "other",
            "Over-approximates every path for inputs of any length; trusts the models of the standard library listed in DESIGN.md."))

prop("P04", "A function receives exactly the arguments written between its parentheses",
     "The number of arguments a function call is given is the number of arguments written between its parentheses: none for an empty pair, "
     "otherwise one more than the commas at that level, whatever calls and groups are nested in the arguments.  A call takes that many "
     "values, in the order they were written, and no more.",
     ["inputs", "programs"], "every expression with calls, nested to any depth, with any number of arguments",
     "Tests nest a handful of calls; an argument count that leaks between two nesting levels needs a particular nesting to show.",
     [EVA], [("counting arguments at commas and closings", EVA), ("taking the arguments of a call", EVA)],
     state=[("arg_count", "the open calls and the commas seen at their level", EVA)],
     check=(AI + ", with the argument counters as events", "other",
            "Counting is followed for any nesting; the taking of arguments is followed exactly for counts 0..4 (0..8 thorough)."))

prop("P05", "Operations are applied to the operands as written, left to right",
     "Evaluating `a op b` calls the operation registered under op with a as the left and b as the right operand; a unary operator is "
     "called with its own operand.  The value used for a number, variable or constant is its own, and operands keep the order of the text.",
     ["inputs", "programs"], "every expression over every context, including noncommutative user-defined operations",
     "Tests check noncommutative operators on a few small expressions; the order must hold at every depth and for every operation.",
     [EVA], [("binary call", EVA), ("unary call", EVA), ("operand values", EVA)],
     check=(AI + ", with the value stack as events", "other", "All paths of the evaluation loop from an arbitrary earlier state."))

prop("P08", "Precedence, associativity and notation decide the grouping of operators",
     "Without grouping symbols, an operator with a higher precedence binds its operands before one with a lower precedence; operators of "
     "equal precedence group to the left when left associative and to the right when right associative.  A prefix operator binds the operand "
     "that follows it and a postfix operator the one before it, for every precedence and notation a context declares.",
     ["inputs", "programs"], "every pair of operators of every context, at every depth",
     "The precedences of user-defined operators are runtime values: tests use the default contexts and short expressions only.",
     [EVA, "prexel/src/function.rs"], [("comparison of the precedence of pending operators", EVA), ("Precedence", "prexel/src/function.rs")],
     check=(AI + ", every push and pop of a pending operator checked against the facts of its path", "other",
            "All paths of the conversion loop from an arbitrary earlier state."))

prop("P10", "Grouping symbols bind what they enclose and must match",
     "A closing symbol is accepted only when it closes the innermost open symbol of its own kind, and everything still pending inside the "
     "group is applied before the group closes.  An unclosed, unopened, mismatched or empty group is an error, and no grouping symbol "
     "survives into the converted expression.",
     ["inputs"], "every token sequence, with any registered grouping symbols, nested to any depth",
     "Tests cover single pairs and a few nestings of the default symbols.",
     [EVA, CTX], [("closing a group", EVA), ("pending tokens at the end", EVA), ("grouping symbols of a context", CTX)],
     check=(AI + ", with the pending-operator stack as events", "other", "All paths of the conversion loop from an arbitrary earlier state."))

prop("P11", "Malformed expressions are rejected and no token is lost or duplicated",
     "Converting an expression either fails or keeps every operand, operator and call exactly once: nothing is dropped, duplicated or "
     "invented.  Two operands, or two operators, that follow each other where the grammar needs an operator, or an operand, between them are "
     "an error, and so is a token that is unknown or makes no sense in an expression.",
     ["inputs"], "every token sequence of any length",
     "Tests list about thirty malformed texts; the space of token sequences is unbounded.",
     [EVA], [("operand/operator alternation", EVA), ("output of the conversion", EVA)],
     check=(AI + ", every token followed from the input to the output", "other",
            "All paths of the conversion loop from an arbitrary earlier state."))

prop("P12", "An evaluation yields a value only when exactly one value remains",
     "Every operand puts one value on the stack, and every operator or call replaces its operands by its one result; the evaluation succeeds "
     "only when exactly one value is left at the end, which is the result.  Anything else is an error, never a silently dropped value.",
     ["inputs"], "every converted token sequence of any length",
     "Tests evaluate well-formed expressions; leftovers show only for particular malformed ones.",
     [EVA], [("end of the evaluation", EVA)],
     check=(AI + ", with the value stack as events", "other", "All paths of the evaluation loop and its exit."))

prop("P19", "Implicit multiplication and free-form calls happen only where switched on",
     "A multiplication that is not written is inserted only between a number or a closed group and the operand, call or group that follows it, "
     "and only when the context enables implicit multiplication; otherwise the text is an error.  Unless the context allows free-form calls, a "
     "function name must be followed by a parenthesis.",
     ["inputs", "configurations"], "every token sequence under every setting of the two options",
     "Tests switch each option on for a few texts; with the option off nothing may change, for every text.",
     [EVA, CTX], [("implicit multiplication", EVA), ("parenthesis after a function name", EVA), ("Config", CTX)],
     check=(AI + ", path facts about the options required at each inserted operator", "other",
            "All paths of the conversion loop from an arbitrary earlier state."))

OPF = ["prexel/src/ops/checked.rs", "prexel/src/ops/unchecked.rs", "prexel/src/ops/mod.rs", "prexel/src/decimal/mod.rs",
       "prexel/src/decimal/decimal_ext.rs", "prexel/src/complex/mod.rs", "prexel/src/binary/mod.rs", "prexel/src/num.rs"]
VN = "abstract interpretation of each operation's MIR to a term per path; "

prop("P02", "Builtin operations never panic, and never wrap around",
     "Whatever operands a builtin operation of the checked, decimal, complex or binary context is given, it returns a value or an error: it "
     "never aborts, and a result that does not fit the number type is an error, not a wrapped or truncated value.  The checked arithmetic "
     "provided for every number type does the same.",
     ["inputs"], "every builtin operation of the four contexts, every operand of the number type, every number of arguments",
     "Overflow and division by a value that happens to be zero are reached only by extreme operands, one of which each test would have to guess.",
     OPF + ["prexel/src/num.rs"],
     [("builtin operations", f) for f in OPF[:2] + OPF[3:4] + OPF[5:7]] + [("checked arithmetic of number types", "prexel/src/num.rs")],
     check=("interval analysis of every unguarded operation and panic edge over the program's MIR, with loop summaries and widening", "other",
            "All paths for 0..3 arguments (0..6 thorough), routines with loops for any operand; the generic number is taken as a 128-bit "
            "integer, floats do not fail. Trusts that the exponential, logarithm and sine routines are those functions (P06)."))

prop("P03", "Operands outside an operation's domain are reported, valid ones are not",
     "A builtin operation given operands outside its mathematical domain (a zero divisor, the square root or logarithm of a number that has "
     "none, a negative factorial, an inverse sine above one) returns an error instead of a value, and division by zero is reported as "
     "division by zero.  Operands inside the domain are never rejected as being outside it.",
     ["inputs"], "every builtin operation of every default context, with every operands",
     "Domain edges are reached only by particular operands of particular functions; most functions have one or two sample values in the tests.",
     OPF, [("builtin operations", f) for f in OPF[:2] + OPF[3:4] + OPF[5:7]],
     check=(VN + "the facts of value-returning paths must exclude the operands outside the domain", "other",
            "All paths of an operation for 0..4 arguments (0..8 thorough); a path is reported with operands that satisfy its facts. The "
            "numeric routines are followed at sample operands."))

prop("P06", "Every builtin operation computes its documented formula",
     "Each builtin operator and function returns, for operands in its domain, the mathematical function it documents, with its operands "
     "in the documented roles: quotient, remainder and power of the left by the right operand, the logarithm of the first argument "
     "to the base of the second, the reciprocal functions as reciprocals of their partners, aggregates over all the arguments (a number "
     "within 1e-10 of an integer may be taken as that integer).",
     ["inputs"], "every builtin operation of every default context, with every operands and number of arguments",
     "Most functions are tested at one value in one context; swapped operands, a wrong partner function or a wrong special case show "
     "only at other values.",
     OPF, [("builtin operations", f) for f in OPF[:2] + OPF[3:4] + OPF[5:7]],
     check=(VN + "the term is compared with the specified formula by rational-function normal form", "other",
            "All paths for 0..4 arguments (0..8 thorough). Elementary functions of the number type are trusted; where no normal form decides, "
            "terms are compared at sample points (counted separately in the evidence)."))

prop("P07", "Operators have the documented precedence, associativity and notation",
     "In the arithmetic contexts powers bind tighter than products, quotients and remainders, and these tighter than sums and "
     "differences; a power groups to the right, all else to the left.  In the binary context shifts bind tighter than comparisons, then "
     "equality, and, xor and or; the factorial is written after its operand and every other unary operator before it.",
     ["configurations"], "every pair of operators of every default context",
     "Tests compare a few pairs in one context; there are five contexts, each with its own operator types.",
     OPF, [("Precedence and Associativity of the builtin operators", f) for f in OPF[:2] + OPF[3:4] + OPF[5:7]],
     check=("constant propagation through the operators' own methods over the program's MIR", "other", "Every registered operator and pair."))

prop("P14", "A builtin function refuses exactly the argument counts it does not take",
     "Calling a builtin function with a number of arguments it does not take is an argument-count error, and it is never one with a number "
     "of arguments it does take.",
     ["inputs"], "every builtin function of every default context and every number of arguments",
     "Tests call each function with the right number of arguments and almost never with a wrong one.",
     OPF, [("builtin functions", f) for f in OPF[:2] + OPF[3:4] + OPF[5:6]],
     check=(VN + "every path of every argument count must end the right way", "other", "0..4 arguments (0..8 thorough)."))

prop("P15", "Inverse, trigonometric and log functions never return NaN or infinity",
     "Over floating point numbers the logarithm to a base, the trigonometric functions and the inverse trigonometric and hyperbolic functions "
     "return a finite number or an error: an argument that makes the result undefined or infinite is an error, be it an ordinary number, "
     "an infinity or NaN.",
     ["inputs"], "every operand, including zeroes of both signs, infinities, NaN, subnormal and huge values",
     "The tests use a handful of ordinary angles; NaN then spreads through the rest of an expression silently.",
     OPF[:2], [("forward_func_impl and the inverse functions", OPF[0]), ("forward_func_impl and the inverse functions", OPF[1])],
     check=(VN + "the facts of every value-returning path must exclude operands whose term is NaN or infinite under IEEE rules", "other",
            "All paths; operand classes: zeroes, ones, subnormal, huge, infinite, NaN, angles of the zeroes and poles."))

prop("P25", "Each default context registers its documented operations and constants",
     "Every default context offers each operator, function and constant documented for its number type, under the documented name (and, for "
     "the operators of the binary context, the documented words), with the documented value for a constant, whichever constructor made it.  "
     "A context made with a configuration has exactly that configuration, but that a complex one always reads complex numbers.",
     ["configurations"], "both constructors of all five default contexts",
     "The tests touch about half of the names, mostly in one context.",
     [CTX] + OPF[3:4] + OPF[5:7], [("default contexts", f) for f in [CTX] + OPF[3:4] + OPF[5:7]],
     check=("abstract interpretation of the constructors with registrations as events, constant propagation of names and values", "other",
            "Every registration on every path of both constructors of all five contexts."))

prop("P31", "Random numbers lie between the bounds they are given",
     "The random function returns a number in [0, 1) without arguments, in [0, max) with one and in [min, max) with two, spanning the whole "
     "interval; for complex numbers each part does.  Bounds that are out of order, or a negative maximum, are an error.",
     ["inputs", "schedules"], "every draw of the generator and all bounds",
     "A test sees a few random draws; a formula that leaves the interval does so only for some draws and bounds.",
     OPF[:2] + OPF[3:4] + OPF[5:6], [("random", f) for f in OPF[:2] + OPF[3:4] + OPF[5:6]],
     check=(VN + "the term must map draws from [0, 1) onto the interval between the bounds", "other",
            "Affine terms are decided by their ends, at sample bounds."))

ICS = ["prexel/src/utils/ignore_case_string.rs", "prexel/src/utils/ignore_case_str.rs"]

prop("P16", "Names are found whatever their letter case, variables exactly as written",
     "A constant, function or operator of a context is found by its name in any letter case and by no other name; a variable is found only by "
     "its exact name.  Each kind of name is kept apart: it is looked up where its own kind was registered, and asking whether a name is of a "
     "kind answers whether that lookup finds it.",
     ["inputs", "histories"], "every name, in every alphabet, and everything registered before",
     "Two names that compare equal must also hash equal or they are found only by luck of the hash table; tests look up a few ASCII names.",
     [CTX] + ICS, [("lookups of the default context", CTX), ("equality and hash of names that ignore case", ICS[0])],
     state=[("variables, constants, functions, unary_functions, binary_functions", "what is registered, by name", CTX)],
     check=("abstract interpretation of the lookups, and of equality and hash on strings of unknown characters; the character mappings are "
            "compared over all of Unicode", "other",
            "Strings of up to two characters on each side; the maps of the standard library and of ritelinked are trusted."))

prop("P17", "A taken name is refused, and a refused registration changes nothing",
     "Registering a function or operator fails if its name or one of its aliases is already taken in its kind, adding a constant fails if a "
     "variable has its name and setting a variable fails if a constant has it, in any letter case.  A registration that fails leaves the "
     "context as it was; one that succeeds makes the operation available under its name and every alias, or stores the given value.",
     ["histories", "inputs"], "every sequence of registrations, with any names and aliases",
     "Tests register two conflicting names; aliases that clash with something registered earlier, and what is left behind by a failure, need a "
     "particular order of registrations.",
     [CTX], [("add_function_as, add_unary_function_as, add_binary_function_as", CTX), ("add_constant, set_variable", CTX)],
     state=[("variables, constants, functions, unary_functions, binary_functions", "what is registered, by name", CTX)],
     check=("abstract interpretation of the registration methods with map accesses as events, each insertion checked against its path", "other",
            "Operations with up to 3 aliases (5 thorough), maps with up to 2 unknown entries (4 thorough) where they are iterated."))

prop("P18", "Blank names and names with whitespace or control characters are refused",
     "In a build with debug assertions, registering a function, operator or constant or setting a variable under a name that is blank or that "
     "contains whitespace or a control character is an error.  No other name is refused for the characters in it.",
     ["inputs"], "every name",
     "Tests try a space and a line feed; the rule is about every character of the name, in every alphabet, for each kind of name.",
     [CTX], [("check_token_name", CTX)],
     check=("abstract interpretation of the registration methods on names of unknown characters, the facts of each path evaluated at witness "
            "characters", "other", "Names of up to 3 characters (5 thorough), twelve whitespace and control characters and eleven others."))

prop("P32", "Splitting a text into tokens loses nothing but whitespace",
     "The tokens of a text, put together, are the text without its whitespace: every other character is in exactly one token, unchanged and in "
     "order.  Commas, grouping symbols and whitespace are never part of a longer token, and whitespace is removed by the ready-made splitters.",
     ["inputs"], "every text, and every list of splitting rules made of the rules the crate offers or of the user's own",
     "A character lost between two tokens still leaves a well-formed expression with another value; tests split a few ordinary texts.",
     [SPL, "eval/src/repl/mod.rs"], [("DefaultSplitter::split_into_tokens", SPL), ("rules", SPL), ("SplitRepl", "eval/src/repl/mod.rs")],
     check=("abstract interpretation of every splitting rule on unknown characters, and of the splitter with unknown rules; every path's tokens are "
            "compared with the characters it consumed", "other",
            "A character followed by up to three others per rule; up to three characters and two rules for the splitter."))

prop("P33", "Every token of a text is read as what it names",
     "Each token of a text is read as the first of these that it is: a number, a variable, a constant, a function, an operator, a comma, a "
     "grouping symbol, and otherwise as an unknown token.  Nothing but whitespace is left out, and order and text are kept.  Where complex "
     "numbers are enabled, and only there, a number followed by `i` is one number.",
     ["inputs", "configurations"], "every sequence of tokens, in every context and number type",
     "Tests tokenize a few expressions over the built-in names; clashes between names of different kinds, and every pair of neighbours, are not sampled.",
     [TOK], [("Tokenizer::tokenize", TOK), ("Grouping::new, Config::get_group_symbol", CTX)],
     check=("abstract interpretation of the tokenizer over token classes: every sequence of classes is one abstract input, and the context's answers "
            "follow from the classes", "other", "Sequences of up to two tokens (three in the thorough tier)."))

prop("P35", "A sign is read as prefix or binary by what stands before it",
     "An operator that can be both is binary after an operand - a number, variable, constant, closing symbol or postfix operator - and prefix at the "
     "start, after an opening symbol, a comma or another operator, whether or not whitespace is kept between them.  A postfix operator is unary "
     "after an operand, and an operator without unary meaning is never read as unary.",
     ["inputs", "configurations"], "every operator a context can have, between all kinds of tokens",
     "`2 - 3` and `2 * -3` are tested; operators of the user's own, and what stands before them, have to be combined.",
     [TOK], [("is_unary", TOK), ("Tokenizer::tokenize", TOK)],
     check=("abstract interpretation of the tokenizer over token classes: every class of operator in every surrounding", "other",
            "One token on each side, with something or nothing before it, with and without spaces."))

EV, SV = "eval/src/", "prexel-server/src/"
APP = "abstract interpretation of the program around the library, which is uninterpreted: what it is asked is read off every path"

prop("P26", "The command line tool evaluates with the number type it is given",
     "Each documented name of a number type selects the operations of that type: decimal, float, integer, complex (with imaginary literals) or binary "
     "(with binary literals), with implicit multiplication.  The expression is evaluated once, as given; its value is printed on the output, its error on "
     "the error output.  The lists of constants, functions and operators are those of the selected type and leave nothing out.",
     ["inputs", "configurations"], "every command and number type, with any expression",
     "The tool has no tests; a type that selects other operations, or loses an option, shows only for expressions where the two differ.",
     [EV + "main.rs", EV + "eval_expr.rs", EV + "list.rs", EV + "repl/mod.rs"],
     [("main", EV + "main.rs"), ("eval_*", EV + "eval_expr.rs"), ("list", EV + "list.rs"), ("run_repl", EV + "repl/mod.rs")],
     check=(APP, "other", "Every command for every number type, all paths; the terminal and the argument parser are trusted."))

prop("P27", "The interactive tool keeps results and variables as they were entered",
     "A line of the interactive tool is evaluated once: its value is printed and is the value of $result from then on, and a line that fails changes nothing "
     "but prints its error.  `name = number` gives that variable that number, or prints the error; a binary comparison is no assignment.  Only the line `exit` ends "
     "the tool, and names that begin with $ can be read back.",
     ["inputs", "histories"], "every line after every sequence of lines, in every number type",
     "The tool has no tests; what a line leaves behind shows only in later lines.",
     [EV + "repl/mod.rs"], [("eval_loop", EV + "repl/mod.rs"), ("repl_tokenizer", EV + "repl/mod.rs")],
     state=[("$result", "the value of the last evaluation", EV + "repl/mod.rs")],
     check=(APP, "other", "Every path through the handler of an arbitrary line, for every number type."))

prop("P28", "The server evaluates a request with its own type and variables",
     "A request is evaluated once, with the operations, options and literals of the number type it names (decimal when it names none) and with each of its "
     "variables set to its own value, read as a number of that type.  A variable that cannot be set is answered with its error and nothing is evaluated.  The "
     "lists of operators, functions and constants are those a request of that type is evaluated with, with every entry as it is.",
     ["inputs", "configurations"], "every request: number type, variables and expression",
     "The server has no tests; a mixed-up type or variable shows only for particular requests.",
     [SV + "services/evaluator.rs", SV + "services/info.rs", SV + "models/mod.rs", SV + "endpoints/mod.rs"],
     [("eval_expression", SV + "services/evaluator.rs"), ("get_operators, get_functions, get_constants", SV + "services/info.rs"), ("NumberType, Variable", SV + "models/mod.rs")],
     check=(APP, "other", "All paths, with two variables (three in the thorough tier)."))

prop("P29", "Every request to the server is answered with a result or an error",
     "A request that cannot be read is answered as the client's mistake, with an error; any other is evaluated and answered with its result or its error, never "
     "both and never neither, in the documented fields.  With only_result a result, and only a result, is plain text.  The documented paths and methods lead to "
     "what they are documented for.",
     ["inputs"], "every request body and query",
     "The server has no tests; replies to malformed bodies and failed evaluations are rare combinations of query, body and result.",
     [SV + "endpoints/mod.rs", SV + "models/mod.rs", SV + "main.rs"],
     [("eval", SV + "endpoints/mod.rs"), ("EvaluatedExpression", SV + "models/mod.rs"), ("routes", SV + "main.rs")],
     check=(APP, "other", "Every path from an arbitrary request to its reply; the web framework and serde are trusted."))

prop("P30", "All workers of the server count the requests of a client together",
     "The limit on the requests of a client holds for the server as a whole: every worker limits requests, and all count them in one place, so the number of "
     "requests allowed does not depend on which worker answers. A client is told from others by its address or cookie alone, not by what it asks for or how.",
     ["schedules", "inputs"], "every distribution of requests over the workers, and every request",
     "A test would have to start the server and reach several workers; with one worker, or few requests, nothing shows.",
     [SV + "main.rs"], [("worker factory", SV + "main.rs"), ("get_rate_limit_middleware", SV + "main.rs")],
     state=[("store", "the requests counted per client", SV + "main.rs")],
     check=("call-graph reachability from the worker factory, over the creation and use of the store", "other",
            "The counting itself is that of the actix-ratelimit crate."))

prop("P13", "An error found anywhere is the result of the evaluation, unchanged",
     "When converting an expression or one of the operations it calls reports an error, that error is the result of the evaluation, and nothing "
     "is evaluated after it.  A text is read by the evaluator's own tokenizer, and exactly the tokens read are converted and evaluated in the "
     "context the evaluator was made with.",
     ["inputs", "configurations"], "every text or list of tokens, in every context, with every operation that fails",
     "Tests look at the kind of a few errors of builtin operations; errors of an operator of the user's own, at any depth, and evaluators made in every way have to be combined.",
     [EVA, "prexel/src/error.rs"], [("rpn_eval: errors of operations", EVA), ("Evaluator::eval, eval_tokens and constructors", EVA)],
     check=(AI + ", with the error of an operation or of the conversion followed to the result, and every way to make an evaluator composed with every way to use it",
            "other", "All paths; what the operation's error means is the operation's business (P02, P03)."))

prop("P34", "A number type made with the macros computes as the type it wraps",
     "The operators and checked operations of a wrapped number are those of the number it wraps, in the same order of operands, with no value where "
     "that has none: on overflow, and on division by zero where that is an error.  It is shown and read as the wrapped number, and a binary number "
     "is shown in binary and read from `b` followed by binary digits.",
     ["inputs", "programs"], "every pair of values, and every number type wrapped",
     "The tests wrap one type and add two small values; each operation has its own code and its own edge (zero divisor, overflow, minimum by -1).",
     ["prexel/src/num.rs", "prexel/src/binary/mod.rs"],
     [("the macros and the checked traits", "prexel/src/num.rs"), ("Binary: Display and FromStr", "prexel/src/binary/mod.rs")],
     check=("abstract interpretation of the expansions of the macros for wrapped types of both kinds, on arbitrary operands, each path compared with the "
            "operation of its name", "other", "All operands; formats and literals are compared on all paths for arbitrary text and on a list of texts."))

prop("P36", "An error keeps its kind, message and cause",
     "An error has the kind it was made with, its text is the message it was given, if any, and a text for its kind otherwise, and the error it "
     "was made from, if any, is its cause and can be taken out again.  Two errors are equal exactly when their kinds are.",
     ["inputs"], "every error, made in every way and of every kind",
     "Tests compare the kinds of errors of a few evaluations; what an error says, and what it was made from, is never read.",
     ["prexel/src/error.rs"], [("Error and ErrorKind", "prexel/src/error.rs")],
     check=("abstract interpretation of every way to ask an error, on what every way to make one makes", "other", "Every kind; arbitrary messages and causes."))

prop("P21", "Every combination of features builds and gives the same operations",
     "The crate builds with every combination of its optional features.  A context registers the same operations and constants in each that has it, whether or "
     "not they come with descriptions, and these compute, fail and are found as they do with all features.",
     ["configurations"], "all 32 combinations of the optional features",
     "The tests are run with all features on; nearly every operation is written a second time for builds without descriptions, which nothing tests.",
     ["prexel/src/ops/mod.rs", "prexel/src/decimal/mod.rs", "prexel/src/complex/mod.rs", "prexel/src/binary/mod.rs", CTX, "prexel/Cargo.toml"],
     [("code under cfg(not(feature = \"docs\"))", "prexel/src/ops/mod.rs"), ("Map", CTX), ("features", "prexel/Cargo.toml")],
     check=("type-checking of every combination, comparison of every function's MIR with that of the combinations already analysed, and the abstract "
            "interpretations of the other properties for those that differ", "other", "All 32 combinations; debug builds."))


prop("P20", "Evaluating is a function of the text and the context",
     "The same text in the same context has the same result or error, whatever was evaluated before and wherever and whenever it is evaluated, unless an operation "
     "named random is called.  Evaluating changes nothing that outlives it: not the evaluator, not the context, not files, the terminal or the environment.",
     ["histories", "inputs"], "every text, after every sequence of evaluations",
     "A test evaluates a text once, in one process: what a second evaluation, another process or another hash seed would give is not seen.",
     [EVA, TOK, SPL, CTX, "prexel/src/ops/mod.rs", "prexel/src/decimal/ops.rs"],
     [("Evaluator::eval", EVA), ("tokenize", TOK), ("infix_to_rpn", SY), ("operations", "prexel/src/ops/mod.rs"), ("get_variable and the other lookups", CTX)],
     state=[("Context", "only read while evaluating", CTX)],
     check=("closure of the call graph from every entry point, with every library function and static it refers to compared with lists of effects", "other",
            "What the libraries themselves depend on is taken from the lists."))


prop("P22", "Every evaluation comes to an end",
     "Reading, converting and evaluating any text ends, with a result or an error, and so does every builtin operation on every argument: no loop goes round "
     "without using up what it is given or counting towards its bound, and no operation calls itself without end.",
     ["inputs"], "every text and every argument",
     "A test that would not end is not kept; whether some text or argument makes a loop go round for ever cannot be sampled.",
     [EVA, TOK, SPL, "prexel/src/ops/mod.rs", "prexel/src/ops/checked.rs", "prexel/src/decimal/decimal_ext.rs", "prexel/src/utils/gamma.rs"],
     [("split_into_tokens and the rules", SPL), ("infix_to_rpn, rpn_eval", EVA), ("series and recursions", "prexel/src/decimal/decimal_ext.rs")],
     check=("ranking measures over the strongly connected pieces of every function's MIR, with summaries of what functions do to the iterators and stacks they are lent, "
            "and intervals for recursion", "other",
            "A cycle is reported if nothing it tests changes on it; loops that stop by the convergence or growth of a number (square root, generic factorial) are left undecided."))


prop("P37", "The prompt keeps the line and its history",
     "At the prompt, the line that is evaluated is what was typed or recalled since the last one, less what was deleted.  The keys up and down recall earlier and "
     "later lines and never fail at either end; the history holds the last lines entered, up to its size, in order, without blank ones and repetitions.  "
     "Only the line exit and the escape key end the tool.",
     ["histories"], "every sequence of keys, with every size of the history",
     "The prompt has no tests: what it shows and recalls depends on every key before, and the ends of the history are met in few sessions.",
     ["eval/src/repl/repl.rs", "eval/src/collections/carray.rs"],
     [("Repl::run", "eval/src/repl/repl.rs"), ("CircularArray", "eval/src/collections/carray.rs")],
     state=[("buf", "the line", "eval/src/repl/repl.rs"), ("history, history_cursor", "the lines entered and the place among them", "eval/src/repl/repl.rs")],
     check=("exhaustive abstract interpretation of the loop's MIR, key by key, next to a model of a line editor", "other",
            "Histories of up to 3 lines (5 in the thorough tier), lines of up to 2 or 3 letters, three letters; the rest is not known to behave alike."))

prop("P38", "What is printed is the text, in colours only if wanted",
     "A text that is printed appears once and in full, results on the output and errors on the error output.  With colours off nothing but the texts is printed, "
     "from the start of the tool; with colours on a text has the colours that were asked for, and the next text has not.",
     ["inputs", "configurations"], "every text, colour, and command, with and without the switch for colours",
     "Nothing that prints is tested; colours that leak into the next text show only after certain pairs of texts.",
     ["eval/src/writer.rs", "eval/src/repl/repl_writer.rs", "eval/src/main.rs"],
     [("ColorWriter", "eval/src/writer.rs"), ("ReplWriter", "eval/src/repl/repl_writer.rs"), ("--no-color", "eval/src/main.rs")],
     check=("abstract interpretation of every writing method with every combination of colours, and of the tool with and without the switch", "other",
            "Any text; redrawing the prompt's line is not examined."))

prop("P39", "Functions of real numbers are accurate to the digits of their type",
     "The sine, logarithm, exponential, power, root and factorial functions of the decimal, float and complex types give the value of the function to the digits "
     "of the type, at every argument of their domain.",
     ["inputs"], "every argument",
     "Tests compare a few arguments; series lose digits far from their centre and next to their poles.",
     ["prexel/src/decimal/decimal_ext.rs", "prexel/src/utils/gamma.rs", "prexel/src/ops/mod.rs"],
     [("series", "prexel/src/decimal/decimal_ext.rs")],
     na="a bound on the error of a series adds up the rounding of every term over a run-time number of terms and needs the size of what is left out; no static "
        "argument in reach gives one for 96-bit decimals, and the series of this code lose digits at some arguments.  P06 decides which function a routine computes.")

prop("P40", "A result can be read back",
     "The text of a finite result of the decimal, float, integer and complex types, evaluated, is that result again.",
     ["inputs"], "every finite value",
     "Tests print a few values.",
     ["prexel/src/complex/mod.rs", TOK], [("Display", "prexel/src/complex/mod.rs"), ("tokenize", TOK)],
     na="printing and parsing the digits is done by the standard library and rust_decimal, which are not analysed; what is left, that the reader accepts the digits "
        "they print, quantifies over strings of any length that only a run of the printer produces.")

prop("P41", "The cost of an evaluation is bounded",
     "An evaluation takes time and memory in proportion to the length of its text and the digits of its numbers.",
     ["inputs"], "every text",
     "Tests time nothing.",
     [EVA, TOK, "prexel/src/decimal/decimal_ext.rs", "prexel/src/ops/mod.rs"], [("loops", "prexel/src/decimal/decimal_ext.rs")],
     na="the number of rounds of the numeric loops depends on the values reached at run time (convergence, overflow); P22 decides that each loop makes progress, "
        "which bounds no cost.")
