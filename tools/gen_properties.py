import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
PA="src/parser.rs"; XP="src/xprs.rs"; SI="src/element/simplify.rs"; CT="src/context.rs"; FN="src/token/function.rs"; ID="src/token/identifier.rs"
BF="src/utils/built_in_functions.rs"; FA="src/utils/factorial.rs"; PR="src/utils/precedence.rs"; EL="src/element/mod.rs"; BO="src/element/binop.rs"; UO="src/element/unop.rs"; FC="src/element/function_call.rs"; RE="src/bin/repl.rs"
p("C01","Parsing and using any text is total",
 "For every text and every context, parsing returns either an expression or a parse error. Displaying, debugging, cloning, comparing, evaluating, binding and simplifying a returned expression, and displaying or rendering a returned error, return as well. None of them ever panics, aborts or runs forever, the only exceptions being a panicking user function and the documented panic of the unchecked evaluations when a variable is missing.",
 ["inputs","configurations"],"every UTF-8 text (empty, whitespace only, non-ASCII, truncated, huge numbers, adversarial token sequences) and context, in every feature set, toolchain and build profile",
 "the tests parse about a hundred well chosen texts; three panics on short texts were found by sweeping all short token sequences",
 [PA,XP,SI,BO,FA,EL],[("byte cursor with checked reads, errors returned for every unexpected byte","src/parser.rs: ParserImpl"),("unreachable!() arms for operators that cannot be built","src/xprs.rs, src/element/simplify.rs, src/element/binop.rs"),("unchecked float to index conversion guarded by range tests","src/utils/factorial.rs")],
 ["Parser::parse","Xprs methods","Display/Debug of ParseError, miette rendering"])
p("C02","Expressions evaluate by the documented order of operations",
 "Up to what optimisations may change (see C07), the value of an accepted expression is the IEEE-754 double result of applying, to the values given for its variables, parentheses first, then postfix factorial, then powers, then prefix signs, then multiplication, division and remainder, then addition and subtraction, each level grouping from left to right. A prefix sign applies to the whole power on its right, and the exponent of a power may itself carry a sign. Every operator computes the corresponding double operation (remainder keeping the sign of the dividend, factorial of anything but a non-negative integer being NaN).",
 ["inputs","configurations"],"all expressions, nestings and operator sequences, and all double values of the variables including signed zeros, infinities, subnormals and NaN, in both order-of-operations features",
 "the tests check about a hundred expressions with one or two values each; the space of operator sequences and nestings is unbounded",
 [PA,PR,XP,FA],[("precedence climbing over a precedence table","src/parser.rs: element, src/utils/precedence.rs"),("tree walking evaluators (checked and unchecked)","src/xprs.rs: eval_element, eval_element_unchecked")],
 ["Xprs::eval"])
p("C03","Implicit multiplication binds as the selected order of operations says",
 "Two adjacent operands without an operator between them (whenever the second one starts with a letter, an opening parenthesis, or a digit that does not directly follow a number literal) are multiplied. With PEMDAS this product has the precedence and left-to-right grouping of an explicit `*`; with PEJMDAS it binds tighter than explicit `*`, `/` and `%` but looser than `^` and `!`. Two adjacent number literals are never multiplied.",
 ["inputs","configurations"],"all sequences of operands, operators, identifiers of any case, calls, parentheses and whitespace, in both features with and without optimisations",
 "the tests try about fifteen adjacent pairs; five context dependent defects (in which operand a trailing digit ended up, uppercase identifiers) were outside them",
 [PA,PR],[("implicit operator returned when the next byte starts an operand","src/parser.rs: get_operator_infos"),("precedence selected by feature","src/utils/precedence.rs")],["Xprs::eval, Xprs Display"])
p("C04","The accepted language is exactly the documented grammar",
 "A text is accepted if and only if the whole of it, ASCII whitespace between tokens aside, is one expression of the grammar: number literals, identifiers, function calls, parentheses, prefix signs, postfix `!`, binary `+ - * / % ^` and implicit multiplication. No character is ever skipped, ignored or reinterpreted, and inserting or removing whitespace between tokens changes nothing. Acceptance does not depend on the optimisation feature, the order-of-operations feature, the toolchain, or the values of constants.",
 ["inputs","configurations"],"all texts over the whole of Unicode, all feature sets and toolchains",
 "the tests contain a few dozen rejected texts; acceptance on all texts, and its independence from features, needs a reference recogniser",
 [PA,ID],[("recursive descent on bytes, trailing input rejected","src/parser.rs: parse, element, atom, parse_arguments")],["Parser::parse (Ok or Err)"])
p("C05","Number literals denote the nearest double and end where they should",
 "A number literal (digits with at most one decimal point and any underscores, optionally followed by an exponent) has the value of the double nearest to the decimal number obtained by removing underscores. The letter `e` or `E` belongs to the literal only when a digit, or a sign and a digit, directly follows it, otherwise it starts an identifier multiplied by the literal. A literal with several decimal points or without any digit is rejected as malformed.",
 ["inputs"],"all literals: any length, magnitude, underscore and exponent placement, and any text following them",
 "the tests have a dozen literals; correct rounding and the exponent / identifier ambiguity concern every digit string and every follower",
 [PA],[("greedy scan, exponent lookahead, underscores removed, standard library float parsing","src/parser.rs: parse_number")],["value of the parsed literal"])
p("C06","Built-in functions and constants compute what they are documented to",
 "Each built-in function applied to any arguments gives the result of the standard double operation of that name (`log` base 10, `ln` base e, `logn(x, b)` base b, `invert`/`recip` 1/x, `gamma` the gamma function), and `pi` and `e` are the nearest doubles. `min`, `max`, `sum` and `mean` take any number of arguments, ignore none of them (`min` and `max` skip NaN) and give infinity, minus infinity, 0 and NaN for none. `factorial` and postfix `!` give n! for every integer up to 170 (exactly up to 22, to within a relative error of 1e-14 beyond), infinity above, and NaN for negative or fractional arguments.",
 ["inputs"],"all double arguments (signed zeros, subnormals, infinities, NaN, integers, boundaries) and all argument counts",
 "the tests call each function at one or two points; a table has 171 entries and every function a continuum of arguments",
 [BF,FA,ID],[("name table","src/token/identifier.rs"),("function descriptors","src/utils/built_in_functions.rs"),("factorial table","src/utils/factorial.rs")],["Xprs::eval of calls"])
p("C07","Optimisations never change the value of an expression",
 "With and without optimisations an expression without variables has bit for bit the same value. With variables, whenever every subexpression of the expression as written has a finite value, the optimised expression has the same value up to the sign of a zero. This holds for the optimisations done while parsing and for those done by partial evaluation.",
 ["inputs","configurations"],"all expressions and all variable values, all optimisation rules in any nesting, stable and nightly rule sets",
 "the tests check each rule on one instance; soundness is a statement about every operand the rule can match, including lookalikes, zeros and negative values",
 [SI,PA,BO],[("rewrite rules on operators","src/element/simplify.rs: BinOp::simplify"),("constant folding of operators and calls","src/element/simplify.rs"),("equality used by the rules","src/element/binop.rs")],["Xprs::eval with and without the feature against direct evaluation"])
p("C08","Partial evaluation substitutes variables and nothing else",
 "Simplifying an expression for some variables gives an expression which, evaluated with the remaining variables, has the value of the original evaluated with all of them (up to the sign of a zero, and provided every subexpression is finite). The in-place and by-value forms agree, giving variables one at a time in any order or all at once agree, the first value given for a variable wins, and values for variables that do not occur change nothing. A clone taken before is not affected.",
 ["inputs","histories"],"all expressions, all sequences of partial evaluations (repeated, overlapping, unknown or empty names) and all values",
 "the tests simplify a handful of expressions once or twice; agreement over orders, groupings and histories is not sampled",
 [XP,SI],[("recursive substitution then simplification","src/element/simplify.rs: simplify_for"),("in-place wrappers","src/xprs.rs: simplify_for*")],["Xprs::simplify_for*, eval before and after"])
p("C09","The variable set is exact and evaluation fails only for a missing variable",
 "The variables listed by an expression are exactly the variables occurring in the expression it displays, after parsing and after any simplification, each with the very name written in the text. Evaluation succeeds if and only if every listed variable has a value, and otherwise the error names one of the variables that is missing.",
 ["inputs","histories"],"all expressions, names, sequences of simplifications, and all subsets of provided variables",
 "the tests list variables for a few expressions; the equivalence is over every subset of provided variables and every history",
 [XP,EL,SI],[("tree walk collecting names","src/element/mod.rs: find_variables"),("set refreshed after simplification","src/xprs.rs"),("error built from the missing name","src/xprs.rs: eval_element")],["Xprs::vars, Display, Xprs::eval","EvalError"],
 [("vars","variables the expression still needs","src/xprs.rs: Xprs")])
p("C10","A bound function is the expression with its arguments in the given order",
 "Binding succeeds if and only if every variable of the expression is among the given names, and otherwise the error names exactly the missing ones, each once. The function obtained maps its i-th argument to the i-th name (the last argument wins when a name is given several times), ignores the names that do not occur, and returns bit for bit what evaluating the expression with those values returns. All bind forms (1 to 9 arguments, fixed arrays, run-time slices) agree; the run-time form fails only when too few values leave a variable without value, and names one that is missing.",
 ["inputs"],"all expressions (from 0 to hundreds of variables), all lists of names (permuted, repeated, superfluous, missing) and all values, every bind form",
 "the tests bind each form once with the names in alphabetical order; permutations, duplicates and large counts are not reached",
 [XP],[("set difference between needed and given names","src/xprs.rs: bind*, BindError::from_diff"),("closures building the variable map","src/xprs.rs: bind*")],["Xprs::bind*, returned closures, BindError"])
p("C11","Parsing and evaluation are pure and repeatable",
 "Parsing the same text with the same context always gives the same expression, or the same error (up to which undeclared variable is named), whatever was parsed before. Evaluating an expression gives bit for bit the same result every time, whatever was evaluated in between, through the checked, unchecked, no-variables, cloned and bound forms alike, and whatever additional variables are provided. Evaluating changes neither the expression nor the provided variables.",
 ["histories","inputs"],"all interleaved histories of parses, evaluations, clones, simplifications of clones and binds on shared parsers and expressions",
 "each test uses a fresh parser and expression once; history independence needs long mixed histories against a memoryless model",
 [PA,XP],[("immutable parser and expression, per call parser state","src/parser.rs, src/xprs.rs")],["Parser::parse, TryFrom, Xprs::eval*"])
p("C12","Names resolve to the parser's context first, as of the time of parsing",
 "An identifier takes the context's constant or function of exactly that name if there is one, else the built-in of that name, else it is a variable; the most recent definition of a name wins, and replacing the symbol table replaces it entirely. A constant stands for its exact value and a function receives the values of its arguments in written order and gives the call its result. Expressions keep the definitions in force when they were parsed, whatever is done to the parser or its context afterwards.",
 ["histories","inputs"],"all histories of context definitions, redefinitions and parses, all names (including near-misses and shadowed built-ins), static and dynamic functions declared in every form",
 "the tests define one or two symbols and parse once; the resolution order and snapshot semantics are about histories",
 [CT,PA,ID,FN],[("symbol map","src/context.rs"),("lookup, then built-ins, then variable","src/parser.rs: parse_identifier"),("function declaration macro","src/token/function.rs: xprs_fn!")],["Context, Parser::ctx_mut, Parser::parse, Xprs::eval"],
 [("symbols","current definitions","src/context.rs: Context")])
p("C13","Calls are accepted exactly with the declared number of arguments",
 "A call of a function declared with n arguments is accepted if and only if it is written with exactly n arguments, and a function declared variadic accepts any number, including none. A rejected call reports the declared and the written count, and a function is never applied to a number of values other than the number written. A function name not followed by an opening parenthesis is rejected.",
 ["inputs"],"all declared counts (0 to 255 and variadic), all written counts (0 to more than 256), built-in and user functions, any nesting",
 "the tests try too few and too many once per built-in; counts near 0 and the type limits and nested calls are not reached",
 [PA,FN,BF],[("argument list and arity test","src/parser.rs: parse_identifier, parse_arguments"),("declared arities","src/utils/built_in_functions.rs, src/token/function.rs")],["Parser::parse; arguments observed by user functions"])
p("C14","Parse errors locate and name what is wrong in the text",
 "A parse error carries the original text and a location inside it that starts and ends between characters. The character, number or name the message quotes is the one at that location, the location is at the first token that cannot continue an acceptable expression (for a wrong number of arguments the call, for an undeclared variable the whole text, for an unexpected end the last character), and the suggested help is consistent with the counts. Every error renders as a diagnostic, in the graphical, narrated and plain forms.",
 ["inputs"],"all rejected texts, including multi-byte characters, tabs, newlines and errors at the very end, and all contexts",
 "the tests compare a few error kinds; locations in texts with multi-byte characters and renderability are not covered",
 [PA],[("error constructors taking the cursor","src/parser.rs: ParseError::new_*"),("miette Diagnostic implementation","src/parser.rs")],["ParseError Display, Diagnostic::labels/help/source_code, miette handlers"])
p("C15","The displayed form is an equivalent expression",
 "The text displayed for an expression is itself accepted with the same context (its functions being registered under their own names), and parses to an expression needing no other variable and having the same value for every assignment (with optimisations: up to the sign of a zero and where every subexpression is finite). This holds after parsing and after any simplification, as long as every constant in it is finite.",
 ["inputs","histories"],"all expressions, negative and extreme constants, every operator under every other one, after any sequence of simplifications, in every feature set",
 "the tests compare a few displayed strings; equivalence needs re-parsing and evaluating arbitrary trees",
 [EL,BO,UO,FC],[("parenthesised infix display","src/element/binop.rs, src/element/unop.rs, src/element/function_call.rs"),("shortest round-trip decimal display of doubles","src/element/mod.rs")],["Display of Xprs, Parser::parse of it"])
p("C16","Memory safety and no leaks, even when user functions panic",
 "No sequence of public operations on safe code performs an invalid memory access or undefined behaviour, frees memory twice, or reads freed or uninitialised memory, including when a user function panics in the middle of parsing, evaluation or simplification and the caller catches the panic and goes on using or drops the same objects. Once all parsers, contexts, expressions, functions and results of a session are dropped, all the memory they allocated has been released and every dynamic user function has been dropped exactly once.",
 ["inputs","histories","fault_sequences"],"all texts and operation histories, with a panic injected at any application of a user function",
 "the code uses unchecked UTF-8 and float conversions; the tests run without sanitizers and never make a user function panic",
 [PA,XP,FA,FN,"src/utils/hidden_macros.rs"],[("unsafe blocks: unchecked UTF-8 slices, unchecked float to integer, call of C tgamma","src/parser.rs, src/utils/factorial.rs"),("shared ownership of dynamic functions","src/token/function.rs: FnPointer")],["AddressSanitizer, Miri, counting allocator, drop counters"])
p("C17","Parsers, expressions and bound functions can be shared between threads",
 "Parsers, contexts, expressions and functions can be sent to and shared between threads, and any concurrent use through shared references is free of data races. Each concurrent parse, evaluation, clone, simplification of a clone, or call of a bound function returns exactly what it would return alone.",
 ["schedules","inputs"],"all interleavings of concurrent operations on shared objects by any number of threads",
 "all tests are single threaded",
 [PA,XP,CT,FN],[("no interior mutability; dynamic functions required to be thread safe","src/token/function.rs: DynFn, src/xprs.rs")],["results per thread against the sequential ones, ThreadSanitizer, Miri's race detector"])
p("C18","A REPL session answers every line and ends cleanly",
 "Each line given to the REPL is answered in order: a rejected text with its diagnostic and an accepted one with its interpretation, its variables, a question for each variable exactly once, and the value of the expression for the answers given. Nothing of a line influences the following ones. The session goes on until a line reading `exit` or the end of the input, and then terminates successfully.",
 ["histories","inputs"],"all sequences of valid, invalid, empty and non-ASCII lines with numeric answers, whatever order the variables are asked in",
 "the REPL has no tests at all",
 [RE],[("read, parse, ask, evaluate loop; buffer cleared on each turn","src/bin/repl.rs: main, ask_for_variables")],["standard input and output and exit status of the repl process"])
p("C19","Equal expressions are interchangeable",
 "If two expressions compare equal they have the same variables and, wherever every subexpression is finite, evaluate to the same value for all variable values, up to the signs of zeros (0 and -0 are the same constant). Comparison is symmetric and never confuses different constants, variables, operators, operand orders of non-commutative operators, function names, function bodies or argument lists. An expression without NaN constants equals itself, its clone, the result of parsing the same text again, and the expression with the operands of a sum or product swapped.",
 ["inputs"],"all pairs of expressions, in particular pairs differing in a single place",
 "the tests compare a few hand-written trees; optimisations such as x - x rely on it for every operand",
 [BO,EL,UO,FC,FN],[("structural equality, commutative for + and *","src/element/binop.rs: PartialEq"),("function identity","src/token/function.rs: PartialEq for FnPointer")],["== on Xprs and its effect on x-x, x/x"])
p("C20","Declared variables are enforced",
 "When a context declares the expected variables, an expression is accepted if and only if it would be accepted without the declaration and, after optimisation, uses declared variables only. The error then names an undeclared variable of the expression and lists exactly the declared ones. Constants, functions and built-ins need no declaration, declared variables need not be used, a later declaration replaces the former, and without any declaration every variable is accepted.",
 ["inputs","histories"],"all expressions, all declared sets (empty, subsets, supersets, near-miss names) and all histories of declarations",
 "the tests declare one set and try two expressions",
 [PA,CT],[("difference between the variables found and the declared ones","src/parser.rs: Parser::parse"),("declaration stored in the context","src/context.rs")],["Parser::parse, Context::get_expected_vars"])
p("C21","Work stays polynomial and calls are never repeated",
 "The work done by parsing, simplifying, comparing, displaying and evaluating grows polynomially with the length of the text (moderately nested texts of a few hundred characters take milliseconds, never seconds), whatever its structure. One evaluation applies each function call of the expression at most once, and parsing and simplifying apply a given call at most once each.",
 ["inputs"],"all families of nested, chained and repetitive texts, at growing sizes",
 "the tests use short texts only; exponential behaviour shows on nestings of a few dozen levels",
 [PA,SI,XP,BO],[("single pass parsing without backtracking","src/parser.rs"),("one simplification pass per level, evaluation visiting each node once","src/element/simplify.rs, src/xprs.rs")],["executed instructions, allocations and user function applications"])
p("C22","Bound expressions used as functions equal their inlined definition",
 "An expression bound to its variables and registered as a function of a context can be called by other expressions, to any depth of composition, and the call has bit for bit the value of the defining expression evaluated with the values of the call's arguments in order. The registered function outlives the parser it came from, can be shared by several contexts, and keeps its definition when its name is redefined later.",
 ["inputs","histories"],"all defining and calling expressions, any number of layers, parameters permuted, repeated or unused",
 "the tests have a single one-layer example",
 [XP,FN,CT],[("closures owning the expression","src/xprs.rs: bind*"),("dynamic functions in contexts","src/token/function.rs: new_dyn, src/context.rs")],["Xprs::eval of composed calls"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
