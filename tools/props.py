# Single source of /verif/properties.jsonl. Run tools/gen.py after editing.
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(q.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=None)))
TOKF = ["src/token.cpp", "include/simfil/token.h"]
SIMF = ["src/simfil.cpp", "src/parser.cpp"]
UNBUILT = "The repository's build here runs only eight tokenizer tests; upstream's suite samples a handful of fixed cases. "

prop("C01", "Every byte of a query belongs to a token with a true source location",
 """Tokenizing a query either raises an error or yields tokens, ending in exactly one end marker, whose source ranges are
 non-empty, inside the query, in order and non-overlapping, and leave out nothing but whitespace.
 Each range delimits the complete source text of its token, including any prefix and quotes: tokenizing just that text yields the same token.""",
 ["inputs"], "every byte string, including NUL and bytes above 127", "The tests tokenize some forty fixed strings and check one location.",
 TOKF, [("tokenize and Scanner keep one cursor that only moves forward", "src/token.cpp: tokenize, Scanner")], ["simfil::tokenize"])
prop("C02", "Operators, keywords and words are classified by longest match",
 """The token sequence of a query is the one its grammar defines: the longest operator wins, every operator has its own token (`=` being `==`),
 keywords match in any letter case but only as whole words, and a backslash makes the next character part of a word.
 Whitespace between tokens is irrelevant.""",
 ["inputs"], "every sequence of lexemes with and without separators", "The tests contain each operator at most once and no adjacent operators.",
 TOKF, [("ordered operator table", "src/token.cpp: scanSyntax"), ("lower-cased keyword table", "src/token.cpp: scanWord")], ["simfil::tokenize"])
prop("C03", "A numeric literal denotes exactly the written number or is rejected",
 """A decimal integer literal up to the largest 64-bit signed value, a `0x`/`0b` literal of up to 64 significant bits (taken as the two's complement pattern), or a decimal
 with fraction and/or exponent (`e`/`E`, optional sign, digits) yields the number it spells: an int, or the nearest float if it has a fraction or a non-zero exponent.
 Integers that do not fit, digits outside the base, a missing digit after a base prefix or exponent, a second point, or letters directly after the number raise an error.""",
 ["inputs"], "all digit strings, bases, signs, exponents and lengths", "The tests use a dozen short literals, none near a limit.",
 TOKF, [("digit accumulation and overflow test", "src/token.cpp: scanNumber")], ["simfil::tokenize"])
prop("C04", "String, raw string and regular expression literals decode to their text",
 """A quoted literal yields a string with `\\n`, `\\r`, `\\t` translated and any other escaped character taken literally; with prefix r/R (string) or re/RE (regular expression)
 every character is literal except that a backslash before the closing quote character escapes it.
 The other kind of quote needs no escape, every byte including NUL is preserved, and an unterminated literal or a trailing backslash raises an error.""",
 ["inputs"], "all bodies over all bytes, prefixes and quotes", "The tests decode eight short literals.",
 TOKF, [("escape loop", "src/token.cpp: scanStringLiteral")], ["simfil::tokenize"])
prop("C05", "Errors reach the registered handler once and then the caller, unchanged",
 """Every error that the library raises is delivered to the registered throw handler, if one is set, exactly once before it propagates, with the dynamic type's name and
 the message of the exception; the last delivered one is what the caller catches, and the caller sees the same exception without a handler or after it was reset.
 Replacing or clearing the handler takes effect for the next error, and errors leave the library usable.""",
 ["histories", "inputs"], "all sequences of setting, replacing, clearing handlers and provoking errors of every kind", "No test uses the handler.",
 ["include/simfil/exception-handler.h", "src/exception-handler.cpp", "src/token.cpp"], [("raise<> template", "include/simfil/exception-handler.h")], ["simfil::ThrowHandler", "simfil::raise"])
prop("C06", "Queries are parsed with the documented precedence and associativity",
 """From tightest to loosest, `.`, `{}`, `[]`, postfix `?` and `...`, prefix operators, `as` and word operators, `* / %`, `+ -`, shifts and bit operators, relational, equality and
 `and`/`or` bind in this order; binary operators of one level associate to the left and parentheses override.
 Argument lists, sub-queries and subscripts contain complete expressions, and a query is one complete expression.""",
 ["programs", "inputs"], "all token sequences over the operators and operands, up to the bound", UNBUILT + "It has about 25 parse trees.",
 SIMF, [("Precedence enum and parselet table", "src/simfil.cpp: compile"), ("Pratt loop", "src/parser.cpp: parseInfix, parsePrecedence")], ["simfil::compile", "Expr::toString"])
prop("C07", "Malformed queries are rejected by an exception, never a crash",
 """Compiling any token sequence either succeeds, exactly when it is a complete expression of the grammar, or throws a std::exception; it never crashes, hangs or reads invalid memory.""",
 ["inputs", "programs"], "all token sequences up to the bound, including truncated and unbalanced ones", UNBUILT + "A handful of malformed queries are tried.",
 SIMF, [("expect/raise in parselets and parseTo/parseList", "src/parser.cpp, src/simfil.cpp")], ["simfil::compile"])
prop("C08", "Scalar operators compute the documented result for every pair of operand types",
 """Each unary, binary, comparison, bit, string and cast operator, applied to any operands of type null, bool, int, float, string, model node, range and regular expression,
 yields the result its definition gives for these types, or raises an error if it is not defined for them.
 Comparisons of incompatible types are false (`!=` true), arithmetic with null is null, and division by zero raises; no operand crashes the process.""",
 ["inputs"], "all operator and operand-type pairs over boundary values", UNBUILT + "The tests cover mostly small ints.",
 ["include/simfil/operator.h", "src/types.cpp", "include/simfil/value.h"], [("operator functors and dispatchers", "include/simfil/operator.h")], ["simfil::eval", "UnaryOperatorDispatcher", "BinaryOperatorDispatcher"])
prop("C09", "Constant folding never changes what a query returns",
 """A query returns the same values in the same order, or raises, whether its sub-expressions are constants that the compiler may evaluate ahead of time or equal scalar values read from the model.
 The only difference allowed is that the error of a constant part may be raised while compiling, even if evaluation would not reach that part.""",
 ["programs"], "all expressions up to the bound with every subset of their literals replaced by model fields of the same value", UNBUILT + "Folding is only tested by printed trees.",
 SIMF + ["src/function.cpp"], [("evaluation on an undefined value during compilation", "src/simfil.cpp: simplifyOrForward")], ["simfil::compile", "simfil::eval"])
prop("C10", "Paths, wildcards and subscripts select exactly the matching nodes in order",
 """A field path, `*`, `**`, `_` or subscript applied to a model yields exactly the nodes its definition selects, in document order and once each: fields by case-insensitive name (first match),
 `*` every child, `**` the node and all non-null descendants pre-order, `[i]` and `["name"]` the child at that position or name.
 If nothing matches the result is a single null.""",
 ["programs", "inputs"], "all paths up to the bound over all small documents up to the bound", UNBUILT + "Fixed document, a dozen paths.",
 SIMF + ["include/simfil/model/nodes.impl.h", "src/model/nodes.cpp"], [("FieldExpr, PathExpr, WildcardExpr, AnyChildExpr, SubscriptExpr", "src/simfil.cpp")], ["simfil::eval"])
prop("C11", "Sub-queries filter, logic short-circuits and operators form the cross product",
 """`x{p}` yields each value of x for which p is true, evaluated with that value as current node; `and`/`or` return the deciding operand and do not evaluate the right side otherwise;
 operators on multi-valued operands yield one result per combination, left operand varying slowest.""",
 ["programs", "inputs"], "all expressions up to the bound over small documents", UNBUILT + "Few multi-valued cases.",
 SIMF, [("SubExpr, AndExpr, OrExpr, BinaryExpr", "src/simfil.cpp")], ["simfil::eval"])
prop("C12", "Aggregate functions compute exactly their definition over all values",
 """`any`, `each`/`all`, `count`, `sum` and `select` over any values in any order return what their definition gives: whether some/all values are true, how many are true, the fold of the
 values with initial value and sub-expression (seeing `$sum`, `$val`, `$idx`), and the values at the selected positions.""",
 ["programs", "inputs"], "all argument value sequences up to the bound, as constants and from models", UNBUILT + "A few fixed lists.",
 ["src/function.cpp", "src/overlay.cpp"], [("AnyFn, EachFn, CountFn, SumFn, SelectFn", "src/function.cpp")], ["simfil::eval"])
prop("C13", "Functions range, arr, split, keys, re, typeof return their defined values",
 """`range` unpacks to every integer from begin to end inclusive in either direction and contains exactly these, `arr` lists its arguments' values, `split` cuts at every separator (keeping empty parts
 unless told not to), `keys` lists the field names, `re` matches whole strings and `typeof`/`as` name and convert types; arguments that are missing or of the wrong type raise an error.""",
 ["inputs", "programs"], "all arguments over boundary values up to the bound", UNBUILT + "A few fixed arguments.",
 ["src/function.cpp", "src/types.cpp"], [("RangeFn, ArrFn, SplitFn, KeysFn, ReFn, IRangeType, ReType", "src/function.cpp, src/types.cpp")], ["simfil::eval"])
prop("C14", "A result callback that asks to stop is never called again",
 """When the consumer of a running evaluation returns stop, that evaluation delivers no further value, whatever the query, and the values delivered until then are a prefix of the full result.
 A function that limits its own input does not stop the surrounding query.""",
 ["programs", "histories"], "all queries up to the bound with a stop after every prefix length", UNBUILT + "No test ever stops an evaluation.",
 SIMF + ["src/function.cpp", "include/simfil/result.h"], [("Result propagation in ieval and eval of functions", "src/simfil.cpp, src/function.cpp")], ["Expr::eval"])
prop("C15", "Evaluation is repeatable and has no effect on model, query or other queries",
 """Evaluating a compiled query again, on the same or another node, before or after other queries, gives the same result as evaluating it freshly compiled, and leaves the model content unchanged.
 Errors during an evaluation do not affect later ones.""",
 ["histories", "programs"], "all interleavings of up to n evaluations of several queries and nodes", UNBUILT + "Each test evaluates a query once.",
 SIMF + ["src/environment.cpp"], [("cached field id and function pointer", "src/simfil.cpp: FieldExpr, CallExpression")], ["simfil::eval"])
prop("C16", "Compiling with `any` or auto-wildcard only wraps the query as documented",
 """With the `any` option a query returns a single bool, whether any of its values is true, and with auto-wildcard a query that is a constant returns what `** == constant` returns, while all other queries
 are unaffected.""",
 ["programs"], "all queries up to the bound under the four option combinations", UNBUILT + "One or two queries.",
 ["src/simfil.cpp"], [("root wrapping", "src/simfil.cpp: compile")], ["simfil::compile"])
prop("C17", "Environment functions and constants are resolved by case-insensitive name",
 """A call invokes the function registered under that name regardless of letter case, or raises if there is none; a bare word is a string if it is an upper-case word that does not start a path, else the registered constant of
 that name, else a field, and constants and symbols never shadow fields inside a path.""",
 ["configurations", "programs"], "all small registries and words in all letter cases and positions", UNBUILT + "Two names.",
 ["src/environment.cpp", "include/simfil/environment.h", "src/simfil.cpp"], [("case-insensitive maps", "include/simfil/environment.h"), ("WordParser", "src/simfil.cpp")], ["Environment::functions", "Environment::constants"])
prop("C18", "Tracing a sub-expression does not change the result and records it faithfully",
 """Wrapping an expression in `trace` yields exactly the same values; the named trace records the number of evaluations and, in order, the values seen, at most the given limit of them.""",
 ["programs", "histories"], "all small expressions, limits and repeated evaluations", UNBUILT + "Three fixed traces.",
 ["src/function.cpp", "src/environment.cpp"], [("TraceFn", "src/function.cpp")], ["Environment::traces"])
prop("C19", "An array arena behaves like independent growable arrays",
 """After any sequence of creating arrays with any initial capacity and appending to any of them, every array has exactly the elements appended to it, in order, at stable addresses, through indexed access,
 iterators and callbacks alike; access beyond the end raises; clearing empties the arena.""",
 ["histories"], "all operation sequences up to the bound, and long ones across chunk and page boundaries", UNBUILT + "A few fixed sequences.",
 ["include/simfil/model/arena.h"], [("chunk lists", "include/simfil/model/arena.h: ArrayArena")], ["simfil::ArrayArena"])
prop("C20", "A model pool returns exactly the content built into it",
 """Objects, arrays and values created in a model read back with the same type, value, names, order and size through every access path, whatever the order of interleaved construction, extension and growth;
 out-of-range and missing accesses yield a null pointer.""",
 ["histories", "inputs"], "all construction sequences up to the bound and all encoding boundaries of values", UNBUILT + "Some fixed models.",
 ["src/model/model.cpp", "src/model/nodes.cpp", "include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h"], [("column stores and node addresses", "src/model/model.cpp")], ["simfil::ModelPool"])
prop("C21", "A JSON document survives import and export",
 """Importing a JSON document and exporting it gives back an equal document (names compared case-insensitively, integers beyond 64 bits signed as floats); malformed text is rejected by an exception.""",
 ["inputs"], "all documents up to the bound, boundary numbers, strings of all bytes and lengths", UNBUILT + "Fixed documents without null or big numbers.",
 ["src/model/json.cpp", "src/model/nodes.cpp", "src/model/model.cpp"], [("json::parse and toJson", "src/model/json.cpp, src/model/nodes.cpp")], ["simfil::json::parse", "ModelPool::toJson"])
prop("C22", "A serialized model reads back equal",
 """Writing a model and reading the bytes into a model with the same string pool yields the same roots and content, writing that again yields the same bytes, and what the reading model held before is replaced.""",
 ["histories", "inputs"], "all small models and those crossing page and chunk sizes, read into empty and used pools", UNBUILT + "One fixed model.",
 ["src/model/model.cpp", "include/simfil/model/bitsery-traits.h"], [("readWrite, ArrayArenaExt", "src/model/model.cpp, include/simfil/model/bitsery-traits.h")], ["ModelPool::write", "ModelPool::read"])
prop("C23", "Truncated model data is reported, never accepted or crashing",
 """Reading any proper prefix of a serialized model or string pool throws an exception without crashing, and the reading object can be used for a complete read afterwards; a failed string pool read leaves the pool unchanged.""",
 ["crash_points", "fault_sequences"], "every truncation point of every written stream of the bounded models", UNBUILT + "No test reads damaged data.",
 ["src/model/model.cpp", "src/model/string-pool.cpp", "include/simfil/model/bitsery-traits.h"], [("stream error checks", "src/model/model.cpp: read; src/model/string-pool.cpp: read")], ["ModelPool::read", "StringPool::read"])
prop("C24", "The string pool is a case-insensitive bijection between strings and ids",
 """Interning a string returns the id of the case-insensitively equal string interned before, or a new one, distinct from all others; looking it up never inserts, every id resolves to the spelling first interned,
 sizes, byte counts and the counts of hits and misses match, copies are independent and equal, and a full pool raises instead of reusing an id.""",
 ["histories"], "all operation sequences up to the bound, id exhaustion, and copies outliving their source", UNBUILT + "One fixed sequence.",
 ["src/model/string-pool.cpp", "include/simfil/model/string-pool.h"], [("idForString_/stringForId_ maps", "src/model/string-pool.cpp")], ["simfil::StringPool"])
prop("C25", "String pool updates transfer every string with its id",
 """Writing a pool from any starting id and reading it into any pool that is a compatible earlier copy (or empty) gives every string with an id at or above the start the same id there, keeps all that was there, and
 later insertions get fresh ids.""",
 ["histories", "inputs"], "all small pools, start ids and prior states of the reader", UNBUILT + "One full round trip.",
 ["src/model/string-pool.cpp"], [("write/read", "src/model/string-pool.cpp")], ["StringPool::write", "StringPool::read"])
prop("C26", "Changing a model's string pool preserves its content",
 """After a model is moved to another string pool, all objects have the same field names and values as before and queries through the new pool find them, whatever both pools contain; if the new pool has no room for a name, the move raises and the model keeps its pool and content.""",
 ["histories", "configurations"], "all pairs of small pools with overlapping, permuted and disjoint contents", UNBUILT + "One fixed case.",
 ["src/model/model.cpp"], [("id translation", "src/model/model.cpp: setStrings")], ["ModelPool::setStrings"])
prop("C27", "Validation reports exactly the models with dangling references",
 """Validating a model succeeds if all of its nodes and names are resolvable and throws if any root, member or field name reachable in it is not.""",
 ["inputs", "fault_sequences"], "all small models with every single reference replaced by every kind of bad reference", UNBUILT + "One or two bad references.",
 ["src/model/model.cpp"], [("checkForErrors", "src/model/model.cpp")], ["ModelPool::validate"])
prop("C28", "Values and transient objects copy, move and assign without loss or double free",
 """Any sequence of constructing, copying, moving, assigning (also from itself or from a moved value) and destroying values leaves each holding what was assigned to it, never shares or leaks the payload of a transient object, and
 releases each payload exactly once.""",
 ["histories"], "all operation sequences up to the bound over several value slots and all payload types", UNBUILT + "No test assigns values.",
 ["include/simfil/transient.h", "include/simfil/value.h", "include/simfil/typed-meta-type.h"], [("TransientObject special members", "include/simfil/transient.h")], ["simfil::Value", "simfil::TransientObject"])
prop("C29", "Overlay and procedural objects present one consistent node",
 """An overlay returns its latest overlaid value for an overlaid name and the underlying node's answer otherwise, for node and plain values; a procedural object presents its procedural fields followed by its stored fields, identically by name,
 index, key and iteration.""",
 ["histories", "configurations"], "all small underlying values and overlay/field sets and operation sequences", UNBUILT + "One or two fixed nodes.",
 ["src/overlay.cpp", "include/simfil/overlay.h", "include/simfil/model/nodes.h"], [("OverlayNode", "src/overlay.cpp"), ("ProceduralObject", "include/simfil/model/nodes.h")], ["simfil::OverlayNode", "simfil::ProceduralObject"])
prop("C30", "Concurrent use of a string pool is race-free and linearizable",
 """Any interleaving of threads interning, looking up, resolving, counting, comparing, copying, writing and reading a shared string pool gives every call a result that some sequential order of the calls gives, without data race or deadlock.""",
 ["schedules"], "all interleavings of small thread programs up to a preemption bound", "The tests are single-threaded.",
 ["src/model/string-pool.cpp", "include/simfil/model/string-pool.h"], [("shared_mutex and atomics", "src/model/string-pool.cpp")], ["simfil::StringPool"])
prop("C31", "One compiled query may be evaluated by many threads",
 """Threads evaluating shared compiled queries on shared models in one environment, including queries that log warnings and traces, each get the result of a sequential evaluation, without data race or deadlock.""",
 ["schedules"], "all interleavings of small thread programs up to a preemption bound", "The tests are single-threaded.",
 ["src/simfil.cpp", "src/environment.cpp", "src/function.cpp"], [("atomics, warnMtx, traceMtx", "src/simfil.cpp, src/environment.cpp")], ["simfil::eval"])
prop("C32", "A thread-safe array arena keeps concurrent growth of different arrays apart",
 """With arena locking enabled, threads that create arrays and append to their own arrays while others grow or read theirs leave every array with exactly its own elements in order, without data race or deadlock.""",
 ["schedules"], "all interleavings of small thread programs up to a preemption bound", "The only concurrent test samples a few schedules and is not built here.",
 ["include/simfil/model/arena.h"], [("ARRAY_ARENA_THREAD_SAFE lock", "include/simfil/model/arena.h")], ["simfil::ArrayArena"])
prop("C33", "No query can corrupt memory",
 """Compiling and evaluating any query on any model, and destroying query, model, environment and results in any order the API allows, never accesses invalid memory or invokes undefined behaviour other than signed integer overflow.""",
 ["programs", "histories"], "all queries up to the bound on all small documents, under sanitizers", UNBUILT + "Sanitizers are not used.",
 SIMF + ["src/function.cpp", "src/overlay.cpp", "src/model/model.cpp"], [("shared_ptr model ownership in nodes", "include/simfil/model/nodes.h")], ["simfil::compile", "simfil::eval"])
prop("C34", "The interactive tool evaluates each input line on all documents, in order, and ends with its input",
 """In every session of the command line tool, each query line prints the values the query yields on each loaded document in the order the files were named (on an empty document without files), or the error, with the `-D` constants
 visible and the first definition of a name winning; the `/any`, `/wildcard`, `/verbose` and `/mt` switches affect later lines only as documented, `/mt` never the values. Errors do not end the session, the end of the input does, and
 malformed arguments are reported with a failure code.""",
 ["inputs", "histories", "configurations"], "all command lines and sequences of input lines up to the bound", "The tool has no tests and is not built here.",
 ["repl/repl.cpp"], [("argument loop, input loop", "repl/repl.cpp: main")], ["simfil-repl"])
prop("C35", "The interactive tool's parallel evaluation equals the sequential one",
 """Whatever the schedule of the tool's worker threads and the number of processors, a query prints exactly the values, in order, or the error that evaluating the documents one after the other gives, without data race or deadlock.""",
 ["schedules"], "all schedules of main and worker threads up to a preemption bound", "The tool has no tests; a run samples one schedule.",
 ["repl/repl.cpp"], [("atomic work index, one result slot per document, join", "repl/repl.cpp: eval_mt")], ["simfil-repl"])
prop("C36", "Values of user-defined types define their own behaviour in every operation",
 """Every operator, word operator, cast, unpacking and truth test with an operand of a user-defined type asks that type exactly once per value (the left operand's type first), with the operator's name and the operands as evaluated, and its
 answer or exception is the result. Undefined operands are never passed on, stopping is respected, and every object created is released.""",
 ["inputs"], "all operator terms up to the bound over values of instrumented types and plain values", UNBUILT + "One type with one operator.",
 ["include/simfil/operator.h", "include/simfil/typed-meta-type.h", "include/simfil/transient.h", "src/simfil.cpp"], [("UnaryOperatorDispatcher, BinaryOperatorDispatcher", "include/simfil/operator.h"), ("UnaryWordOpExpr, BinaryWordOpExpr, UnpackExpr", "src/simfil.cpp")], ["simfil::MetaType"])
prop("C37", "A debugger sees nested evaluations and changes nothing it does not replace",
 """With debug hooks set, compiling and evaluating any query gives the same expression, values, warnings or error as without; each evaluation is reported as one begin and, unless it raises, one matching end, strictly nested inside the
 query's own, with the right phase, also when the consumer stops early; a start value replaced in the begin hook is the one evaluated.""",
 ["inputs"], "all queries up to the bound, with every early stop", UNBUILT + "No test sets the hooks.",
 ["include/simfil/expression.h", "include/simfil/environment.h", "src/simfil.cpp"], [("Expr::eval", "include/simfil/expression.h")], ["simfil::Debug", "simfil::Expr::eval"])
prop("C38", "Nodes of user-defined types behave like the built-in ones",
 """A model in which any nodes are replaced by nodes of user-defined types with the same content (columns of a derived pool, types derived from objects and arrays, typed arrays, procedural objects, values carried in the node) gives the same
 results for every query, the same export, and validates, through every access path of the node interface.""",
 ["inputs", "configurations"], "all assignments of node implementations to the nodes of small documents and all queries up to the bound", UNBUILT + "No test defines a node type.",
 ["include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h", "src/model/nodes.cpp", "src/model/model.cpp", "src/simfil.cpp"], [("ModelNode forwarding through Model::resolve", "src/model/nodes.cpp"), ("BaseArray, BaseObject", "include/simfil/model/nodes.impl.h")], ["simfil::ModelNode", "simfil::BaseArray", "simfil::BaseObject", "simfil::ModelPool::resolve"])
prop("C39", "Functions registered by the user take part in queries as defined",
 """A registered function gets the current value and its unevaluated arguments and its values are those of the call (null if it yields none), wherever the call stands and whatever stands in its arguments, whether it yields constants or
 undefined while compiling; its arguments stop when it asks them to, it is told to stop when its consumer is done, and its exceptions reach the caller.""",
 ["inputs"], "all terms of calls and language constructs up to the bound", UNBUILT + "No test registers a function.",
 ["src/simfil.cpp", "src/function.cpp", "include/simfil/function.h"], [("CallExpression", "src/simfil.cpp"), ("simplifyOrForward", "src/simfil.cpp")], ["simfil::Function", "simfil::Environment::functions"])
prop("C40", "A parser assembled from parselets groups by their precedences",
 """For any table of prefix and infix parselets and any tokens, each entry point of Parser (parse, parsePrecedence, parseInfix, parseTo, parseList) yields the tree that the precedences define (an operator binds its left operand only if its precedence
 is higher than the one being parsed; equal precedences group to the left unless the parselet asks for one less), consumes exactly the tokens of that tree and its closing token, leaves the rest readable through
 current, lookahead, match and consume, and raises where an operand, a closing token or a list separator is missing; an optional expression that does not start gives null and consumes nothing.""",
 ["inputs", "configurations"], "all token sequences and precedence tables up to the bound", "No test uses the parser except through compile().",
 ["src/parser.cpp", "include/simfil/parser.h"], [("Parser::parsePrecedence, parseInfix", "src/parser.cpp"), ("Parser::parseTo, parseList", "src/parser.cpp")], ["simfil::Parser", "simfil::PrefixParselet", "simfil::InfixParselet"])
prop("C41", "Warnings tell exactly about constant conditions and subscripts without effect",
 """Compiling a query logs one warning for each operation or function call over literals whose values are all null, all true or all false, and none for a part of the query that can have other values; evaluating it
 logs one warning for each subscript evaluated on a node that selects nothing, and nothing else; earlier warnings stay, in order.""",
 ["inputs"], "all terms up to the bound, all nodes of the documents", UNBUILT + "No test reads warnings.",
 ["src/simfil.cpp", "src/environment.cpp"], [("simplifyOrForward", "src/simfil.cpp"), ("SubscriptExpr::ieval", "src/simfil.cpp"), ("Environment::warn", "src/environment.cpp")], ["simfil::Environment::warnings", "simfil::Environment::warn"])
prop("C42", "A node handle keeps its model alive and refers to one node, or raises",
 """Through any sequence of taking roots and children, copying, moving, converting (node, object, array), resolving, emptying and dropping the model's owner, every handle refers to the node it was given with unchanged type, value, names and
 children, keeps that node's model (and only that) alive, and an empty handle tells so and raises when dereferenced; resolving a node as a kind it is not raises and changes nothing.""",
 ["histories"], "all operation sequences up to the bound over several handles and two models", UNBUILT + "Tests hold the model for their whole duration.",
 ["include/simfil/model/nodes.h", "src/model/nodes.cpp", "src/model/model.cpp"], [("model_ptr", "include/simfil/model/nodes.h"), ("ModelPool::resolveObject, resolveArray", "src/model/model.cpp")], ["simfil::model_ptr", "simfil::ModelNode::Ptr", "simfil::ModelPool::resolveObject", "simfil::ModelPool::resolveArray"])
prop("C43", "A value keeps its kind and content through every conversion",
 """However a value was made (constant, scalar, text with or without own storage, node of any column or with a value of its own) and through whatever sequence of copies, moves and conversions (to a scalar, a node, the plain type, a text reference,
 a member of a model, an overlaid field, a constant or the current value of a query), type tests, typed access, visiting, scalar, number, text and exported form agree on the same kind and content.""",
 ["inputs", "histories"], "all ways to make a value and all conversion sequences up to the bound", UNBUILT + "No test looks at values except through queries.",
 ["include/simfil/value.h", "src/model/nodes.cpp", "include/simfil/model/nodes.h"], [("Value", "include/simfil/value.h"), ("ValueNode, SmallValueNode", "src/model/nodes.cpp")], ["simfil::Value", "simfil::ValueNode", "simfil::getNumeric"])

