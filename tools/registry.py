TOK_ASSUME = ["inputs longer than the stated bound or over other bytes are covered only by the listed length ladders",
              "the C locale (classification of bytes >= 0x80)"]
def seq(src, lib="full", variant="fast", **kw):
    return dict(src=[src, "mc.cpp"], lib=lib, variant=variant, **kw)

def mt(src, **kw):
    return dict(src=[src, "threads.cpp", "mc.cpp"], variant="ctl", **kw)

T_T = "stateless exploration of all schedules of small thread programs on the real code up to a preemption bound, with vector-clock race detection, deadlock detection and a linearizability check against all sequential orders"
N_T = ("The real code, compiled with thread instrumentation, runs under an own deterministic scheduler; every schedule within the preemption bound is executed. "
       "Trusts the scheduler runtime (harness/threads.cpp), the models of mutex and shared_mutex in it, and the real code run sequentially as the meaning of a call (decided by other checks).")
A_T = ["a switch of threads between two synchronisation operations changes nothing that a race-free program can see (races are reported)", "code inside libstdc++.so and libfmt.so is not instrumented, except red-black tree insertion",
       "weak memory behaviours beyond missing happens-before edges are not simulated"]

T_IN = "bounded-exhaustive enumeration of inputs run on the real code, compared with an executable reference model"
N_TOK = ("Every input within the stated bounds is executed on the real tokenizer and its result compared with an independently written reference lexer; "
         "trusts that lexer as the specification. Beyond the bounds only length ladders.")
EV_ASSUME = ["documents and queries beyond the stated bounds are covered only by the listed size ladders", "the stand-ins in shim/ for the two missing libraries behave like the originals (upstream's suite passes with them)",
             "messages of exceptions and log entries are not judged"]
N_EV = ("Every query within the bounds is compiled and evaluated by the real library on every document within the bounds and its value list compared with an independently written reference "
        "evaluator without folding, caching or interning; trusts that evaluator as the specification. Beyond the bounds only size ladders.")
T_H = "bounded-exhaustive enumeration of operation histories run on the real code, compared step by step with an executable state model"
N_H = "Every operation history within the bounds is executed on the real code and every observation compared with an independently written state model; trusts that model as the specification. Beyond the bounds only size ladders."
CHECKS = {
 "C01": dict(stages=[seq("c01_coverage.cpp", "tok")], technique=T_IN, note=N_TOK, state_rule="distinct token streams (with values) or rejection classes", assumptions=TOK_ASSUME),
 "C02": dict(stages=[seq("c02_classes.cpp", "tok")], technique=T_IN, note=N_TOK, state_rule="distinct token streams or rejection classes", assumptions=TOK_ASSUME),
 "C03": dict(stages=[seq("c03_numbers.cpp", "tok")], technique=T_IN, note=N_TOK, state_rule="distinct token streams or rejection classes", assumptions=TOK_ASSUME),
 "C04": dict(stages=[seq("c04_strings.cpp", "tok")], technique=T_IN, note=N_TOK, state_rule="distinct decoded literals", assumptions=TOK_ASSUME),
 "C10": dict(stages=[seq("c10_paths.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C05": dict(stages=[seq("c05_handler.cpp")], technique="bounded-exhaustive enumeration of operation histories run on the real code, compared with a state model", note="All histories of handler operations and errors up to the bound are executed; 31 error sites represent all raise<> calls.", state_rule="distinct histories prefixes (handler state and errors)", assumptions=["errors from third-party code (regex, JSON) are not raised by the library", "handlers do not throw and do not replace themselves while running"]),
 "C06": dict(stages=[seq("c06_precedence.cpp")], technique=T_IN, note="Every token sequence within the bounds is compiled by the real parser and its syntax tree (Expr::toString) compared with an independently written reference parser built from the documented precedence table.", state_rule="distinct syntax trees", assumptions=["trees are observed through Expr::toString of expressions without constants, which the compiler leaves unfolded"]),
 "C07": dict(stages=[seq("c07_malformed.cpp"), seq("c07_malformed.cpp", variant="asan")], technique=T_IN + "; repeated under memory and undefined-behaviour sanitizers", note="Every token sequence within the bounds is compiled; acceptance must agree with the reference grammar, and no run may crash, hang or trip a sanitizer.", state_rule="distinct syntax trees", assumptions=["an error in a constant part may be raised while compiling", "nesting beyond the ladders may exhaust the stack"]),
 "C08": dict(stages=[seq("c08_operators.cpp"), seq("c08_operators.cpp", variant="asan")], technique=T_IN + "; repeated under memory and undefined-behaviour sanitizers", note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME + ["signed overflow of + - * and unary - is not judged"]),
 "C09": dict(stages=[seq("c09_folding.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C11": dict(stages=[seq("c11_logic.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C14": dict(stages=[seq("c14_stop.cpp")], technique="bounded-exhaustive enumeration of queries and stop points run on the real code, compared with an executable reference model", note=N_EV + " Every stop position within the bounds is tried.", state_rule="distinct (query, stop position) pairs", assumptions=EV_ASSUME),
 "C12": dict(stages=[seq("c12_aggregates.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C13": dict(stages=[seq("c13_functions.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C15": dict(stages=[seq("c15_repeat.cpp")], technique="bounded-exhaustive enumeration of evaluation histories run on the real code, compared step by step with an executable reference model", note=N_EV, state_rule="distinct history prefixes", assumptions=EV_ASSUME),
 "C16": dict(stages=[seq("c16_wrap.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (wrapped query, document) pairs", assumptions=EV_ASSUME + ["which mixed queries fold to a constant is read from Expr::constant(); queries without any reference to the model must"]),
 "C17": dict(stages=[seq("c17_names.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (document, result list) pairs", assumptions=EV_ASSUME),
 "C18": dict(stages=[seq("c18_trace.cpp")], technique=T_IN, note=N_EV, state_rule="distinct (query, trace, recorded values)", assumptions=EV_ASSUME + ["automatic trace names are not judged", "what a trace records when its expression raises is not judged"]),
 "C33": dict(stages=[seq("c33_memory.cpp", variant="asan")], technique="bounded-exhaustive enumeration of queries, inputs and destruction orders run on the real code under memory and undefined-behaviour sanitizers", note="Every case within the bounds is executed under AddressSanitizer, UBSan and libstdc++ assertions; memory errors that these do not detect (e.g. inside one allocation) are out of reach.", state_rule="distinct (document, result list) pairs and destruction orders", assumptions=["signed integer overflow is not judged", "strings obtained from keys() live as long as the string pool", "nesting beyond the ladders may exhaust the stack"]),
 "C19": dict(stages=[seq("c19_arena.cpp", "tok"), seq("c19_arena.cpp", "tok", flags="-DARRAY_ARENA_THREAD_SAFE -DSMALL=2"), seq("c19_arena.cpp", "tok", flags="-DSMALL=3", variant="asan")], technique=T_H, note=N_H, state_rule="distinct arena contents", assumptions=["element types are trivially copyable, as all that simfil stores", "the page container is the stand-in in shim/sfl"]),
 "C20": dict(stages=[seq("c20_model.cpp"), seq("c20_model.cpp", variant="asan", flags="-DSMALL=2")], technique=T_H, note=N_H, state_rule="distinct model contents", assumptions=["models are acyclic", "strings of one model stay below 4 GB", "views of strings are read only while the model does not grow"]),
 "C21": dict(stages=[seq("c21_json.cpp")], technique="bounded-exhaustive enumeration of documents run on the real code, compared with an executable reference model", note="Every document and malformed text within the bounds is imported through all three entry points and exported; the expected export is computed from the document itself.", state_rule="distinct documents", assumptions=["which texts are JSON is decided by the JSON library, which is trusted", "fields whose names are equal up to case are exported as the multi-map form"]),
 "C22": dict(stages=[seq("c22_roundtrip.cpp"), seq("c22_roundtrip.cpp", variant="asan", flags="-DSMALL=2")], technique=T_H, note=N_H, state_rule="distinct serialized models", assumptions=["the serialization format is that of the stand-in in shim/bitsery, which mirrors the original library's", "the same string pool is used on both sides"]),
 "C23": dict(stages=[seq("c22_roundtrip.cpp", flags="-DTRUNCATE"), seq("c22_roundtrip.cpp", variant="asan", flags="-DTRUNCATE -DSMALL=2")], technique="exhaustive fault injection: every truncation point of every serialized history within the bounds, on the real code", note=N_H, state_rule="distinct (model, truncation point) pairs", assumptions=["the stream adapter is the stand-in in shim/bitsery, which reports the end of data like the original library's", "a model is not inspected between a failed and the next complete read"]),
 "C24": dict(stages=[seq("c24_strings.cpp"), seq("c24_strings.cpp", variant="asan", flags="-DSMALL")], technique=T_H, note=N_H, state_rule="distinct histories", assumptions=["letters outside ASCII are not folded (C locale)", "hit and miss counters are not judged", "static keys are registered before use with unused ids below 128"]),
 "C25": dict(stages=[seq("c25_updates.cpp")], technique=T_H, note=N_H, state_rule="distinct histories", assumptions=["a reader is an earlier copy of the writer or empty", "strings below 64 KB", "the serialization format is that of the stand-in in shim/bitsery, which mirrors the original library's"]),
 "C26": dict(stages=[seq("c26_setstrings.cpp")], technique=T_H, note=N_H, state_rule="distinct (pools, names, moves)", assumptions=["the spelling of names that are equal up to case is that of the pool"]),
 "C27": dict(stages=[seq("c27_validate.cpp"), seq("c27_validate.cpp", variant="asan", flags="-DSMALL=3")], technique="exhaustive fault injection: every single dangling reference in every model within the bounds, on the real code", note=N_H, state_rule="distinct models", assumptions=["models are acyclic", "dangling references that are not reachable from a root may or may not be reported"]),
 "C28": dict(stages=[seq("c28_values.cpp"), seq("c28_values.cpp", variant="asan", flags="-DSMALL")], technique=T_H + "; every failing copy in turn; repeated under memory and undefined-behaviour sanitizers", note=N_H, state_rule="distinct histories and queries", assumptions=["payloads are not null and releasing them does not throw", "what a value holds after being moved from, or after a failed copy into it, is not judged"]),
 "C29": dict(stages=[seq("c29_overlay.cpp"), seq("c29_overlay.cpp", variant="asan", flags="-DSMALL")], technique=T_H, note=N_H, state_rule="distinct histories and field lists", assumptions=["procedural fields return nodes, not null pointers", "transient objects are not overlaid"]),
 "C30": dict(stages=[mt("c30_pool_threads.cpp")], technique=T_T, note=N_T, state_rule="distinct pairs of thread program and outcome", assumptions=A_T),
 "C31": dict(stages=[mt("c31_eval_threads.cpp")], technique=T_T, note=N_T, state_rule="distinct pairs of thread program and outcome", assumptions=A_T + ["the order of entries within the warnings and a trace is not judged", "nothing is appended to a model while it is queried"]),
 "C32": dict(stages=[mt("c32_arena_threads.cpp", lib="tok")], technique=T_T, note=N_T, state_rule="distinct pairs of thread program and outcome", assumptions=A_T + ["a thread reads and appends to its own arrays only; clear and shrink_to_fit are documented as not thread-safe"]),
 "C34": dict(stages=[seq("c34_repl.cpp", programs=["repl/*.cpp"])], technique="bounded-exhaustive enumeration of command lines and input sessions run on the real program, compared line by line with an executable model of the tool", note="Every session within the bounds runs the tool's real main() in a process of its own; the values each query must print are computed by the library, root by root (decided by other checks).", state_rule="distinct session prefixes (arguments and judged output)", assumptions=["input files exist and hold valid JSON", "texts of error messages, timings and unknown commands are not judged", "built without readline"]),
 "C35": dict(stages=[mt("c35_repl_threads.cpp", programs=["repl/*.cpp"], flags="-DVERIF_THREADS=5")], technique=T_T, note=N_T + " The tool's real main() is one thread of the scheduler and starts the others itself.", state_rule="distinct pairs of session and outcome", assumptions=A_T + ["two or three processors", "input files exist and hold valid JSON"]),
 "C36": dict(stages=[seq("c36_types.cpp")], technique=T_IN, note="Every expression within the bounds over two user-defined types is compiled and evaluated by the real library; the types record which operator they were asked with which operands, and the record must be the one the structure of the expression gives.", state_rule="distinct result lists", assumptions=["operators between ordinary values are decided by other checks"]),
 "C37": dict(stages=[seq("c37_debug.cpp")], technique=T_IN, note="Every query within the bounds is compiled and evaluated by the real library with and without a debugger; the debugger keeps a stack of the evaluations reported to it.", state_rule="distinct query and number of reported evaluations", assumptions=["after an exception the evaluations left are not reported as ended"]),
 "C38": dict(stages=[seq("c38_custom.cpp"), seq("c38_custom.cpp", variant="asan", flags="-DSMALL")], technique=T_IN, note="Every assignment of node implementations to the nodes of the documents is built in a pool derived from ModelPool; every query is run on it by the real library and compared with the reference evaluator, which knows nothing of implementations.", state_rule="distinct result lists", assumptions=["text referred to by a view outlives the results", "user-defined nodes implement the interface consistently"]),
 "C39": dict(stages=[seq("c39_functions.cpp")], technique=T_IN, note=N_EV, state_rule="distinct result lists", assumptions=["user functions stop when asked to and yield undefined while compiling for what they cannot know"]),
 "C40": dict(stages=[seq("c40_parser.cpp")], technique=T_IN, note="Every token sequence within the bounds is parsed by the real parser with parselets of the harness and compared with an operator-stack algorithm; also what is left to parse is compared.", state_rule="distinct trees", assumptions=["precedences are positive", "parselets that call back into the parser as the documentation of the entry points says"]),
 "C41": dict(stages=[seq("c41_warnings.cpp")], technique=T_IN, note=N_EV, state_rule="distinct query, node and number of warnings", assumptions=["a warning mentions the constant value it is about", "parts of a query that are constant on all nodes of the battery may be reported, those over literals must"]),
 "C42": dict(stages=[seq("c42_handles.cpp"), seq("c42_handles.cpp", variant="asan", flags="-DSMALL")], technique=T_H, note=N_H, state_rule="distinct histories", assumptions=["a handle that was moved from may hold anything"]),
 "C43": dict(stages=[seq("c43_conversions.cpp"), seq("c43_conversions.cpp", variant="asan", flags="-DSMALL")], technique=T_H, note=N_H, state_rule="distinct sequences of conversions", assumptions=["text references are used while what they refer to exists"]),
}
