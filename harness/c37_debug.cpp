// C37: a debugger attached to the environment sees properly nested evaluations and changes nothing.
#include "evalutil.h"
#include "gen.h"
#include "enumutil.h"
#include "simfil/expression.h"
using namespace std::string_literals;
using simfil::Context;
using simfil::Environment;
using simfil::Expr;
using simfil::Result;

namespace {
struct Seen {
    struct Frame { Expr const* e; Context::Phase phase; };
    std::vector<Frame> stack;
    size_t outer = 0, total = 0;
    Expr const* root = nullptr;           // expected outermost expression, if known
    Context::Phase phase = Context::Phase::Evaluation;
    Environment* env = nullptr;
    std::string bad;
    std::function<void(simfil::Value&)> substitute;
    std::map<Expr const*, size_t> begins;

};
void attach(Environment& env, simfil::Debug& dbg, Seen& s)
{
    s.env = &env;
    dbg.evalBegin = [&s](Expr const& e, Context& ctx, simfil::Value& v, simfil::ResultFn const&) {
        if (ctx.env != s.env) s.bad = "a context with another environment";
        if (ctx.phase != s.phase) s.bad = "the phase is wrong";
        if (s.stack.empty()) { ++s.outer; if (s.root && s.root != &e) s.bad = "the outermost evaluation is not that of the query but of " + e.toString(); if (s.substitute) s.substitute(v); }
        ++s.total; ++s.begins[&e];
        s.stack.push_back({&e, ctx.phase});
    };
    dbg.evalEnd = [&s](Expr const& e) {
        if (s.stack.empty()) { s.bad = "an end without begin: " + e.toString(); return; }
        if (s.stack.back().e != &e) s.bad = "the end of " + e.toString() + " while " + s.stack.back().e->toString() + " is evaluated";
        s.stack.pop_back();
    };
    env.debug = &dbg;
}

struct Out { bool raised = false; std::string what; std::vector<simfil::Value> v; Result r = Result::Continue; };
Out eval(Environment& env, Expr const& e, simfil::ModelNode const& n, size_t stopAfter)
{
    Out o;
    try {
        o.r = e.eval(Context(&env), simfil::Value::field(n), simfil::LambdaResultFn([&](Context, simfil::Value v) { o.v.push_back(std::move(v)); return o.v.size() >= stopAfter ? Result::Stop : Result::Continue; }));
    } catch (std::exception const& x) { o.raised = true; o.what = x.what(); }
    return o;
}
std::string str(Out const& o) { return o.raised ? "raises " + o.what : eu::showAll(o.v) + (o.r == Result::Stop ? " stopped" : ""); }
bool same(Out const& a, Out const& b)
{
    if (a.raised != b.raised || a.what != b.what || a.r != b.r || a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i) {
        if (eu::show(a.v[i]) != eu::show(b.v[i])) return false;
        if ((bool)a.v[i].node != (bool)b.v[i].node) return false;
        if (a.v[i].node && a.v[i].node->addr().value_ != b.v[i].node->addr().value_) return false;
    }
    return true;
}
}

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    auto& m = eu::cached(d);
    Environment env(m.pool->strings()), env2(m.pool->strings());
    simfil::Debug dbg; Seen s; attach(env2, dbg, s);
    simfil::ExprPtr plain, e; std::string w1, w2;
    try { plain = simfil::compile(env, q, false); } catch (std::exception const& x) { w1 = x.what(); }
    s.phase = Context::Phase::Compilation;
    try { e = simfil::compile(env2, q, false); } catch (std::exception const& x) { w2 = x.what(); }
    if ((bool)plain != (bool)e || w1 != w2) mc::fail("compiling with a debugger gives '" + w2 + "' instead of '" + w1 + "'");
    if (!s.bad.empty()) mc::fail("while compiling: " + s.bad);
    run.step();
    if (!e) { run.outcome("does not compile"); run.state("!" + w1); return; }
    if (!s.stack.empty()) mc::fail("while compiling: an evaluation does not end: " + s.stack.back().e->toString());
    if (e->toString() != plain->toString()) mc::fail("compiling with a debugger gives " + e->toString() + " instead of " + plain->toString());
    if (env.warnings != env2.warnings) mc::fail("compiling with a debugger gives other warnings");
    s.phase = Context::Phase::Evaluation;
    s.root = e.get();
    for (size_t stop : {(size_t)-1, (size_t)1, (size_t)2, (size_t)3, (size_t)10, (size_t)100}) {
        auto a = eval(env, *plain, *m.root, stop);
        s.stack.clear(); s.outer = s.total = 0; s.bad.clear(); s.begins.clear();
        auto b = eval(env2, *e, *m.root, stop);
        run.step();
        if (!s.bad.empty()) mc::fail(s.bad);
        if (!same(a, b)) mc::fail("with a debugger: " + str(b) + " instead of " + str(a));
        if (s.outer != 1) mc::fail(std::to_string(s.outer) + " outermost evaluations are reported");
        if (!b.raised && !s.stack.empty()) mc::fail("an evaluation does not end: " + s.stack.back().e->toString());
        if (s.begins[e.get()] < 1) mc::fail("the evaluation of the query itself is not reported");
        if (stop == (size_t)-1) { run.state(q + std::to_string(s.total)); run.outcome(b.raised ? "raises" : s.total == 1 ? "one evaluation" : s.total < 10 ? "few evaluations" : "many evaluations"); }
        if (env.warnings != env2.warnings) mc::fail("with a debugger there are other warnings");
        if (a.v.size() < stop) break;
    }
    // every evaluation can be repeated and is reported again
    {
        auto n = s.total; (void)n;
        s.stack.clear(); s.outer = s.total = 0; s.begins.clear();
        auto b = eval(env2, *e, *m.root, (size_t)-1); auto t1 = s.total;
        s.stack.clear(); s.total = 0;
        (void)eval(env2, *e, *m.root, (size_t)-1);
        if (s.total != t1) mc::fail("the same evaluation reports " + std::to_string(s.total) + " steps after " + std::to_string(t1));
        (void)b;
    }
    // the debugger may replace the value an evaluation starts from (it gets a reference)
    if (m.pool->strings()->size() == 0) return;
    {
        s.stack.clear(); s.bad.clear();
        auto sub = m.root->size() ? m.root->at(m.root->size() - 1) : m.root;
        auto a = eval(env, *plain, *sub, (size_t)-1);
        s.substitute = [&](simfil::Value& v) { v = simfil::Value::field(*sub); };
        auto b = eval(env2, *e, *m.root, (size_t)-1);
        s.substitute = nullptr;
        run.step();
        if (!same(a, b)) mc::fail("with the value replaced by the debugger: " + str(b) + " instead of " + str(a));
    }
    // detached again
    env2.debug = nullptr;
    auto before = s.total;
    auto a = eval(env, *plain, *m.root, (size_t)-1), b = eval(env2, *e, *m.root, (size_t)-1);
    if (!same(a, b) || s.total != before) mc::fail("a detached debugger is still called");
   
}

static const std::vector<std::string> docs = {R"({"a":1,"b":[1,2,3],"c":{"a":2,"b":null},"z":0})", R"([{"a":1,"b":true},{"a":2,"b":false},3,null])", "7"};

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C37";
    c.bounds = "all terms with one construct over 8 leaves and two constructs over 3 leaves (thorough: 6), 3 documents; chains and nestings up to 200, up to 4097 values; consumers that stop after 1, 2, 3, 10, 100 values or never; the start value replaced by the debugger; raising queries";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { for (auto& d : docs) emit(q + "\x01" + d); };
        auto g = gen::universal({"a", "b", "*", "_", "1", "'x'", "b.*", "(1 / z)"});
        for (auto& l : g.leaves) out(l);
        for (auto& q : gen::level1(g)) out(q);
        auto s = g; s.leaves = th ? std::vector<std::string>{"a", "*", "_", "1", "b.*", "(1 / z)"} : std::vector<std::string>{"a", "*", "1"};
        gen::around(s, gen::level1(s), out);
        // long and deeply nested terms
        for (int n : {2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 200})
            for (auto x : {"a", "*", "b.*", "c", "(1 / z)", "range(a, 20)..."}) {
                if (n > 9 && std::string(x).find("...") != std::string::npos) continue;
                auto X = std::string(x);
                emit(en::rep("(", n) + X + en::rep(")?", n) + "\x01" + docs[0]);
                emit(en::rep("any(", n) + X + en::rep(")", n) + "\x01" + docs[0]);
                emit(en::rep("arr(1, ", n) + X + en::rep(")", n) + "\x01" + docs[0]);
                emit(en::rep("not ", n) + X + "\x01" + docs[0]);
                emit(X + en::rep("{_}", n) + "\x01" + docs[0]);
                emit(X + en::rep("._", n) + "\x01" + docs[0]);
                emit(X + en::rep(" and a", n) + "\x01" + docs[0]);
                emit(X + en::rep(" or a", n) + "\x01" + docs[0]);
                emit("arr(" + X + en::rep(", a", n) + ")\x01" + docs[0]);
                if (X != "*" && X != "b.*") emit("a" + en::rep(" + a", n) + "\x01" + docs[0]);
                emit(X + en::rep("{_", n) + en::rep("}", n) + "\x01" + docs[0]);
            }
        for (int n : {10, 100, 1000, 4097}) for (auto q : {"range(a, #)...", "(range(a, #)...){_ % 2 == 0}", "count(range(a, #)...)", "sum(range(a, #)...)", "select(range(a, #)..., 3, 120)"}) { std::string t; for (char ch : std::string(q)) if (ch == '#') t += std::to_string(n); else t += ch; emit(t + "\x01" + docs[0]); }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
