// C18: trace() passes values through and records them.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

namespace { const std::string D = R"({"a":1,"b":[1,2,3],"s":"a,b,c","c":{"b":[4,"x"],"a":null},"e":[],"three":3})"; }

// case: number of evaluations, query
static void run(std::string const& c, mc::Run& run)
{
    const int times = c[0] - '0';
    const auto q = c.substr(1);
    auto& m = eu::cached(D);
    simfil::Environment env(m.pool->strings());
    auto ast = ref::parse(q);
    ref::Eval E;
    simfil::ExprPtr e;
    auto root = ref::Val::N(m.doc->root);
    try { e = simfil::compile(env, q, false); } catch (std::exception const& x) { if (!E.anyRaises(*ast, root)) mc::fail("rejected: "s + x.what()); run.step(); run.outcome("raises early"); return; }
    if (!env.traces.empty()) mc::fail("compiling recorded a trace");
    for (int i = 0; i < times; ++i) {
        auto w = eu::expect(E, ast, root);
        if (w.error) { bool r = false; try { simfil::eval(env, *e, *m.root); } catch (std::exception const&) { r = true; } if (!r) mc::fail("must raise"); run.step(); run.outcome("raises"); return; }
        auto v = simfil::eval(env, *e, *m.root);
        run.step();
        if (auto x = eu::diff(v, w.v); !x.empty()) mc::fail("evaluation " + std::to_string(i) + ": " + x);
        std::vector<std::string> names;
        for (auto& [n, t] : E.traces) {
            // the automatic name is not specified
            const bool autoName = q.find("'") == std::string::npos || n.find('(') != std::string::npos || !env.traces.count(n);
            auto it = env.traces.find(n);
            if (it == env.traces.end()) { if (autoName && E.traces.size() == 1 && env.traces.size() == 1) it = env.traces.begin(); else mc::fail("there is no trace named " + n); }
            if ((int64_t)it->second.calls != t.calls) mc::fail("trace " + n + " counts " + std::to_string(it->second.calls) + " calls instead of " + std::to_string(t.calls));
            for (auto& v : t.values) if (v.t == ref::Val::Str) v.n = nullptr;   // recorded strings are copies
            if (auto x = eu::diff(it->second.values, t.values); !x.empty()) mc::fail("recorded values of " + n + ": " + x);
            run.state(q + n + eu::showAll(t.values));
        }
        if (env.traces.size() != E.traces.size()) mc::fail("unexpected traces");
        run.outcome((E.traces.empty() ? "no trace, " : "traced, ") + eu::shape(v));
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C18";
    c.bounds = "trace with 10 limits (absent, -1, 0..4, 1000, from the model) and limits around +-2^7..2^63 and 3 namings around every term of up to 1 constructor over 7 leaves, in 16 surrounding contexts (short-circuiting, filtering, repeated for several nodes, nested and equally named traces), evaluated 1..3 times; up to 5000 values";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto g = gen::universal({"a", "b.*", "arr(1, 'x')", "null", "*", "s", "missing"});
        for (auto* v : {&g.un, &g.bin, &g.ter}) v->erase(std::remove_if(v->begin(), v->end(), [](std::string const& s) { return s.find("trace") != std::string::npos; }), v->end());
        auto terms = g.leaves;
        for (auto& t : gen::level1(g)) terms.push_back(t);
        const std::vector<std::string> limits = {"", "-1", "0", "1", "2", "3", "4", "1000", "three", "a"};
        auto tr = [](std::string const& t, std::string const& l, std::string const& n) { return "trace(" + t + (l.empty() && n.empty() ? "" : ", " + (l.empty() ? "-1"s : l)) + (n.empty() ? "" : ", " + n) + ")"; };
        const std::vector<std::string> ctx = {"#", "(#) + 1", "any(#)", "each(#)", "b.*{#}", "b.*.(#)", "false and #", "1 and #", "arr(#, #)", "select(#, 0)", "count(#)", "(# or a)", "trace(#, 2, 'outer')", "(b.* + (#))", "sum(#, $val)", "arr(#, trace(a, 1, 'n'))"};
        size_t k = 0;
        for (auto& t : terms) for (auto& l : limits) {
            emit("2" + tr(t, l, "'n'"));
            if (l == "2" || l.empty()) for (auto& x : ctx) { std::string q, body = tr(t, l, "'n'"); for (char ch : x) if (ch == '#') q += body; else q += ch; emit((k++ % 3 ? "1" : "2") + q); }
            else if (th || k++ % 4 == 0) for (auto& x : ctx) { std::string q, body = tr(t, l, "'n'"); for (char ch : x) if (ch == '#') q += body; else q += ch; emit("2" + q); }
        }
        for (auto& t : g.leaves) for (auto& l : limits) for (auto n : {"", "'n'", "'n' + 'm'", "s"}) for (auto times : {"1", "2", "3"}) emit(times + tr(t, l, n));
        for (auto& t : g.leaves) for (auto l : {"127", "128", "255", "256", "32768", "65536", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "9223372036854775807", "-2", "-4294967295", "-4294967296", "-9223372036854775807", "-2147483648", "-2147483649"}) { emit("3"s + tr(t, l, "'n'")); emit("2"s + tr("any(" + t + ", b.*)", l, "'n'")); emit("1any(" + tr("b.*", l, "'n'") + ", trace(" + t + ", 1, 'm'))"); }
        for (auto q : {"trace()", "trace(a, 'x')", "trace(a, 1, 2)", "trace(a, b.*)", "trace(a, null)", "trace(a, 1.5)", "trace(a, arr(1, 2))"}) emit("1"s + q);
        for (int n : {1, 2, 64, 100, 999, 1000, 1001, 5000}) for (auto l : {"-1", "0", "1", "999", "1000", "1001"}) { auto N = std::to_string(n); emit("2trace(range(1, " + N + ")..., " + l + ", 'n')"); emit("2trace(range(a, " + N + ")..., " + l + ", 'n')"); }
        for (int n : {2, 5, 20}) { std::string q = "b.*"; for (int i = 0; i < n; ++i) q = "trace(" + q + ", " + std::to_string(i % 4) + ", 't" + std::to_string(i % 3) + "')"; emit("2" + q); }
    };
    c.run = run;
    c.show = [](std::string const& x) { return x.substr(1) + " evaluated " + x.substr(0, 1) + "x"; };
    return mc::main(argc, argv, c);
}
