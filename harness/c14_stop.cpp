// C14: a consumer that returns Stop is never called again and has seen a prefix of the full result.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;
using simfil::Result;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    auto& m = eu::cached(d);
    simfil::Environment env(m.pool->strings());
    simfil::ExprPtr e;
    try { e = simfil::compile(env, q, false); } catch (std::exception const&) { run.step(); run.outcome("rejected"); return; }
    ref::AstP ast;
    try { ast = ref::parse(q); } catch (ref::Error const&) { mc::fail("accepted a malformed query"); }
    // values in order; `stop` = position at which to stop, 0 = never
    auto real = [&](size_t stop, bool& raised) {
        std::vector<simfil::Value> v;
        raised = false;
        try {
            simfil::Context ctx(&env);
            auto r = e->eval(ctx, simfil::Value::field(*m.root), simfil::LambdaResultFn([&](simfil::Context, simfil::Value x) {
                v.push_back(std::move(x));
                if (stop && v.size() > stop + 3) throw mc::Fail{"called on and on after stop"};
                return stop && v.size() >= stop ? Result::Stop : Result::Continue;
            }));
            (void)r;
        } catch (mc::Fail const&) { throw; } catch (std::exception const&) { raised = true; }
        return v;
    };
    bool raised;
    auto full = real(0, raised);
    run.step();
    ref::Eval E; std::vector<ref::Val> w; bool wRaised = false;
    try { E.ev(*ast, ref::Val::N(m.doc->root), [&](ref::Val v) { w.push_back(v); return true; }); } catch (ref::Error const&) { wRaised = true; }
    catch (ref::Eval::Limit const&) { return; }
    if (!wRaised && raised) mc::fail("must not raise");
    if (wRaised && !raised) mc::fail("must raise");
    for (size_t i = 0; i < std::min(full.size(), w.size()); ++i) if (auto x = eu::diff(full[i], w[i]); !x.empty()) mc::fail("value " + std::to_string(i) + ": " + x);
    if (full.size() != w.size()) mc::fail("expected " + eu::showAll(w) + " got " + eu::showAll(full));
    std::vector<size_t> ks;
    for (size_t k = 1; k <= full.size() && k <= 12; ++k) ks.push_back(k);
    for (size_t k : {13u, 64u, 100u, 999u, 1000u, 1001u}) if (k <= full.size()) ks.push_back(k);
    if (full.size() > 12) ks.push_back(full.size() - 1), ks.push_back(full.size());
    for (size_t k : ks) {
        bool r2;
        auto part = real(k, r2);
        run.step();
        if (part.size() != k) mc::fail("stopped at value " + std::to_string(k) + " of " + std::to_string(full.size()) + " but got " + std::to_string(part.size()) + " calls: " + eu::showAll(part) + " of " + eu::showAll(full));
        for (size_t i = 0; i < k; ++i) if (auto x = eu::diff(part[i], w[i]); !x.empty()) mc::fail("not a prefix: value " + std::to_string(i) + ": " + x);
        run.state(q + std::to_string(k));
        run.outcome(full.size() == k ? "stopped at the last" : "stopped early");
    }
    if (full.empty()) run.outcome("raises");
}

static const std::vector<std::string> docs = {R"({"a":1,"b":[1,2,3],"s":"abaca","c":{"a":[4,5],"b":null},"z":0})", R"([{"a":1,"b":true},{"a":2,"b":false},[6,[7,8]],3,null])"};

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C14";
    c.bounds = "all terms of up to 2 constructors of the whole language (depth 2 over 6 leaves, thorough: 9 leaves and pairs), stopped after each of their first 12 values, at the last ones and around 64, 100 and 1000; 2 documents; results of up to 3000 values";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { for (auto& d : docs) emit(q + "\x01" + d); };
        auto big = gen::universal({"a", "b", "*", "**", "_", "b.*", "1", "'aba'", "null", "arr(1, 2)", "s", "range(1, 3)...", "c.a", "false"});
        for (auto& l : big.leaves) out(l);
        for (auto& q : gen::level1(big)) out(q);
        auto mid = gen::universal(th ? std::vector<std::string>{"a", "*", "**", "arr(1, 2)", "'aba'", "_", "1", "s", "b.*"} : std::vector<std::string>{"a", "*", "**", "arr(1, 2)", "'aba'"});
        mid.ter.resize(4);
        auto inner = gen::level1(mid);
        gen::around(mid, inner, out);
        if (th) { auto few = gen::universal({"*", "arr(1, 2)"}); few.ter.clear(); auto l = gen::level1(few); gen::pairs(few, l, l, out); }
        auto deep = [](std::string s, int n) { std::string q = "b.*"; for (int i = 0; i < n; ++i) { std::string r; for (char ch : s) if (ch == '#') r += q; else r += ch; q = r; } return q; };
        for (auto s : {"(#)...", "arr(#)", "arr(#, 9)", "select(#, 0, 2)", "select(#, 0, 0)", "trace(#)", "(#){_ or 1}", "(#) + 0", "0 + (#)", "(#) as int", "(#) and 1", "1 and (#)", "(#) or 1", "(#)._", "not (#)", "-(#)", "(#)[_]", "re((#) as string)", "(#)?"}) for (int n = 1; n <= 6; ++n) out(deep(s, n));
        for (int n : {13, 64, 65, 100, 101, 1000, 1001, 3000}) for (auto q : {"range(1, #)...", "range(a, #)...", "split(s, 'a') + (range(1, #)...)", "arr(range(1, #)..., a)", "(range(a, #)...){_ > 3}", "select(range(a, #)..., 3, 0)", "(range(1, #)...) + (range(a, 2)...)", "arr(*, range(1, #)...)", "trace(range(1, #)...)"}) {
            std::string s; for (char ch : std::string(q)) if (ch == '#') s += std::to_string(n); else s += ch;
            emit(s + "\x01" + docs[0]);
        }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
