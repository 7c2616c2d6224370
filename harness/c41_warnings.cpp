// C41: warnings are given exactly for parts of a query that are constantly null, true or false and for subscripts that select nothing.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

namespace {
const std::vector<std::string> docs = {R"({"a":1,"b":[1,[2],"x",null,true],"s":"a,b","n":null,"t":true,"i":0,"f":false,"o":{"a":[0],"b":{}}})", R"({"b":{"a":0},"a":[0],"s":0,"t":false,"f":1.5,"i":"a","n":3})", R"([{"a":true},{"a":null},[1]])", "5"};

enum Class { Varies = 0, Null = 'n', True = 't', False = 'f' };
Class classify(ref::Ast const& x, std::vector<ref::Val> const& ctx)
{
    Class r = Varies; bool first = true;
    for (auto& cur : ctx) {
        ref::Eval E; std::vector<ref::Val> v;
        try { E.ev(x, cur, [&](ref::Val w) { v.push_back(std::move(w)); return true; }); } catch (ref::Error const&) { return Varies; } catch (ref::Eval::Limit const&) { return Varies; }
        if (v.empty()) return Varies;
        auto cls = [](ref::Val const& w) { return w.hasNode() && w.t != ref::Val::Null && w.t != ref::Val::Bool ? Varies : w.t == ref::Val::Null ? Null : w.t == ref::Val::Bool ? (w.b ? True : False) : Varies; };
        auto k = cls(v[0]);
        for (auto& w : v) if (cls(w) != k) return Varies;
        if (!first && k != r) return Varies;
        r = k; first = false;
        if (!r) return r;
    }
    return r;
}
// only operators and functions over literals
bool literal(ref::Ast const& x)
{
    if (x.op == "const") return true;
    if (x.op == "call") { for (auto n : {"any", "each", "all", "count", "range", "arr", "split", "keys", "re"}) if (ref::lower(x.name) == n) goto ok; return false; ok:; }
    else if (x.op.rfind("un#", 0) != 0 && x.op.rfind("bin#", 0) != 0 && x.op != "cast" && x.op != "and" && x.op != "or" && x.op != "...") return false;
    for (auto& k : x.a) if (!literal(*k)) return false;
    return true;
}
struct Bounds { int lo[128] = {}, hi[128] = {}; };
void count(ref::Ast const& x, std::vector<ref::Val> const& ctx, Bounds& b)
{
    for (auto& k : x.a) count(*k, ctx, b);
    if (x.a.empty() && x.op != "call") return;
    auto k = classify(x, ctx);
    if (!k) return;
    ++b.hi[k];
    if (literal(x)) ++b.lo[k];
}
// the compiler evaluates a sum over known values, and with it the subscripts of the sum's own variables
bool has(ref::Ast const& x, char const* op) { if (x.op == op) return true; for (auto& k : x.a) if (has(*k, op)) return true; return false; }
bool sumsUp(ref::Ast const& x) { if (x.op == "call" && ref::lower(x.name) == "sum" && x.a.size() > 1) return true; for (auto& k : x.a) if (sumsUp(*k)) return true; return false; }
bool mentions(std::pair<std::string, std::string> const& w, Class k) { return w.first.find(k == Null ? "null" : k == True ? "true" : "false") != std::string::npos; }
}

// case: 'p' plain or 'a' wrapped in any(), query
static void run(std::string const& c, mc::Run& run)
{
    const bool any = c[0] == 'a';
    const auto q = c.substr(1);
    static auto strings = std::make_shared<simfil::StringPool>();
    static std::vector<eu::Model> models;
    static std::vector<ref::Val> ctx;
    static std::vector<std::pair<ref::Val, simfil::ModelNode::Ptr>> nodes;
    if (models.empty()) {
        for (auto& d : docs) models.push_back(eu::model(d, strings));
        for (auto& m : models) { nodes.push_back({ref::Val::N(m.doc->root), m.root}); for (size_t i = 0; i < m.doc->root->kids.size(); ++i) nodes.push_back({ref::Val::N(m.doc->root->kids[i].second), m.root->at(i)}); }
        for (auto& n : nodes) ctx.push_back(n.first);
    }
    simfil::Environment env(strings);
    env.warn("before", "x");
    ref::AstP ast;
    try { ast = ref::parse(any ? "any(" + q + ")" : q); } catch (ref::Error const&) { mc::fail("harness: not a query"); }
    simfil::ExprPtr e;
    run.step();
    try { e = simfil::compile(env, q, any); } catch (std::exception const&) { run.outcome("raises early"); return; }
    Bounds b; count(*ast, ctx, b);
    if (env.warnings.empty() || env.warnings[0] != std::pair<std::string, std::string>("before", "x")) mc::fail("earlier warnings were lost");
    const auto n = env.warnings.size() - 1;
    int lo = 0, hi = 0; std::string all;
    if (!(has(*ast, "index") && sumsUp(*ast))) {
    for (auto& [m, d] : env.warnings) all += m + " [" + d + "]; ";
    for (auto k : {Null, True, False}) {
        lo += b.lo[k]; hi += b.hi[k];
        int got = 0; for (size_t i = 1; i <= n; ++i) got += mentions(env.warnings[i], k);
        auto name = k == Null ? "null"s : k == True ? "true"s : "false"s;
        if (got < b.lo[k]) mc::fail(std::to_string(b.lo[k]) + " operations over literals are always " + name + ", but there are " + std::to_string(got) + " warnings about it: " + all);
        // one warning may mention a word in passing: only judged if it is the only kind
        if (got > b.hi[k] && (int)n > b.hi[Null] + b.hi[True] + b.hi[False]) mc::fail("at most " + std::to_string(b.hi[k]) + " parts of the query are always " + name + ", but there are " + std::to_string(got) + " warnings about it: " + all);
    }
    if ((int)n < lo || (int)n > hi) mc::fail(std::to_string(n) + " warnings, but between " + std::to_string(lo) + " and " + std::to_string(hi) + " parts of the query are constant: " + all);
    for (size_t i = 1; i <= n; ++i) {
        bool ok = false;
        for (auto k : {Null, True, False}) ok |= b.hi[k] && mentions(env.warnings[i], k);
        if (!ok) mc::fail("the warning names a value which no part of the query has: " + env.warnings[i].first);
        if (env.warnings[i].second.empty()) mc::fail("a warning does not say which part of the query it is about");
    }
    }
    run.outcome("compile " + std::to_string(std::min<size_t>(n, 3)) + (b.hi[Null] ? "n" : "") + (b.hi[True] ? "t" : "") + (b.hi[False] ? "f" : ""));
    // evaluation
    const bool index = has(*ast, "index");
    for (size_t i = 0; i < nodes.size(); i += index ? 1 : 8) {
        ref::Eval E; bool bad = false;
        try { E.ev(*ast, nodes[i].first, [](ref::Val) { return true; }); } catch (ref::Error const&) { bad = true; } catch (ref::Eval::Limit const&) { return; }
        const auto before = env.warnings;
        bool raised = false;
        try { simfil::eval(env, *e, *nodes[i].second); } catch (std::exception const&) { raised = true; }
        run.step();
        if (bad != raised) mc::fail("evaluation on node " + std::to_string(i) + (bad ? " must raise" : " must not raise"));
        if (env.warnings.size() < before.size() || !std::equal(before.begin(), before.end(), env.warnings.begin())) mc::fail("evaluation changed earlier warnings");
        const auto got = env.warnings.size() - before.size();
        if (got != E.misses) mc::fail("evaluation on node " + std::to_string(i) + ": " + std::to_string(E.misses) + " subscripts select nothing, but there are " + std::to_string(got) + " warnings");
        run.state(q + std::to_string(i) + std::to_string(got));
        if (raised) run.outcome("evaluation raises"); else run.outcome("evaluation " + std::to_string(std::min<size_t>(got, 4)));
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C41";
    c.bounds = "all terms of 1 constructor over 18 leaves and of 2 constructors over 8 leaves (thorough: 12), also wrapped in any(), compiled and evaluated on 18 nodes of 4 documents; all subscript paths of up to 3 steps; a thousand repeated misses";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { emit("p" + q); emit("a" + q); };
        auto big = gen::universal({"1", "0", "'a'", "\"true\"", "true", "false", "null", "2.5", "a", "b", "n", "t", "_", "b.*", "arr(1, 2)", "arr(true, false)", "arr(true, true)", "arr(null, null)"});
        auto mid = gen::universal(th ? std::vector<std::string>{"1", "true", "false", "null", "a", "b.*", "arr(null, 1)", "arr(false, true, false)", "'a'", "i", "_", "arr(false, false)"} : std::vector<std::string>{"1", "true", "null", "a", "b.*", "arr(null, 1)", "arr(false, true)", "arr(false, false)"});
        for (auto& l : big.leaves) out(l);
        for (auto& q : gen::level1(big)) out(q);
        auto few = mid;
        for (auto* g : {&few}) { g->ter = {"any(\x02, \x02, \x02)", "arr(\x02, \x02, \x02)"}; }
        gen::around(mid, gen::level1(few), [&](std::string const& q) { emit("p" + q); });
        const std::vector<std::string> steps = {"[0]", "[1]", "[9]", "[-1]", "['a']", "['zz']", "[i]", "[s]", "[null]", "[true]", "[1.5]", "[arr(0, 9, 'a')]", "[*]", "[b]", ".*", ".a", ".b", "[(0)[0]]"};
        for (int n = 1; n <= (th ? 4 : 3); ++n)
            for (auto f : {"", "b", "*", "**", "_", "o", "'abc'", "n"}) {
                if (n == 4 && f[0] != 'b') continue;
                en::sequences(steps.size(), n, [&](auto& ix) { std::string q = f; for (int i : ix) q += q.empty() && steps[i][0] == '.' ? steps[i].substr(1) : steps[i]; if (n < 3) out(q); else emit("p" + q); });
            }
        for (auto x : {"any(#)", "each(#)", "count(#)", "(#) and a", "a or #", "false and #", "arr(#, #)", "select(#, 0)", "*{#}", "b.*.(#)", "sum(#)", "(#) + 1", "any(b.*, #)", "trace(#, 1, 'x')", "(#)[0]"})
            for (auto s : {"b[0]", "b[9]", "*[1]", "**['a']", "[0]", "_[arr(0, 9)]", "b['x']", "b.*[0]"}) { std::string q; for (char ch : std::string(x)) if (ch == '#') q += s; else q += ch; out(q); }
        for (int n : {10, 100, 1000}) { out("range(1, " + std::to_string(n) + ")...{_ == b[9]}"); out("b[range(a, " + std::to_string(n) + ")...]"); std::string q = "true"; for (int i = 0; i < std::min(n, 100); ++i) q = "not (" + q + ")"; out(q); }
        for (auto n : {999, 1000, 1001}) for (auto v : {"true", "null", "1", "false"}) { std::string q = "arr("s + v; for (int i = 1; i < n; ++i) q += ","s + v; out(q + ")"); }
    };
    c.run = run;
    c.show = [](std::string const& x) { return (x[0] == 'a' ? "any: " : "") + x.substr(1); };
    return mc::main(argc, argv, c);
}
