// C15: evaluation is repeatable and has no effect on the model, the query or other queries.
#include "evalutil.h"
using namespace std::string_literals;

namespace {
const std::vector<std::string> queries = {"a", "fresh", "**.fresh", "b{_ > 1}", "sum(b.*, $sum + $val * a)", "1 / z", "[\"fresh\"]", "trace(b.*, 1, 'x')", "count(**) + a", "s == re'a.*' and fresh", "keys(_)", "split(s, ',')",
    "range(a, 3)...", "any(b.* == a, fresh)", "select(b.*, 1) or fresh.a", "sum(arr(1, 2), fresh, 1)", "$sum", "arr(1, 2, a)", "_", "*.fresh == null"};
const std::vector<std::string> docs = {R"({"a":1,"b":[1,2,3],"s":"a,b","z":0})", R"({"b":[{"a":5},7],"a":2,"s":"b","c":{"a":1,"b":[],"z":2}})", "[1,{\"a\":3}]"};
const std::string late = R"({"fresh":{"a":9},"a":4,"b":[8],"s":"xx","z":1,"l":[{"Fresh":1}]})";

std::string dump(simfil::ModelNode const& n)
{
    using simfil::ValueType;
    std::string s;
    if (n.type() == ValueType::Object || n.type() == ValueType::Array) {
        s = n.type() == ValueType::Object ? "{" : "[";
        for (uint32_t i = 0; i < n.size(); ++i) { auto k = n.at(i); s += std::to_string(n.keyAt(i)) + ":" + (k ? dump(*k) : "?") + ","; }
        return s + std::to_string(n.addr().value_);
    }
    return eu::show(simfil::Value::field(n)) + "@" + std::to_string(n.addr().value_);
}
struct Node { ref::Val v; simfil::ModelNode::Ptr n; };
}

// One compiled query evaluated very often, on changing nodes, with other queries in between; or very many queries compiled in one environment
static void longRun(std::string const& c, mc::Run& run)
{
    const int q = c[2] - 'A', n = std::stoi(c.substr(3));
    auto strings = std::make_shared<simfil::StringPool>();
    simfil::Environment env(strings);
    std::vector<eu::Model> ms;

    for (auto& d : docs) ms.push_back(eu::model(d, strings));
    ms.push_back(eu::model(late, strings));
    auto ast = ref::parse(queries[q]);
    auto e = simfil::compile(env, queries[q], false);
    auto check = [&](size_t i, int k) {
        std::string got; bool raised = false;
        std::vector<simfil::Value> v;
        try { v = simfil::eval(env, *e, *ms[i].root); } catch (std::exception const& x) { raised = true; }
        ref::Eval E; auto w = eu::expect(E, ast, ref::Val::N(ms[i].doc->root));
        if (w.error != raised) mc::fail("evaluation " + std::to_string(k) + (raised ? " raised" : " must raise"));
        if (!raised) if (auto x = eu::diff(v, w.v); !x.empty()) mc::fail("evaluation " + std::to_string(k) + ": " + x);
        run.step();
    };
    if (c[1] == 'e') for (int k = 0; k < n; ++k) {
        if (k < 20 || k % 97 == 0 || k + 20 > n || (k & (k - 1)) == 0 || ((k + 1) & k) == 0) check(k % 4, k);
        else try { simfil::eval(env, *e, *ms[k % 4].root); } catch (std::exception const&) {}
        env.traces.clear();
    }
    else for (int k = 0; k < n; ++k) {
        auto o = simfil::compile(env, k % 3 ? queries[(q + k) % queries.size()] : "a + " + std::to_string(k) + " == arr(" + std::to_string(k) + ", a)...", false);
        if (k % 50 == 0) { check(k / 50 % 4, k); e = simfil::compile(env, queries[q], false); }
        if (k % 500 == 0) env.warnings.clear();
    }
    check(0, n); check(3, n);
    run.state(c); run.outcome("long");
}

// bytes: 'n' add the document with new names; 'r'+q recompile; otherwise q (index+'A') followed by node digit
static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == '#') return longRun(c, run);
    auto strings = std::make_shared<simfil::StringPool>();
    simfil::Environment env(strings);
    std::vector<eu::Model> ms;
    std::vector<Node> nodes;
    for (auto& d : docs) { ms.push_back(eu::model(d, strings)); nodes.push_back({ref::Val::N(ms.back().doc->root), ms.back().root}); }
    nodes.push_back({ref::Val::N(ms[1].doc->root->kids[3].second), ms[1].root->at(3)});   // inside a document
    std::vector<std::string> before;
    for (auto& m : ms) before.push_back(dump(*m.root));
    auto known = strings->size(), knownBytes = strings->bytes();
    std::map<int, simfil::ExprPtr> compiled;
    std::string hist;
    for (size_t i = 0; i < c.size(); ++i) {
        run.step();
        if (c[i] == 'n') {
            ms.push_back(eu::model(late, strings));
            nodes.push_back({ref::Val::N(ms.back().doc->root), ms.back().root});
            before.push_back(dump(*ms.back().root));
            known = strings->size(); knownBytes = strings->bytes();
            hist += "n";
            continue;
        }
        bool again = c[i] == 'r';
        if (again) ++i;
        int q = c[i] - 'A', d = c[++i] - '0';
        if (d >= (int)nodes.size()) return;
        auto& e = compiled[q];
        auto names = ref::Names{};
        ref::AstP ast = ref::parse(queries[q], names);
        if (!e || again) e = simfil::compile(env, queries[q], false);
        ref::Eval E;
        auto w = eu::expect(E, ast, nodes[d].v);
        std::vector<simfil::Value> v; bool raised = false; std::string what;
        try { v = simfil::eval(env, *e, *nodes[d].n); } catch (std::exception const& x) { raised = true; what = x.what(); }
        auto at = "step " + std::to_string(run.steps) + ": " + queries[q] + " on node " + std::to_string(d) + ": ";
        if (w.error != raised) mc::fail(at + (raised ? "must return " + eu::showAll(w.v) + " but raised " + what : "must raise"));
        if (!raised) if (auto x = eu::diff(v, w.v); !x.empty()) mc::fail(at + x);
        if (strings->size() != known || strings->bytes() != knownBytes) mc::fail(at + "the evaluation interned strings");
        hist += again ? "r" : ""; hist += c[i - 1]; hist += c[i];
        run.state(hist);
        run.outcome(raised ? "raises" : eu::shape(v));
    }
    for (size_t i = 0; i < ms.size(); ++i) if (dump(*ms[i].root) != before[i]) mc::fail("a model was changed: " + before[i] + " became " + dump(*ms[i].root));
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C15";
    c.bounds = "all histories of up to 2 of (20 queries x 5 nodes of 4 documents, re-used or recompiled, plus the late creation of a document that introduces new names), of 3 of 12 queries x 3 nodes (thorough: 20 x 4) and of 4 (5) of 6 queries x 2 nodes; 70 000 evaluations of one compiled query, 14 000 compilations in one environment";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto ops = [](std::vector<int> qs, std::string const& nodes, bool re) {
            std::vector<std::string> r;
            for (int q : qs) for (char d : nodes) { r.push_back(std::string() + char('A' + q) + d); if (re) r.push_back("r"s + char('A' + q) + d); }
            r.push_back("n");
            return r;
        };
        std::vector<int> all; for (int i = 0; i < (int)queries.size(); ++i) all.push_back(i);
        auto seqs = [&](std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s; int late = 0; for (int i : ix) { s += o[i]; late += o[i] == "n"; } if (late < 2) emit(s); }); };
        auto o1 = ops(all, "01234", true);
        seqs(o1, 1); seqs(o1, 2);
        auto o2 = th ? ops(all, "0134", false) : ops({0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 15, 19}, "014", false);
        seqs(o2, 3);
        auto o3 = ops({1, 2, 4, 5, 6, 19}, "04", false);
        seqs(o3, 4);
        for (int q = 0; q < (int)queries.size(); ++q) for (int n : {300, 70000}) { if (n > 1000 && q % (th ? 1 : 3)) continue; emit("#e"s + char('A' + q) + std::to_string(n)); emit("#c"s + char('A' + q) + std::to_string(n / 5)); }
        if (th) { seqs(o3, 5); seqs(o3, 6); }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
