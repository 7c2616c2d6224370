// C31: every interleaving of threads that evaluate shared compiled queries on shared models in one environment.
#include "mc.h"
#include "threads.h"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include <algorithm>
#include <fcntl.h>
#include <memory>
#include <unistd.h>

using namespace simfil;

namespace {
const std::vector<std::string> Queries = {
    /* 0*/ "a", "b.c", "zz", "**.c", "*", "arr.*",
    /* 6*/ "a + b.c", "s + '!'", "arr[0]", "s['x']", "arr['x']", "arr[b]",
    /*12*/ "trace(a)", "trace(a, limit=1, name='t')", "arr.*.trace(_)", "trace(**.c, name='t')", "trace(trace(a), name='u')",
    /*17*/ "any(arr.* > 1)", "each(arr.* > 1)", "count(arr.* > 1)", "sum(arr.*)", "sum(arr.*, $sum * $val, 1)", "keys(_)",
    /*23*/ "s = re'x.*'", "split(s, 'y')", "arr(a, 2)", "range(1, 3)...", "range(a, 4) == 2", "select(arr.*, 1)",
    /*29*/ "_{a == 1}.b", "arr.*{_ > 1}", "a and b", "zz or s", "typeof a", "#arr", "b as string", "(1 as string) + s",
    /*37*/ "1/(a - 1)", "a + b", "sum(arr.*, $sum + zz)", "_", "b{c > 1}{zz == null}", "not zz", "true and 'x'", "arr.*[0]",
};
const int NQ = (int)Queries.size();

struct Shared {
    std::shared_ptr<Environment> env;
    std::shared_ptr<ModelPool> model[2];
    ExprPtr ast[64];
};
Shared* S;

std::string show(Value const& v)
{
    switch (v.type) {
    case ValueType::Undef: return "<undef>";
    case ValueType::Null: return "null";
    case ValueType::Object: case ValueType::Array: return "<" + std::to_string(v.node ? v.node->addr().value_ : 0u) + ">";
    default: return v.toString();
    }
}
std::string show(std::vector<Value> const& vs) { std::string s = "["; for (auto& v : vs) s += show(v) + ";"; return s + "]"; }

const char* Doc0 = R"({"a":1,"b":{"c":2},"arr":[1,2,3],"s":"xy"})";
const char* Doc1 = R"({"s":"yx","arr":[4],"b":{"c":"v","b":{"c":5}},"a":7})";

std::string evalQ(Expr const& e, int m)
{
    auto vs = eval(*S->env, e, *S->model[m]->root(0));
    return show(vs);
}

// op: e<q>.<m> evaluate the shared query; c<q>.<m> compile it here and evaluate it; i intern; l look up; n number of strings; w warn
std::string op(std::string const& o)
{
    try {
        switch (o[0]) {
        case 'e': { int q = atoi(o.c_str() + 1), m = o.back() - '0'; return evalQ(*S->ast[q], m); }
        case 'c': { int q = atoi(o.c_str() + 1), m = o.back() - '0'; auto e = compile(*S->env, Queries[q], false, false); return evalQ(*e, m); }
        case 'i': return std::to_string(S->env->strings()->emplace("zz"));
        case 'I': return std::to_string(S->env->strings()->emplace("other"));
        case 'l': return std::to_string(S->env->strings()->get("zz"));
        case 'w': S->env->warn("message", "detail"); return "";
        }
    } catch (std::exception const&) {
        return "raises";
    }
    return "?";
}

std::string final_()
{
    std::vector<std::string> w;
    for (auto& [a, b] : S->env->warnings) w.push_back(a + "/" + b);
    std::sort(w.begin(), w.end());
    std::string s;
    for (auto& x : w) s += x + ";";
    for (auto& [n, t] : S->env->traces) {
        std::vector<std::string> v;
        for (auto& x : t.values) v.push_back(show(x));
        std::sort(v.begin(), v.end());
        s += " " + n + "=" + std::to_string(t.calls) + ":";
        for (auto& x : v) s += x + ",";
    }
    for (int i = 0; i < 64; ++i) if (S->ast[i]) for (int m = 0; m < 2; ++m) s += op("e" + std::to_string(i) + "." + std::to_string(m));
    return s + std::to_string(S->env->strings()->size());
}

// case: <switches><+ or -: also at counters> <op>,<op>|<op>
void enumerate(bool thorough, mc::Emit const& emit)
{
    auto e = [](int q, int m) { return "e" + std::to_string(q) + "." + std::to_string(m); };
    auto c = [](int q, int m) { return "c" + std::to_string(q) + "." + std::to_string(m); };
    for (int q = 0; q < NQ; ++q)
        for (auto pre : {"2-", "1+"})
            for (int m = 0; m < 2; ++m) emit(pre + e(q, 0) + "|" + e(q, m));
    for (int q = 0; q < NQ; ++q)
        for (int k = q + 1; k < NQ; ++k) emit("1-" + e(q, 0) + "|" + e(k, 1));
    for (int q = 0; q < NQ; ++q) {
        for (auto o : {"i", "I", "l", "w"}) emit("2-" + e(q, 0) + "|" + o);
        emit("1-" + c(q, 0) + "|" + e(q, 1));
        emit("1-" + c(q, 0) + "|" + c(q, 0));
        emit("1-" + e(q, 0) + "|" + e(q, 0) + "|" + e(q, 1));
        emit("1-" + e(q, 0) + "," + e(q, 1) + "|" + e(q, 1) + "," + e(q, 0));
        emit("2-" + e(q, 0) + "|" + e(2, 0) + ",i," + e(2, 0));
    }
    for (auto a : {"w", "i", "I", "l"}) for (auto b : {"w", "i", "I", "l"}) { emit(std::string("9+") + a + "|" + b); emit(std::string("3+") + a + "|" + b + "|i"); }
    const int T[] = {2, 10, 12, 13, 14, 15, 16, 22, 26};
    for (int a : T) for (int b : T) for (int d : T) if (a <= b && b <= d) emit("1-" + e(a, 0) + "|" + e(b, 1) + "|" + e(d, 0));
    if (thorough) {
        for (int q = 0; q < NQ; ++q)
            for (int k = q; k < NQ; ++k) {
                emit("3-" + e(q, 0) + "|" + e(k, 0));
                emit("1+" + e(q, 0) + "|" + e(k, 1));
                emit("2-" + e(q, 0) + "|" + e(k, 1));
                emit("1-" + c(q, 0) + "|" + c(k, 1));
                emit("1-" + e(q, 0) + "|" + e(k, 0) + "|" + e(q, 1));
                emit("2-" + e(q, 0) + "," + e(k, 1) + "|" + e(k, 0));
            }
        for (int a : T) for (int b : T) for (int d : T) if (a <= b && b <= d) emit("2-" + e(a, 0) + "|" + e(b, 1) + "|" + e(d, 0));
    }
}

void run(std::string const& c, mc::Run& r)
{
    sched::Program p;
    p.threads.emplace_back();
    std::string cur;
    std::vector<int> used;
    auto flush = [&] {
        if (cur.empty()) return;
        if (cur[0] == 'e') used.push_back(atoi(cur.c_str() + 1));
        p.threads.back().push_back([o = cur] { return op(o); });
        cur.clear();
    };
    for (char x : c.substr(2)) {
        if (x == ',' || x == '|') { flush(); if (x == '|') p.threads.emplace_back(); }
        else cur += x;
    }
    flush();
    p.setup = [&] {
        S = new Shared;
        S->env = std::make_shared<Environment>(Environment::WithNewStringCache);
        int m = 0;
        for (auto d : {Doc0, Doc1}) {
            S->model[m] = std::make_shared<ModelPool>(S->env->strings());
            json::parse(d, S->model[m]);
            ++m;
        }
        for (int q : used) if (!S->ast[q]) S->ast[q] = compile(*S->env, Queries[q], false, false);
    };
    p.final = [] { return final_(); };
    sched::Options o;
    o.preemptions = c[0] == '9' ? 1000 : c[0] - '0';
    o.counters = c[1] == '+';
    auto R = sched::explore(p, o);
    r.step(R.points);
    for (auto h : R.outcomes) r.state(h ^ mc::hash(c));
    r.outcome(std::to_string(p.threads.size()) + " threads");
    r.outcome(R.outcomes.size() > 1 ? "several outcomes" : "one outcome");
    r.outcome(R.complete ? "every schedule within the bound" : "schedules cut off");
    if (auto f = getenv("MC_STAT")) dprintf(open(f, O_CREAT | O_WRONLY | O_TRUNC, 0644), "%s exec=%lu points=%lu max=%lu orders=%lu out=%zu\n", c.c_str(), R.executions, R.points, R.maxPoints, R.orders, R.outcomes.size());
    if (!R.violation.empty()) mc::fail(R.violation);
}
}  // namespace

int main(int argc, char** argv)
{
    sched::boot();
    mc::Config c;
    c.property = "C31";
    c.bounds = "45 queries (every expression form and function, warnings, traces, failing ones) on 2 models: each shared by 2 threads (2 preemptions; 1 also at every reference count), every pair of queries on different models (1), each against interning, lookup and warning (2), against a concurrent compilation (1), by 3 threads (1), twice each by 2 threads (1); 9 tracing queries by 3 threads (1); interning and warning without bound. thorough: pairs with 3 preemptions, all pairs of compilations, pairs by 3 threads";
    c.enumerate = enumerate;
    c.run = run;
    c.memLimitMb = 0;
    c.caseTimeout = 120;
    c.blockSize = 4;
    return mc::main(argc, argv, c);
}
