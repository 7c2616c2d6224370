// C16: the `any` and auto-wildcard options only wrap the query.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

namespace {
const std::vector<std::string> docs = {R"({"a":1,"b":["s",2,{"c":true}],"z":0,"n":null})", R"([{"a":2,"b":1},2.0,"s",[]])", "2", "[]"};
// Paths and sub-queries are about nodes, even on constants.
bool usesModel(ref::Ast const& x)
{
    if (x.op == "field" || x.op == "." || x.op == "sub" || x.op == "*" || x.op == "**" || (x.op == "call" && ref::lower(x.name) == "trace")) return true;
    for (auto& k : x.a) if (usesModel(*k)) return true;
    return false;
}
}

static void run(std::string const& q, mc::Run& run)
{
    for (auto& d : docs) {
        auto& m = eu::cached(d);
        simfil::Environment env(m.pool->strings());
        simfil::ExprPtr plain;
        bool threw = false;
        try { plain = simfil::compile(env, q, false, false); } catch (std::exception const&) { threw = true; }
        if (threw) {
            for (int mode = 1; mode < 4; ++mode) { run.step(); bool t = false; try { simfil::compile(env, q, mode & 1, mode & 2); } catch (std::exception const&) { t = true; } if (!t) mc::fail("accepted with options " + std::to_string(mode) + " only"); }
            run.outcome("rejected");
            return;
        }
        auto ast = ref::parse(q);
        const bool constant = plain->constant(), pure = !usesModel(*ast);
        auto root = ref::Val::N(m.doc->root);
        if (pure && !constant) {   // does it yield anything by itself?
            ref::Eval E; auto w = eu::expect(E, ast, ref::Val());
            bool null = w.error; for (auto& v : w.v) null |= v.t == ref::Val::Null;
            if (!null) mc::fail("a query without any reference to the model is not a constant");
        }
        for (int mode = 0; mode < 4; ++mode) {
            auto text = q;
            if ((mode & 2) && constant) text = "** == (" + q + ")";
            if (mode & 1) text = "any(" + text + ")";
            ref::Eval E;
            auto past = ref::parse(text);
            auto w = eu::expect(E, past, root);
            auto o = eu::run(env, q, *m.root, mode & 1, mode & 2);
            run.step();
            auto at = "options any=" + std::to_string(mode & 1) + " autoWildcard=" + std::to_string(mode / 2) + " on " + d + ": ";
            if (w.error) {
                if (o.kind == eu::Outcome::Values) mc::fail(at + "must raise (" + w.why + ")");
                run.outcome("raises");
                continue;
            }
            if (o.kind == eu::Outcome::CompileError && E.anyRaises(*past, root)) { run.outcome("raises early"); continue; }
            if (o.kind != eu::Outcome::Values) mc::fail(at + "must return " + eu::showAll(w.v) + " but raised: " + o.what);
            if (auto x = eu::diff(o.v, w.v); !x.empty()) mc::fail(at + x);
            if ((mode & 1) && (o.v.size() != 1 || !o.v[0].isa(simfil::ValueType::Bool))) mc::fail(at + "`any` must yield one bool");
            run.outcome((constant ? "constant " : "model ") + std::to_string(mode) + " " + eu::shape(o.v));
            run.state(text + d);
        }
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C16";
    c.bounds = "all terms of up to 1 constructor over 12 leaves and of 2 constructors over 3 (thorough: 6) leaves, of the whole language, on 4 documents under the 4 option combinations";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto big = gen::universal({"1", "2", "'s'", "S", "true", "null", "2.0", "a", "*", "arr(1, 2)", "range(1, 2)", "re's'", "x"});
        for (auto& l : big.leaves) emit(l);
        for (auto q : {"", " ", "1 +", "(", "S.a", "1 as null", "-1", "not true", "1 + 1", "'a' + 'b'", "1 == 1", "a or 1", "1 or a", "false and a", "true and a", "any(1, a)", "1 2", "s s"}) emit(q);
        for (auto& q : gen::level1(big)) emit(q);
        auto mid = gen::universal(th ? std::vector<std::string>{"1", "a", "'s'", "null", "arr(2, 's')", "true"} : std::vector<std::string>{"2", "a", "'s'"});
        if (!th) mid.ter.resize(2);
        gen::around(mid, gen::level1(mid), emit);
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
