// C33: no query, on any document and with any order of destruction, corrupts memory. Runs under AddressSanitizer and UBSan.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

namespace {
const std::vector<std::string> docs = {R"({"a":1,"b":["str",2,{"a":true}],"s":"abc","z":0,"n":null,"e":{}})", R"([{"a":"x","b":[]},null,[[1],[]],2.5])", "\"scalar\"", "[]"};

// Everything that can be read from a result
size_t touch(std::vector<simfil::Value> const& vs)
{
    size_t n = 0;
    for (auto& v : vs) {
        n += v.toString().size();
        auto copy = v;
        if (copy.isa(simfil::ValueType::String)) n += copy.as<simfil::ValueType::String>().size();
        if (auto sv = copy.stringViewValue()) for (char ch : *sv) n += ch;
        if (v.node) { n += v.node->size() + (size_t)v.node->type(); for (uint32_t i = 0; i < v.node->size(); ++i) { auto k = v.node->at(i); if (k) n += (size_t)k->type(); n += v.node->keyAt(i); } (void)v.node->get(simfil::StringPool::OverlayValue); }
    }
    return n;
}
}

// 'q' query '\x01' document: all option combinations on a shared model
// 'd' permutation query '\x01' document: order of destruction
static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c.substr(c[0] == 'd' ? 6 : 1));
    if (c[0] == 'q') {
        auto& m = eu::cached(d);
        for (int mode = 0; mode < (q.size() < 14 ? 4 : 1); ++mode) {
            simfil::Environment env(m.pool->strings());
            auto o = eu::run(env, q, *m.root, mode & 1, mode & 2);
            run.step();
            touch(o.v);
            run.outcome(o.kind == eu::Outcome::Values ? eu::shape(o.v) : o.kind == eu::Outcome::CompileError ? "rejected" : "raises");
            run.state(d + eu::showAll(o.v));
        }
        return;
    }
    auto order = c.substr(1, 5);
    auto m = eu::model(d);
    auto pool = m.pool;
    auto strings = pool->strings();
    auto keep = q.find("keys") != std::string::npos || q.find("$") != std::string::npos ? strings : nullptr;   // names live as long as the pool of strings
    auto env = std::make_unique<simfil::Environment>(strings);
    auto text = std::make_unique<std::string>(q);
    simfil::ExprPtr e;
    std::vector<simfil::Value> v;
    try { e = simfil::compile(*env, *text, false); v = simfil::eval(*env, *e, *m.root); } catch (std::exception const&) { run.step(); run.outcome("raises"); return; }
    m.root = {};
    m.pool.reset();
    auto want = eu::showAll(v);
    for (char ch : order) {
        run.step();
        if (ch == '0') e.reset();
        if (ch == '1') { env.reset(); }
        if (ch == '2') text.reset();
        if (ch == '3') pool.reset();
        if (ch == '4') strings.reset();
        touch(v);
        if (eu::showAll(v) != want) mc::fail("the results changed from " + want + " to " + eu::showAll(v));
    }
    run.state(order + want);
    run.outcome("destroyed, " + eu::shape(v));
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C33";
    c.bounds = "under AddressSanitizer, UBSan and libstdc++ assertions: all terms of up to 1 constructor of the whole language over 13 leaves and 2 constructors over 2 (thorough: 6) leaves on 4 documents, 4 option combinations; all 120 orders of destroying expression, environment, query text, model and string pool for 70 queries; "
               "byte-level: all strings of up to 3 (4) over 24 bytes; deep (400) and wide (20 000) documents";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto big = gen::universal({"1", "'s'", "null", "2.5", "a", "b", "*", "**", "_", "s", "range(1, 2)", "re'.'", "b.*"});
        for (auto& l : big.leaves) for (auto& d : docs) emit("q" + l + "\x01" + d);
        for (auto& t : gen::level1(big)) { emit("q" + t + "\x01" + docs[0]); emit("q" + t + "\x01" + docs[1]); }
        if (th) for (auto& t : gen::level1(big)) { emit("q" + t + "\x01" + docs[2]); emit("q" + t + "\x01" + docs[3]); }
        auto mid = gen::universal(th ? std::vector<std::string>{"a", "'s'", "*", "_", "range(1, 2)", "null"} : std::vector<std::string>{"*", "'s'"});
        mid.ter.resize(th ? 3 : 0);
        gen::around(mid, gen::level1(mid), [&](std::string const& t) { emit("q" + t + "\x01" + docs[0]); if (th) emit("q" + t + "\x01" + docs[1]); });
        const std::string bytes = "a1'\"\\.*[](){}-+=!<?r \n\0\xff#,"s;
        for (int n = 0; n <= (th ? 4 : 3); ++n) en::strings(bytes, n, [&](std::string const& s) { emit("q" + s + "\x01" + docs[0]); });
        std::string order = "01234";
        const std::vector<std::string> qs = {"a", "s", "b.*", "**", "'lit'", "'a' + s", "s + s", "s[0]", "'abc'[1]", "typeof a", "typeof *", "keys(_)", "keys(**)", "b[0]", "split(s, 'b')", "split('a,b', ',')", "re'a.*'", "range(1, 3)", "s == re'.*'", "'x' == re'x'", "arr('x', s, b)", "select(b.*, 0, 0)",
            "sum(b.*, $sum + $val, '')", "sum(*, $val)", "sum(b.*, _)", "sum(b.*, $val, s)", "trace(s)", "SYM", "any(*)", "*{_}", "_", "*.a", "e", "n", "s as string", "b as string", "arr(1, 'two', 3)", "arr('x', 'y')", "(1 or s)", "s and s", "s or a", "null", "a as string", "1.5 as string", "re(s)", "'' + b[0]", "b{_ == 'str'}", "sum(arr('a', 'b'), $val)", "**{a}"};
        do for (auto& q : qs) for (int d = 0; d < 2; ++d) emit("d" + order + q + "\x01" + docs[d]); while (std::next_permutation(order.begin(), order.end()));
        for (int n : {1, 10, 100, 400}) {
            auto a = en::rep("[", n) + "1" + en::rep("]", n), o = en::rep("{\"a\":", n) + "1" + en::rep("}", n);
            for (auto q : {"**"s, "**.a"s, "a" + en::rep(".a", n), en::rep("[0]", n), "_ as string"s, "count(**)"s}) { emit("q" + q + "\x01" + a); emit("q" + q + "\x01" + o); }
        }
        for (int n : {1, 127, 128, 255, 256, 257, 1024, 8192, 8193, 20000}) {
            std::string arr = "[", obj = "{";
            for (int i = 0; i < n; ++i) { arr += (i ? ",\"s" : "\"s") + std::to_string(i) + "\""; obj += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + std::to_string(i); }
            for (auto q : {"*", "count(**)", "[100]", "_.k100", "keys(_)", "* + 'x'", "sum(*, $sum + $val, '')"}) { if (n > 2000 && q[0] == 's') continue; emit("q"s + q + "\x01" + arr + "]"); emit("q"s + q + "\x01" + obj + "}"); }
        }
    };
    c.run = run;
    c.show = [](std::string const& x) { auto s = eu::showCase(x.substr(x[0] == 'd' ? 6 : 1)); return (x[0] == 'd' ? "destruction order " + x.substr(1, 5) + ": " : ""s) + (s.size() > 400 ? s.substr(0, 400) : s); };
    return mc::main(argc, argv, c);
}
