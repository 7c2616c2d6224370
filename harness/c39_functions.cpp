// C39: functions registered by the user take part in queries as their definition says, whether the compiler may
// evaluate them ahead of time or not, how many values they yield, and whether they stop their arguments or are stopped.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;
using simfil::Context;
using simfil::Result;
using simfil::Value;
using simfil::ValueType;

namespace {
std::string complaint;

struct User : simfil::Function {
    std::string name; simfil::FnInfo info;
    explicit User(std::string n) : name(n), info{n, "", ""} {}
    auto ident() const -> const simfil::FnInfo& override { return info; }
    auto eval(Context ctx, Value cur, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const -> Result override
    {
        const bool compiling = ctx.phase == Context::Phase::Compilation;
        bool stopped = false;
        auto give = [&](Value v) {
            if (stopped) complaint = "a value after stop";      // own discipline, not the library's
            auto r = res(ctx, std::move(v));
            if (r == Result::Stop) stopped = true;
            return r;
        };
        auto undef = [&](Value const& v) {
            if (!v.isa(ValueType::Undef)) return false;
            if (!compiling) complaint = "an argument of " + name + " yields undefined while evaluating";
            return true;
        };
        // the values of one argument
        auto each = [&](size_t i, Value const& at, auto&& fn) {
            bool asked = false;
            return args.at(i)->eval(ctx, at, simfil::LambdaResultFn([&](Context c, Value v) {
                if (asked) complaint = "an argument of " + name + " goes on after stop";
                if (c.env != ctx.env || c.phase != ctx.phase) complaint = "an argument of " + name + " is evaluated in another context";
                auto r = fn(std::move(v));
                if (r == Result::Stop) asked = true;
                return r;
            }));
        };
        if (name == "none") return Result::Continue;
        if (name == "c42") return give(Value::make((int64_t)42));
        if (name == "two") { if (give(Value::make((int64_t)1)) == Result::Stop) return Result::Stop; return give(Value::make("s"s)); }
        if (name == "cur") return give(compiling ? Value::undef() : std::move(cur));
        if (name == "nargs") return give(Value::make((int64_t)args.size()));
        if (name == "rt") { if (compiling) return give(Value::undef()); }
        if (name == "half" && give(Value::make((int64_t)1)) == Result::Stop) return Result::Stop;       // constant first, then what the arguments give
        if (name == "err") { if (compiling) return give(Value::undef()); simfil::raise<std::domain_error>("err"); }
        if (name == "first") {
            bool got = false; Value f = Value::null(); bool u = false;
            (void)each(0, cur, [&](Value v) { u = undef(v); if (!got) { got = true; f = std::move(v); } return Result::Stop; });
            if (u) return give(Value::undef());
            return got ? give(std::move(f)) : Result::Continue;
        }
        if (name == "at") {       // the second argument on every value of the first
            Result r = Result::Continue;
            (void)each(0, cur, [&](Value v) {
                if (undef(v)) return r = give(Value::undef());
                return r = each(1, v, [&](Value w) { if (undef(w)) return give(Value::undef()); return give(std::move(w)); });
            });
            return r;
        }
        if (name == "rev") {      // arguments from last to first
            for (size_t i = args.size(); i-- > 0;) if (each(i, cur, [&](Value v) { return give(undef(v) ? Value::undef() : std::move(v)); }) == Result::Stop) return Result::Stop;
            return Result::Continue;
        }
        for (size_t i = 0; i < args.size(); ++i) {        // fwd, dup, rt, half
            auto r = each(i, cur, [&](Value v) {
                if (undef(v)) return give(Value::undef());
                if (name == "dup") { Value c = v; if (give(std::move(c)) == Result::Stop) return Result::Stop; }
                return give(std::move(v));
            });
            if (r == Result::Stop) return Result::Stop;
        }
        return Result::Continue;
    }
};
const std::vector<std::string> names = {"none", "c42", "two", "cur", "nargs", "rt", "half", "err", "first", "at", "rev", "fwd", "dup"};
User& fn(std::string const& n) { static std::map<std::string, User*> m; auto& p = m[n]; if (!p) p = new User(n); return *p; }

bool custom(std::string const& f, std::vector<ref::AstP> const& a, ref::Val const& cur, ref::Out const& out, ref::Eval& ev, bool& handled)
{
    using V = ref::Val;
    handled = true;
    if (f == "none") return true;
    if (f == "c42") return out(V::I(42));
    if (f == "two") return out(V::I(1)) && out(V::S("s"));
    if (f == "cur") return out(cur);
    if (f == "nargs") return out(V::I(a.size()));
    if (f == "half" && !out(V::I(1))) return false;
    if (f == "err") ref::raise("err");
    if (f == "first") { if (a.empty()) ref::raise("first()"); V v; bool got = false; ev.ev(*a[0], cur, [&](V x) { v = x; got = true; return false; }); return got ? out(v) : true; }
    if (f == "at") { if (a.size() < 2) ref::raise("at()"); bool r = true; ev.ev(*a[0], cur, [&](V v) { return r = ev.ev(*a[1], v, out); }); return r; }
    if (f == "rev") { for (size_t i = a.size(); i-- > 0;) if (!ev.ev(*a[i], cur, out)) return false; return true; }
    for (auto& x : a) if (!ev.ev(*x, cur, [&](V v) { if (f == "dup" && !out(v)) return false; return out(v); })) return false;
    return true;
}
}

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    auto& m = eu::cached(d);
    simfil::Environment env(m.pool->strings());
    ref::Eval E;
    E.custom = custom;
    for (auto& n : names) { env.functions[n] = &fn(n); E.functions[n] = n; }
    complaint.clear();
    eu::compare(q, m, run, &env, &E);
    if (!complaint.empty()) mc::fail(complaint);
}

static const std::vector<std::string> docs = {R"({"a":1,"b":[1,2,3],"c":{"a":2,"b":null},"z":0})", R"([{"a":1,"b":true},{"a":2,"b":false},3,null])"};

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C39";
    c.bounds = "13 functions (no value, constants, forwarding, doubling, first only, runtime only, constant then runtime, nested evaluation, current node, reversed, raising) x all terms: every function around, inside and below every construct "
               "(one construct and one call in full, two constructs over 2 leaves; thorough: three calls), 2 documents; up to 1025 arguments, 65 536 values, 100 levels of calls";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { for (auto& d : docs) emit(q + "\x01" + d); };
        auto H = [](std::vector<std::string> v) { for (auto& s : v) for (auto& ch : s) if (ch == '#') ch = '\x02'; return v; };
        gen::Grammar f;       // calls only
        f.un = H({"fwd(#)", "dup(#)", "first(#)", "rt(#)", "half(#)", "rev(#)", "err(#)", "none(#)", "nargs(#)", "fwd(#, 7)", "rev(#, 7)", "at(#, _)", "at(#, a)", "at(*, #)", "(#).cur()", "(#).fwd(_)", "(#){fwd(_)}", "(#){rt(_)}", "(#).first(*)"});
        f.bin = H({"fwd(#, #)", "dup(#, #)", "rt(#, #)", "half(#, #)", "rev(#, #)", "at(#, #)", "nargs(#, #)", "none(#, #)"});
        f.leaves = {"a", "*", "1", "none()", "two()", "c42()", "cur()", "b.*", "nope", "(1 / z)"};
        auto g = gen::universal({"a", "*", "1", "'x'"});
        auto calls0 = std::vector<std::string>{"none()", "two()", "c42()", "cur()", "nargs()", "fwd()", "half()", "rt()", "err()", "rev()", "first()", "at(1)"};
        for (auto& q : calls0) out(q);
        auto calls = gen::level1(f);
        for (auto& q : calls) out(q);
        gen::around(f, calls, out);                    // calls in calls
        gen::around(g, calls0, out);
        gen::around(g, calls, out);                    // constructs around calls
        auto small = f; small.leaves = {"a", "*", "2"};
        gen::Grammar gs = g;
        auto l1 = gen::level1(gs);
        gen::around(small, l1, out);                   // calls around constructs
        gen::Grammar t = f; t.leaves = {"a", "two()"};
        auto inner = gen::level1(t);
        for (int n : {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1001, 1024, 1025, 5000, 65536}) {
            auto N = std::to_string(n);
            for (auto r : {"range(1, " + N + ")...", "range(a, " + N + ")..."})
                for (auto q : {"fwd(#)", "dup(#)", "rev(#, a)", "count(rt(#))", "count(half(#))", "first(#)", "any(fwd(#))", "any(fwd(#) == " , "select(dup(#), ", "at(#, _)", "sum(at(#, fwd(_ + 1)))", "count(fwd(#, #))", "(#).cur()", "(#){rt(_ > 3)}", "each(rev(#) < "}) {
                    std::string s; for (char ch : std::string(q)) if (ch == '#') s += r; else s += ch;
                    if (s.back() == ' ') s += N + ")";
                    emit(s + "\x01" + docs[0]);
                }
            if (n <= 1025) for (auto f : {"fwd", "rev", "nargs", "none", "dup", "rt", "half", "first", "arr"}) for (auto x : {"1", "a", "two()"}) { std::string q = f + "("s + x; for (int i = 1; i < n; ++i) q += ","s + (i % 5 ? x : "2"); emit(q + ")\x01" + docs[0]); }
            if (n <= 100) for (auto f : {"fwd(", "rt(", "first(", "rev(b, ", "half("}) for (auto x : {"a", "1", "b.*"}) { emit(en::rep(f, n) + x + en::rep(")", n) + "\x01" + docs[0]); }
        }
        auto u = g; u.leaves = {"*"};
        if (th) { std::vector<std::string> two; gen::around(t, inner, [&](std::string const& q) { two.push_back(q); }); gen::around(u, two, out); gen::around(t, two, out); gen::pairs(g, inner, inner, out); }
        else gen::pairs(u, inner, calls0, out);
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
