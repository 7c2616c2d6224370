// C08: scalar operators on every pair of operand values, each given as a literal, an environment constant or a model field.
#include "evalutil.h"
#include <limits>
using namespace std::string_literals;
using ref::Val;

namespace {
constexpr int64_t MAX = std::numeric_limits<int64_t>::max(), MIN = std::numeric_limits<int64_t>::min();

struct Operand { Val v; std::string lit, doc; };   // lit/doc empty: not available in this form

std::string litStr(std::string const& s)
{
    std::string r = "'";
    for (char c : s) { if (c == '\\' || c == '\'') r += '\\'; r += c; }
    return r + "'";
}
std::string litInt(int64_t i) { return i >= 0 ? std::to_string(i) : i == MIN ? "(-9223372036854775807 - 1)" : "(" + std::to_string(i) + ")"; }
std::string litFloat(double d)
{
    if (!std::isfinite(d)) return "";
    char b[400]; snprintf(b, sizeof b, "%.17g", std::fabs(d));
    std::string s = b;
    if (auto e = s.find("e+"); e != std::string::npos) s.erase(e + 1, 1);
    if (s.find_first_of(".e") == std::string::npos) s += ".0";
    return std::signbit(d) ? "(-" + s + ")" : s;
}

std::vector<Operand> const& operands()
{
    static std::vector<Operand> v = [] {
        std::vector<Operand> r;
        r.push_back({Val(), "null", "f"});
        r.push_back({Val::B(true), "true", "f"});
        r.push_back({Val::B(false), "false", "f"});
        for (int64_t i : std::initializer_list<int64_t>{0, 1, -1, 2, 3, -5, 7, 62, 63, 64, 65, -64, 255, 256, 65535, 65536, 1ll << 31, 1ll << 32, (1ll << 53), (1ll << 53) + 1, MAX - 1, MAX, MIN + 1, MIN}) r.push_back({Val::I(i), litInt(i), "f"});
        for (double d : {0.0, -0.0, 0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 2.5, 3.0, 63.0, 0.1, 0.3, 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 1.8446744073709552e19, 1e300, -1e300, 5e-324,
                         (double)INFINITY, -(double)INFINITY, (double)NAN}) r.push_back({Val::F(d), litFloat(d), "f"});
        for (auto s : {""s, "a"s, "A"s, "ab"s, "b"s, "0"s, "1"s, "-5"s, "1.5"s, "2"s, "true"s, "null"s, "a\0b"s, "\xc3\xa9"s, "it's"s, "a\\b"s, "9223372036854775807"s, "-9223372036854775808"s, std::string(300, 'x')}) r.push_back({Val::S(s), litStr(s), "f"});
        for (auto d : {"{}", "{\"a\":1,\"b\":2}", "[]", "[1,2,3]"}) { Val m; m.t = Val::Model; r.push_back({m, "", d}); }
        for (auto p : std::vector<std::pair<int64_t, int64_t>>{{1, 3}, {3, 1}, {0, 0}, {-1, 1}, {MIN, MAX}, {MAX, MAX}}) r.push_back({Val::R(p.first, p.second), "range(" + litInt(p.first) + ", " + litInt(p.second) + ")", ""});
        for (auto s : {""s, "a"s, "a.*"s, "[0-9]+"s, "(a|b)*"s, "1"s}) r.push_back({Val::X(s), "re" + litStr(s), ""});
        return r;
    }();
    return v;
}

struct World { eu::Model m; ref::Eval eval; std::unique_ptr<simfil::Environment> env; };

World& world()
{
    static World w = [] {
        World r;
        auto doc = std::make_shared<ref::Doc>();
        doc->root = doc->make(ref::Node::Obj);
        doc->text = "operands";
        auto& os = operands();
        for (size_t i = 0; i < os.size(); ++i) {
            auto& o = os[i];
            if (o.doc.empty()) continue;
            ref::Node* n;
            if (o.doc != "f") { ref::Doc tmp; auto d2 = ref::doc(o.doc); n = d2->root; static std::vector<std::shared_ptr<ref::Doc>> keep; keep.push_back(d2); }
            else {
                n = doc->make(o.v.t == Val::Null ? ref::Node::Null : o.v.t == Val::Bool ? ref::Node::Bool : o.v.t == Val::Int ? ref::Node::Int : o.v.t == Val::Float ? ref::Node::Float : ref::Node::Str);
                n->b = o.v.b; n->i = o.v.i; n->f = o.v.f; n->s = o.v.s;
            }
            doc->root->kids.push_back({"f" + std::to_string(i), n});
        }
        r.m = eu::modelOf(doc);
        r.env = std::make_unique<simfil::Environment>(r.m.pool->strings());
        for (size_t i = 0; i < os.size(); ++i) {
            auto& v = os[i].v;
            auto name = "c" + std::to_string(i);
            if (v.t == Val::Model) continue;
            r.eval.constants[name] = v;
            r.env->constants.emplace(name, v.t == Val::Null ? simfil::Value::null() : v.t == Val::Bool ? simfil::Value::make(v.b) : v.t == Val::Int ? simfil::Value::make(v.i) : v.t == Val::Float ? simfil::Value::make(v.f)
                : v.t == Val::Str ? simfil::Value::make(v.s) : v.t == Val::Range ? simfil::IRangeType::Type.make(v.i, v.e) : simfil::ReType::Type.make(v.s));
        }
        return r;
    }();
    return w;
}

const std::vector<std::string> binops = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "foo", "[]"};
const std::vector<std::string> unops = {"-", "~", "not", "#", "typeof", "?", "as bool", "as int", "as float", "as string", "as null", "foo", "..."};

std::string form(int i, char how)
{
    auto& o = operands()[i];
    if (how == 'l') return o.lit;
    if (how == 'c') return o.v.t == Val::Model ? "" : "c" + std::to_string(i);
    return o.doc.empty() ? "" : "f" + std::to_string(i);
}
bool overflows(std::string const& op, Val const& l, Val const& r)
{
    int64_t x;
    if (l.t != Val::Int || r.t != Val::Int) return false;
    return op == "+" ? __builtin_add_overflow(l.i, r.i, &x) : op == "-" ? __builtin_sub_overflow(l.i, r.i, &x) : op == "*" ? __builtin_mul_overflow(l.i, r.i, &x) : op == "/" ? l.i == MIN && r.i == -1 : false;
}
}

static void run(std::string const& c, mc::Run& run)
{
    auto& w = world();
    w.env->warnings.clear();
    eu::compare(c, w.m, run, w.env.get(), &w.eval);
}

int main(int argc, char** argv)
{
#ifdef __SANITIZE_ADDRESS__
    const bool asan = true;
#else
    const bool asan = false;
#endif
    mc::Config c;
    c.property = "C08";
    c.bounds = "18 binary and 13 unary/postfix/cast operators and a word operator over all pairs of " + std::to_string(operands().size()) + " operand values (all types, 64-bit, 2^53, shift and float boundaries, inf, nan, NUL and long strings, "
               "nodes, ranges, regular expressions), each operand as literal, environment constant and model field; thorough: every operand in turn combined by two operators; integer overflow of + - * and # of ranges not judged";
    c.enumerate = [asan](bool th, mc::Emit const& emit) {
        auto& os = operands();
        const int n = os.size();
        const std::string how = "lcf";
        auto unary = [](std::string const& op, std::string const& x) { return op == "-" || op == "~" || op == "not" || op == "#" || op == "typeof" ? op + " " + x : op == "?" || op == "..." ? x + op : x + " " + op; };
        for (int i = 0; i < n; ++i) for (char h : how) {
            auto x = form(i, h);
            if (x.empty()) continue;
            emit(x);
            for (auto& op : unops) {
                if (op == "-" && os[i].v.t == Val::Int && os[i].v.i == MIN) continue;
                if ((op == "#" || op == "...") && os[i].v.t == Val::Range) { if (op == "#" || std::abs((double)os[i].v.i - (double)os[i].v.e) > 100) continue; }
                emit(unary(op, x));
                for (auto& op2 : {"not"s, "?"s, "typeof"s, "as string"s, "as bool"s, "~"s}) emit(unary(op2, "(" + unary(op, x) + ")"));
            }
        }
        for (auto& op : binops) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            if (overflows(op, os[i].v, os[j].v)) continue;
            for (char h1 : how) for (char h2 : how) {
                auto a = form(i, h1), b = form(j, h2);
                if (a.empty() || b.empty()) continue;
                if (asan && !th && !(h1 == 'f' && h2 == 'c') && !(h1 == 'c' && h2 == 'f' && (i + j) % 4 == 0) && !(h1 == 'l' && h2 == 'l' && (i + j) % 4 == 1)) continue;
                emit(op == "[]" ? (h1 == 'l' ? "(" + a + ")" : a) + "[" + b + "]" : a + " " + op + " " + b);
            }
        }
        if (th) {
            // a third operand behind every pair
            const std::vector<std::string> ops2 = {"==", "+", "<", "&"};
            for (auto& op : binops) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                if (op == "[]" || op == "foo" || os[i].v.t == Val::Int && os[j].v.t == Val::Int) continue;
                for (auto& op2 : ops2) for (int k = 0; k < n; k += 3) {
                    if (op2 == "+" && os[k].v.t == Val::Int && std::llabs(os[k].v.i) > 1000) continue;
                    auto a = form(i, 'f'), b = form(j, 'c'), d = form(k, 'l');
                    if (a.empty()) a = form(i, 'c'); if (b.empty()) b = form(j, 'f'); if (d.empty()) d = form(k, 'f');
                    emit("(" + a + " " + op + " " + b + ") " + op2 + " " + d);
                }
            }
        }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
