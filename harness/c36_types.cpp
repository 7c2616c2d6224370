// C36: user-defined value types and the operators on them. Two types whose operators answer with a record of
// what they were asked; every expression over them must ask exactly what its structure says, in order.
#include "mc.h"
#include "simfil/environment.h"
#include "simfil/function.h"
#include "simfil/model/json.h"
#include "simfil/model/model.h"
#include "simfil/simfil.h"
#include "simfil/typed-meta-type.h"
#include <map>
#include <memory>
#include <optional>

using namespace simfil;
using namespace std::string_literals;

namespace {
long live;
std::string complaint;
struct Tag { std::string s; bool alive = true;
    Tag() { ++live; } explicit Tag(std::string x) : s(std::move(x)) { ++live; }
    Tag(Tag const& o) : s(o.s) { if (!o.alive) complaint = "a destroyed object is copied"; ++live; }
    ~Tag() { if (!alive) complaint = "an object is destroyed twice"; alive = false; --live; } };

// Payloads: 'R..' raises, 'I..' does not support operators, 'N..' is false, 'Z..' answers null, others are true.
// A payload's first letter decides about every operator but "string".
struct TagType : TypedMetaType<Tag> {
    explicit TagType(std::string n) : TypedMetaType<Tag>(n) {}
    Value make(std::string p) const { TransientObject o(this); ((Tag*)o.data)->s = std::move(p); return Value(ValueType::TransientObject, std::move(o)); }
    static std::string text(Value const& v) { return v.isa(ValueType::Array) ? "[array]" : v.isa(ValueType::Object) ? "[object]" : v.toString(); }
    static std::string str(Value const& v)
    {
        if (v.isa(ValueType::Undef)) complaint = "an operator of a type is asked about undefined";
        return text(v);
    }
    Value answer(Tag const& self, std::string p) const
    {
        if (!self.alive) complaint = "an operator is applied to a destroyed object";
        if (self.s[0] == 'R') raise<std::domain_error>("type says no");
        if (self.s[0] == 'I') raise<InvalidOperandsError>("x");
        if (self.s[0] == 'Z') return Value::null();
        return make(std::move(p));
    }
    Value unaryOp(std::string_view op, Tag const& t) const override
    {
        if (op == "string") return Value::make(ident + ":" + t.s);
        if (op == "?") { (void)answer(t, ""); return Value::make(t.s[0] != 'N'); }
        return answer(t, "(" + std::string(op) + " " + t.s + ")");
    }
    Value binaryOp(std::string_view op, Tag const& l, Value const& r) const override { return answer(l, "(" + l.s + " " + std::string(op) + " " + str(r) + ")"); }
    Value binaryOp(std::string_view op, Value const& l, Tag const& r) const override { return answer(r, "(" + str(l) + " " + std::string(op) + " " + r.s + " right)"); }
    void unpack(Tag const& t, std::function<bool(Value)> fn) const override
    {
        if (t.s[0] == 'R') raise<std::domain_error>("type says no");
        if (t.s[0] == 'I') return;
        bool stopped = false;
        for (char c : t.s) { if (stopped) complaint = "unpacking goes on after it was stopped"; if (!fn(make(std::string(1, c)))) { stopped = true; break; } }
    }
};
TagType A{"tagA"}, B{"tagB"};

// a('p'), ar('p'): a value of type A; the second only when evaluated, not while compiling
struct Make : Function {
    TagType& t; bool runtime; FnInfo info;
    Make(TagType& t, bool r, std::string n) : t(t), runtime(r), info{n, "", ""} {}
    auto ident() const -> const FnInfo& override { return info; }
    auto eval(simfil::Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result override
    {
        if (runtime && ctx.phase == simfil::Context::Compilation) return res(ctx, Value::undef());
        std::string p;
        (void)args.at(0)->eval(ctx, val, LambdaResultFn([&](simfil::Context, Value v) { p = v.toString(); return Result::Continue; }));
        return res(ctx, t.make(p));
    }
};
Make fns[] = {{A, false, "a"}, {A, true, "ar"}, {B, false, "b"}, {B, true, "br"}};

// ---- terms and what they mean -----------------------------------------------------------------
struct V { enum K { Null, Undef, Bool, Int, Str, Range, Re, Array, Object, TA, TB } k; bool b = false; int64_t i = 0; std::string s;
    bool tag() const { return k >= TA; } };
std::string show(V const& v) { switch (v.k) { case V::Null: return "null"; case V::Bool: return v.b ? "true" : "false"; case V::Int: return std::to_string(v.i); case V::Str: case V::Range: case V::Re: case V::Array: case V::Object: return v.s; default: return (v.k == V::TA ? "tagA:" : "tagB:") + v.s; } }
struct Raise {};
struct Unclear {};       // not decided by this harness: an operator of the language on ordinary values

struct Term; using TermP = std::shared_ptr<Term>;
struct Term { char k; std::string op; std::vector<TermP> a; };     // l leaf, u prefix, p postfix, b binary, w word binary, q word postfix, c call, f filter

std::string text(Term const& t)
{
    switch (t.k) {
    case 'l': return t.op;
    case 'u': return "(" + t.op + " " + text(*t.a[0]) + ")";
    case 'p': case 'q': return "(" + text(*t.a[0]) + " " + t.op + ")";
    case 'b': case 'w': return "(" + text(*t.a[0]) + " " + t.op + " " + text(*t.a[1]) + ")";
    case 'f': return "_{" + text(*t.a[0]) + "}.i";
    default: { std::string s = t.op + "("; for (size_t i = 0; i < t.a.size(); ++i) s += (i ? ", " : "") + text(*t.a[i]); return s + ")"; }
    }
}

V answer(V const& self, V yes) { if (self.s[0] == 'R' || self.s[0] == 'I') throw Raise{}; if (self.s[0] == 'Z') return {V::Null}; return yes; }
V unary(std::string const& op, V const& v)
{
    if (v.k == V::Undef) return v;
    if (!v.tag()) {
        if (v.k == V::Range || v.k == V::Re) { if (op == "?") return {V::Bool, true}; if (op != "string") throw Unclear{}; }
        if ((v.k == V::Array || v.k == V::Object) && op != "?" && op != "not") throw Unclear{};
        if (op == "?") return {V::Bool, v.k == V::Bool ? v.b : v.k != V::Null};
        if (op == "not") return {V::Bool, !(v.k == V::Bool ? v.b : v.k != V::Null)};
        if (op == "string") return {V::Str, false, 0, show(v)};
        throw Unclear{};
    }
    if (op == "string") return {V::Str, false, 0, show(v)};
    if (op == "?") { (void)answer(v, {V::Null}); return {V::Bool, v.s[0] != 'N'}; }
    return answer(v, {v.k, false, 0, "(" + op + " " + v.s + ")"});
}
V binary(std::string const& op, V const& l, V const& r)
{
    if (l.k == V::Undef) return l;
    if (r.k == V::Undef) return r;
    if (l.tag()) return answer(l, {l.k, false, 0, "(" + l.s + " " + op + " " + show(r) + ")"});
    if (r.tag() && (l.k == V::Range || l.k == V::Re)) {       // the types of the language come first as well; they know no others
        if (op == "==" || op == "!=") return {V::Bool, op == "!="};
        throw Raise{};
    }
    if (r.tag()) return answer(r, {r.k, false, 0, "(" + show(l) + " " + op + " " + r.s + " right)"});
    throw Unclear{};
}
bool truth(V const& v) { return unary("?", v).b; }

using Out = std::function<bool(V const&)>;
bool folding = false;       // as while compiling: what is not constant is undefined
bool ev(Term const& t, Out const& out)
{
    const V undef{V::Undef};
    auto isUndef = [](V const& v) { return v.k == V::Undef; };
    if (folding && t.k == 'l' && !(t.op[0] == '1' || t.op[0] == 'r' || t.op[0] == '\'' || t.op == "null" || t.op == "true" || t.op == "false" || t.op == "2.5" || t.op[1] == '(')) return out(undef);
    if (folding && t.k == 'f') return out(undef);
    if (folding && t.k == 'c' && t.op != "arr") { for (auto& a : t.a) ev(*a, [&](V const& v) { if (!isUndef(v)) (void)truth(v); return true; }); return out(undef); }
    switch (t.k) {
    case 'l': {
        auto& s = t.op;
        if (s == "i") return out({V::Int, false, 7});
        if (s == "s") return out({V::Str, false, 0, "str"});
        if (s == "null" || s == "zz") return out({V::Null});
        if (s == "true") return out({V::Bool, true});
        if (s == "false" || s == "f") return out({V::Bool, false});
        if (s == "l") return out({V::Array, false, 0, "[array]"});
        if (s == "o") return out({V::Object, false, 0, "[object]"});
        if (s == "d" || s == "2.5") return out({V::Str, false, 0, "2.500000"});      // only its text matters
        if (s == "range(1,2)") return out({V::Range, false, 0, "1..2"});
        if (s == "re('t.')") return out({V::Re, false, 0, "t."});
        if (s == "l.*") return out({V::Int, false, 1}) && out({V::Int, false, 2});
        if (s[0] == '1') return out({V::Int, false, 1});
        if (s[0] == '\'') return out({V::Str, false, 0, s.substr(1, s.size() - 2)});
        auto p = s.find('\''), q = s.rfind('\'');
        return out({s[0] == 'a' ? V::TA : V::TB, false, 0, s.substr(p + 1, q - p - 1)});
    }
    case 'u': return ev(*t.a[0], [&](V const& v) { return out(unary(t.op, v)); });
    case 'p':
        if (t.op == "...") {
            bool any = false, go = true;
            go = ev(*t.a[0], [&](V const& v) {
                if (v.k == V::Range || v.k == V::Re || v.k == V::Array || v.k == V::Object) throw Unclear{};
                if (!v.tag()) { any = true; return out(v); }
                if (v.s[0] == 'R') throw Raise{};
                if (v.s[0] == 'I') return true;
                for (char c : v.s) { any = true; if (!out({v.k, false, 0, std::string(1, c)})) return false; }
                return true;
            });
            if (!any) go = out({V::Null});
            return go;
        }
        return ev(*t.a[0], [&](V const& v) { return out(unary(t.op.substr(0, 3) == "as " ? t.op == "as bool" ? "?" : t.op.substr(3) : t.op, v)); });
    case 'q': return ev(*t.a[0], [&](V const& v) { if (isUndef(v)) return out(v); if (!v.tag()) throw Raise{}; return out(unary(t.op, v)); });
    case 'b':
        if (t.op == "and") return ev(*t.a[0], [&](V const& v) { return !isUndef(v) && truth(v) ? ev(*t.a[1], out) : out(v); });
        if (t.op == "or") return ev(*t.a[0], [&](V const& v) { return isUndef(v) || truth(v) ? out(v) : ev(*t.a[1], out); });
        return ev(*t.a[0], [&](V const& l) { return ev(*t.a[1], [&](V const& r) { return out(binary(t.op, l, r)); }); });
    case 'w': return ev(*t.a[0], [&](V const& l) { return ev(*t.a[1], [&](V const& r) { if (!l.tag() && !r.tag() && (l.k == V::Range || l.k == V::Re || r.k == V::Range || r.k == V::Re)) throw Unclear{}; if (!l.tag() && !r.tag() && !isUndef(l) && !isUndef(r)) throw Raise{}; return out(binary(t.op, l, r)); }); });
    case 'f': { bool go = true, any = false; ev(*t.a[0], [&](V const& v) { if (truth(v)) { any = true; go = out({V::Int, false, 7}); } return go; }); return any ? go : out({V::Null}); }
    case 'c':
        if (t.op == "arr") { for (auto& a : t.a) if (!ev(*a, out)) return false; return true; }
        if (t.op == "count") { int64_t n = 0; for (auto& a : t.a) ev(*a, [&](V const& v) { n += truth(v); return true; }); return out({V::Int, false, n}); }
        bool any = false, all = true, is = t.op == "any";
        for (auto& a : t.a) if (is ? !any : all) ev(*a, [&](V const& v) { bool b = truth(v); any |= b; all &= b; return is ? !any : all; });
        return out({V::Bool, is ? any : all});
    }
    return true;
}

// Parts that do not depend on the model may raise their error while compiling, even if they would not be evaluated.
bool foldingRaises(Term const& t)
{
    folding = true;
    bool r = false;
    try { ev(t, [](V const&) { return true; }); } catch (Raise const&) { r = true; } catch (Unclear const&) { r = true; }
    folding = false;
    for (auto& a : t.a) r = r || foldingRaises(*a);
    return r;
}

TermP leaf(std::string s) { return std::make_shared<Term>(Term{'l', std::move(s), {}}); }
TermP un(std::string op, TermP x) { return std::make_shared<Term>(Term{'u', std::move(op), {x}}); }
TermP post(std::string op, TermP x) { return std::make_shared<Term>(Term{'p', std::move(op), {x}}); }
TermP bin(std::string op, TermP x, TermP y) { return std::make_shared<Term>(Term{'b', std::move(op), {x, y}}); }

const std::vector<std::string> Prefix = {"-", "~", "#", "not", "typeof"}, Postfix = {"?", "...", "as int", "as float", "as string", "as bool"},
    Binary = {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>", "and", "or"};
const std::vector<std::string> Tags = {"a('x')", "ar('y')", "b('z')", "br('w')", "a('N')", "br('N')", "ar('R')", "b('R')", "a('I')", "br('I')", "ar('Z')", "b('Z')", "ar('xyz')", "b('xyz')"}, Plain = {"1", "i", "'t'", "s", "null", "zz", "true", "l.*", "range(1,2)", "re('t.')", "l", "o", "false", "f", "d", "2.5"};

// All terms of depth 1 over the given leaves
std::vector<TermP> terms(std::vector<TermP> const& ls, std::vector<TermP> const& rs)
{
    std::vector<TermP> r;
    for (auto& x : ls) {
        for (auto& o : Prefix) r.push_back(un(o, x));
        for (auto& o : Postfix) r.push_back(post(o, x));
        r.push_back(std::make_shared<Term>(Term{'q', "foo", {x}}));
        r.push_back(std::make_shared<Term>(Term{'f', "", {x}}));
        for (auto f : {"any", "each", "count", "arr"}) r.push_back(std::make_shared<Term>(Term{'c', f, {x}}));
        for (auto& y : rs) {
            for (auto& o : Binary) { r.push_back(bin(o, x, y)); r.push_back(bin(o, y, x)); }
            r.push_back(std::make_shared<Term>(Term{'w', "foo", {x, y}})); r.push_back(std::make_shared<Term>(Term{'w', "foo", {y, x}}));
            for (auto f : {"any", "each", "count", "arr"}) r.push_back(std::make_shared<Term>(Term{'c', f, {x, y}}));
        }
    }
    return r;
}

std::vector<TermP> all(bool thorough)
{
    std::vector<TermP> tags, every, few, r;
    for (auto& s : Tags) tags.push_back(leaf(s));
    every = tags;
    for (auto& s : Plain) every.push_back(leaf(s));
    for (auto s : {"a('x')", "br('y')", "b('N')", "ar('Z')", "1", "l.*"}) few.push_back(leaf(s));
    r = tags;
    auto one = terms(tags, every);
    r.insert(r.end(), one.begin(), one.end());
    auto small = terms({leaf("a('x')"), leaf("br('y')"), leaf("ar('xyz')"), leaf("b('N')")}, thorough ? every : few);
    auto two = terms(small, thorough ? every : few);
    r.insert(r.end(), two.begin(), two.end());
    // long ones: chains to either side, many arguments, payloads of many parts
    auto call = [](std::string f, std::vector<TermP> a) { return std::make_shared<Term>(Term{'c', std::move(f), std::move(a)}); };
    for (int n : {3, 4, 5, 8, 9, 16, 17, 33, 64}) {
        std::string longText(n, 'x'); longText += "yz";
        for (auto s : {"a('x')", "br('y')", "ar('N')", "br('Z')", "ar('R')", "l.*", "1"}) {
            if (n > 9 && s[0] == 'l') continue;
            for (auto& o : Binary) for (auto o2 : {"+", "and", "or", "==", "foo"}) {
                auto mk = [&](std::string const& op, TermP x, TermP y) { return op == "foo" ? std::make_shared<Term>(Term{'w', op, {x, y}}) : bin(op, x, y); };
                TermP l = leaf("ar('q')"), x = leaf(s);
                for (int i = 1; i < n; ++i) { l = mk(i % 3 ? o : o2, l, leaf(i % 2 ? s : "br('w')")); x = mk(i % 3 ? o : o2, leaf(i % 2 ? s : "ar('v')"), x); }
                r.push_back(l); r.push_back(x);
            }
            for (auto& o : Prefix) { auto t = leaf(s); for (int i = 0; i < n; ++i) t = un(o, t); r.push_back(t); }
            for (auto& o : Postfix) { auto t = leaf(s); for (int i = 0; i < n; ++i) t = post(o, t); r.push_back(t); }
            auto t = leaf(s); for (int i = 0; i < n; ++i) t = std::make_shared<Term>(Term{'q', "foo", {t}}); r.push_back(t);
            for (auto f : {"any", "each", "count", "arr"}) { std::vector<TermP> a; for (int i = 0; i < n; ++i) a.push_back(leaf(i % 3 == 2 ? "br('N')" : i == n - 1 ? s : "ar('y')")); r.push_back(call(f, a)); r.push_back(post("...", call(f, a))); r.push_back(un("-", call(f, a))); }
        }
        for (auto f : {"a", "ar", "b", "br"}) { auto x = leaf(std::string(f) + "('" + longText + "')"); for (auto t : {post("...", x), un("-", post("...", x)), bin("+", post("...", x), leaf("br('y')")), bin("+", leaf("ar('y')"), x), call("count", {post("...", x)}), post("...", post("...", x)), post("as string", x)}) r.push_back(t); }
    }
    return r;
}

const std::vector<TermP>& table(bool th) { static std::map<bool, std::vector<TermP>> m; auto& t = m[th]; if (t.empty()) t = all(th); return t; }

void run(std::string const& c, mc::Run& r)
{
    auto& term = *table(c[0] == 't')[std::stoul(c.substr(1))];
    auto q = text(term);
    static auto model = json::parse(R"({"i":7,"s":"str","l":[1,2],"o":{"k":1},"f":false,"d":2.5})");
    // expected
    std::vector<std::string> want; bool raises = false;
    try { ev(term, [&](V const& v) { want.push_back(show(v)); return true; }); }
    catch (Raise const&) { raises = true; }
    catch (Unclear const&) { r.outcome("not judged"); return; }
    auto before = live;
    complaint.clear();
    std::string got, err;
    {
        Environment env(model->strings());
        for (auto& f : fns) env.functions[f.info.ident] = &f;
        auto once = [&](size_t stop) {
            std::optional<std::vector<std::string>> res;
            std::vector<Value> vs;
            try {
                auto e = compile(env, q, false);
                res.emplace();
                for (int k = 0; k < (stop ? 1 : 2); ++k) {      // twice, the same expression
                    vs.clear(); res->clear();
                    bool stopped = false;
                    (void)e->eval(simfil::Context(&env), Value::field(*model->root(0)), LambdaResultFn([&](simfil::Context, Value v) {
                        if (stopped) complaint = "a value arrives after evaluation was stopped";
                        vs.push_back(v); res->push_back(TagType::text(v));
                        if (vs.size() == stop) { stopped = true; return Result::Stop; }
                        return Result::Continue;
                    }));
                }
            } catch (std::exception const&) { if (!(stop && res && res->size() >= stop)) res.reset(); }
            return res;
        };
        auto g = once(0);
        r.step();
        if (!g && !raises && foldingRaises(term)) { r.outcome("raises while compiling"); return; }
        if (g.has_value() == raises) mc::fail(q + (raises ? " must raise an error" : " raises an error"));
        if (g && *g != want) {
            std::string s = q + " yields"; for (auto& x : *g) s += " " + x + ";"; s += " expected"; for (auto& x : want) s += " " + x + ";";
            mc::fail(s);
        }
        if (!raises)
            for (size_t n = 1; n <= want.size() && n < 4; ++n) {
                auto h = once(n); r.step();
                if (!h || h->size() != n || !std::equal(h->begin(), h->end(), want.begin())) mc::fail(q + " stopped after " + std::to_string(n) + " values yields others");
            }
    }
    if (!complaint.empty()) mc::fail(q + ": " + complaint);
    if (live != before) mc::fail(q + ": " + std::to_string(live - before) + " objects are not released");
    std::string st; for (auto& w : want) st += w + ";";
    r.state(st);
    r.outcome(raises ? "raises" : want.size() == 1 ? "one value" : "several values");
}
}  // namespace

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C36";
    c.bounds = "2 user-defined types that record what they are asked: all terms of one constructor (5 prefix, 6 postfix, 18 binary, word operators, filter, any/each/count/arr) over 14 objects and 16 ordinary operands, ranges, patterns, arrays and objects included, on either side, of two constructors over 4 objects and 6 operands (thorough: 30), chains, nestings, argument lists and payloads of up to 64, constant and not, each evaluated twice and stopped after 1..3 values";
    c.enumerate = [](bool th, mc::Emit const& emit) { for (size_t i = 0; i < table(th).size(); ++i) emit((th ? "t" : "q") + std::to_string(i)); };
    c.run = run;
    c.show = [](std::string const& x) { return text(*table(x[0] == 't')[std::stoul(x.substr(1))]); };
    return mc::main(argc, argv, c);
}
