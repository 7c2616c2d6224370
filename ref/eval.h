// Reference parser and evaluator of the query language, written from simfil-language.md and the property texts.
// No constant folding, no caching, no interning.
#pragma once
#include "doc.h"
#include <functional>
#include <map>
#include <regex>
#include <limits>

namespace ref {

struct Error { std::string why; };
[[noreturn]] inline void raise(std::string w) { throw Error{std::move(w)}; }

// ---------------------------------------------------------------- syntax tree
struct Ast;
using AstP = std::shared_ptr<Ast>;
struct Ast {
    std::string op;            // kind or operator name
    Tok tok;                   // constants
    std::string name;          // field, function, word operator, cast type
    std::vector<AstP> a;
    // s-expression in the library's notation, without folding
    std::string str() const
    {
        if (op == "const") {
            if (tok.type == "string") return "\"" + tok.text + "\"";
            if (tok.type == "int") return std::to_string(tok.i);
            if (tok.type == "float") return std::to_string(tok.f);
            if (tok.type == "regexp") return tok.text;
            return tok.type;
        }
        if (op == "field" || op == "*" || op == "**") return op == "field" ? name : op;
        std::string s = "(" + (op == "call" || op == "word" ? name : op == "cast" ? (name == "bool" ? "?" : name) : op.substr(0, op.find('#')) == "un" ? op.substr(3) : op.rfind("bin#", 0) == 0 ? op.substr(4) : op);
        for (auto& x : a) s += " " + x->str();
        return s + ")";
    }
};
inline AstP node(std::string op, std::vector<AstP> a = {}, std::string name = "") { auto n = std::make_shared<Ast>(); n->op = std::move(op); n->a = std::move(a); n->name = std::move(name); return n; }

struct Names {   // what the environment offers
    std::function<bool(std::string const&)> constant = [](std::string const&) { return false; };
};

inline bool isSymbol(std::string const& w)
{
    bool up = false;
    for (char c : w) { if (c >= 'A' && c <= 'Z') up = true; else if (!(c == '_' || isDigit(c))) return false; }
    return up;
}

class Parser {
    std::vector<Tok> t; size_t p = 0; bool inPath = false; Names const& names;
    static int infix(std::string const& k)
    {
        static std::map<std::string, int> const m = {
            {".", 12}, {"{", 11}, {"[", 10}, {"?", 9}, {"...", 9}, {"as", 7}, {"word", 7}, {"*", 6}, {"/", 6}, {"%", 6}, {"+", 5}, {"-", 5},
            {"<<", 4}, {">>", 4}, {"&", 4}, {"|", 4}, {"^", 4}, {"<", 3}, {"<=", 3}, {">", 3}, {">=", 3}, {"==", 2}, {"!=", 2}, {"and", 1}, {"or", 1}};
        auto i = m.find(k); return i == m.end() ? 0 : i->second;
    }
    static bool prefix(std::string const& k)
    {
        static std::map<std::string, int> const m = {{"true", 1}, {"false", 1}, {"null", 1}, {"int", 1}, {"float", 1}, {"string", 1}, {"regexp", 1}, {"-", 1}, {"~", 1}, {"not", 1},
            {"#", 1}, {"typeof", 1}, {"(", 1}, {"{", 1}, {"[", 1}, {"word", 1}, {"self", 1}, {"**", 1}, {"*", 1}};
        return m.count(k) > 0;
    }
    std::string const& cur() const { static std::string eof = "EOF"; return p < t.size() ? t[p].type : eof; }
    void want(char const* k) { if (cur() != k) raise(std::string("expected ") + k + " got " + cur()); ++p; }
    struct Scope { bool& v; bool old; Scope(bool& v_, bool n) : v(v_), old(v_) { v = n; } ~Scope() { v = old; } };
    AstP inner(char const* close) { Scope s(inPath, false); auto e = expr(0); want(close); return e; }
    AstP expr(int prec)
    {
        if (!prefix(cur())) raise("expected an expression, got " + cur());
        auto left = pre();
        while (prec < infix(cur())) left = in(left);
        return left;
    }
    AstP self() { return node("field", {}, "_"); }
    AstP pre()
    {
        Tok k = t[p++];
        auto const& y = k.type;
        if (y == "-" || y == "~" || y == "not" || y == "#" || y == "typeof") return node("un#" + y, {expr(8)});
        if (y == "(") return inner(")");
        if (y == "{") return node("sub", {self(), inner("}")});
        if (y == "[") return node("index", {self(), inner("]")});
        if (y == "self") return self();
        if (y == "*" || y == "**") return node(y);
        if (y == "word") {
            if (cur() == "(") {
                Scope s(inPath, false);
                ++p;
                std::vector<AstP> args;
                if (cur() == ")") ++p;
                else for (;;) { args.push_back(expr(0)); if (cur() == ",") { ++p; continue; } want(")"); break; }
                return node("call", args, k.text);
            }
            if (!inPath) {
                if (isSymbol(k.text) && cur() != ".") { auto n = node("const"); n->tok = k; n->tok.type = "string"; return n; }
                if (names.constant(k.text)) return node("constant", {}, k.text);
            }
            return node("field", {}, k.text);
        }
        auto n = node("const"); n->tok = k;
        if (y == "regexp") { try { std::regex r(k.text); } catch (std::regex_error const&) { raise("bad regular expression"); } }
        return n;
    }
    AstP in(AstP left)
    {
        Tok k = t[p++];
        auto const& y = k.type;
        if (y == ".") { Scope s(inPath, true); auto r = expr(12); return node(".", {left, r}); }
        if (y == "{") return node("sub", {left, inner("}")});
        if (y == "[") return node("index", {left, inner("]")});
        if (y == "?") return node("un#?", {left});
        if (y == "...") return node("...", {left});
        if (y == "as") {
            if (cur() == "null") { ++p; auto n = node("const"); n->tok.type = "null"; return n; }
            if (cur() != "word") raise("expected a type name");
            auto w = t[p++].text;
            if (w != "bool" && w != "int" && w != "float" && w != "string") raise("bad type name " + w);
            return node("cast", {left}, w);
        }
        if (y == "word") {
            if (prefix(cur())) { auto r = expr(7); return node("word", {left, r}, k.text); }
            return node("word", {left}, k.text);
        }
        auto r = expr(infix(y));
        if (y == "and" || y == "or") return node(y, {left, r});
        return node("bin#" + y, {left, r});
    }
public:
    Parser(std::vector<Tok> toks, Names const& n) : t(std::move(toks)), names(n) {}
    AstP parse() { auto e = expr(0); if (p != t.size()) raise("expected the end, got " + cur()); return e; }
};

inline AstP parse(std::string_view src, Names const& names = {})
{
    std::vector<Tok> t;
    try { t = lex(src); } catch (LexError const& e) { raise("lexical error: " + e.why); }
    return Parser(std::move(t), names).parse();
}

// ---------------------------------------------------------------- values
struct Overlay;
struct Val {
    enum T { Null, Bool, Int, Float, Str, Model, Range, Re } t = Null;
    bool b = false; int64_t i = 0; double f = 0; std::string s; int64_t e = 0;   // Range: i..e, Re: s
    const Node* n = nullptr;               // the document node, if it is one
    std::shared_ptr<Overlay> ov;           // an overlay
    bool scalarNode = false;               // a node that only holds a scalar
    bool hasNode() const { return n || ov || scalarNode; }
    static Val null() { return {}; }
    static Val B(bool v) { Val r; r.t = Bool; r.b = v; return r; }
    static Val I(int64_t v) { Val r; r.t = Int; r.i = v; return r; }
    static Val F(double v) { Val r; r.t = Float; r.f = v; return r; }
    static Val S(std::string v) { Val r; r.t = Str; r.s = std::move(v); return r; }
    static Val R(int64_t b, int64_t e) { Val r; r.t = Range; r.i = b; r.e = e; return r; }
    static Val X(std::string v) { Val r; r.t = Re; r.s = std::move(v); return r; }
    static Val N(const Node* n)
    {
        Val r; r.n = n;
        switch (n->kind) {
        case Node::Null: r.t = Null; break;
        case Node::Bool: r.t = Bool; r.b = n->b; break;
        case Node::Int: r.t = Int; r.i = n->i; break;
        case Node::Float: r.t = Float; r.f = n->f; break;
        case Node::Str: r.t = Str; r.s = n->s; break;
        default: r.t = Model;
        }
        return r;
    }
    bool truthy() const { return t == Null ? false : t == Bool ? b : true; }
    bool num() const { return t == Int || t == Float; }
    double d() const { return t == Int ? (double)i : f; }
    bool transient() const { return t == Range || t == Re; }
};
struct Overlay { Val base; std::map<std::string, Val> kids; };

inline std::string show(Val const& v)
{
    char b[64];
    switch (v.t) {
    case Val::Null: return "null";
    case Val::Bool: return v.b ? "true" : "false";
    case Val::Int: return std::to_string(v.i);
    case Val::Float: snprintf(b, sizeof b, "%.17gf", v.f); return b;
    case Val::Str: return "'" + v.s + "'";
    case Val::Range: return std::to_string(v.i) + ".." + std::to_string(v.e);
    case Val::Re: return "re'" + v.s + "'";
    case Val::Model: return v.ov ? "<overlay>" : v.n->kind == Node::Obj ? "<object>" : "<array>";
    }
    return "?";
}

// node accessors, the same for documents, overlays and scalars
inline bool nget(Val const& v, std::string const& name, Val& out)
{
    if (v.ov) {
        auto i = v.ov->kids.find(lower(name));
        if (i != v.ov->kids.end()) { out = i->second; if (!out.hasNode()) { if (out.transient()) out = Val(); out.scalarNode = true; } return true; }
        return v.ov->base.hasNode() && nget(v.ov->base, name, out);
    }
    if (v.n) if (auto k = v.n->get(name)) { out = Val::N(k); return true; }
    return false;
}
inline bool nat(Val const& v, int64_t i, Val& out)
{
    if (v.ov) return v.ov->base.hasNode() && nat(v.ov->base, i, out);
    if (v.n) if (auto k = v.n->at(i)) { out = Val::N(k); return true; }
    return false;
}
inline int64_t nsize(Val const& v) { return v.ov ? (v.ov->base.hasNode() ? nsize(v.ov->base) : 0) : v.n && v.n->compound() ? (int64_t)v.n->kids.size() : 0; }
inline std::string nkey(Val const& v, int64_t i) { return v.ov ? nkey(v.ov->base, i) : v.n->kids[i].first; }

// ---------------------------------------------------------------- operators
inline std::string asString(Val const& v)
{
    switch (v.t) {
    case Val::Null: return "null";
    case Val::Bool: return v.b ? "true" : "false";
    case Val::Int: return std::to_string(v.i);
    case Val::Float: return std::to_string(v.f);
    case Val::Str: return v.s;
    case Val::Range: return std::to_string(v.i) + ".." + std::to_string(v.e);
    case Val::Re: return v.s;
    default: return "";
    }
}
inline std::string typeName(Val const& v)
{
    switch (v.t) {
    case Val::Null: return "null";
    case Val::Bool: return "bool";
    case Val::Int: return "int";
    case Val::Float: return "float";
    case Val::Str: return "string";
    case Val::Range: return "irange";
    case Val::Re: return "re";
    default: return "model";
    }
}
inline int64_t lo(Val const& v) { return std::min(v.i, v.e); }
inline int64_t hi(Val const& v) { return std::max(v.i, v.e); }

inline Val unary(std::string const& op, Val const& v)
{
    auto bad = [&]() -> Val { raise("invalid operand " + typeName(v) + " for " + op); };
    if (op == "typeof") return Val::S(typeName(v));
    if (op == "?" || op == "bool") return Val::B(v.truthy());
    if (op == "string") return Val::S(asString(v));
    if (v.t == Val::Range) return op == "#" ? Val::I(hi(v) - lo(v)) : bad();
    if (v.t == Val::Re) return bad();
    if (op == "not") return Val::B(!v.truthy());
    if (op == "-") return v.t == Val::Int ? Val::I((int64_t)(0 - (uint64_t)v.i)) : v.t == Val::Float ? Val::F(-v.f) : bad();
    if (op == "~") return v.t == Val::Int ? Val::I(~v.i) : v.t == Val::Null ? Val() : bad();
    if (op == "#") return v.t == Val::Str ? Val::I(v.s.size()) : v.t == Val::Model ? Val::I(nsize(v)) : v.t == Val::Null ? Val() : bad();
    if (op == "int") {
        if (v.t == Val::Bool) return Val::I(v.b);
        if (v.t == Val::Int) return Val::I(v.i);
        if (v.t == Val::Float) return Val::I(v.f >= -9223372036854775808.0 && v.f < 9223372036854775808.0 ? (int64_t)v.f : 0);
        if (v.t == Val::Str) return Val::I(std::strtoll(v.s.c_str(), nullptr, 10));
        return Val::I(0);
    }
    if (op == "float") {
        if (v.t == Val::Bool) return Val::F(v.b);
        if (v.t == Val::Int) return Val::F((double)v.i);
        if (v.t == Val::Float) return Val::F(v.f);
        if (v.t == Val::Str) return Val::F(std::strtod(v.s.c_str(), nullptr));
        return Val::F(0);
    }
    return bad();
}

inline bool equal(Val const& l, Val const& r)
{
    if (l.t == Val::Int && r.t == Val::Int) return l.i == r.i;
    if (l.num() && r.num()) return l.d() == r.d();
    if (l.t != r.t) return false;
    switch (l.t) {
    case Val::Null: return true;
    case Val::Bool: return l.b == r.b;
    case Val::Str: return l.s == r.s;
    default: return false;   // nodes never compare equal
    }
}
// Ordering; incompatible: false
inline bool less(Val const& l, Val const& r, bool orEqual)
{
    if (l.t == Val::Int && r.t == Val::Int) return orEqual ? l.i <= r.i : l.i < r.i;
    if (l.num() && r.num()) return orEqual ? l.d() <= r.d() : l.d() < r.d();
    if (l.t == Val::Str && r.t == Val::Str) return orEqual ? l.s <= r.s : l.s < r.s;
    return l.t == Val::Null && r.t == Val::Null && orEqual;
}

inline Val binary(std::string const& op, Val const& l, Val const& r)
{
    auto bad = [&]() -> Val { raise("invalid operands " + typeName(l) + " " + op + " " + typeName(r)); };
    if (l.transient() || r.transient()) {
        auto const& o = l.transient() ? l : r;        // the object that decides
        auto const& x = l.transient() ? r : l;        // the other operand
        if (o.t == Val::Range) {
            if (op != "==" && op != "!=") return bad();
            bool in = false;
            if (x.t == Val::Int) in = lo(o) <= x.i && x.i <= hi(o);
            else if (x.t == Val::Float) in = (double)lo(o) <= x.f && x.f <= (double)hi(o);
            else if (x.t == Val::Range) in = x.i == o.i && x.e == o.e;
            return Val::B(op == "==" ? in : !in);
        }
        if (x.t == Val::Null) return Val();
        if (op != "==" && op != "!=") return bad();
        if (x.t == Val::Str) {
            const bool m = std::regex_match(x.s, std::regex(o.s));
            return m == (op == "==") ? Val::S(x.s) : Val::B(false);
        }
        return Val::B(op == "!=");
    }
    if (op == "==") return Val::B(equal(l, r));
    if (op == "!=") return Val::B(!equal(l, r));
    if (op == "<") return Val::B(less(l, r, false));
    if (op == "<=") return Val::B(less(l, r, true));
    if (op == ">") return Val::B(less(r, l, false));
    if (op == ">=") return Val::B(less(r, l, true));
    const bool anyNull = l.t == Val::Null || r.t == Val::Null;
    const bool ints = l.t == Val::Int && r.t == Val::Int, nums = l.num() && r.num();
    const uint64_t a = l.i, b = r.i;
    if (op == "+") {
        if (l.t == Val::Str || r.t == Val::Str) return l.t == Val::Model || r.t == Val::Model ? Val() : Val::S(asString(l) + asString(r));
        if (l.t == Val::Model && r.t == Val::Model) return Val();
        if (anyNull) return Val();
        return ints ? Val::I((int64_t)(a + b)) : nums ? Val::F(l.d() + r.d()) : bad();
    }
    if (op == "[]") {
        if (anyNull) return Val();
        if (l.t == Val::Str && r.t == Val::Int) return r.i >= 0 && r.i < (int64_t)l.s.size() ? Val::S(l.s.substr(r.i, 1)) : Val();
        return bad();
    }
    if (op != "-" && op != "*" && op != "/" && op != "%" && op != "&" && op != "|" && op != "^" && op != "<<" && op != ">>") return bad();
    if (anyNull) return Val();
    if (op == "-") return ints ? Val::I((int64_t)(a - b)) : nums ? Val::F(l.d() - r.d()) : bad();
    if (op == "*") return ints ? Val::I((int64_t)(a * b)) : nums ? Val::F(l.d() * r.d()) : bad();
    if (op == "/") {
        if (!nums) return bad();
        if (r.d() == 0) raise("division by zero");
        return ints ? Val::I(r.i == -1 ? (int64_t)(0 - a) : l.i / r.i) : Val::F(l.d() / r.d());
    }
    if (!ints) return bad();
    if (op == "%") { if (!r.i) raise("division by zero"); return Val::I(r.i == -1 ? 0 : l.i % r.i); }
    if (op == "&") return Val::I(l.i & r.i);
    if (op == "|") return Val::I(l.i | r.i);
    if (op == "^") return Val::I(l.i ^ r.i);
    if (op == "<<") return Val::I(b < 64 ? (int64_t)(a << b) : 0);
    return Val::I(b < 64 ? (int64_t)(a >> b) : 0);
}

// ---------------------------------------------------------------- evaluation
using Out = std::function<bool(Val)>;          // false: stop

struct Traced { int64_t calls = 0; std::vector<Val> values; };

struct Eval {
    std::map<std::string, Val> constants;                     // lower-case name
    std::map<std::string, std::string> functions;             // lower-case name -> builtin name or custom tag
    std::function<bool(std::string const& tag, std::vector<AstP> const&, Val const&, Out const&, Eval&, bool& handled)> custom;
    std::map<std::string, Traced> traces;
    uint64_t steps = 0, maxSteps = 2000000;
    uint64_t misses = 0;                                      // subscripts of nodes that selected nothing
    Eval()
    {
        for (auto n : {"any", "each", "count", "range", "arr", "split", "select", "sum", "keys", "trace", "re"}) functions[n] = n;
        functions["all"] = "each";
    }
    struct Limit {};

    Val single(AstP const& a, Val const& cur, Val::T type, char const* what)
    {
        Val r; int n = 0;
        ev(*a, cur, [&](Val v) { if (++n > 1) raise(std::string(what) + " must be a single value"); if (v.t != type) raise(std::string("bad type of ") + what); r = v; return true; });
        return r;
    }

    bool call(Ast const& x, Val const& cur, Out const& out)
    {
        auto f = functions.find(lower(x.name));
        if (f == functions.end()) raise("unknown function " + x.name);
        auto const& fn = f->second;
        auto const& a = x.a;
        if (fn == "any" || fn == "each" || fn == "count") {
            if (a.empty()) raise("missing argument");
            bool r = fn == "each"; int64_t n = 0;
            for (auto& e : a) {
                ev(*e, cur, [&](Val v) {
                    n += v.truthy();
                    if (fn == "any" && v.truthy()) { r = true; return false; }
                    if (fn == "each" && !v.truthy()) { r = false; return false; }
                    return true;
                });
                if (fn == "any" ? r : fn == "each" ? !r : false) break;
            }
            return out(fn == "count" ? Val::I(n) : Val::B(r));
        }
        if (fn == "range") {
            if (a.size() != 2) raise("argument count");
            auto b = single(a[0], cur, Val::Int, "begin"), e = single(a[1], cur, Val::Int, "end");
            return out(Val::R(b.i, e.i));
        }
        if (fn == "re") {
            if (a.size() != 1) raise("argument count");
            return ev(*a[0], cur, [&](Val v) {
                if (v.t == Val::Re) return out(v);
                if (v.t != Val::Str) raise("bad type");
                try { std::regex r(v.s); } catch (std::regex_error const&) { raise("bad regular expression"); }
                return out(Val::X(v.s));
            });
        }
        if (fn == "arr") {
            if (a.empty()) return out(Val());
            for (auto& e : a) if (!ev(*e, cur, out)) return false;
            return true;
        }
        if (fn == "split") {
            if (a.size() < 2) raise("argument count");
            auto s = single(a[0], cur, Val::Str, "string").s, sep = single(a[1], cur, Val::Str, "separator").s;
            bool keep = a.size() < 3 || single(a[2], cur, Val::Bool, "keepEmpty").b;
            if (s.empty()) return true;
            if (sep.empty()) return out(Val::S(s));
            size_t b = 0;
            for (;;) {
                auto e = s.find(sep, b);
                auto part = s.substr(b, e == std::string::npos ? e : e - b);
                if (keep || !part.empty()) if (!out(Val::S(part))) return false;
                if (e == std::string::npos) return true;
                b = e + sep.size();
            }
        }
        if (fn == "select") {
            if (a.size() < 2) raise("argument count");
            auto idx = single(a[1], cur, Val::Int, "index").i;
            int64_t cnt = a.size() > 2 ? single(a[2], cur, Val::Int, "limit").i : 1;
            int64_t n = -1; bool r = true;
            ev(*a[0], cur, [&](Val v) {
                ++n;
                if (cnt > 0 && (__int128)n >= (__int128)idx + cnt) return false;
                if (n >= idx) return r = out(v);
                return true;
            });
            return r;
        }
        if (fn == "sum") {
            if (a.empty() || a.size() > 3) raise("argument count");
            Val sum = Val::I(0); int64_t n = 0;
            if (a.size() == 3) ev(*a[2], cur, [&](Val v) { sum = v; return true; });
            ev(*a[0], cur, [&](Val v) {
                if (a.size() == 1) { sum = sum.t == Val::Null ? v : binary("+", sum, v); return true; }
                Val o; o.t = Val::Model; o.ov = std::make_shared<Overlay>();
                o.ov->base = v; o.ov->kids["$sum"] = sum; o.ov->kids["$val"] = v; o.ov->kids["$idx"] = Val::I(n++);
                ev(*a[1], o, [&](Val w) { o.ov->kids["$sum"] = w; sum = w; return true; });
                return true;
            });
            return out(sum);
        }
        if (fn == "keys") {
            if (a.size() != 1) raise("argument count");
            return ev(*a[0], cur, [&](Val v) {
                if (v.hasNode()) for (int64_t i = 0; i < nsize(v); ++i) if (!out(Val::S(nkey(v, i)))) return false;
                return true;
            });
        }
        if (fn == "trace") {
            if (a.empty()) raise("argument count");
            int64_t limit = a.size() > 1 ? single(a[1], cur, Val::Int, "limit").i : -1;
            std::string name = a.size() > 2 ? single(a[2], cur, Val::Str, "name").s : a[0]->str();
            std::vector<Val> vs;
            auto r = ev(*a[0], cur, [&](Val v) { vs.push_back(v); return out(v); });
            auto& t = traces[name];
            ++t.calls;
            for (auto& v : vs) if (limit < 0 || (int64_t)t.values.size() < limit) t.values.push_back(v);
            if (limit >= 0 && (int64_t)t.values.size() > limit) t.values.resize(limit);
            return r;
        }
        bool handled = false;
        auto r = custom ? custom(fn, a, cur, out, *this, handled) : true;
        if (!handled) raise("no such function");
        return r;
    }

    // everything in pre-order, without nulls
    bool walk(Val const& v, Out const& out)
    {
        if (v.t == Val::Null) return true;
        if (!out(v)) return false;
        for (int64_t i = 0; i < nsize(v); ++i) { Val k; nat(v, i, k); if (!walk(k, out)) return false; }
        return true;
    }

    bool ev(Ast const& x, Val const& cur, Out const& out)
    {
        if (++steps > maxSteps) throw Limit{};
        auto const& op = x.op;
        if (op == "const") {
            auto const& k = x.tok;
            if (k.type == "int") return out(Val::I(k.i));
            if (k.type == "float") return out(Val::F(k.f));
            if (k.type == "string") return out(Val::S(k.text));
            if (k.type == "regexp") return out(Val::X(k.text));
            if (k.type == "null") return out(Val());
            return out(Val::B(k.type == "true"));
        }
        if (op == "constant") return out(constants.at(lower(x.name)));
        if (op == "field") {
            if (x.name == "_") return out(cur);
            Val r;
            if (cur.hasNode() && nget(cur, x.name, r)) return out(r);
            return out(Val());
        }
        if (op == "*") {
            if (!cur.hasNode() || !nsize(cur)) return out(Val());
            for (int64_t i = 0; i < nsize(cur); ++i) { Val k; nat(cur, i, k); if (!out(k)) return false; }
            return true;
        }
        // the remaining forms yield null if they yield nothing
        bool any = false, r = true;
        auto emit = [&](Val v) { any = true; return r = out(std::move(v)); };
        auto end = [&] { if (!any) return out(Val()); return r; };
        if (op == "**") { walk(cur, emit); return end(); }
        if (op == ".") {
            auto skip = [](Val const& v) { return v.t == Val::Null && !v.hasNode(); };
            ev(*x.a[0], cur, [&](Val l) { return skip(l) || ev(*x.a[1], l, [&](Val v) { return skip(v) || emit(v); }); });
            return end();
        }
        if (op == "sub") {
            ev(*x.a[0], cur, [&](Val l) { return ev(*x.a[1], l, [&](Val v) { return !v.truthy() || emit(l); }); });
            return end();
        }
        if (op == "index") {
            ev(*x.a[0], cur, [&](Val l) {
                return ev(*x.a[1], cur, [&](Val i) {
                    if (!l.hasNode()) return emit(binary("[]", l, i));
                    Val k;
                    if (i.t == Val::Int ? nat(l, i.i, k) : i.t == Val::Str ? nget(l, i.s, k) : false) return emit(k);
                    ++misses;
                    return true;
                });
            });
            return end();
        }
        if (op == "...") {
            ev(*x.a[0], cur, [&](Val v) {
                if (v.t == Val::Re) raise("cannot unpack");
                if (v.t != Val::Range) return emit(v);
                for (int64_t i = v.i;; i += v.i <= v.e ? 1 : -1) { if (++steps > maxSteps) throw Limit{}; if (!emit(Val::I(i))) return false; if (i == v.e) return true; }
            });
            return end();
        }
        if (op == "call") { r = call(x, cur, emit); return any ? r : out(Val()); }
        if (op == "cast") return ev(*x.a[0], cur, [&](Val v) { return out(unary(x.name, v)); });
        if (op.rfind("un#", 0) == 0) return ev(*x.a[0], cur, [&](Val v) { return out(unary(op.substr(3), v)); });
        if (op.rfind("bin#", 0) == 0) return ev(*x.a[0], cur, [&](Val l) { return ev(*x.a[1], cur, [&](Val v) { return out(binary(op.substr(4), l, v)); }); });
        if (op == "and" || op == "or") return ev(*x.a[0], cur, [&](Val l) { return l.truthy() == (op == "or") ? out(l) : ev(*x.a[1], cur, out); });
        if (op == "word") {
            if (x.a.size() == 1) return ev(*x.a[0], cur, [&](Val v) { if (!v.transient()) raise("no such operator"); return out(unary(x.name, v)); });
            return ev(*x.a[0], cur, [&](Val l) { return ev(*x.a[1], cur, [&](Val v) { if (!l.transient() && !v.transient()) raise("no such operator"); return out(binary(x.name, l, v)); }); });
        }
        throw std::logic_error("ref: " + op);
    }

    // Is there a sub-expression that raises when evaluated on `cur`? (The compiler may evaluate it ahead of time.)
    bool anyRaises(Ast const& x, Val const& cur)
    {
        for (auto& k : x.a) if (anyRaises(*k, cur)) return true;
        try { Eval e = *this; e.steps = 0; e.ev(x, cur, [](Val) { return true; }); } catch (Error const&) { return true; }
        return false;
    }
};

}  // namespace ref
