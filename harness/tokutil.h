// Bridges the implementation's tokens to the reference's.
#pragma once
#include "mc.h"
#include "lex.h"
#include "simfil/token.h"
#include <cmath>
#include <stdexcept>

namespace tu {

inline std::string typeName(simfil::Token::Type t)
{
    using T = simfil::Token;
    switch (t) {
    case T::NIL: return "EOF";
    case T::LPAREN: return "("; case T::RPAREN: return ")"; case T::LBRACK: return "["; case T::RBRACK: return "]";
    case T::LBRACE: return "{"; case T::RBRACE: return "}"; case T::COMMA: return ","; case T::DOT: return ".";
    case T::COLON: return ":"; case T::WILDCARD: return "**";
    case T::INT: return "int"; case T::FLOAT: return "float"; case T::STRING: return "string";
    case T::REGEXP: return "regexp"; case T::WORD: return "word"; case T::SELF: return "self";
    case T::C_NULL: return "null"; case T::C_TRUE: return "true"; case T::C_FALSE: return "false";
    case T::OP_ADD: return "+"; case T::OP_SUB: return "-"; case T::OP_TIMES: return "*"; case T::OP_DIV: return "/";
    case T::OP_MOD: return "%"; case T::OP_LSHIFT: return "<<"; case T::OP_RSHIFT: return ">>";
    case T::OP_BITAND: return "&"; case T::OP_BITOR: return "|"; case T::OP_BITXOR: return "^"; case T::OP_BITINV: return "~";
    case T::OP_NOT: return "not"; case T::OP_AND: return "and"; case T::OP_OR: return "or";
    case T::OP_EQ: return "=="; case T::OP_NOT_EQ: return "!="; case T::OP_LT: return "<"; case T::OP_LTEQ: return "<=";
    case T::OP_GT: return ">"; case T::OP_GTEQ: return ">="; case T::OP_BOOL: return "?"; case T::OP_LEN: return "#";
    case T::OP_TYPEOF: return "typeof"; case T::OP_CAST: return "as"; case T::OP_UNPACK: return "...";
    }
    return "?";
}

struct Result {
    bool threw = false;
    std::string what;
    std::vector<ref::Tok> toks;   // including the final EOF
};

inline Result impl(std::string_view s)
{
    Result r;
    std::vector<simfil::Token> v;
    // exact-size heap copy, so that reads beyond the view are seen by the sanitizer builds
    std::vector<char> copy(s.begin(), s.end());
    try {
        v = simfil::tokenize(std::string_view(copy.data(), copy.size()));
    } catch (std::exception const& e) {
        r.threw = true;
        r.what = e.what();
        return r;
    }
    for (auto& t : v) {
        ref::Tok o;
        o.type = typeName(t.type);
        o.begin = t.begin;
        o.end = t.end;
        if (auto p = std::get_if<std::string>(&t.value)) o.text = *p;
        if (auto p = std::get_if<int64_t>(&t.value)) o.i = *p;
        if (auto p = std::get_if<double>(&t.value)) o.f = *p;
        const bool wantStr = o.type == "string" || o.type == "regexp" || o.type == "word";
        if (wantStr != std::holds_alternative<std::string>(t.value)) mc::fail("token " + o.type + " carries the wrong kind of value");
        if ((o.type == "int") != std::holds_alternative<int64_t>(t.value)) mc::fail("token " + o.type + " carries the wrong kind of value");
        if ((o.type == "float") != std::holds_alternative<double>(t.value)) mc::fail("token " + o.type + " carries the wrong kind of value");
        r.toks.push_back(std::move(o));
    }
    return r;
}

inline std::string show(ref::Tok const& t)
{
    std::string s = t.type;
    if (t.type == "int") s += ":" + std::to_string(t.i);
    if (t.type == "float") { char b[40]; snprintf(b, sizeof b, ":%.17g", t.f); s += b; }
    if (!t.text.empty()) s += ":" + mc::quote(t.text);
    return s;
}
inline std::string show(std::vector<ref::Tok> const& v)
{
    std::string s;
    for (auto& t : v) s += (s.empty() ? "" : " ") + show(t);
    return s;
}

inline bool closeTo(double a, double b)
{
    if (a == b || (std::isnan(a) && std::isnan(b))) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)) + 5e-324 * 4;
}

inline bool same(ref::Tok const& a, ref::Tok const& b)
{
    return a.type == b.type && a.text == b.text && a.i == b.i && closeTo(a.f, b.f);
}

// Compares the implementation with the reference lexer on one input.
inline void compare(std::string const& in, mc::Run& run, bool locations)
{
    auto r = impl(in);
    run.step();
    std::vector<ref::Tok> want;
    bool bad = false;
    std::string why;
    try { want = ref::lex(in); } catch (ref::LexError const& e) { bad = true; why = e.why; }
    if (bad != r.threw)
        mc::fail(bad ? "accepted, but the input is malformed (" + why + "); got " + show(r.toks) : "rejected a well-formed input: " + r.what);
    if (bad) { run.outcome("rejected: " + why); run.state("E" + why); return; }
    if (r.toks.empty() || r.toks.back().type != "EOF") mc::fail("token list does not end with EOF");
    r.toks.pop_back();
    if (r.toks.size() != want.size()) mc::fail("expected [" + show(want) + "] got [" + show(r.toks) + "]");
    std::string st;
    for (size_t i = 0; i < want.size(); ++i) {
        if (!same(want[i], r.toks[i])) mc::fail("token " + std::to_string(i) + ": expected " + show(want[i]) + " got " + show(r.toks[i]));
        if (locations && (want[i].begin != r.toks[i].begin || want[i].end != r.toks[i].end))
            mc::fail("token " + std::to_string(i) + " (" + show(want[i]) + ") covers [" + std::to_string(want[i].begin) + "," + std::to_string(want[i].end) +
                     ") but is reported at [" + std::to_string(r.toks[i].begin) + "," + std::to_string(r.toks[i].end) + ")");
        st += show(want[i]) + " ";
        run.outcome(want[i].type);
    }
    run.state(st);
}

}  // namespace tu
