// Reference lexer: the language's lexical grammar, written down independently of src/token.cpp.
// Token types are named by strings so that a reordering of the implementation's enum changes nothing.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

struct LexError { std::string why; size_t at; };

struct Tok {
    std::string type;        // "int" "float" "string" "regexp" "word" "self" or the punctuation/keyword itself
    std::string text;        // string/regexp/word contents
    int64_t i = 0;
    double f = 0;
    size_t begin = 0, end = 0;
    bool sameLexeme(Tok const& o) const
    {
        return type == o.type && text == o.text && i == o.i && (f == o.f || (std::isnan(f) && std::isnan(o.f)));
    }
};

inline bool isSpace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline bool isDigit(char c) { return c >= '0' && c <= '9'; }
inline bool isAlpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline int hexVal(char c)
{
    if (isDigit(c)) return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }
inline std::string lower(std::string s) { for (auto& c : s) c = lower(c); return s; }

// Longest operators first.
inline std::vector<std::string> const& operators()
{
    static std::vector<std::string> const ops = {
        "...", "**", "<<", ">>", "<=", ">=", "==", "!=",
        "(", ")", "{", "}", "[", "]", ",", ":", ".", "+", "-", "*", "/", "%", "~", "|", "&", "#", "^", "?", "<", ">", "=" };
    return ops;
}

inline std::vector<Tok> lex(std::string_view s)
{
    std::vector<Tok> out;
    size_t p = 0;
    auto at = [&](size_t k) -> char { return k < s.size() ? s[k] : '\0'; };
    auto starts = [&](std::string_view w) { return s.substr(p, w.size()) == w; };
    auto err = [&](char const* why) { throw LexError{why, p}; };

    while (true) {
        while (p < s.size() && isSpace(s[p])) ++p;
        if (p >= s.size()) break;
        Tok t;
        t.begin = p;

        // ---- numbers
        if (starts("0x") || starts("0b")) {
            const int base = at(p + 1) == 'x' ? 16 : 2;
            p += 2;
            uint64_t n = 0;
            int digits = 0;
            while (p < s.size() && (base == 16 ? hexVal(s[p]) >= 0 : isDigit(s[p]))) {
                const int d = hexVal(s[p]);
                if (d >= base) err("bad digit");
                if (n > (UINT64_MAX - d) / base) err("out of range");
                n = n * base + d;
                ++p; ++digits;
            }
            if (!digits) err("no digits");
            if (at(p) == '.') err("point in based number");
            if (isAlpha(at(p))) err("junk after number");
            t.type = "int"; t.i = (int64_t)n;
        } else if (isDigit(at(p)) || (at(p) == '.' && isDigit(at(p + 1)))) {
            const size_t b = p;
            bool isFloat = false, expNonZero = false;
            while (isDigit(at(p))) ++p;
            if (at(p) == '.') { isFloat = true; ++p; while (isDigit(at(p))) ++p; }
            size_t mantEnd = p;
            if (at(p) == 'e' || at(p) == 'E') {
                ++p;
                if (at(p) == '-' || at(p) == '+') ++p;
                if (!isDigit(at(p))) err("no exponent digits");
                while (isDigit(at(p))) { if (at(p) != '0') expNonZero = true; ++p; }
            }
            if (isAlpha(at(p)) || at(p) == '.') err("junk after number");
            std::string text(s.substr(b, p - b));
            if (isFloat || expNonZero) {
                t.type = "float"; t.f = std::strtod(text.c_str(), nullptr);
            } else {
                uint64_t n = 0;
                for (size_t k = b; k < mantEnd; ++k) {
                    const int d = s[k] - '0';
                    if (n > ((uint64_t)INT64_MAX - d) / 10) err("out of range");
                    n = n * 10 + d;
                }
                t.type = "int"; t.i = (int64_t)n;
            }
        }
        // ---- strings: '...' "..." r'...' re'...'
        else if (auto pre = [&]() -> std::optional<size_t> {
                     for (std::string_view w : {"re", "RE", "r", "R", ""})
                         if (starts(w) && (at(p + w.size()) == '\'' || at(p + w.size()) == '"')) return w.size();
                     return {};
                 }()) {
            const bool raw = *pre > 0;
            t.type = *pre == 2 ? "regexp" : "string";
            p += *pre;
            const char q = s[p++];
            bool closed = false;
            while (p < s.size()) {
                const char c = s[p++];
                if (c == q) { closed = true; break; }
                if (c != '\\') { t.text += c; continue; }
                if (p >= s.size()) err("unfinished escape");
                const char e = s[p];
                if (raw) {
                    if (e == q) { t.text += q; ++p; } else t.text += '\\';
                } else {
                    ++p;
                    t.text += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e;
                }
            }
            if (!closed) err("quote mismatch");
        }
        // ---- words
        else if (isAlpha(at(p)) || at(p) == '_' || at(p) == '$' || at(p) == '\\') {
            do {
                if (s[p] == '\\') {
                    ++p;
                    if (p >= s.size()) err("unfinished escape");
                }
                t.text += s[p++];
            } while (p < s.size() && (isAlpha(s[p]) || isDigit(s[p]) || s[p] == '_' || s[p] == '\\'));
            t.type = "word";
            const auto low = lower(t.text);
            for (std::string_view k : {"and", "or", "not", "typeof", "true", "false", "null", "as"})
                if (low == k) t.type = k;
            if (low == "_") t.type = "self";
            if (t.type != "word") t.text.clear();
        }
        // ---- operators and punctuation
        else {
            for (auto& o : operators())
                if (starts(o)) { t.type = o == "=" ? "==" : o; p += o.size(); break; }
            if (t.type.empty()) err("invalid input");
        }
        t.end = p;
        out.push_back(std::move(t));
    }
    return out;
}

}  // namespace ref
