// Reference document: an ordered tree, independent of the library's model.
#pragma once
#include "lex.h"
#include <deque>
#include <memory>
#include <stdexcept>
#include <utility>
#include <vector>

namespace ref {

struct Node {
    enum Kind { Null, Bool, Int, Float, Str, Arr, Obj } kind = Null;
    bool b = false;
    int64_t i = 0;
    double f = 0;
    std::string s;
    std::vector<std::pair<std::string, Node*>> kids;   // Obj: with names; Arr: empty names
    mutable uint32_t addr = 0;                         // address in the real model, filled in by the harness
    bool compound() const { return kind == Arr || kind == Obj; }
    const Node* get(std::string const& name) const
    {
        if (kind != Obj) return nullptr;
        const auto n = lower(name);
        for (auto& [k, v] : kids) if (lower(k) == n) return v;
        return nullptr;
    }
    const Node* at(int64_t i_) const { return compound() && i_ >= 0 && i_ < (int64_t)kids.size() ? kids[i_].second : nullptr; }
};

struct Doc {
    std::deque<Node> pool;
    Node* root = nullptr;
    std::string text;
    Node* make(Node::Kind k) { pool.emplace_back(); pool.back().kind = k; return &pool.back(); }
};

// JSON-like text; keeps member order and duplicate members; strings without escapes except \xHH.
class DocParser {
    std::string const& t; size_t p = 0; Doc& d;
    void ws() { while (p < t.size() && isSpace(t[p])) ++p; }
    std::string str()
    {
        std::string r; ++p;
        while (p < t.size() && t[p] != '"') {
            if (t[p] == '\\' && t[p + 1] == 'x') { r += (char)(hexVal(t[p + 2]) * 16 + hexVal(t[p + 3])); p += 4; }
            else r += t[p++];
        }
        ++p; return r;
    }
    Node* value()
    {
        ws();
        char c = t.at(p);
        if (c == '{') {
            auto n = d.make(Node::Obj); ++p; ws();
            while (t.at(p) != '}') {
                ws(); auto k = str(); ws(); if (t.at(p++) != ':') throw std::logic_error("doc: " + t);
                n->kids.push_back({k, value()}); ws(); if (t.at(p) == ',') { ++p; ws(); }
            }
            ++p; return n;
        }
        if (c == '[') {
            auto n = d.make(Node::Arr); ++p; ws();
            while (t.at(p) != ']') { n->kids.push_back({"", value()}); ws(); if (t.at(p) == ',') { ++p; ws(); } }
            ++p; return n;
        }
        if (c == '"') { auto n = d.make(Node::Str); n->s = str(); return n; }
        auto kw = [&](std::string_view w) { if (t.compare(p, w.size(), w) == 0) { p += w.size(); return true; } return false; };
        if (kw("null")) return d.make(Node::Null);
        if (kw("true")) { auto n = d.make(Node::Bool); n->b = true; return n; }
        if (kw("false")) return d.make(Node::Bool);
        size_t e = p; bool fl = false;
        while (e < t.size() && (isDigit(t[e]) || t[e] == '-' || t[e] == '+' || t[e] == '.' || t[e] == 'e' || isAlpha(t[e]))) { fl |= t[e] == '.' || t[e] == 'e' || t[e] == 'i'; ++e; }
        if (e == p) throw std::logic_error("doc: " + t);
        auto w = t.substr(p, e - p); p = e;
        auto n = d.make(fl ? Node::Float : Node::Int);
        if (fl) n->f = std::strtod(w.c_str(), nullptr); else n->i = std::strtoll(w.c_str(), nullptr, 10);
        return n;
    }
public:
    DocParser(std::string const& text, Doc& doc) : t(text), d(doc) { d.text = t; d.root = value(); }
};
inline std::shared_ptr<Doc> doc(std::string const& text) { auto d = std::make_shared<Doc>(); DocParser(text, *d); return d; }

}  // namespace ref
