// Shared by the two checks of the interactive tool: what it must print for a session.
#pragma once
#include "simfil/environment.h"
#include "simfil/exception-handler.h"
#include "simfil/expression.h"
#include "simfil/model/json.h"
#include "simfil/model/model.h"
#include "simfil/simfil.h"
#include "simfil/value.h"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace replutil {
using namespace simfil;

inline const std::vector<std::string> Docs = {
    /*0*/ R"({"a":1,"b":[1,2],"s":"x"})", /*1*/ R"({"a":"t","c":{"a":true}})", /*2*/ R"([3,{"a":null}])", /*3*/ "7", /*4*/ "{}",
    /*5*/ R"({"a":0,"b":{"b":5}})", /*6*/ "[]", /*7*/ R"({"c":"later","a":-2})", /*8*/ "null"};

inline std::vector<std::string> split(std::string const& s, char sep)
{
    std::vector<std::string> r{""};
    for (char c : s) if (c == sep) r.emplace_back(); else r.back() += c;
    return r;
}

// What happened after one input line, as far as it is judged.
struct Chunk {
    std::string kind;                     // "", "option", "compile", "error", "result"
    std::vector<std::string> lines;       // option: the message; result: one per value
    std::string tree;                     // the printed expression, if any
    bool hasTree = false;
    std::string text() const
    {
        std::string s = kind + (hasTree ? " tree " + tree : "");
        for (auto& l : lines) s += " | " + l;
        return s;
    }
};

// The tool's output, cut at its prompts.
inline std::vector<std::string> cut(std::string const& out, std::string& before)
{
    std::vector<std::string> r;
    size_t p = 0;
    bool first = true;
    for (;;) {
        size_t q = p;
        for (;;) {
            q = out.find("> ", q);
            if (q == std::string::npos || q == 0 || out[q - 1] == '\n' || (q >= 2 && out.compare(q - 2, 2, "> ") == 0)) break;
            q += 2;
        }
        auto piece = out.substr(p, q == std::string::npos ? q : q - p);
        if (first) before = piece; else r.push_back(piece);
        first = false;
        if (q == std::string::npos) return r;
        p = q + 2;
    }
}

inline Chunk parse(std::string const& piece)
{
    Chunk c;
    std::string section;
    auto ls = split(piece, '\n');
    if (!ls.empty() && ls.back().empty()) ls.pop_back();
    for (auto& l : ls) {
        if (l == "Expression:" || l == "Time:" || l == "Result:" || l == "Compile:" || l == "Error:") {
            section = l;
            if (l == "Expression:") c.hasTree = true;
            else if (l == "Compile:") c.kind = "compile";
            else if (l == "Error:") c.kind = c.kind.empty() ? "error" : c.kind + "+error";
            else if (l == "Result:") c.kind = c.kind.empty() ? "result" : c.kind + "+result";
            continue;
        }
        auto body = l.substr(0, 2) == "  " ? l.substr(2) : l;
        if (section == "Expression:") c.tree += body;
        else if (section == "Result:") c.lines.push_back(body);
        else if (section.empty()) { c.kind = "option"; c.lines.push_back(body); }
    }
    return c;
}

// The tool, sequentially: every query is evaluated on all documents in the order they were named.
struct Tool {
    bool any = false, wildcard = false, verbose = true, mt = true;
    std::vector<std::string> files;
    std::map<std::string, Value, CaseInsensitiveCompare> constants;

    // The effect of the arguments: empty if the session starts, otherwise the exit code.
    std::optional<int> arguments(std::vector<std::string> const& args)
    {
        bool tail = false;
        auto define = [&](std::string const& d) {
            auto p = d.find('=');
            if (p == std::string::npos || p == 0) return false;
            constants.try_emplace(d.substr(0, p), Value::make(d.substr(p + 1)));
            return true;
        };
        for (size_t i = 0; i < args.size(); ++i) {
            auto& a = args[i];
            if (tail || a[0] != '-') { files.push_back(a); continue; }
            if (a.substr(0, 2) == "--") { tail = true; continue; }
            if (a.substr(0, 2) == "-h") return 0;
            if (a.substr(0, 2) != "-D") return 1;
            if (a.size() > 2) { if (!define(a.substr(2))) return 1; continue; }
            if (++i == args.size() || !define(args[i])) return 1;
        }
        return {};
    }

    Chunk line(std::string const& l)
    {
        Chunk c;
        if (l.empty()) return c;
        if (l[0] == '/') {
            auto cmd = l;
            while (isspace((unsigned char)cmd.back())) cmd.pop_back();
            bool* flag = cmd == "/any" ? &any : cmd == "/wildcard" ? &wildcard : cmd == "/verbose" ? &verbose : cmd == "/mt" ? &mt : nullptr;
            if (!flag) { c.kind = "?"; return c; }
            *flag = !*flag;
            c.kind = "option";
            c.lines.push_back(cmd.substr(1) + " is " + (*flag ? "on" : "off"));
            return c;
        }
        auto model = std::make_shared<ModelPool>();
        for (auto& f : files) json::parse(Docs[f[1] - '0'], model);
        if (files.empty()) model->addRoot(model->newObject(0));
        Environment env(model->strings());
        env.constants = constants;
        ExprPtr e;
        try { e = compile(env, l, any, wildcard); }
        catch (std::exception const&) { c.kind = "compile"; return c; }
        c.hasTree = verbose;
        if (verbose) c.tree = e->toString();
        c.kind = "result";
        for (size_t i = 0; i < model->numRoots(); ++i) {
            try { for (auto& v : eval(env, *e, *model->root(i))) c.lines.push_back(v.toString()); }
            catch (std::exception const&) { c.kind = "error"; c.lines.clear(); break; }
        }
        return c;
    }
};
}  // namespace replutil
