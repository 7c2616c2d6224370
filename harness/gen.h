// Exhaustive generator of query expressions: all terms over given constructors, by depth.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace gen {

// A constructor is a pattern with holes '\x02' (arguments are inserted in parentheses where needed: the pattern decides).
struct Grammar { std::vector<std::string> leaves, un, bin, ter; };

inline std::string fill(std::string const& pat, std::initializer_list<std::string const*> args)
{
    std::string r; auto a = args.begin();
    for (char c : pat) if (c == '\x02') r += **a++; else r += c;
    return r;
}
using Sink = std::function<void(std::string const&)>;

// all terms with exactly `depth` nested constructors on the deepest side; `side` are the terms used for the other arguments
inline std::vector<std::string> level1(Grammar const& g)
{
    std::vector<std::string> r;
    for (auto& u : g.un) for (auto& a : g.leaves) r.push_back(fill(u, {&a}));
    for (auto& b : g.bin) for (auto& x : g.leaves) for (auto& y : g.leaves) r.push_back(fill(b, {&x, &y}));
    for (auto& t : g.ter) for (auto& x : g.leaves) for (auto& y : g.leaves) for (auto& z : g.leaves) r.push_back(fill(t, {&x, &y, &z}));
    return r;
}
// one constructor around every inner term, the other arguments being leaves
inline void around(Grammar const& g, std::vector<std::string> const& inner, Sink const& out)
{
    for (auto& i : inner) {
        for (auto& u : g.un) out(fill(u, {&i}));
        for (auto& b : g.bin) for (auto& l : g.leaves) { out(fill(b, {&i, &l})); out(fill(b, {&l, &i})); }
    }
}
// binary constructors over two inner terms
inline void pairs(Grammar const& g, std::vector<std::string> const& a, std::vector<std::string> const& b, Sink const& out)
{
    for (auto& c : g.bin) for (auto& x : a) for (auto& y : b) out(fill(c, {&x, &y}));
}

inline std::vector<std::string> binops(std::vector<std::string> const& ops)
{
    std::vector<std::string> r;
    for (auto& o : ops) r.push_back("(\x02 " + o + " \x02)");
    return r;
}
inline std::vector<std::string> cat(std::vector<std::string> a, std::vector<std::string> const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// Every construct of the language over the given leaves.
inline Grammar universal(std::vector<std::string> leaves)
{
    Grammar g;
    g.leaves = std::move(leaves);
    const std::string H = "\x02";
    for (auto s : {"not #", "-#", "~#", "typeof #", "(#)?", "(#)...", "(#) as int", "(#) as string", "(#) as bool", "any(#)", "each(#)", "count(#)", "sum(#)", "arr(#)", "keys(#)", "trace(#)", "re(#)",
                   "(#){_}", "(#).*", "(#).**", "(#).a", "(#)[0]", "(#).any(_)", "{#}", "[#]", "select(#, 1)", "sum(#, $val)", "sum(#, $sum + $idx)", "sum((#)..., $sum + $val)", "range(1, #)", "range(#, 3)...", "split(#, 'a')", "count(*{#})", "arr(#, *)"})
        g.un.push_back(s);
    for (auto s : {"(# + #)", "(# == #)", "(# < #)", "(# and #)", "(# or #)", "(#){#}", "(#).(#)", "(#)[#]", "any(#, #)", "each(#, #)", "count(#, #)", "arr(#, #)", "range(#, #)", "select(arr(1, #), #)", "sum(#, #)", "sum(arr(1, 2), #, #)", "split(#, #)", "range(#, #)...", "trace(#, #)", "(# - #)", "(# & #)", "(# != #)"})
        g.bin.push_back(s);
    for (auto s : {"any(#, #, #)", "sum(#, #, #)", "select(#, #, #)", "(#){#}.(#)", "(# and # or #)", "arr(#, #, #)", "split(#, #, #)", "(# + # + #)"})
        g.ter.push_back(s);
    for (auto* v : {&g.un, &g.bin, &g.ter}) for (auto& s : *v) for (auto& c : s) if (c == '#') c = '\x02';
    return g;
}

}  // namespace gen
