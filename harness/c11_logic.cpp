// C11: sub-queries filter, logic short-circuits, operators form the cross product.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    eu::compare(q, eu::cached(d), run);
}

static const std::vector<std::string> docs = {
    R"({"a":1,"b":[1,2,3],"c":{"a":2,"b":null},"z":0})", R"([{"a":1,"b":true},{"a":2,"b":false},{"b":[]},3,null])",
    R"({"a":{"a":{"a":5,"z":0},"b":false},"b":[{"a":null},{"a":7,"b":"s"}],"z":0})", "[]", "7", R"([[1,2],[3,[4]],{"a":[0,false]}])"};

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C11";
    c.bounds = "all terms of up to 3 constructors from {x{p}, and, or, +, -, <, ==, &, '.', not, ?, any, count, [..]} over 10 leaves (fields, *, _, lists, an operand that raises), depth 3 on the deepest side (quick: depth 2 in full, depth 3 over 4 leaves); 6 documents; chains and nestings up to 300; cross products up to 200x200";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { for (auto& d : docs) emit(q + "\x01" + d); };
        gen::Grammar g;
        auto H = [](std::vector<std::string> v) { for (auto& s : v) for (auto& ch : s) if (ch == '#') ch = '\x02'; return v; };
        g.leaves = {"a", "b", "*", "_", "b.*", "arr(1, 2)", "null", "x", "false", "(1 / z)"};
        g.un = H({"not (#)", "(#)?", "any(#)", "count(#)", "(#){_}", "(#){a}", "(#){not _}", "(#).a", "#...", "(#).*{a}", "**{#}"});
        g.bin = H({"(#){#}", "(# and #)", "(# or #)", "(# + #)", "(# - #)", "(# < #)", "(# == #)", "(# & #)", "(#).(#)", "(#)[#]", "(#){#}{_}"});
        g.ter = H({"(# and # or #)", "(# or # and #)", "(#){# and #}", "(#){# or #}", "(# + # * #)", "(#){(#){#}}", "(#){#}.(#)"});
        for (auto& l : g.leaves) out(l);
        auto l1 = gen::level1(g);
        for (auto& q : l1) out(q);
        gen::Grammar s = g; s.leaves = {"a", "*", "_", "(1 / z)"};
        auto s1 = gen::level1(s);
        gen::around(g, s1, out);
        gen::Grammar t = g; t.leaves = {"a", "*"}; t.ter.clear();
        auto t1 = gen::level1(t);
        std::vector<std::string> t2;
        gen::around(t, t1, [&](std::string const& q) { t2.push_back(q); });
        if (th) { gen::around(g, l1, out); gen::around(s, t2, out); gen::pairs(g, s1, s1, out); }
        else { gen::Grammar u = t; u.leaves = {"a"}; gen::around(u, t2, [&](std::string const& q) { emit(q + "\x01" + docs[1]); }); gen::pairs(t, t1, t1, out); }
        for (int n : {2, 3, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300})
            for (auto x : {"a", "x", "z", "b.*", "1", "null", "c{a}", "(1 / z)"}) for (auto y : {"a", "null", "false", "z"}) for (auto o : {" and ", " or ", " + ", " < ", "|"}) {
                if ((o[0] == '|' ? n > 100 : n > 12) && std::string(x) == "b.*" ) continue;
                std::string q = x, r = y;
                for (int i = 1; i < n; ++i) { q += (o[0] == '|' ? "{"s + (i % 3 ? "1" : x) + "}" : o + std::string(i % 3 ? x : y)); r = o[0] == '|' ? "(" + r + "){" + x + "}" : "(" + std::string(i % 2 ? x : y) + o + r + ")"; }
                for (auto& s : {q, r}) emit(s + "\x01" + docs[0]);
            }
        for (int n : {1, 2, 3, 10, 33, 64, 100, 200}) for (int m : {1, 2, 17, 64, 200}) {
            auto r1 = "range(1, " + std::to_string(n) + ")...", r2 = "range(a, " + std::to_string(m) + ")...";
            for (auto q : {r1 + " + " + r2, r2 + " - " + r1, r1 + " == " + r2, "(" + r1 + "){_ > (" + r2 + ")}", "count(" + r1 + " < " + r2 + ")", r2 + " and " + r1, "(" + r1 + ").(" + r2 + ")"}) emit(q + "\x01" + docs[0]);
        }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
