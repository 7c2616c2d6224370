// C10: paths, wildcards and subscripts select exactly the matching nodes in document order.
#include "evalutil.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    eu::compare(q, eu::cached(d), run);
}

// Every document up to a number of nodes: scalars, arrays and objects with names from a small set, in every order, with duplicates.
static void docs(int nodes, std::vector<std::string> const& names, std::vector<std::string> const& leaves, std::vector<std::vector<std::string>>& memo)
{
    // memo[n]: all documents with exactly n nodes
    memo.resize(nodes + 1);
    for (int n = 1; n <= nodes; ++n) {
        auto& out = memo[n];
        if (n == 1) { out = leaves; out.push_back("[]"); out.push_back("{}"); continue; }
        // sequences of children with n-1 nodes in total
        std::function<void(int, std::string, bool)> rec = [&](int left, std::string acc, bool obj) {
            if (!left) { out.push_back((obj ? "{" : "[") + acc + (obj ? "}" : "]")); return; }
            for (int k = 1; k <= left; ++k)
                for (auto& d : memo[k]) {
                    if (obj) for (auto& name : names) rec(left - k, acc + (acc.empty() ? "" : ",") + "\"" + name + "\":" + d, true);
                    else rec(left - k, acc + (acc.empty() ? "" : ",") + d, false);
                }
        };
        rec(n - 1, "", true);
        rec(n - 1, "", false);
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C10";
    c.bounds = "all paths of up to 4 steps (quick) / 5 (thorough) from {a, B, _, *, **, [0], [1], [-1], [\"a\"], ['B'], [n], parenthesised and sub-query starts} "
               "on 15 documents, and all paths of up to 2 (3) steps on every document of up to 4 (5) nodes over 2 names and 3 leaf kinds; positions up to +-2^63 as literals and from the model; wide documents up to 40 000 children, deep ones up to 500 levels";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        // steps: something to append
        const std::vector<std::string> first = {"a", "B", "_", "*", "**", "[0]", "[\"a\"]", "(a)", "{a}", "[*]", "(*)"};
        const std::vector<std::string> next = {".a", ".b", ".A", "._", ".*", ".**", "[0]", "[1]", "[-1]", "[\"a\"]", "['B']", ".[0]", ".['b']", ".{_}", "[null]", "[1.0]", "[true]", "[i]", ".x", ".(a)", "[arr(1,0)]", "[\"zz\"]", "['']"};
        const std::vector<std::string> rich = {
            R"({"a":1})", R"({"a":{"a":2,"B":3},"b":[1,2,{"a":4}],"i":1})", R"([{"a":1},{"A":2},null,[3,4],[]])", R"({"b":{"b":{"b":{"a":7}}}})",
            R"({"A":1,"a":2,"a":3,"B":null})", R"({"a":[[1,2],[3],[]],"b":{"a":{}}})", R"([])", R"({})", R"(5)", R"("str")", R"(null)", R"([[["x"]]])",
            R"({"a":[null,{"b":null},false],"i":0})", R"({"x":{"a":"s","b":{"a":[1.5,{"a":true}]}},"a":[0,1,2],"i":"a"})", R"({"":1,"a":{"":{"":2},"b":3}})"};
        auto emitAll = [&](std::string const& q, std::vector<std::string> const& ds) { for (auto& d : ds) emit(q + "\x01" + d); };
        std::function<void(std::string, int, std::vector<std::string> const&)> rec = [&](std::string q, int left, std::vector<std::string> const& ds) {
            emitAll(q, ds);
            if (left) for (auto& s : next) rec(q + s, left - 1, ds);
        };
        std::vector<std::vector<std::string>> memo;
        docs(th ? 5 : 4, {"a", "B"}, {"1", "\"s\"", "null"}, memo);
        std::vector<std::string> small;
        for (auto& m : memo) for (auto& d : m) small.push_back(d);
        for (auto& f : first) rec(f, 1, rich);
        for (auto& f : first) rec(f, 1, small);
        for (auto& f : first) rec(f, th ? 4 : 3, rich);
        if (th) {
            std::vector<std::vector<std::string>> m4; docs(4, {"a", "B"}, {"1", "\"s\"", "null"}, m4);
            std::vector<std::string> s4; for (auto& m : m4) for (auto& d : m) s4.push_back(d);
            for (auto& f : first) rec(f, 2, s4);
        }
        // extreme positions, as literals and from the model
        const std::vector<std::string> extreme = {"127", "128", "255", "256", "32767", "32768", "65535", "65536", "65537", "16777215", "16777216", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "8589934592", "281474976710656", "9223372036854775807"};
        for (auto& d : rich) for (auto& n : extreme) for (auto sign : {"", "-"}) for (auto f : {"[#]", "a[#]", "*[#]", "b[#]", "_[#]", "**[#]", "a[0][#]", "(a)[#]", "[# - 1]", "[# + 1]"}) {
            if (n.size() > 18 && std::string(f).find(" ") != std::string::npos) continue;
            std::string q; for (char ch : std::string(f)) if (ch == '#') q += sign + n; else q += ch;
            emit(q + "\x01" + d);
        }
        for (auto& n : extreme) for (auto sign : {"", "-"}) for (auto f : {"a[i]", "o[i]", "[i]", "*[i]", "**[i]", "a[i][i]", "a[(i)]", "e[i]", "s[i]", "a[*]", "i[i]"})
            emit(std::string(f) + "\x01{\"a\":[1,[2],3],\"o\":{\"x\":1,\"y\":2},\"i\":" + sign + n + ",\"e\":[],\"s\":\"str\"}");
        // size ladders
        for (int n : {1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 16385, 40000}) {
            std::string arr = "[", obj = "{";
            for (int i = 0; i < n; ++i) { arr += (i ? "," : "") + std::to_string(i); obj += (i ? ","s : ""s) + "\"k" + std::to_string(i) + "\":" + std::to_string(i); }
            arr += "]"; obj += "}";
            for (auto q : {"*"s, "**"s, "_"s, "[0]"s, "[" + std::to_string(n - 1) + "]", "[" + std::to_string(n) + "]", "[" + std::to_string(n / 2) + "]"}) { emit(q + "\x01" + arr); emit(q + "\x01" + obj); }
            for (auto q : {"k0"s, "k" + std::to_string(n - 1), "K" + std::to_string(n / 2), "k" + std::to_string(n)}) emit(q + "\x01" + obj);
        }
        for (int n : {1, 2, 3, 10, 50, 100, 300, 500}) {
            auto a = en::rep("[", n) + "1" + en::rep("]", n), o = en::rep("{\"a\":", n) + "1" + en::rep("}", n);
            for (auto q : {"**"s, "a" + en::rep(".a", n - 1), "*" + en::rep(".*", n - 1), "[0]" + en::rep("[0]", n - 1), "_" + en::rep("._", n), "a" + en::rep(".a", n)}) { emit(q + "\x01" + a); emit(q + "\x01" + o); }
            if (n <= 50) for (auto q : {"**.a"s, "**.**"s, "**.*"s, "**.[0]"s}) { emit(q + "\x01" + a); emit(q + "\x01" + o); }
        }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
