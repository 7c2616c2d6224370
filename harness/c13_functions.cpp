// C13: range, arr, split, keys, re, typeof and casts over boundary arguments.
#include "evalutil.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    eu::compare(q, eu::cached(d), run);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C13";
    c.bounds = "range with all begin/end in -6..6 and around 64-bit limits, of up to 32768 integers from 13 beginnings far out: unpacked, compared, membership; all pairs of ranges over -2..2; split of all strings of up to 7 (8) letters of {a, ','} at 7 separators, of 3 (4) parts at 48 separators of up to 1000 characters, with each keepEmpty, constant and from the model; keys on 12 documents; re with 14 patterns on 12 strings; "
               "all calls of 7 functions with 0..3 (thorough: 4) arguments over 14 argument kinds; typeof/as of all kinds";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        const std::string D = R"({"i":2,"s":"a,b","o":{"k":1,"K2":{"x":null}},"l":[3,4],"t":true,"n":null,"f":1.5,"e":"","neg":-3})";
        auto out = [&](std::string const& q) { emit(q + "\x01" + D); };
        auto I = [](int64_t i) { return i == INT64_MIN ? "(-9223372036854775807 - 1)"s : i < 0 ? "-" + std::to_string(-i) : std::to_string(i); };
        std::vector<int64_t> small, ext = {INT64_MAX, INT64_MAX - 1, INT64_MAX - 2, INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, 1ll << 31, (1ll << 31) + 2, 1ll << 32, (1ll << 32) + 2, -(1ll << 31), -(1ll << 32)};
        for (int i = -6; i <= 6; ++i) small.push_back(i);
        for (auto* set : {&small, &ext}) for (auto b : *set) for (auto e : *set) {
            auto r = "range(" + I(b) + ", " + I(e) + ")";
            out(r); out(r + " as string"); out("typeof " + r); out(r + "?"); out("not (" + r + "?)"); out("arr(" + r + ", 1)");
            if (std::llabs((b < 0) != (e < 0) ? 100 : b - e) < 20 || set == &small) { out(r + "..."); out("count(" + r + "... == 0)"); out("arr(1, " + r + "..., 2)"); out("sum(" + r + "..., $idx)"); if (set == &small) { out("range(i + " + I(b) + ", " + I(e) + ")..."); out("sum(" + r + "...)"); out("sum(range(i, " + I(e) + ")...)"); out("(" + r + "...) + (" + r + "...)"); } }
            for (auto x : *set) { out(I(x) + " == " + r); out(r + " == " + I(x)); out(r + " != " + I(x)); out(I(x) + " != " + r); out(I(x) + " as float == " + r); if (set == &small) { out(I(x) + ".5 == " + r); out("(i + " + I(x) + ") == " + r); out(r + " == range(" + I(x) + ", " + I(e) + ")"); } }
            for (auto x : {"null", "true", "'1'", "o", "l", "1.5", "n", "re'1'"}) { out(r + " == " + x); out(x + " != "s + r); out(r + " == "s + x); out(r + " + "s + x); out(r + " < "s + x); }
        }
        for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y)
            for (auto o : {" == ", " != "}) out("range(" + I(a) + ", " + I(b) + ")" + o + "range(" + I(x) + ", i + " + I(y - 2) + ")");
        for (auto a : ext) for (auto b : ext) { out("range(" + I(a) + ", " + I(b) + ") == range(" + I(b) + ", " + I(a) + ")"); out("range(" + I(a) + ", " + I(b) + ") != range(" + I(a) + ", " + I(b) + ")"); }
        // split
        const std::vector<std::string> seps = {",", "a", ",,", "a,", "", "aa", ",a,"};
        for (int n = 0; n <= (th ? 8 : 7); ++n) en::strings("a,", n, [&](std::string const& s) {
            for (auto& p : seps) {
                auto doc = "{\"s\":\"" + s + "\",\"p\":\"" + p + "\",\"k\":false,\"y\":true}";
                for (auto keep : {"", ", true", ", false"}) { emit("split('" + s + "', '" + p + "'" + keep + ")\x01" + D); emit("split(s, p"s + keep + ")\x01" + doc); }
                if (n <= 5) { emit("split(s, '" + p + "', k)\x01" + doc); emit("count(split(s, p))\x01" + doc); emit("split(split(s, p), ',')\x01" + doc); emit("split(s, p, y) as int\x01" + doc); emit("arr(split('" + s + "', p), 0)\x01" + doc); }
            }
        });
        // long separators: texts put together of the separator, parts of it and others
        for (int l : {3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000})
            for (int kind = 0; kind < 2; ++kind) {
                std::string p; for (int i = 0; i < l; ++i) p += kind ? (i == l - 1 ? 'b' : 'a') : "xyzuvw"[i * i % 6];
                const std::vector<std::string> part = {p, p.substr(1), p.substr(0, l - 1), "q", "x", "ab"};
                for (int n = 1; n <= (th ? 4 : 3); ++n) en::sequences(part.size(), n, [&](auto& ix) {
                    std::string s; for (int i : ix) s += part[i];
                    auto doc = "{\"s\":\"" + s + "\",\"p\":\"" + p + "\"}";
                    for (auto keep : {"", ", false"}) { emit("split(s, p"s + keep + ")\x01" + doc); if (l < 70) emit("split('" + s + "', '" + p + "'" + keep + ")\x01" + D); }
                });
            }
        // keys
        for (auto d : {"{}", "{\"a\":1}", "{\"b\":1,\"a\":2,\"b\":3}", "{\"x\":{\"y\":{\"z\":1}},\"w\":{}}", "{\"o\":[{\"p\":1},{\"q\":2}]}", "{\"\":1,\"two words\":2}", "{\"null\":null,\"a\":{\"a\":null}}", "5", "\"s\"", "null"})
            for (auto q : {"keys(_)", "keys(*)", "keys(**)", "keys(a)", "keys(x)", "keys(x.y)", "keys(o.*)", "count(keys(_))", "keys(1)", "keys('s')", "keys(null)", "keys(keys(_))", "keys(arr(a, x, w))", "keys(range(1, 2))", "arr(keys(_), 1)", "keys(_) == 'a'", "any(keys(_) == 'B')", "_[keys(_)]", "sum(keys(_), $sum + $val, '')"}) emit(q + "\x01"s + d);
        // regular expressions
        const std::vector<std::string> pats = {"", "a", ".*", "a.*", "[0-9]+", "a|b", "(a|b)*", "^a$", "a{2}", "\\\\d+", "[^a]", "a?b?", "A", "(", "[", "a{", "*"};
        const std::vector<std::string> strs = {"", "a", "b", "ab", "aa", "ba", "aab", "12", "1a", "A", "a b", "(", "a,b"};
        for (auto& p : pats) for (auto& s : strs) {
            auto doc = "{\"s\":\"" + s + "\",\"p\":\"" + (p == "\\\\d+" ? "\\x5cd+"s : p) + "\"}";
            for (auto q : std::vector<std::string>{"s == re('" + p + "')", "re('" + p + "') == s", "s != re('" + p + "')", "'" + s + "' == re('" + p + "')", "'" + s + "' != re('" + p + "')", "re(p) == s", "s == re(p)", "re(p) != '" + s + "'", "s = re(re('" + p + "'))", "typeof re(p)", "re(p) as string", "any(s == re(p))", "*{_ == re(p)}", "arr(s, 1, null, true) == re(p)"}) emit(q + "\x01" + doc);
            if (p != "\\\\d+") for (auto q : {"s == re'" + p + "'", "RE'" + p + "' == '" + s + "'"}) emit(q + "\x01" + doc);
        }
        // arguments of every kind and number
        const std::vector<std::string> args = {"1", "i", "0", "'a'", "s", "true", "null", "n", "1.5", "o", "l.*", "range(1, 2)", "re'a'", "missing", "arr(1, 2)", "t", "-1", "','"};
        for (auto f : {"range", "arr", "split", "keys", "re", "any", "each", "count", "select", "sum", "trace"}) for (int n = 0; n <= (th ? 4 : 3); ++n)
            en::sequences(n > 3 ? 9 : args.size(), n, [&](auto& ix) { std::string q = f + "("s; for (int k = 0; k < n; ++k) q += (k ? ", " : "") + args[ix[k]]; out(q + ")"); });
        for (auto& a : args) for (auto f : {"typeof #", "(#) as string", "(#) as int", "(#) as float", "(#) as bool", "(#) as null", "(#)...", "arr(#)...", "typeof arr(#, #)", "(typeof #) == 'int'", "#?", "(#)... as string"}) {
            std::string s; for (char ch : std::string(f)) if (ch == '#') s += a; else s += ch;
            if (s == "range(1, 2)?") continue;
            out(s);
        }
        // long ranges that begin far out
        for (auto b : {"2147483647", "2147483648", "4294967295", "4294967296", "9007199254740992", "9223372036854700000", "-2147483648", "-2147483649", "-4294967296", "-9223372036854700000", "127", "32767", "65535"})
            for (int n : {10, 100, 255, 256, 1000, 1024, 5000, 32768}) {
                auto e = std::to_string(std::stoll(b) + n), r1 = "range(i + "s + b + " - i, " + e + ")...", r2 = "range(" + e + ", "s + b + ")...";
                for (auto& r : {r1, r2}) { out("select(" + r + ", 0)"); out("select(" + r + ", " + std::to_string(n - 1) + ", 0)"); out("count(" + r + ")"); out("sum(" + r + ", $sum + $val % 7)"); }
                out(e + " == range(" + b + ", " + e + ")"); out("typeof range(i, " + e + ")"); out("range(" + e + ", i) as string");
            }
        for (int n : {1, 2, 10, 100, 999, 1000, 1001, 5000, 65536}) {
            auto N = std::to_string(n);
            out("split('" + en::rep("ab,", n) + "', ',')"); out("count(split('" + en::rep(",", n) + "', ','))"); out("count(split('" + en::rep(",", n) + "', ',', false))"); out("split('" + en::rep("x", n) + "y', 'y')");
            out("range(0, " + N + ")..."); out("range(" + N + ", -" + N + ")..."); out("range(i, " + N + ")...");
        }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
