// C12: aggregate functions over every short sequence of values, from every kind of source.
#include "evalutil.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    // documents differ for almost every case: do not cache
    auto m = eu::model(d);
    size_t b = 0;
    for (;;) {   // queries separated by \n
        auto e = q.find('\n', b);
        auto one = q.substr(b, e == std::string::npos ? e : e - b);
        try { eu::compare(one, m, run); } catch (mc::Fail const& f) { mc::fail("query " + one + ": " + f.msg); }
        if (e == std::string::npos) break;
        b = e + 1;
    }
}

static std::string join(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ", ") + x; return s; }

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C12";
    c.bounds = "any, each, all, count, sum (14 sub-expressions, 6 initial values) over every sequence of up to 4 (thorough: 5) of 8 values as constants, separate arguments, model arrays, fields and mixtures; select with every index -2..6 and limit -1..6 over sequences of up to 5; sequences of up to 100 000 values";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        // text is the same in queries and documents, except for strings
        const std::vector<std::string> vals = {"null", "false", "true", "0", "1", "2.5", "\"s\"", "7"};
        auto lit = [](std::string v) { for (auto& ch : v) if (ch == '"') ch = '\''; return v; };
        for (int n = 0; n <= (th ? 5 : 4); ++n)
            en::sequences(vals.size(), n, [&](auto& ix) {
                std::string arr, obj;
                std::vector<std::string> lits, flds, mix, mix2;
                for (int k = 0; k < n; ++k) {
                    auto& v = vals[ix[k]];
                    arr += (k ? "," : "") + v;
                    obj += ",\"f" + std::to_string(k) + "\":" + v;
                    lits.push_back(lit(v)); flds.push_back("f" + std::to_string(k)); mix.push_back(k % 2 ? lits.back() : flds.back()); mix2.push_back(k % 2 ? flds.back() : lits.back());
                }
                auto doc = "{\"l\":[" + arr + "]" + obj + ",\"i\":1,\"two\":[\"x\",\"y\"]}";
                std::string qs;
                auto add = [&](std::string const& q) { qs += (qs.empty() ? "" : "\n") + q; };
                for (auto& a : {lits, flds, mix, mix2}) for (auto f : {"any", "each", "all", "count"}) { if (n) add(f + "("s + join(a) + ")"); if (n) add(f + "(arr("s + join(a) + "))"); }
                for (auto f : {"any", "each", "all", "count"}) { add(f + "(l.*)"s); add(f + "(l.*, i)"s); add(f + "(i, l.*)"s); add(f + "(two.*, l.*)"s); add("not "s + f + "(l.*)"); }
                for (auto src : {"arr(" + join(lits) + ")", "l.*"s, "arr(" + join(mix) + ")"}) {
                    add("sum(" + src + ")");
                    for (auto e : {"$sum + $val", "$val", "$idx", "$sum", "$sum + $idx", "$val + $sum", "_", "$val == 1", "$sum + $val * $idx", "arr($val, $sum)", "7", "i", "[$idx]", "count($val, $sum)"}) add("sum(" + src + ", " + e + ")");
                    if (n <= 3 || th) for (auto e : {"$sum + $val", "$sum", "$val", "$idx + $sum"}) for (auto i : {"0", "1.5", "null", "'x'", "i", "range(1, 2)"}) add("sum(" + src + ", " + std::string(e) + ", " + i + ")");
                }
                emit(qs + "\x01" + doc);
            });
        for (int n = 0; n <= 5; ++n) for (auto kind : {0, 1, 2, 3}) {
            std::string arr; std::vector<std::string> lits;
            for (int k = 0; k < n; ++k) { auto v = kind == 1 && k % 2 ? "null"s : kind == 2 ? (k % 2 ? "true"s : "{\"k\":" + std::to_string(k) + "}") : std::to_string(k * 10); arr += (k ? "," : "") + v; lits.push_back(kind == 2 ? "l[" + std::to_string(k) + "]" : v); }
            std::string qs;
            auto add = [&](std::string const& q) { qs += (qs.empty() ? "" : "\n") + q; };
            for (int i = -2; i <= 6; ++i) {
                auto I = i < 0 ? "-" + std::to_string(-i) : std::to_string(i);
                for (auto src : {"arr(" + join(lits) + ")", "l.*"s}) {
                    add("select(" + src + ", " + I + ")"); add("select(" + src + ", m" + std::to_string(i + 2) + ")");
                    for (int k = -1; k <= 6; ++k) {
                        auto K = k < 0 ? "-1"s : std::to_string(k);
                        add("select(" + src + ", " + I + ", " + K + ")"); add("select(" + src + ", m" + std::to_string(i + 2) + ", m" + std::to_string(k + 2) + ")");
                        add("arr(select(" + src + ", " + I + ", " + K + "), 'after')"); add("count(select(" + src + ", " + I + ", " + K + ")) + 0"); add("select(select(" + src + ", " + I + ", " + K + "), 1, 2)");
                    }
                }
            }
            for (auto k : {"2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775806", "9223372036854775807", "-2147483648", "-9223372036854775807"}) for (auto src : {"arr(" + join(lits) + ")", "l.*"s}) { add("select(" + src + ", "s + k + ")"); add("select(" + src + ", 1, "s + k + ")"); add("select(" + src + ", "s + k + ", 1)"); }
            std::string ms; for (int i = -2; i <= 6; ++i) ms += ",\"m" + std::to_string(i + 2) + "\":" + std::to_string(i);
            emit(qs + "\x01" + "{\"l\":[" + arr + "]" + ms + "}");
        }
        for (int n : {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 4096, 10000, 65536, 100000}) {
            std::string arr; if (n <= 10000) for (int k = 0; k < n; ++k) arr += (k ? "," : "") + std::to_string(k * 7919 % 1000 - 300);
            auto N = std::to_string(n);
            std::string qs;
            for (auto src : {n <= 10000 ? "l.*"s : "range(i, " + N + ")...", "range(1, " + N + ")..."}) for (auto f : {"count(#)"s, "sum(#)"s, "any(#)"s, "each(#)"s, "any((#) == " + N + ")", "each((#) != " + N + ")", "count((#) > 5)"s, "sum(#, $sum + $idx)"s, "sum(#, $sum + $val * $idx, 3)"s, "select(#, " + N + " - 1)", "select(#, " + N + ")", "select(#, 5, 0)"s, "select(#, " + std::to_string(n / 2) + ", 3)", "sum(#, $idx)"s}) {
                std::string s; for (char ch : f) if (ch == '#') s += src; else s += ch;
                qs += (qs.empty() ? "" : "\n") + s;
            }
            emit(qs + "\x01{\"l\":[" + arr + "],\"i\":1}");
        }
    };
    c.run = run;
    c.blockSize = 8;
    c.show = [](std::string const& x) { auto s = eu::showCase(x); return s.size() > 300 ? s.substr(0, 200) + " ... " + s.substr(s.size() - 90) : s; };
    return mc::main(argc, argv, c);
}
