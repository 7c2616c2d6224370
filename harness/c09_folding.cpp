// C09: literals (which the compiler may fold) and equal model fields give the same results.
#include "evalutil.h"
#include "gen.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto [q, d] = eu::split(c);
    eu::compare(q, eu::cached(d), run);
}

static const std::string doc = R"({"a":"a","i":1,"z":0,"t":true,"n":null,"g":2.5,"l":[1,2],"e":[],"k":3})";

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C09";
    c.bounds = "all terms of up to 2 constructors (34 unary, 22 binary, 8 ternary) over literals and the model fields equal to them, in every mix; thorough: binary constructors over all pairs of terms with one constructor over 4 leaves; "
               "constant and non-constant sequences of up to 100 000 values";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto out = [&](std::string const& q) { emit(q + "\x01" + doc); };
        auto big = gen::universal({"1", "0", "'a'", "true", "null", "2.5", "i", "z", "a", "t", "n", "g", "l.*", "arr(1, 2)"});
        auto mid = gen::universal({"1", "i", "'a'", "a", "null", "n", "arr(0, 1)", "l.*"});
        auto small = gen::universal({"1", "i", "null", "arr(2, 0)"});
        for (auto& l : big.leaves) out(l);
        for (auto& q : gen::level1(big)) out(q);
        auto inner = gen::level1(mid);
        gen::around(mid, inner, out);
        if (th) { auto l1 = gen::level1(small); gen::pairs(small, l1, l1, out); auto midl = gen::level1(mid); gen::around(big, midl, out); }
        else {
            auto few = gen::universal({"1", "i"});
            few.ter.clear();
            auto l1 = gen::level1(few);
            std::vector<std::string> half(l1.begin(), l1.end());
            gen::pairs(few, half, half, out);
        }
        // many values
        for (int n : {1, 2, 999, 1000, 1001, 1002, 1500, 2000, 10000, 100000}) {
            auto N = std::to_string(n);
            for (auto r : {"range(1, " + N + ")...", "range(i, " + N + ")...", "range(" + N + ", 1)..."}) {
                for (auto q : {"#"s, "count(#)"s, "sum(#)"s, "any(#)"s, "each(#)"s, "(#) + 1"s, "(#) + i"s, "select(#, " + N + " - 1)", "select(#, 998, 5)"s, "select(#, 1, 0)"s, "(#){_ > 990}"s, "arr(#, 1)"s, "arr(#, i)"s, "arr(i, #)"s, "(#) as string"s, "(#){_ == i}"s, "not (#)"s, "(#) and i"s, "(#) and 2"s}) {
                    std::string s; for (char ch : q) if (ch == '#') s += r; else s += ch;
                    out(s);
                }
            }
            out("split('" + en::rep("a,", n - 1) + "a', ',')");
            out("count(split('" + en::rep("a,", n - 1) + "a', ','))");
            std::string a = "arr(1"; for (int i = 1; i < std::min(n, 3000); ++i) a += ",1"; a += ")";
            out(a); out("count(" + a + ")"); out("sum(" + a + ")"); a.replace(4, 1, "i"); out(a); out("count(" + a + ")");
        }
    };
    c.run = run;
    c.show = eu::showCase;
    return mc::main(argc, argv, c);
}
