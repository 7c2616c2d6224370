// C01: every byte of the input is accounted for by the tokens and their source locations.
#include "tokutil.h"
#include "enumutil.h"
using namespace std::string_literals;

static void run(std::string const& in, mc::Run& run)
{
    auto r = tu::impl(in);
    run.step();
    if (r.threw) { run.outcome("rejected"); run.state("rejected:" + r.what.substr(0, 12)); }
    else {
        // exactly one end marker, at the end
        int eofs = 0;
        for (auto& t : r.toks) eofs += t.type == "EOF";
        if (eofs != 1 || r.toks.back().type != "EOF") mc::fail("token list must contain exactly one EOF, at its end");
        r.toks.pop_back();
        size_t pos = 0;
        std::string st;
        for (auto& t : r.toks) {
            if (t.begin >= t.end || t.end > in.size() || t.begin < pos)
                mc::fail("token " + tu::show(t) + " has the impossible location [" + std::to_string(t.begin) + "," + std::to_string(t.end) + ")");
            for (size_t i = pos; i < t.begin; ++i)
                if (!ref::isSpace(in[i])) mc::fail("input byte " + std::to_string(i) + " is not whitespace and belongs to no token");
            pos = t.end;
            st += tu::show(t) + " ";
        }
        for (size_t i = pos; i < in.size(); ++i)
            if (!ref::isSpace(in[i])) mc::fail("input byte " + std::to_string(i) + " is not whitespace and belongs to no token");
        // the located source text alone denotes the same token
        if (r.toks.size() > 1 || (r.toks.size() == 1 && r.toks[0].end - r.toks[0].begin != in.size()))
            for (auto& t : r.toks) {
                auto one = tu::impl(std::string_view(in).substr(t.begin, t.end - t.begin));
                run.step();
                if (one.threw || one.toks.size() != 2 || !tu::same(one.toks[0], t))
                    mc::fail("source text '" + mc::quote(in.substr(t.begin, t.end - t.begin)) + "' reported for token " + tu::show(t) + " does not denote it");
            }
        run.outcome(std::to_string(r.toks.size()) + " tokens");
        run.state(st);
    }
    // and the whole stream is the one the grammar defines
    tu::compare(in, run, true);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C01";
    c.bounds = "all strings over a 24-byte alphabet (incl. NUL, 0x80, quotes, backslash, digits, operators, whitespace) up to length 5 (quick) / 6 (thorough), "
               "all strings over a 10-byte core up to length 6 (quick) / 8 (thorough); every token kind repeated/stretched to lengths 1..300, and inputs up to 260 KB (quick) / 32 MB (thorough)";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        emit("");
        const std::string a = " \na1e9xbr.'\"\\*<=_(!-$0E\x80"s + '\0';
        for (int n = 1; n <= (th ? 6 : 5); ++n) en::strings(a, n, emit);
        const std::string core = " a1.r'\\*=e";
        for (int n = 5; n <= (th ? 8 : 6); ++n) en::strings(core, n, emit);
        // length ladder
        for (int n = 1; n <= 300; ++n) {
            for (auto u : {"a", "9", " ", "\t", ".", "*", "<", "(", "a ", "1 ", "'a' ", "\\a", "re'a' ", "... ", "\\ ", "$", "0", "e"}) {
                auto s = en::rep(u, n);
                emit(s);
                emit(s + "b");
                emit(" " + s);
                emit(s + " + x");
            }
            emit("'" + en::rep("a", n) + "'");
            emit("'" + en::rep("\\'", n) + "' x");
            emit("r'" + en::rep("\\n", n) + "' x");
            emit("0x" + en::rep("f", n));
            emit("0b" + en::rep("1", n) + " x");
            emit("1." + en::rep("0", n) + " x");
            emit(en::rep("a.", n) + "b == " + en::rep("1", n % 18 + 1));
        }
        // locations beyond 8, 16 and (thorough) 24 bits
        for (int n : {1000, 4095, 4097, 32767, 32769, 65533, 65534, 65535, 65536, 65537, 70000, 131073, 1 << 20, 1 << 24}) {
            if (!th && n > 200000) continue;
            for (auto u : {" ", "a", "9", "(", "a "}) {
                if (n > 200000 && u[0] != ' ') continue;
                emit(en::rep(u, n) + " b + 'c' 1");
            }
            emit("'" + en::rep("a", n) + "' b + r'c' 1.5");
            emit("a" + en::rep(" ", n) + "b" + en::rep("\n", n) + "== 17 ");
        }
        for (int a1 = 0; a1 < 256; ++a1)
            for (auto pre : {"", "a", "1", " ", "'a'", "\\", "+", "a ", "0x", "1e"})
                for (auto post : {"", "a", "1", " ", "'"}) emit(pre + std::string(1, (char)a1) + post);
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
