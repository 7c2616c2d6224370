// C02: operators, keywords and words are classified by longest match, keywords ignore case, and
// whitespace between tokens never matters.
#include "tokutil.h"
#include "enumutil.h"
using namespace std::string_literals;

static void run(std::string const& in, mc::Run& run) { tu::compare(in, run, false); }

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C02";
    c.bounds = "all sequences of <=3 lexemes (quick; 4 over a core set in thorough) from 79 lexemes joined by {nothing, blank, newline-tab}; all strings over 24 operator "
               "characters up to length 5 (quick) / 6 (thorough); every casing of every keyword alone and prefixed/suffixed; all byte pairs";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        static const std::vector<std::string> lx = {
            "(", ")", "{", "}", "[", "]", ",", ":", "...", "**", ".", "+", "-", "*", "/", "%", "<<", ">>", "~", "|", "&", "#", "^", "?",
            "<=", "<", ">=", ">", "==", "!=", "=", "!",
            "and", "AND", "aNd", "or", "Or", "not", "NOT", "typeof", "TypeOf", "true", "TRUE", "false", "False", "null", "NULL", "as", "AS", "_",
            "andy", "an", "nor", "nota", "as1", "_a", "__", "a_", "nul", "typeo", "a", "A1", "$sum", "$", "field", "\\and", "a\\ b", "re", "r",
            "1", "0x1f", "1.5", "'s'", "r'x'", "re'x'", "\"q\"", "true1", "null_", "e" };
        static const std::vector<std::string> core = { ".", "*", "<", ">", "=", "a", "not", "1", "...", "**", "<<", "_", "'s'", "r" };
        const char* seps[] = {"", " ", "\n\t"};
        for (int n = 1; n <= (th ? 3 : 2); ++n)
            en::sequences((int)lx.size(), n, [&](std::vector<int> const& ix) {
                for (auto sep : seps) {
                    std::string s = sep;
                    for (int i : ix) s += lx[i] + sep;
                    emit(s);
                }
            });
        if (!th)
            en::sequences((int)lx.size(), 3, [&](std::vector<int> const& ix) {
                emit(lx[ix[0]] + lx[ix[1]] + lx[ix[2]]);
            });
        en::sequences((int)core.size(), 4, [&](std::vector<int> const& ix) {
            std::string s, t;
            for (int i : ix) { s += core[i]; t += core[i] + " "; }
            emit(s);
            emit(t);
        });
        const std::string ops = ".*<>=!&|+-/%~#^?()[]{},:";
        for (int n = 1; n <= (th ? 6 : 5); ++n) en::strings(ops, n, emit);
        // every casing of every keyword
        for (std::string k : {"and", "or", "not", "typeof", "true", "false", "null", "as"})
            for (int m = 0; m < (1 << k.size()); ++m) {
                auto w = k;
                for (size_t i = 0; i < k.size(); ++i) if (m >> i & 1) w[i] = (char)toupper(w[i]);
                for (auto pre : {"", "x", "1 ", "\\", ".", "_", "$"})
                    for (auto post : {"", "x", "1", " 1", "_", "(", "'", "."}) emit(pre + w + post);
                // every proper prefix / transposition stays a word
                for (size_t i = 1; i < w.size(); ++i) { emit(w.substr(0, i)); auto v = w; std::swap(v[i], v[i - 1]); emit(v); }
            }
        for (int a = 0; a < 256; ++a)
            for (int b = 0; b < 256; ++b) emit(std::string{(char)a, (char)b});
        for (int n = 1; n <= 300; ++n) { emit(en::rep("_", n)); emit(en::rep("a", n)); emit(en::rep("A_", n)); emit(en::rep("not ", n)); emit(en::rep("=", n)); emit(en::rep(">", n)); emit("not" + en::rep("_", n)); }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
