// C04: string, raw string and regular expression literals decode to exactly the text they spell.
#include "tokutil.h"
#include "enumutil.h"
using namespace std::string_literals;

// Case: 'S' + source: decode and compare with the reference.
//       'R' + text:   quote the text in every way, decode, and expect the text back.
static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == 'S') { tu::compare(c.substr(1), run, true); return; }
    const auto text = c.substr(1);
    for (char q : {'\'', '"'}) {
        std::string esc = std::string(1, q), all = esc, raw = "r"s + q, re = "re"s + q;
        bool rawOk = true;
        for (size_t i = 0; i < text.size(); ++i) {
            const char ch = text[i];
            if (ch == q || ch == '\\') { esc += '\\'; esc += ch; } else if (ch == '\n') esc += "\\n"; else if (ch == '\t') esc += "\\t"; else if (ch == '\r') esc += "\\r"; else esc += ch;
            if (ch == 'n' || ch == 'r' || ch == 't') all += ch; else { all += '\\'; all += ch == '\n' ? 'n' : ch == '\t' ? 't' : ch == '\r' ? 'r' : ch; }
            // raw: only the quote can be escaped; a backslash directly before a quote or the end cannot be spelled
            if (ch == q) { raw += '\\'; re += '\\'; }
            if (ch == '\\' && (i + 1 == text.size() || text[i + 1] == q)) rawOk = false;
            raw += ch; re += ch;
        }
        auto expect = [&](std::string const& src, std::string const& type) {
            auto r = tu::impl(src);
            run.step();
            if (r.threw) mc::fail("literal " + mc::quote(src) + " was rejected: " + r.what);
            if (r.toks.size() != 2 || r.toks[0].type != type || r.toks[0].text != text)
                mc::fail("literal " + mc::quote(src) + " decodes to [" + tu::show(r.toks) + "], expected " + type + ":" + mc::quote(text));
            if (r.toks[0].begin != 0 || r.toks[0].end != src.size()) mc::fail("literal " + mc::quote(src) + " has a wrong location");
            run.outcome(type);
            run.state(type + text);
        };
        expect(esc + q, "string");
        expect(all + q, "string");
        if (rawOk) { expect(raw + q, "string"); expect(re + q, "regexp"); }
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C04";
    c.bounds = "8 prefixes x 2 quotes x all bodies over 9 bytes up to length 5 (quick) / 6 (thorough), terminated and not; round trip of every byte, every byte pair, "
               "all texts over 7 bytes up to length 5, and lengths 1..300, 4095..4097, 65535..65537";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        const std::string a = "an\\'\"\n t\xc3"s;
        for (int n = 0; n <= (th ? 6 : 5); ++n)
            for (auto pre : {"", "r", "R", "re", "RE", "Re", "rE", "x"})
                for (auto q : {"'", "\""})
                    for (auto post : {1, 0})
                        en::strings(a, n, emit, "S"s + pre + q, post ? q : "");
        for (auto tail : {"b", " b", "'c'", "\\'", "1", ".", "[0]"})
            for (int n = 0; n <= 3; ++n)
                for (auto pre : {"", "r", "re"}) en::strings(a, n, emit, "S"s + pre + "'", "'"s + tail);
        for (int x = 0; x < 256; ++x) { emit("R"s + (char)x); for (int y = 0; y < 256; ++y) emit("R"s + (char)x + (char)y); }
        const std::string b = "n\\'\"\nra";
        for (int n = 0; n <= (th ? 6 : 5); ++n) en::strings(b, n, emit, "R");
        for (int n = 1; n <= 300; ++n)
            for (auto u : {"a", "\\", "'", "\n", "ab'", "\\n", "\xff"}) emit("R" + en::rep(u, n));
        for (int n : {1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537})
            for (auto u : {"a", "\\", "'"}) emit("R" + en::rep(u, n));
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
