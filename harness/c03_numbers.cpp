// C03: a numeric literal denotes exactly the number that is written, or is rejected.
#include "tokutil.h"
#include "enumutil.h"
#include <set>
using namespace std::string_literals;

static void run(std::string const& in, mc::Run& run) { tu::compare(in, run, true); }

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C03";
    c.bounds = "all strings over 16 number characters up to length 6 (quick) / 7 (thorough); every power of 2, 10 and 16 within +-2 in decimal, hexadecimal and binary, up to and beyond 64 bits, "
               "with 0..40 leading zeros; all exponents -340..340 with 9 mantissas; fractions of 1..40 digits";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        const std::string a = "015.e-x+b9aEf_ 7";
        for (int n = 1; n <= (th ? 7 : 6); ++n) en::strings(a, n, emit);
        auto dec = [](unsigned __int128 v) { std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return s; };
        auto inBase = [](unsigned __int128 v, int b) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(int)(v % b)]); v /= b; } while (v); return s; };
        std::set<std::string> seen;
        std::vector<unsigned __int128> vals;
        for (int k = 0; k < 70; ++k)
            for (int d = -2; d <= 2; ++d) { auto v = ((unsigned __int128)1 << k) + d; if ((__int128)v >= 0) vals.push_back(v); }
        unsigned __int128 p = 1;
        for (int k = 0; k < 22; ++k, p *= 10)
            for (int d = -2; d <= 2; ++d) if ((__int128)(p + d) >= 0) vals.push_back(p + d);
        for (int n = 0; n < 4000; ++n) vals.push_back(n);
        for (auto v : vals) {
            auto d = dec(v), h = inBase(v, 16), b = inBase(v, 2);
            std::string H = h;
            for (auto& ch : H) ch = (char)toupper(ch);
            for (int z : {0, 1, 2, 7, 19, 40}) {
                auto zs = en::rep("0", z);
                for (auto& s : {zs + d, "0x" + zs + h, "0x" + zs + H, "0b" + zs + b, zs + d + ".0", zs + d + ".", zs + d + "e0", "-" + zs + d, zs + d + " ", zs + d + "x", zs + d + ".25", zs + d + "e1", "." + zs + d, "0." + zs + d, "1." + zs + d + "e2"})
                    if (seen.insert(s).second) emit(s);
            }
        }
        for (int e = -340; e <= 340; ++e)
            for (auto m : {"1", "9", "12345", "0", "1.5", ".5", "9.99", "123456789012345678", "0.0001"})
                for (auto ee : {"e", "E", "e0", "e00"}) {
                    emit(m + std::string(ee) + std::to_string(e));
                    if (e >= 0) { emit(m + std::string(ee) + "-" + std::to_string(e)); emit(m + std::string(ee) + "+" + std::to_string(e)); }
                }
        for (int n = 1; n <= 40; ++n) {
            std::string s, t;
            for (int i = 0; i < n; ++i) { s += char('0' + (i * 7 + 3) % 10); t += char('0' + (i + 1) % 10); }
            emit("0." + s); emit("3." + t); emit(s + "." + t); emit("." + t + "e3"); emit(s); emit(t + ".0"); emit(s + "e-3"); emit("1" + en::rep("0", n)); emit("1." + en::rep("0", n) + "1");
            for (int m = 1; m <= 20; m += 3) emit(t.substr(0, n) + "." + s.substr(0, std::min(n, m)));
        }
        for (int n = 1; n <= 300; ++n) { emit(en::rep("9", n)); emit(en::rep("0", n) + "7"); emit("0." + en::rep("3", n)); emit(en::rep("7", n) + ".0"); emit("1e" + en::rep("0", n) + "2"); }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
