// C19: an array arena behaves like independent growable arrays.
#include "mc.h"
#include "enumutil.h"
#include "simfil/model/arena.h"
#include <map>
#include <memory>
#include <optional>
using namespace std::string_literals;

namespace {
struct Pod { uint16_t a = 7; uint32_t b = 9; Pod() = default; Pod(uint16_t x, uint32_t y) : a(x), b(y) {} bool operator==(Pod const& o) const { return a == o.a && b == o.b; } };
template <class T> T val(uint32_t n);
template <> int val<int>(uint32_t n) { return (int)n * 3 + 1; }
template <> Pod val<Pod>(uint32_t n) { return Pod(uint16_t(n * 5 + 1), n); }

template <class T, size_t P, size_t C>
struct Bench {
    using A = simfil::ArrayArena<T, P, C>;
    A arena;
    std::vector<std::vector<T>> ref;
    std::vector<std::vector<T const*>> addr;
    uint32_t next = 0;

    void add(int k, char how)
    {
        T v = val<T>(next++);
        T* p = nullptr;
        if (how == 'p') p = &arena.push_back(k, v);
        else if (how == 'e') {
            if constexpr (std::is_same_v<T, Pod>) p = &arena.emplace_back(k, v.a, v.b);
            else p = &arena.emplace_back(k, v);
        } else if (how == 'd') { v = T{}; p = &arena.emplace_back(k); if constexpr (!std::is_same_v<T, Pod>) *p = v = 77; }
        else if (how == 'x') { v = ref[k].front(); p = &arena.push_back(k, arena.at(k, 0)); }          // an element of its own
        else if (how == 'y') { size_t o = 0; while (o < ref.size() && ((int)o == k || ref[o].empty())) ++o; if (o == ref.size()) return; v = ref[o].back(); p = &arena.push_back(k, arena.at(o, ref[o].size() - 1)); }
        if (!(*p == v)) mc::fail("the appended element reads differently through the returned reference");
        ref[k].push_back(v);
        addr[k].push_back(p);
    }

    void check(int k, bool full)
    {
        auto const& w = ref[k];
        A const& ca = arena;
        auto at = "array " + std::to_string(k) + ": ";
        if (arena.size(k) != w.size()) mc::fail(at + "size is " + std::to_string(arena.size(k)) + " instead of " + std::to_string(w.size()));
        for (size_t i = 0; i < w.size(); ++i) {
            if (!(arena.at(k, i) == w[i]) || !(ca.at(k, i) == w[i])) mc::fail(at + "at(" + std::to_string(i) + ") is wrong");
            if (&arena.at(k, i) != addr[k][i] || &ca.at(k, i) != addr[k][i]) mc::fail(at + "element " + std::to_string(i) + " moved");
        }
        for (size_t d : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)7, (size_t)100, ~(size_t)0 - w.size(), ((size_t)1 << 32) - w.size(), (size_t)1 << 32}) {
            for (int c = 0; c < 2; ++c) {
                try { if (c) ca.at(k, w.size() + d); else arena.at(k, w.size() + d); mc::fail(at + "at(" + std::to_string(w.size() + d) + ") beyond the end did not raise"); }
                catch (std::out_of_range const&) {}
            }
        }
        size_t i = 0;
        for (auto& e : arena.range(k)) { if (i >= w.size() || !(e == w[i]) || &e != addr[k][i]) mc::fail(at + "range() differs at " + std::to_string(i)); ++i; }
        if (i != w.size()) mc::fail(at + "range() ends early");
        auto r = arena.range(k);
        if (r.size() != w.size()) mc::fail(at + "range().size() is wrong");
        for (i = 0; i < w.size(); ++i) if (!(r[i] == w[i])) mc::fail(at + "range()[i] is wrong");
        i = 0;
        for (auto b = arena.begin(k), e = arena.end(k); b != e; ++b, ++i) if (i >= w.size() || !(*b == w[i])) mc::fail(at + "iterators differ");
        if (i != w.size()) mc::fail(at + "iterators end early");
        i = 0;
        auto cb = [&]() -> typename A::const_iterator { if constexpr (requires(A const& x) { *x.begin(0); }) return ca.begin(k); }();
        auto ce = ca.end(k);
        for (; cb != ce; ++cb, ++i) if (i >= w.size() || !(*cb == w[i])) mc::fail(at + "const iterators differ");
        if (i != w.size()) mc::fail(at + "const iterators end early");
        // callbacks: void, indexed, and one that stops at every position
        i = 0;
        arena.iterate(k, [&](T& e) { if (i >= w.size() || !(e == w[i]) || &e != addr[k][i]) mc::fail(at + "iterate differs at " + std::to_string(i)); ++i; });
        if (i != w.size()) mc::fail(at + "iterate visits " + std::to_string(i) + " elements");
        i = 0;
        arena.iterate(k, [&](T& e, size_t ix) { if (ix != i || i >= w.size() || !(e == w[i])) mc::fail(at + "indexed iterate differs at " + std::to_string(i)); ++i; });
        if (i != w.size()) mc::fail(at + "indexed iterate visits " + std::to_string(i) + " elements");
        for (size_t stop = 0; stop <= w.size(); ++stop) {
            if (!full && stop > 3 && stop + 3 < w.size() && (stop & (stop - 1))) continue;
            size_t n = 0;
            arena.iterate(k, [&](T& e) -> bool { if (n >= w.size() || !(e == w[n])) mc::fail(at + "stoppable iterate differs"); return n++ != stop; });
            if (n != std::min(stop + 1, w.size())) mc::fail(at + "iterate that is to stop after element " + std::to_string(stop) + " visits " + std::to_string(n));
        }
    }
    void checkAll(bool full = true)
    {
        if (arena.size() != ref.size()) mc::fail("the arena has " + std::to_string(arena.size()) + " arrays instead of " + std::to_string(ref.size()));
        for (size_t k = 0; k < ref.size(); ++k) check(k, full);
        size_t k = 0;
        for (auto range : arena) {
            if (k >= ref.size()) mc::fail("iterating the arena visits too many arrays");
            size_t i = 0;
            for (auto& e : range) { if (i >= ref[k].size() || !(e == ref[k][i])) mc::fail("iterating the arena: array " + std::to_string(k) + " differs"); ++i; }
            if (i != ref[k].size() || range.size() != i) mc::fail("iterating the arena: array " + std::to_string(k) + " has another size");
            ++k;
        }
        if (k != ref.size()) mc::fail("iterating the arena visits too few arrays");
        // all elements are distinct storage
        std::map<T const*, int> seen;
        for (auto& a : addr) for (auto p : a) if (seen[p]++) mc::fail("two elements share their storage");
    }
    std::string obs() const
    {
        std::string s;
        for (auto& a : ref) { s += "|"; for (auto& e : a) { if constexpr (std::is_same_v<T, Pod>) s += std::to_string(e.b) + ","; else s += std::to_string(e) + ","; } }
        return s;
    }
    // ops: '0'..'5' new array of that capacity; letters: pairs (how, array)
    void run(std::string const& c, mc::Run& run)
    {
        size_t biggest = 0;
        for (size_t i = 0; i < c.size(); ++i) {
            run.step();
            char o = c[i];
            if (o >= '0' && o <= '9') {
                auto k = arena.new_array(o - '0');
                if (k != (int)ref.size()) mc::fail("new_array returned index " + std::to_string(k) + " for array " + std::to_string(ref.size()));
                ref.emplace_back(); addr.emplace_back();
            } else if (o == 'C') { arena.clear(); ref.clear(); addr.clear(); }
            else if (o == 'S') arena.shrink_to_fit();
            else {
                int k = c[++i] - 'A';
                if (k >= (int)ref.size() || (o == 'x' && ref[k].empty())) return;
                add(k, o);
            }
            for (auto& a : ref) biggest = std::max(biggest, a.size());
        }
        checkAll();
        run.state(obs());
        run.outcome(ref.empty() ? "no arrays" : biggest == 0 ? "empty arrays" : biggest < 3 ? "one chunk" : "several chunks");
    }
    // L<cap>,<cap>..;<pattern>;<n>: appends n elements in the rhythm of the pattern
    void ladder(std::string const& c, mc::Run& run)
    {
        auto a = c.find(';'), b = c.find(';', a + 1);
        auto caps = c.substr(1, a - 1), pat = c.substr(a + 1, b - a - 1);
        size_t n = std::stoul(c.substr(b + 1)), from = 0;
        while (from < caps.size()) { auto e = std::min(caps.find(',', from), caps.size()); arena.new_array(std::stoul(caps.substr(from, e - from))); ref.emplace_back(); addr.emplace_back(); from = e + 1; }
        for (size_t i = 0; i < n; ++i) {
            char o = pat[i % pat.size()];
            if (o == '+') { arena.new_array(i % 3); ref.emplace_back(); addr.emplace_back(); add(ref.size() - 1, 'p'); }
            else add(o - 'A', "pe"[i & 1]);
        }
        run.step(n);
        checkAll(false);
        run.state(c);
        run.outcome("ladder");
    }
};
}

static void run(std::string const& c, mc::Run& run)
{
    auto rest = c.substr(1);
    auto go = [&](auto&& b) { if (rest[0] == 'L') b->ladder(rest, run); else b->run(rest, run); };
    switch (c[0]) {
    case 'a': return go(std::make_unique<Bench<int, 1, 1>>());
    case 'b': return go(std::make_unique<Bench<int, 3, 2>>());
    case 'c': return go(std::make_unique<Bench<Pod, 16, 4>>());
    case 'd': return go(std::make_unique<Bench<Pod, 16384, 4096>>());
    case 'e': return go(std::make_unique<Bench<int, 4096, 4096>>());
    }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C19";
    c.bounds = "all histories of up to 5 (thorough 6) operations out of: new array of capacity 0..3, push_back/emplace_back to 3 arrays, clear, shrink; all histories of 2 arrays of capacities 0..4 with every interleaving of up to 11 (14) appends; 3 arrays with every interleaving of up to 7 (9) appends; pages of 1, 3 and 16 elements; "
               "append of own/foreign elements; size ladders across the default pages up to 70000 elements and 9000 arrays; each final state is read through every access path and beyond the end";
#ifdef SMALL
    const int L = SMALL;   // shorter histories for the repetitions with locking and under sanitizers
    c.bounds = "the same with histories and interleavings shorter by " + std::to_string(L);
#else
    const int L = 0;
#endif
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        std::vector<std::string> ops = {"0", "1", "2", "3", "pA", "pB", "pC", "eA", "eB", "C", "S"}, more = {"0", "2", "pA", "eA", "dA", "xA", "yA", "pB", "yB", "xB"};
        auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s); }); };
        for (char p : std::string("abc")) {
            for (int n = 1; n <= (th ? 6 : 5) - (L + 1) / 2; ++n) seqs(std::string(1, p), ops, n);
            for (int n = 1; n <= (th ? 6 : 5) - (L + 1) / 2; ++n) seqs(std::string(1, p), more, n);
            for (char x = '0'; x <= '4'; ++x) for (char y = '0'; y <= '4'; ++y) {
                for (int n = 1; n <= (th ? 14 : 11) - L; ++n) seqs(std::string{p, x, y}, {"pA", "eB"}, n);
                if (y <= x) for (char z = '0'; z <= '1'; ++z) for (int n = 4; n <= (th ? 9 : 7) - L; ++n) seqs(std::string{p, x, y, z}, {"eA", "pB", "pC"}, n);
            }
        }
        for (char p : std::string("abcde"))
            for (auto caps : {"0", "1", "2", "3", "5", "0,0", "1,0", "2,7", "4095,1", "4096,4097", "16383,2", "16384,0", "16385,1", "0,1,2,3"})
                for (auto pat : {"A", "AB", "AAB", "ABBBBBBB", "ABCD", "+A"})
                    for (int n : {10, 100, 1000, 5000, 9000, 20000}) {
                        std::string cs = caps, ps = pat;
                        int arrays = 1 + std::count(cs.begin(), cs.end(), ',');
                        bool ok = true; for (char q : ps) ok &= q == '+' || q - 'A' < arrays;
                        if (!ok || (n > 5000 && p == 'a' && !th) || (n > 9000 && !th && p != 'd') || (L && n > 1000)) continue;
                        emit(std::string(1, p) + "L" + cs + ";" + ps + ";" + std::to_string(n));
                    }
        if (!L) emit("dL0,3;AB;70000"); if (!L) { emit("eL0;A;70000"); emit("eL1;A;70000"); }
    };
    c.run = run;
    c.caseTimeout = 60;
    return mc::main(argc, argv, c);
}
