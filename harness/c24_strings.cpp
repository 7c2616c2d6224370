// C24: the string pool is a case-insensitive bijection between strings and ids.
#include "mc.h"
#include "enumutil.h"
#include "simfil/model/string-pool.h"
#include <map>
#include <memory>
#include <sstream>
using namespace std::string_literals;
using simfil::StringId;
using simfil::StringPool;

namespace {
std::string fold(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
const std::vector<std::string> words = {"a", "A", "b", "ab", "aB", "", "$SUM", "\xc3\xa4", "\xc3\x84", "a\0"s, "longer than any small string buffer", "LONGER than any small string BUFFER"};

struct Ref {
    std::map<std::string, StringId> byName; std::map<StringId, std::string> byId;
    size_t bytes = 0; StringId next = 128;
    void put(StringId id, std::string const& s, bool dynamic) { byName[fold(s)] = id; byId[id] = s; if (dynamic) { bytes += s.size(); next = id + 1; } }
    Ref() { put(0, "", false); put(1, "$sum", false); put(2, "$val", false); put(3, "$idx", false); }
};
struct Pool { std::unique_ptr<StringPool> p; Ref r; };

void check(Pool& x, std::string const& at, std::vector<std::string> const& probes = words)
{
    auto& p = *x.p; auto& r = x.r;
    if (p.size() != r.byName.size()) mc::fail(at + "size is " + std::to_string(p.size()) + " instead of " + std::to_string(r.byName.size()));
    if (p.bytes() != r.bytes) mc::fail(at + "bytes is " + std::to_string(p.bytes()) + " instead of " + std::to_string(r.bytes));
    if (p.highest() != (StringId)(r.next - 1)) mc::fail(at + "highest is " + std::to_string(p.highest()) + " instead of " + std::to_string(r.next - 1));
    for (auto& [id, s] : r.byId) { auto v = p.resolve(id); if (!v || *v != s) mc::fail(at + "id " + std::to_string(id) + " resolves to " + (v ? mc::quote(*v) : "nothing") + " instead of " + mc::quote(s)); }
    for (int id = 0; id < 140; ++id) if (!r.byId.count(id) && p.resolve(id)) mc::fail(at + "unused id " + std::to_string(id) + " resolves");
    for (int id : {(int)r.next, r.next + 1, 0xfffe, 0xffff}) if (id <= 0xffff && !r.byId.count(id) && p.resolve(id)) mc::fail(at + "unused id " + std::to_string(id) + " resolves");
    for (auto& s : probes) {
        auto i = r.byName.find(fold(s));
        StringId w = i == r.byName.end() ? 0 : i->second;
        if (auto g = p.get(s); g != w) mc::fail(at + "get(" + mc::quote(s) + ") is " + std::to_string(g) + " instead of " + std::to_string(w));
    }
    if (p.size() != r.byName.size() || p.bytes() != r.bytes || p.highest() != (StringId)(r.next - 1)) mc::fail(at + "reading changed the pool");
}

// e<w> emplace into current; g<w> get; s<w> static key; c copy, continue with the copy; o copy, continue with the original; d destroy the oldest pool; w switch to the next pool
void history(std::string const& c, mc::Run& run)
{
    std::vector<Pool> pools;
    pools.push_back({std::make_unique<StringPool>(), {}});
    size_t cur = 0; StringId nextStatic = 10;
    std::string st;
    for (size_t i = 0; i < c.size(); ++i) {
        run.step();
        auto& x = pools[cur];
        auto at = "step " + std::to_string(i) + " " + c.substr(i, 2) + ": ";
        st += c[i];
        switch (c[i]) {
        case 'e': case 'E': {
            auto& w = words[c[++i] - 'A']; st += c[i];
            std::string buffer(w);                                     // the pool must not keep a view of the argument
            auto hits = x.p->hits(), misses = x.p->misses();
            bool known = x.r.byName.count(fold(w));
            auto id = x.p->emplace(buffer);
            if (x.p->hits() != hits + known || x.p->misses() != misses + !known) mc::fail(at + "counts " + std::to_string(x.p->hits() - hits) + " hits and " + std::to_string(x.p->misses() - misses) + " misses");
            std::fill(buffer.begin(), buffer.end(), '#');
            auto k = x.r.byName.find(fold(w));
            if (k != x.r.byName.end()) { if (id != k->second) mc::fail(at + "emplace returned " + std::to_string(id) + " instead of " + std::to_string(k->second)); }
            else {
                if (id < StringPool::FirstDynamicId || x.r.byId.count(id)) mc::fail(at + "emplace returned the used or reserved id " + std::to_string(id));
                if (id != x.r.next) mc::fail(at + "emplace returned " + std::to_string(id) + ", which is not the next highest");
                x.r.put(id, w, true);
            }
            break;
        }
        case 'g': { auto& w = words[c[++i] - 'A']; st += c[i]; auto hits = x.p->hits(); (void)x.p->get(w); if (x.p->hits() != hits + x.r.byName.count(fold(w))) mc::fail(at + "counts " + std::to_string(x.p->hits() - hits) + " hits"); break; }
        case 's': { auto& w = words[c[++i] - 'A']; st += c[i]; if (x.r.byName.count(fold(w))) return; x.p->addStaticKey(nextStatic, w); x.r.put(nextStatic++, w, false); break; }
        case 'c': case 'o': {
            pools.push_back({std::make_unique<StringPool>(*x.p), x.r});
            auto& a = pools[cur]; auto& b = pools.back();
            if (!(*a.p == *b.p) || !(*b.p == *a.p) || !(*a.p == *a.p)) mc::fail(at + "a copy is not equal to its source");
            if (c[i] == 'c') cur = pools.size() - 1;
            break;
        }
        case 'd': if (pools.size() < 2) return; pools.erase(pools.begin()); if (cur) --cur; break;
        case 'w': cur = (cur + 1) % pools.size(); break;
        }
    }
    for (size_t k = 0; k < pools.size(); ++k) check(pools[k], "pool " + std::to_string(k) + ": ");
    // pools that differ only in spelling may compare either way
    for (auto& a : pools) for (auto& b : pools) if ((a.r.byName != b.r.byName || a.r.byId == b.r.byId) && (*a.p == *b.p) != (a.r.byName == b.r.byName)) mc::fail("pools compare " + std::string(*a.p == *b.p ? "equal" : "unequal") + " although their contents do not");
    run.state(st);
    run.outcome(pools.size() > 1 ? "copies" : pools[0].r.bytes ? "strings" : "no dynamic string");
}

void pairs(int x, mc::Run& run)      // which bytes are equal
{
    for (int y = 0; y < 256; ++y) {
        StringPool p;
        std::string a{'q', (char)x}, b{'Q', (char)y};
        auto i = p.emplace(a);
        bool same = fold(a) == fold(b);
        if ((p.get(b) == i) != same) mc::fail("bytes " + std::to_string(x) + " and " + std::to_string(y) + " are " + (same ? "not " : "") + "taken for equal by get");
        if ((p.emplace(b) == i) != same) mc::fail("bytes " + std::to_string(x) + " and " + std::to_string(y) + " are " + (same ? "not " : "") + "taken for equal by emplace");
        if (*p.resolve(i) != a) mc::fail("the first spelling was replaced");
        run.step(3);
    }
    run.state("pairs" + std::to_string(x));
    run.outcome("byte pairs");
}

void fill(std::string const& c, mc::Run& run)   // up to the last id
{
    int copyAt = std::stoi(c);
    Pool x{std::make_unique<StringPool>(), {}};
    int n = 0; bool raised = false;
    auto name = [](int i) { return "n" + std::to_string(i); };
    std::unique_ptr<StringPool> copy;
    for (; n < 70000; ++n) {
        if (n == copyAt) { copy = std::make_unique<StringPool>(*x.p); if (!(*copy == *x.p)) mc::fail("copy differs"); x.p.swap(copy); }
        StringId id;
        try { id = x.p->emplace(name(n)); } catch (std::exception const&) { raised = true; break; }
        if (x.r.byId.count(id)) mc::fail("id " + std::to_string(id) + " was used again for string " + std::to_string(n));
        x.r.put(id, name(n), true);
    }
    if (!raised) mc::fail("70000 strings were accepted");
    if (n < 65000) mc::fail("the pool is full after " + std::to_string(n) + " strings");
    for (int round = 0; round < 3; ++round) {
        check(x, "full pool: ", {"n0", "N1", name(n - 1), name(n), name(n + 1), "other"});
        bool again = false;
        try { x.p->emplace("other"); } catch (std::exception const&) { again = true; }
        if (!again) mc::fail("a full pool accepts another string");
        for (int i : {0, 1, 77, 40000, n - 1}) if (x.p->emplace(name(i)) != x.r.byName[name(i)]) mc::fail("a full pool forgets a string");
        if (round == 0) { StringPool y(*x.p); Pool z{std::make_unique<StringPool>(y), x.r}; check(z, "copy of a full pool: "); bool r2 = false; try { z.p->emplace("other"); } catch (std::exception const&) { r2 = true; } if (!r2) mc::fail("the copy of a full pool accepts another string"); }
        run.step(10);
    }
    // through a stream
    std::stringstream s; x.p->write(s); StringPool y; y.read(s);
    for (auto& [id, str] : x.r.byId) { auto v = y.resolve(id); if (!v || *v != str) mc::fail("a full pool is not transferred: id " + std::to_string(id)); }
    bool r3 = false; try { y.emplace("other"); } catch (std::exception const&) { r3 = true; }
    if (!r3 || y.resolve(0) != std::string_view("")) mc::fail("a full pool that was read accepts another string");
    run.step(n);
    run.state("full" + c);
    run.outcome("full pool");
}
}

static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == 'P') pairs(std::stoi(c.substr(1)), run);
    else if (c[0] == 'F') fill(c.substr(1), run);
    else history(c, run);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C24";
#ifdef SMALL
    const int L = 1;
#else
    const int L = 0;
#endif
    c.bounds = "all histories of up to " + std::to_string(4 - L) + " (thorough +1) operations: intern 12 strings (case variants, empty, NUL, non-ASCII, static), look up, static key, copy and go on with the copy or the original, switch pool, destroy a pool; longer ones over 3 strings; all pairs of bytes; filling to the last of 65536 ids, with a copy on the way, and further use of the full pool";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += o[i]; emit(s); }); };
        std::vector<std::string> ops;
        for (size_t w = 0; w < words.size(); ++w) ops.push_back("e"s + char('A' + w));
        for (auto x : {"gA", "gC", "sA", "sE", "sG", "c", "o", "d", "w"}) ops.push_back(x);
        for (int n = 1; n <= (th ? 5 : 4) - L; ++n) seqs(ops, n);
        for (int n = 5; n <= (th ? 8 : 6) - L; ++n) seqs({"eA", "eB", "eC", "c", "o", "d", "w"}, n);
        if (!L) for (int n = 5; n <= (th ? 12 : 10); ++n) seqs({"eK", "c", "eD"}, n);
        for (int x = 0; x < 256; ++x) emit("P" + std::to_string(x));
        for (int at : {-1, 0, 1, 1000, 65000, 65405, 65406, 65407}) emit("F" + std::to_string(at));
    };
    c.run = run;
    c.caseTimeout = 60;
    c.minOutcomes = 5;
    return mc::main(argc, argv, c);
}
