// C22: a serialized model reads back equal. C23 (-DTRUNCATE): truncated data is reported.
#include "modelutil.h"
#include <sstream>
using namespace std::string_literals;

namespace {
std::string bytes(simfil::ModelPool& p) { std::ostringstream o; p.write(o); return o.str(); }
std::string bytes(simfil::StringPool& p, simfil::StringId from) { std::ostringstream o; p.write(o, from); return o.str(); }

// L<kind>;<n>: one kind of growth, n times
bool ladder(std::string const& c, mu::Hist& h)
{
    auto e = c.find(';');
    char kind = c[1]; size_t n = std::stoul(c.substr(e + 1));
    auto root = h.create(kind == 'o' || kind == 's', 0);
    h.pool->addRoot(h.node[root]); h.ref.roots.push_back(mu::V::C(root));
    for (size_t i = 0; i < n; ++i) {
        auto k = (int)i;
        switch (kind) {
        case 'o': h.add(root, "ulds"[k % 4], "f" + std::to_string(k % 5000)); break;
        case 'a': h.add(root, "ulMdsS"[k % 6], ""); break;
        case 'c': { int x = h.create(k & 1, k % 3); h.add(x, 'l', "q"); break; }
        case 'r': h.pool->addRoot(h.node[root]); h.ref.roots.push_back(mu::V::C(root)); break;
        }
    }
    if (kind == 's') { std::string s(n, 'x'); h.pool->resolveObject(h.node[root])->addField("s", std::string_view(s)); h.ref.conts[root].kids.emplace_back("s", mu::V::S(s)); h.spelling.emplace("s", "s"); }
    return true;
}
bool build(std::string const& c, mu::Hist& h) { if (c.find_first_not_of("c") == c.npos) return true; return c[0] == 'L' ? ladder(c, h) : h.ops(c); }
void compare(mu::Hist const& h, std::string const& at)
{
    if (h.ref.conts.size() < 100 && h.ref.roots.size() < 100) {
        size_t most = 0; for (auto& c : h.ref.conts) most = std::max(most, c.kids.size());
        if (most < 60) { try { h.check(); } catch (mc::Fail& f) { mc::fail(at + f.msg); } }
    }
    if (h.pool->numRoots() != h.ref.roots.size()) mc::fail(at + "wrong number of roots");
    for (size_t i = 0; i < h.ref.roots.size(); i += 1 + h.ref.roots.size() / 200) if (mu::dump(*h.pool, *h.pool->root(i)) != mu::dump(h.ref, h.ref.roots[i])) mc::fail(at + "root " + std::to_string(i) + " differs: " + mu::dump(*h.pool, *h.pool->root(i)).substr(0, 200) + " instead of " + mu::dump(h.ref, h.ref.roots[i]).substr(0, 200));
    for (size_t k = 0; k < h.ref.conts.size(); ++k) if (mu::dump(*h.pool, *h.node[k]) != mu::dump(h.ref, mu::V::C(k))) mc::fail(at + "container " + std::to_string(k) + " differs");
}
const std::vector<std::string> prior = {"", "o2..+0u0+0s1+0l2r0..a0..+1d0+1S0+1l0+1L0r1..", "a0..+0u0o0..+1s1o0..+2s2+200r2..Rs..Ri..r1..r0.."};
}

static void run(std::string const& c, mc::Run& run)
{
    char mode = c[0];
    auto hist = c.substr(1);
    auto strings = mu::someStrings();
    mu::Hist h(strings);
    if (!build(hist, h)) return;
    run.step();
#ifndef TRUNCATE
    auto data = bytes(*h.pool);
    if (bytes(*h.pool) != data) mc::fail("writing twice gives different bytes");
    compare(h, "after writing: ");
    std::shared_ptr<simfil::ModelPool> target;
    if (mode == 'i') target = h.pool;                                     // into itself
    else {
        mu::Hist before(strings);
        if (!build(prior[mode - '0'], before)) mc::fail("harness");
        target = before.pool;
    }
    for (int round = 0; round < 2; ++round) {
        auto at = round ? "second read: "s : "read: "s;
        std::istringstream in(data);
        try { target->read(in); } catch (std::exception const& e) { mc::fail(at + "raised " + e.what()); }
        auto r = mu::attach(h, target);
        compare(r, at);
        if (bytes(*target) != data) mc::fail(at + "the bytes written again differ");
        run.step(2);
    }
    // the model that was read can grow
    auto r = mu::attach(h, target);
    for (size_t k = 0; k < std::min<size_t>(r.ref.conts.size(), 3); ++k) for (int i = 0; i < 3; ++i) { r.add(k, "sld"[i], "new"); r.extend(k, k); if (r.ref.conts[k].kids.size() > 3000) break; }
    r.create(true, 1); r.add(r.ref.conts.size() - 1, 'u', "late");
    compare(r, "after growing: ");
    if (target != h.pool) {
        compare(h, "the writer, after the reader has grown: ");
        auto data2 = bytes(*target);
        std::istringstream in(data2);
        h.pool->read(in);
        auto b = mu::attach(r, h.pool);
        compare(b, "back again: ");
    }
    run.state(data);
    run.outcome(hist.empty() ? "empty model" : h.ref.roots.empty() ? "no roots" : hist[0] == 'L' ? "ladder" : "model");
#else
    size_t objs = h.count(true);
    (void)objs;
    if (mode == 's' || mode == 'p') {
        // string pools: names of the model and a ladder of lengths
        simfil::StringPool src(*strings);
        for (size_t i = 0; i < hist.size(); ++i) src.emplace("s" + std::to_string(i) + std::string(i * i % 41, (char)('a' + i % 26)));
        for (simfil::StringId from : {0, 1, 128, (int)src.highest()}) {
            auto data = bytes(src, from);
            for (size_t cut = 0; cut < data.size(); ++cut) {
                std::unique_ptr<simfil::StringPool> t;
                if (mode == 'p') t = std::make_unique<simfil::StringPool>(*strings); else t = std::make_unique<simfil::StringPool>();
                auto obs = [&] { std::string s = std::to_string(t->size()) + "/" + std::to_string(t->bytes()) + "/" + std::to_string(t->highest()) + ":"; for (int id = 0; id <= src.highest() + 2; ++id) { auto r = t->resolve(id); if (r) s += std::to_string(id) + "=" + std::string(*r) + "/" + std::to_string(t->get(*r)) + ","; } return s; };
                auto before = obs();
                std::istringstream in(data.substr(0, cut));
                bool raised = false;
                try { t->read(in); } catch (std::exception const&) { raised = true; }
                auto at = "string pool cut at " + std::to_string(cut) + " of " + std::to_string(data.size()) + ": ";
                if (!raised) mc::fail(at + "accepted");
                if (obs() != before) mc::fail(at + "the failed read changed the pool: " + before.substr(0, 200) + " became " + obs().substr(0, 200));
                std::istringstream full(data);
                try { t->read(full); } catch (std::exception const& e) { mc::fail(at + "the complete read afterwards raised " + e.what()); }
                for (int id = from; id <= src.highest(); ++id) { auto a = src.resolve(id), b = t->resolve(id); if ((bool)a != (bool)b || (a && *a != *b)) mc::fail(at + "string " + std::to_string(id) + " is wrong after the complete read"); }
                auto next = t->emplace("fresh after all");
                if (next <= src.highest()) mc::fail(at + "an id was reused");
                run.step(2);
            }
            run.outcome("string pool");
        }
        run.state(c);
        return;
    }
    auto data = bytes(*h.pool);
    mu::Hist before(strings);
    if (!build(prior[mode - '0'], before)) mc::fail("harness");
    auto keep = before.pool;   // one object sees all truncations, another is new each time
    for (size_t cut = 0; cut < data.size(); ++cut) {
        auto fresh = std::make_shared<simfil::ModelPool>(strings);
        for (auto& t : {keep, fresh}) {
            auto at = "cut at " + std::to_string(cut) + " of " + std::to_string(data.size()) + ": ";
            std::istringstream in(data.substr(0, cut));
            bool raised = false;
            try { t->read(in); } catch (std::exception const&) { raised = true; }
            if (!raised) mc::fail(at + "accepted");
            if (data.size() > 600 && cut % 16 && cut + 8 < data.size()) continue;
            std::istringstream full(data);
            try { t->read(full); } catch (std::exception const& e) { mc::fail(at + "the complete read afterwards raised " + e.what()); }
            if (bytes(*t) != data) mc::fail(at + "the complete read afterwards gives other content");
            auto r = mu::attach(h, t);
            if (data.size() < 200) compare(r, at + "after the complete read: ");
            run.step(2);
        }
        run.state(hist + std::to_string(cut));
    }
    run.outcome(hist.empty() ? "empty model" : h.ref.roots.empty() ? "no roots" : hist[0] == 'L' ? "ladder" : "model");
#endif
}

int main(int argc, char** argv)
{
    mc::Config c;
#ifdef SMALL
    const int L = SMALL;
#else
    const int L = 0;
#endif
#ifndef TRUNCATE
    c.property = "C22";
    c.bounds = "all models built by histories of up to 3 (thorough 4) of 18 operations, after 4 prefixes, all pairs of 18 value kinds, and arrays grown in every interleaving of 6 (8) appends (shorter under sanitizers); each read into a new, two kinds of used models and itself, twice, then grown and sent back; ladders across the length encodings";
#else
    c.property = "C23";
    c.bounds = "the models of C22 (one operation less) and string pools of up to 40 strings written from 4 offsets; every proper prefix of each is read into a new object, and into a used one that sees all prefixes in turn, followed by a complete read";
#endif
    c.enumerate = [L](bool th, mc::Emit const& emit) {
#ifndef TRUNCATE
        mu::corpus(th, L, [&](std::string const& s) { for (char m : std::string("012i")) emit(m + s); });
        for (char k : std::string("oacrs")) for (int n : {1, 5, 126, 127, 128, 129, 255, 256, 1000, 8191, 8192, 8193, 16383, 16384, 16385, 40000, 100000}) if (!L || n < 200) if (k != 'c' || n <= 20000) for (char m : std::string("02i")) emit(m + "L"s + k + ";" + std::to_string(n));
#else
        mu::corpus(th, L + 1, [&](std::string const& s) { for (char m : std::string("12")) emit(m + s); });
        for (int n = 0; n <= (L ? 12 : 40); ++n) for (char m : std::string("sp")) emit(std::string(1, m) + std::string(n, 'c'));
        for (char k : std::string("oacrs")) for (int n : {1, 5, 60, 126, 128, 300}) if (!L || n < 100) emit("1L"s + k + ";" + std::to_string(n));
#endif
    };
    c.run = run;
    c.show = [](std::string const& s) { return s.size() > 1 && s[1] == 'L' ? s : s.substr(0, 1) + " " + mu::show(s.substr(1)); };
    c.caseTimeout = 60;
    return mc::main(argc, argv, c);
}
