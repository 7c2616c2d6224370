// C26: changing a model's string pool preserves its content.
#include "modelutil.h"
#include "evalutil.h"
using namespace std::string_literals;

namespace {
const std::vector<std::string> words = {"a", "b", "A", "c", "", "$sum", "B", "x", "y"};

std::shared_ptr<simfil::StringPool> pool(std::string const& fill)
{
    auto s = std::make_shared<simfil::StringPool>();
    for (size_t i = 0; i < fill.size(); ++i) {
        if (fill[i] == '*') for (int k = 0; k < 300; ++k) s->emplace("w" + std::to_string(k));
        else if (fill[i] == '@') { if (i + 1 < fill.size() && s->get(words[fill[i + 1] - 'A']) == 0) s->addStaticKey(20 + i, words[fill[i + 1] - 'A']); ++i; }
        else s->emplace(words[fill[i] - 'A']);
    }
    return s;
}
// One object with these names; the same names in reverse inside a nested object, and one object per name in an array.
void build(mu::Hist& h, std::string const& names)
{
    int o = h.create(true, 0), in = h.create(true, 1), arr = h.create(false, -1);
    for (size_t i = 0; i < names.size(); ++i) h.add(o, "ulsd"[i % 4], words[names[i] - 'A']);
    for (size_t i = names.size(); i-- > 0;) h.add(in, "slu"[i % 3], words[names[i] - 'A']);
    for (size_t i = 0; i < names.size(); ++i) { int x = h.create(true, 0); h.add(x, 'l', words[names[i] - 'A']); h.add(arr, '0' + x, ""); }
    if (!names.empty()) { h.add(o, '0' + in, words[names[0] - 'A']); h.add(in, '0' + arr, words[names.back() - 'A']); }
    h.pool->addRoot(h.node[o]); h.ref.roots.push_back(mu::V::C(o));
    h.pool->addRoot(h.node[arr]); h.ref.roots.push_back(mu::V::C(arr));
}
const std::vector<std::string> queries = {"a", "b", "c", "x", "[\"\"]", "[\"$sum\"]", "**.a", "count(**.B)", "*.*.b", "a == 65535 and c", "keys(_)", "sum(**.a, $sum + 1, 0)"};

std::vector<std::string> answers(mu::Hist const& h)
{
    std::vector<std::string> r;
    simfil::Environment env(h.pool->strings());
    for (size_t root = 0; root < h.pool->numRoots(); ++root)
        for (auto& q : queries) {
            auto o = eu::run(env, q, *h.pool->root(root));
            std::string s = o.kind == eu::Outcome::Values ? eu::showAll(o.v) : "raises";
            if (q == "keys(_)") s = mu::fold(s);     // spelled as first interned
            r.push_back(q + " on root " + std::to_string(root) + ": " + s);
        }
    return r;
}
void alike(mu::Hist const& h, std::vector<std::string> const& want, std::string const& at)
{
    try { h.check(); } catch (mc::Fail& f) { mc::fail(at + f.msg); }
    auto got = answers(h);
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) mc::fail(at + "query " + got[i] + " instead of " + want[i]);
}
}

// Large models: kind, size, a pool into which everything is moved (and moved on into another one)
void large(std::string const& c, mc::Run& run)
{
    const char kind = c[1]; const int n = std::stoi(c.substr(3)), shift = c[2] - '0';
    auto name = [&](int i) { return "k" + std::to_string(kind == 'r' ? i % 7 : i); };
    auto m = std::make_shared<simfil::ModelPool>();
    if (kind == 'w') { auto o = m->newObject(2); for (int i = 0; i < n; ++i) o->addField(name(i), (int64_t)i); m->addRoot(o); }
    else if (kind == 'r') { auto a = m->newArray(); for (int i = 0; i < n; ++i) { auto o = m->newObject(); o->addField(name(i), (int64_t)i); o->addField("k0", (int64_t)-i); a->append(o); } m->addRoot(a); }
    else if (kind == 'm') { for (int i = 0; i < n; ++i) { auto o = m->newObject(1); o->addField(name(i), (int64_t)i); m->addRoot(o); } }
    else { auto o = m->newObject(); m->addRoot(o); for (int i = 0; i < n; ++i) { auto k = m->newObject(1); k->addField("v", (int64_t)i); o->addField(name(i), k); o = k; } }
    auto check = [&](std::string const& at) {
        auto field = [&](simfil::ModelNode const& o, uint32_t pos, std::string const& key, int64_t v, bool node = false) {
            auto id = o.keyAt(pos); auto s = m->strings()->resolve(id);
            if (!s || *s != key) mc::fail(at + "the name " + key + " became " + (s ? std::string(*s) : "dangling"));
            auto k = o.at(pos); if (!k) mc::fail(at + "a child got lost");
            if (!node && !simfil::Value::field(*k).isa(simfil::ValueType::Int)) mc::fail(at + "another value under " + key);
            if (!node && simfil::Value::field(*k).as<simfil::ValueType::Int>() != v) mc::fail(at + "another value under " + key);
            auto g = o.get(id); if (!g || g->addr().value_ != k->addr().value_) { if (kind != 'r') mc::fail(at + key + " is not found"); }
        };
        if (kind == 'w') { auto r = m->root(0); if ((int)r->size() != n) mc::fail(at + "size"); for (int i = 0; i < n; ++i) if (i < 40 || i + 40 > n || n < 5000 || i % 61 == 0) field(*r, i, name(i), i); }
        else if (kind == 'r') { auto r = m->root(0); if ((int)r->size() != n) mc::fail(at + "size"); for (int i = 0; i < n; ++i) { auto o = r->at(i); field(*o, 0, name(i), i); field(*o, 1, "k0", -i); } }
        else if (kind == 'm') { if ((int)m->numRoots() != n) mc::fail(at + "roots"); for (int i = 0; i < n; ++i) field(*m->root(i), 0, name(i), i); }
        else { auto o = m->root(0); for (int i = 0; i < n; ++i) { field(*o, i ? 1 : 0, name(i), 0, true); o = o->at(i ? 1 : 0); field(*o, 0, "v", i); } }
        run.step();
    };
    check("before: ");
    auto to = std::make_shared<simfil::StringPool>(), on = std::make_shared<simfil::StringPool>();
    for (int i = 0; i < shift; ++i) to->emplace("other" + std::to_string(i));
    if (shift > 1) for (int i = n; i-- > 0;) to->emplace(name(i));
    m->setStrings(to); check("moved: ");
    for (auto s : {"x", "v", "k0", "k3"}) on->emplace(s);
    m->setStrings(on); check("moved twice: ");
    run.state(c); run.outcome("large");
}

// A move to a pool which has room for only some of the model's names either succeeds or leaves the model where it was.
void full(std::string const& c, mc::Run& run)
{
    const int room = c[1] - '0'; auto names = c.substr(2);
    auto oldP = pool("AB"), newP = std::make_shared<simfil::StringPool>();
    for (int i = 0; newP->highest() != 65534 - room; ++i) newP->emplace("filler" + std::to_string(i));
    mu::Hist h(oldP), twin; build(h, names); build(twin, names);
    auto want = answers(twin);
    std::set<std::string> missing;
    for (auto n : names) if (auto& w = words[n - 'A']; newP->get(w) == 0 && !w.empty()) missing.insert(mu::fold(w));
    bool raised = false;
    try { h.pool->setStrings(newP); } catch (std::exception const&) { raised = true; }
    if (raised != ((int)missing.size() > room)) mc::fail(raised ? "the move raises although there is room" : "the move succeeds although there is no room");
    if (h.pool->strings() != (raised ? oldP : newP)) mc::fail("the model uses the wrong pool afterwards");
    alike(h, want, raised ? "after the failed move: " : "after the move: ");
    auto other = pool("GB"); h.pool->setStrings(other);
    alike(h, want, "moved to yet another pool: ");
    run.step(); run.state(c); run.outcome(raised ? "no room" : "just enough room");
}

// old|new|names|moves; moves: n to the new pool, o back to the old, s to a pool with the same content as the current, c to a copy, e to an empty pool, + further fields
static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == '#') return large(c, run);
    if (c[0] == '!') return full(c, run);
    std::vector<std::string> part; size_t from = 0;
    for (;;) { auto e = c.find('|', from); part.push_back(c.substr(from, e - from)); if (e == c.npos) break; from = e + 1; }
    auto oldP = pool(part[0]), newP = pool(part[1]);
    mu::Hist h(oldP), neighbourOld(oldP), neighbourNew(newP), twin;
    build(neighbourNew, "GCAH"); build(neighbourOld, "BACD");
    if (part[3].find('1') != part[3].npos) neighbourOld = mu::Hist(oldP);
    build(h, part[2]);
    build(twin, part[2]);
    auto want = answers(twin);
    auto whole = [](mu::Hist const& x, std::string const& at) { try { x.check(); } catch (mc::Fail& f) { mc::fail(at + f.msg); } };
    whole(h, "before: ");
    for (char m : part[3]) {
        auto at = "after move '"s + m + "': ";
        std::shared_ptr<simfil::StringPool> to;
        switch (m) {
        case 'n': to = newP; break;
        case 'o': to = oldP; break;
        case 'c': to = std::make_shared<simfil::StringPool>(*h.pool->strings()); break;
        case 's': { to = std::make_shared<simfil::StringPool>(); auto& s = *h.pool->strings(); for (int i = 128; i <= s.highest(); ++i) if (auto v = s.resolve(i)) to->emplace(*v); break; }
        case 'r': { to = std::make_shared<simfil::StringPool>(); auto& s = *h.pool->strings(); for (int i = s.highest(); i >= 128; --i) if (auto v = s.resolve(i)) to->emplace(*v); break; }
        case 'e': to = std::make_shared<simfil::StringPool>(); break;
        case '+': h.add(0, 'l', "y"); h.add(1, 's', "c"); twin.add(0, 'l', "y"); twin.add(1, 's', "c"); want = answers(twin); break;
        }
        if (to) {
            h.pool->setStrings(to);
            if (h.pool->strings() != to) mc::fail(at + "the model does not use the new pool");
        }
        if (m == part[3].back()) alike(h, want, at); else whole(h, at);
        run.step();
    }
    whole(neighbourOld, "another model on the old pool: ");
    whole(neighbourNew, "another model on the new pool: ");
    bool raised = false;
    try { h.pool->setStrings(nullptr); } catch (std::exception const&) { raised = true; }
    if (!raised) mc::fail("a null pool is accepted");
    whole(h, "after the rejected null pool: ");
    run.state(c);
    run.outcome(part[2].empty() ? "no names" : part[1].empty() ? "empty new pool" : "used new pool");
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C26";
    c.bounds = "all old and new pools of up to 2 strings out of 5 (with case variants, static keys, 300 others), all models with up to 2 (thorough 3) names out of 7 in nested objects and arrays, all sequences of up to 2 (3) moves to the new, the old, an equal, a copied, a reversed or an empty pool and additions in between; two other models share the pools; new pools with room for 0 to 3 more strings; models of up to 8193 fields, objects, roots or levels; content and 12 queries compared with a twin that is never moved";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        std::vector<std::string> fills = {"", "*", "@A", "@DB", "A*"}, names = {""}, moves;
        for (int n = 1; n <= 2; ++n) en::strings("ABCGH", n, [&](std::string const& s) { fills.push_back(s); });
        for (int n = 1; n <= 2; ++n) en::strings("ABCDEFG", n, [&](std::string const& s) { names.push_back(s); });
        for (int n = 1; n <= 2 + th; ++n) en::strings("nosce+r", n, [&](std::string const& s) { moves.push_back(s); });
        for (auto& o : fills) for (auto& n : fills) for (auto& m : names) for (auto v : {"no", "n+"}) emit(o + "|" + n + "|" + m + "|" + v);
        for (auto o : {"", "A", "CG", "*", "@AB"}) for (auto n : {"", "B", "HA", "CG", "*B"}) for (auto m : {"A", "AB", "BCA", "ADCG", "EFAB"}) for (auto& v : moves) emit(o + "|"s + n + "|" + m + "|" + v);
        std::vector<std::string> three; en::strings("ABCDG", 3, [&](std::string const& s) { three.push_back(s); });
        for (auto& m : three) for (auto o : {"", "BA", "*"}) for (auto n : {"", "A", "GH", "CB", "BDA"}) for (auto v : {"n", "nr"}) emit(o + "|"s + n + "|" + m + "|" + v);
        for (int n : {1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193})
            for (char k : "wrmd"s) for (char sh : "012"s) if (n <= 4097 || k != 'd') emit("#"s + k + sh + std::to_string(n));
        for (char room : "0123"s) for (auto m : {"", "A", "AB", "ABD", "BADG", "EFAB", "DHIA"}) emit("!"s + room + m);
        if (th) for (auto& o : three) for (auto& n : three) for (auto m : {"AB", "BCD", "GAD"}) emit(o + "|" + n + "|" + m + "|no+n");
    };
    c.run = run;
    c.blockSize = 8;
    c.minOutcomes = 3;
    return mc::main(argc, argv, c);
}
