// C20: a model pool returns exactly the content built into it.
#include "modelutil.h"
using namespace std::string_literals;

namespace {
const char* hows = "tfijulmdsenFIULMDS";

void values(std::string const& c, mc::Run& run)
{
    auto p = std::make_shared<simfil::ModelPool>();
    auto ints = [&](int64_t v) {
        mu::V w = mu::V::I(v);
        mu::Ref none;
        auto see = [&](simfil::ModelNode const& n, char const* how) { if (n.type() != simfil::ValueType::Int || !mu::same(n.value(), w)) mc::fail("the integer " + std::to_string(v) + " (" + how + ") reads back as " + mu::dump(*p, n)); };
        see(*p->newValue(v), "newValue");
        auto o = p->newObject(); o->addField("x", v); see(*o->get(std::string_view("x")), "addField"); see(*o->at(0), "addField");
        auto a = p->newArray(1); a->append(v); see(*a->at(0), "append");
        if (v >= -32768 && v <= 32767) {
            see(*p->newSmallValue((int16_t)v), "newSmallValue int16");
            o->addField("y", (int16_t)v); see(*o->at(1), "addField int16"); a->append((int16_t)v); see(*a->at(1), "append int16");
        }
        if (v >= 0 && v <= 65535) {
            see(*p->newSmallValue((uint16_t)v), "newSmallValue uint16");
            auto o2 = p->newObject(0); o2->addField("y", (uint16_t)v); see(*o2->at(0), "addField uint16"); auto a2 = p->newArray(0); a2->append((uint16_t)v); see(*a2->at(0), "append uint16");
        }
        run.step(4);
    };
    auto dbl = [&](double d) {
        mu::V w = mu::V::F(d);
        auto see = [&](simfil::ModelNode const& n, char const* how) { if (n.type() != simfil::ValueType::Float || !mu::same(n.value(), w)) mc::fail("the float " + std::to_string(d) + " (" + how + ") reads back as " + mu::dump(*p, n)); };
        see(*p->newValue(d), "newValue");
        auto o = p->newObject(); o->addField("x", d); see(*o->at(0), "addField"); auto a = p->newArray(1); a->append(d); see(*a->at(0), "append");
        run.step(3);
    };
    auto str = [&](std::string const& s) {
        mu::V w = mu::V::S(s);
        auto see = [&](simfil::ModelNode const& n, char const* how) { if (n.type() != simfil::ValueType::String || !mu::same(n.value(), w)) mc::fail("a string of " + std::to_string(s.size()) + " bytes (" + how + ") reads back differently: " + mc::quote(s.substr(0, 40))); };
        auto x = p->newValue(std::string_view(s));
        auto o = p->newObject(); o->addField("x", std::string_view(s)); auto a = p->newArray(1); a->append(std::string_view(s));
        see(*x, "newValue"); see(*o->at(0), "addField"); see(*a->at(0), "append");
        run.step(3);
    };
    switch (c[0]) {
    case 'i': {
        int64_t from = std::stoll(c.substr(1));
        if (from == std::numeric_limits<int64_t>::min()) { for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) { uint64_t u = (uint64_t(1) << k) + d; ints((int64_t)u); ints((int64_t)(0 - u)); } }
        else for (int64_t v = from; v < from + 1000; ++v) ints(v);
        run.outcome("ints"); break;
    }
    case 'd': for (double d : {0.0, -0.0, 1.5, -1e308, 5e-324, 2.2250738585072014e-308, (double)INFINITY, -(double)INFINITY, (double)NAN, 65535.0, 9007199254740993.0, 0.1}) dbl(d); run.outcome("floats"); break;
    case 's': for (int x = 0; x < 256; ++x) { str(std::string(1, (char)x)); str("a" + std::string(1, (char)x) + "b"); } for (size_t n = 0; n < 70000; n = n * 2 + 1) str(std::string(n, 'x')); run.outcome("strings"); break;
    case 'm': {    // very many nodes of one kind, each seen through its address, through an array and as root
        const char kind = c[1]; const int n = std::stoi(c.substr(2));
        std::vector<simfil::ModelNode::Ptr> all; std::vector<simfil::ModelNodeAddress> addr;
        auto list = p->newArray(kind == 'o' ? 0 : n);
        for (int i = 0; i < n; ++i) {
            simfil::ModelNode::Ptr x;
            switch (kind) {
            case 'o': { auto o = p->newObject(i % 3); o->addField("v", (int64_t)i); x = o; break; }
            case 'a': { auto a = p->newArray(i % 3); a->append((int64_t)i); a->append(i % 2 == 0); x = a; break; }
            case 'i': x = p->newValue((int64_t)i << 20); break;
            case 'd': x = p->newValue(i + 0.5); break;
            case 's': x = p->newValue(std::string_view(std::to_string(i))); break;
            }
            addr.push_back(x->addr());
            list->append(x);
            if (i % 5 == 0) p->addRoot(x);
        }
        p->addRoot(list);
        auto see = [&](simfil::ModelNode const& x, int i, char const* how) {
            bool ok = false;
            switch (kind) {
            case 'o': { auto v = x.size() == 1 ? x.get(p->strings()->get("v")) : nullptr; ok = v && mu::same(v->value(), mu::V::I(i)); break; }
            case 'a': { auto v = x.size() == 2 ? x.at(0) : nullptr; ok = v && mu::same(v->value(), mu::V::I(i)) && mu::same(x.at(1)->value(), mu::V::B(i % 2 == 0)); break; }
            case 'i': ok = mu::same(x.value(), mu::V::I((int64_t)i << 20)); break;
            case 'd': ok = mu::same(x.value(), mu::V::F(i + 0.5)); break;
            case 's': ok = mu::same(x.value(), mu::V::S(std::to_string(i))); break;
            }
            if (!ok) mc::fail("node " + std::to_string(i) + " of " + std::to_string(n) + " (" + how + ") has other content");
        };
        if ((int)list->size() != n) mc::fail("the array of all has another size");
        for (int i = 0; i < n; ++i) {
            see(*simfil::ModelNode::Ptr::make(p, addr[i]), i, "by address");
            auto x = list->at(i); if (!x) mc::fail("node " + std::to_string(i) + " is lost"); see(*x, i, "in the array");
            if (i % 5 == 0) see(*p->root(i / 5), i, "as root");
        }
        int i = 0; for (auto x : *list) see(*x, i++, "iterating");
        if (i != n) mc::fail("iterating visits " + std::to_string(i) + " of " + std::to_string(n));
        try { p->validate(); } catch (std::exception const& e) { mc::fail("validation reports "s + e.what()); }
        run.step(3 * n); run.outcome("many nodes"); break;
    }
    case 'N': {    // names
        auto o = p->newObject(0);
        std::vector<std::string> ns; for (int x = 0; x < 256; ++x) if (x < 'A' || x > 'Z') { ns.push_back(std::string(1, (char)x)); ns.push_back("q" + std::string(1, (char)x)); }
        for (size_t n = 3; n < 5000; n = n * 3) ns.push_back(std::string(n, 'y'));
        int64_t v = 0; for (auto& s : ns) o->addField(s, v++);
        v = 0; for (auto& s : ns) { auto x = o->get(std::string_view(s)); if (!x || std::get<int64_t>(x->value()) != v) mc::fail("field " + mc::quote(s) + " is lost"); if (*p->lookupStringId(o->keyAt(v)) != s) mc::fail("name " + mc::quote(s) + " changed"); ++v; }
        run.step(ns.size()); run.outcome("names"); break;
    }
    }
    run.state(c);
}
}

static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == 'V') return values(c.substr(1), run);
    mu::Hist h;
    if (c[0] == 'L') {   // L<pattern>;<n> : containers and appends in a rhythm, many of them
        auto e = c.find(';');
        auto pat = c.substr(1, e - 1); size_t n = std::stoul(c.substr(e + 1));
        h.create(true, 0); h.create(false, 0); h.create(true, 3); h.create(false, -1);
        for (size_t i = 0; i < n; ++i) {
            char o = pat[i % pat.size()];
            if (o == 'N') { int k = h.create(i & 1, i % 4); h.add(k, hows[i % 18], "n" + std::to_string(i % 3)); if (!h.add(i % 4, '0' + 0, "k")) {} h.ref.roots.push_back(mu::V::C(k)); h.pool->addRoot(h.node[k]); }
            else h.add(o - '0', hows[i % 18], "f" + std::to_string(i % 40));
        }
        run.step(n);
        for (size_t k = 0; k < h.ref.conts.size(); ++k) { auto d = mu::dump(*h.pool, *h.node[k]), w = mu::dump(h.ref, mu::V::C(k)); if (d != w) mc::fail("container " + std::to_string(k) + " differs after " + std::to_string(n) + " steps"); }
        if (n <= 300) h.check();
        run.outcome("ladder"); run.state(c);
        return;
    }
    if (!h.ops(c)) return;
    run.step(c.size() / 4);
    h.check();
    run.state(mu::dump(h.ref));
    run.outcome(h.ref.conts.empty() ? "no container" : h.ref.roots.empty() ? "no root" : "roots");
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C20";
#ifdef SMALL
    const int L = SMALL;
#else
    const int L = 0;
#endif
    c.bounds = "all histories of up to " + std::to_string(4 - L) + " (thorough +1) operations out of: new object/array of 4 capacities, 7 ways of adding a value under 3 names to each of 2 containers, nesting, extending (also itself), roots, clear; every one of the 18 value kinds under every one of 9 names; "
               "all interleavings of 8 (thorough 10) appends to 3 containers of capacities 0..2; every int16 and uint16 value, integers around all powers of two, special floats, all bytes; ladders up to 40000 appends and 140 000 nodes; each state read through every access path";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n, std::string const& post = "") { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s + post); }); };
        if (!L) {
            emit("Vi" + std::to_string(std::numeric_limits<int64_t>::min())); emit("Vd"); emit("Vs"); emit("VN");
            for (char k : std::string("oaids")) for (int n : {1, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 140000}) emit("Vm"s + k + std::to_string(n));
            if (th) for (char k : std::string("oaids")) emit("Vm"s + k + "1100000");
            for (int64_t v = -33000; v < 66000; v += 1000) emit("Vi" + std::to_string(v));
        }
        // each value kind under each name in both kinds of container
        for (int k = 0; k < 18; ++k) for (int n = 0; n < 9; ++n) for (auto cap : {"0", "1", "d"}) for (auto kind : {"o", "a"}) {
            auto one = "+0"s + hows[k] + char('0' + n);
            emit(kind + ""s + cap + ".." + one); emit(kind + ""s + cap + ".." + one + one + "r0.."); emit(kind + ""s + cap + ".." + one + "o0..+1d0+11" + "1" + "x0" + "1.");
            for (int k2 = 0; k2 < 18; ++k2) for (int n2 : {0, 2, 4}) emit(kind + ""s + cap + ".." + one + "+0" + hows[k2] + char('0' + n2) + "r0..");
        }
        std::vector<std::string> ops = {"o0..", "o1..", "od..", "a0..", "a2..", "r0..", "r1..", "Rs..", "Ri..", "Rd..", "x00.", "x01.", "x10.", "x11.", "c...", "+011", "+101", "+010", "+100", "+112"};
        for (auto k : {"0", "1"}) for (auto v : {"u0", "s1", "L2", "d0", "t1"}) ops.push_back("+"s + k + v);
        for (int n = 1; n <= 3 + (th && !L); ++n) seqs("", ops, n);
        for (auto pre : {"o0..", "a1..", "od..a0..", "o1..o0..", "a0..a2..", "a1..o0.."}) for (int n = 2; n <= 3 + th - (L > 1); ++n) seqs(pre, ops, n);
        // growth of several containers side by side
        for (auto pre : {"o0..a0..o1..", "a0..a1..a2..", "o2..o0..o0..", "a1..o1..a0.."}) seqs(pre, {"+0u0", "+1s1", "+2l2"}, (th ? 10 : 8) - 2 * L, "r0..r1..r2..");
        for (auto pre : {"o0..o2..", "a0..a2..", "a1..a0.."}) seqs(pre, {"+0u0", "+1s1", "x00.", "x01.", "x10.", "x11."}, (th ? 6 : 5) - L, "r0..r1..");
        if (!L) for (auto pat : {"0", "1", "01", "0123", "N", "N01", "0000000N", "23"}) for (int n : {10, 100, 300, 1000, 9000, 40000}) { std::string p = pat; if (p.find('N') != p.npos && n > 9000) continue; emit("L" + p + ";" + std::to_string(n)); }
    };
    c.run = run;
    c.blockSize = 8;
    c.show = [](std::string const& s) { return s[0] == 'V' || s[0] == 'L' ? s : mu::show(s); };
    c.caseTimeout = 60;
    return mc::main(argc, argv, c);
}
