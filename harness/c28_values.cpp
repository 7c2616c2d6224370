// C28: values and transient objects copy, move and assign without loss or double free.
#include "evalutil.h"
#include "gen.h"
#include "simfil/transient.h"
#include <new>
#include <set>
using namespace std::string_literals;
using simfil::TransientObject;
using simfil::Value;
using simfil::ValueType;

namespace {
struct Cell { int id; unsigned magic = 0xC0FFEE; };
struct Monitor {
    std::set<Cell*> live; std::string error; int copies = 0, throwAt = -1;
    void bad(std::string m) { if (error.empty()) error = std::move(m); }
    void check(Cell const* c, char const* what) { if (!live.count(const_cast<Cell*>(c))) bad(std::string(what) + " of a payload that does not exist"); }
} mon;
struct CopyFailed : std::runtime_error { CopyFailed() : std::runtime_error("copy failed") {} };

struct Counting : simfil::MetaType {
    using MetaType::MetaType;
    auto init() const -> void* override { auto c = new Cell{0}; mon.live.insert(c); return c; }
    auto copy(void* p) const -> void* override
    {
        mon.check((Cell*)p, "copy");
        if (mon.throwAt >= 0 && mon.copies++ == mon.throwAt) throw CopyFailed();
        auto c = new Cell{mon.live.count((Cell*)p) ? ((Cell*)p)->id : -1}; mon.live.insert(c); return c;
    }
    auto deinit(void* p) const -> void override { mon.check((Cell*)p, "release"); if (mon.live.erase((Cell*)p)) delete (Cell*)p; }
    auto make(int id) const -> TransientObject { TransientObject o(this); ((Cell*)o.data)->id = id; return o; }
    auto unaryOp(std::string_view op, const TransientObject& o) const -> Value override
    {
        mon.check((Cell*)o.data, "use");
        if (op == "string") return Value::make("cell"s);
        if (op == "typeof") return Value::make(ident);
        if (op == "~" || op == "-") return Value::make(make(((Cell*)o.data)->id + 1));
        throw std::runtime_error("no such operator");
    }
    auto binaryOp(std::string_view op, const TransientObject& o, const Value&) const -> Value override
    {
        mon.check((Cell*)o.data, "use");
        if (op == "+") return Value::make(make(((Cell*)o.data)->id + 1));
        if (op == "==") return Value::t();
        throw std::runtime_error("no such operator");
    }
    auto binaryOp(std::string_view op, const Value&, const TransientObject& o) const -> Value override { return binaryOp(op, o, Value::null()); }
    auto unpack(const TransientObject& o, std::function<bool(Value)> fn) const -> void override { mon.check((Cell*)o.data, "use"); for (int i = 0; i < 2; ++i) if (!fn(Value::make(make(i)))) return; }
};
Counting metaA("cell"), metaB("other");

const std::string longText = "a string that does not fit into any small buffer", refText = "text that is only referred to";
// what a slot holds: kind and a number
struct Want { char k = 'n'; int id = 0; };
eu::Model& doc() { static auto m = eu::model(R"({"o":{"a":1},"v":5})"); return m; }

Value makeValue(char k, int id)
{
    switch (k) {
    case 'n': return Value::null();
    case 'U': return Value::undef();
    case 'b': return Value::make(true);
    case 'i': return Value::make((int64_t)id);
    case 'f': return Value::make(0.5 + id);
    case 's': return Value::make(longText + std::to_string(id));
    case 'r': return Value::strref(refText);
    case 't': return Value::make(metaA.make(id));
    case 'u': return Value::make(metaB.make(id));
    case 'o': return Value::field(*doc().root->get(doc().pool->strings()->get("o")));
    case 'v': return Value::field(*doc().root->get(doc().pool->strings()->get("v")));
    }
    return Value::undef();
}
Cell const* payload(TransientObject const& o) { return (Cell const*)o.data; }
TransientObject const* transient(Value const& v) { return std::get_if<TransientObject>(&v.value); }

void expect(Value const& v, Want const& w, std::string const& at)
{
    auto is = [&](bool ok) { if (!ok) mc::fail(at + "does not hold what was assigned to it (" + w.k + std::to_string(w.id) + ") but " + eu::show(v)); };
    switch (w.k) {
    case '?': return;
    case 'n': is(v.isa(ValueType::Null) && !v.node); break;
    case 'U': is(v.isa(ValueType::Undef)); break;
    case 'b': is(v.isBool(true)); break;
    case 'i': is(v.isa(ValueType::Int) && v.as<ValueType::Int>() == w.id); break;
    case 'f': is(v.isa(ValueType::Float) && v.as<ValueType::Float>() == 0.5 + w.id); break;
    case 's': is(v.isa(ValueType::String) && std::holds_alternative<std::string>(v.value) && v.as<ValueType::String>() == longText + std::to_string(w.id)); break;
    case 'r': is(v.isa(ValueType::String) && std::holds_alternative<std::string_view>(v.value) && v.as<ValueType::String>() == refText); break;
    case 't': case 'u': {
        auto t = transient(v);
        is(v.isa(ValueType::TransientObject) && t && t->meta == (w.k == 't' ? &metaA : &metaB) && t->data && mon.live.count((Cell*)t->data) && payload(*t)->id == w.id && payload(*t)->magic == 0xC0FFEE);
        break;
    }
    case 'o': is(v.isa(ValueType::Object) && v.node && v.node->size() == 1); break;
    case 'v': is(v.isa(ValueType::Int) && v.as<ValueType::Int>() == 5 && v.node && std::get<int64_t>(v.node->value()) == 5); break;
    }
}
void expect(TransientObject const& t, Want const& w, std::string const& at)
{
    if (w.k == '?') return;
    if (t.meta != (w.k == 't' ? &metaA : &metaB) || !t.data || !mon.live.count((Cell*)t.data) || payload(t)->id != w.id) mc::fail(at + "the transient object does not hold what was assigned to it");
}

template <class T> struct Slots {
    alignas(T) unsigned char raw[3][sizeof(T)];
    Want w[3];
    T& at(int i) { return *std::launder(reinterpret_cast<T*>(raw[i])); }
};
void after(std::string const& at, std::vector<void const*> const& held)
{
    if (!mon.error.empty()) mc::fail(at + mon.error);
    std::set<void const*> distinct;
    for (auto p : held) if (p && !distinct.insert(p).second) mc::fail(at + "two objects share one payload");
    for (auto p : distinct) if (!mon.live.count((Cell*)p)) mc::fail(at + "an object holds a released payload");
    if (distinct.size() != mon.live.size()) mc::fail(at + std::to_string(mon.live.size()) + " payloads exist, " + std::to_string(distinct.size()) + " are held");
}
void payloads(Value const& v, std::vector<void const*>& out) { if (auto t = transient(v)) out.push_back(t->data); }
void payloads(TransientObject const& t, std::vector<void const*>& out) { out.push_back(t.data); }
template <class T> T fresh(char k, int id) { if constexpr (std::is_same_v<T, Value>) return makeValue(k, id); else return (k == 't' ? metaA : metaB).make(id); }

// ops of three bytes: k<slot><kind>, then <op><i><j>: c copy assign, m move assign, C copy construct, M move construct, s swap, v vector of copies, x copy of a copy, q move through a temporary
template <class T> void history(std::string const& c, mc::Run& run, int throwAt)
{
    mon = {};
    std::string st;
    {
        Slots<T> s;
        for (int i = 0; i < 3; ++i) { char k = std::is_same_v<T, Value> ? 'n' : 't'; new (s.raw[i]) T(fresh<T>(k, 100 + i)); s.w[i] = {k, 100 + i}; }
        mon.throwAt = throwAt; mon.copies = 0;
        struct Guard { Slots<T>& s; bool armed = true; void go() { if (armed) { armed = false; for (int i = 0; i < 3; ++i) s.at(i).~T(); } } ~Guard() { go(); } } guard{s};
        auto movedFrom = [&](Want x) { return std::is_same_v<T, Value> && (x.k == 'b' || x.k == 'i' || x.k == 'f' || x.k == 'r' || x.k == 'U') ? x : Want{'?', 0}; };
        auto movedSelf = [&](Want x) { return x.k == 's' ? Want{'?', 0} : x; };
        for (size_t p = 0; p + 3 <= c.size(); p += 3) {
            char o = c[p]; int i = c[p + 1] - '0', j = c[p + 2] - '0';
            auto at = "step " + std::to_string(p / 3) + " " + c.substr(p, 3) + ": ";
            run.step();
            try {
                switch (o) {
                case 'k': { char k = c[p + 2]; s.at(i) = fresh<T>(k, p + 1); s.w[i] = {k, (int)p + 1}; break; }
                case 'c': s.w[i].k = i == j ? s.w[i].k : '?'; s.at(i) = (T const&)s.at(j); s.w[i] = s.w[j]; break;
                case 'm': s.at(i) = std::move(s.at(j)); if (i == j) s.w[i] = movedSelf(s.w[i]); else { s.w[i] = s.w[j]; s.w[j] = movedFrom(s.w[j]); } break;
                case 'C': if (i == j) { T t(s.at(i)); s.at(i).~T(); new (s.raw[i]) T(std::move(t)); } else { T t(s.at(j)); s.at(i).~T(); new (s.raw[i]) T(std::move(t)); s.w[i] = s.w[j]; } break;
                case 'M': { T t(std::move(s.at(j))); auto w = s.w[j]; s.w[j] = movedFrom(w); s.at(i).~T(); new (s.raw[i]) T(std::move(t)); s.w[i] = w; break; }
                case 's': { std::swap(s.at(i), s.at(j)); if (i == j) s.w[i] = s.w[i]; else std::swap(s.w[i], s.w[j]); break; }
                case 'v': { std::vector<T> v; for (int n = 0; n < 3; ++n) { v.push_back(s.at(i)); v.push_back(s.at(j)); v.insert(v.begin(), v.back()); } v.erase(v.begin() + 1); v[0] = v[2]; for (auto& x : v) if (&x == &v.back()) expect(x, s.w[j], at + "in a vector: "); break; }
                case 'x': { T t(s.at(j)); T u(t); u = t; t = u; expect(u, s.w[j], at); s.w[i].k = '?'; s.at(i) = u; s.w[i] = s.w[j]; break; }
                case 'q': { T t = std::move(s.at(j)); auto w = s.w[j]; s.w[j] = movedFrom(w); T u = std::move(t); if (i != j) s.w[i].k = '?'; s.at(i) = std::move(u); s.w[i] = w; break; }
                }
            } catch (CopyFailed const&) {
                if (throwAt < 0) mc::fail("harness");
                // nothing leaks; the destination may hold anything
                if (o == 'c' || o == 'x') s.w[i] = {'?', 0};
            }
            std::vector<void const*> held;
            for (int n = 0; n < 3; ++n) { payloads(s.at(n), held); expect(s.at(n), s.w[n], at + "slot " + std::to_string(n) + " "); }
            after(at, held);
            st += c.substr(p, 3);
            run.state(st);
        }
        guard.go();
    }
    after("after destruction: ", {});
    run.outcome(throwAt >= 0 ? "failing copies" : std::is_same_v<T, Value> ? "values" : "transient objects");
}

struct Maker : simfil::Function {
    simfil::FnInfo info; bool constant;
    Maker(std::string n, bool c) : info{n, "", ""}, constant(c) {}
    auto ident() const -> const simfil::FnInfo& override { return info; }
    auto eval(simfil::Context ctx, Value, const std::vector<simfil::ExprPtr>&, const simfil::ResultFn& res) const -> simfil::Result override
    {
        if (ctx.phase == simfil::Context::Compilation && !constant) return res(ctx, Value::undef());
        if (res(ctx, Value::make(metaA.make(1))) == simfil::Stop) return simfil::Stop;
        return res(ctx, Value::make(metaB.make(2)));
    }
};
void query(std::string const& q, mc::Run& run)
{
    mon = {};
    static Maker mk("mk", true), mv("mv", false);
    auto& m = doc();
    {
        simfil::Environment env(m.pool->strings());
        env.functions["mk"] = &mk; env.functions["mv"] = &mv;
        env.constants.emplace("cc", Value::make(metaA.make(7)));
        simfil::ExprPtr e;
        try { e = simfil::compile(env, q, false); } catch (std::exception const&) { run.outcome("compile error"); }
        if (e) for (int round = 0; round < 2; ++round) {
            auto before = mon.live;
            {
                std::vector<Value> v;
                try { v = simfil::eval(env, *e, *m.root); run.outcome("values"); } catch (std::exception const&) { run.outcome("raises"); }
                for (auto& x : v) if (auto t = transient(x)) if (t->data && (t->meta == &metaA || t->meta == &metaB) && !mon.live.count((Cell*)t->data)) mc::fail("a result holds a released payload");
                auto copy = v; auto moved = std::move(v); if (!copy.empty()) copy[0] = moved.back();
            }
            if (!mon.error.empty()) mc::fail(mon.error);
            bool traces = q.find("trace") != q.npos;
            if (!traces && mon.live != before) mc::fail("evaluating changed the set of living payloads: " + std::to_string(before.size()) + " before, " + std::to_string(mon.live.size()) + " after");
            run.step();
        }
    }
    if (!mon.error.empty()) mc::fail(mon.error);
    if (!mon.live.empty()) mc::fail(std::to_string(mon.live.size()) + " payloads are never released");
    run.state(q);
}
}

static void run(std::string const& c, mc::Run& run)
{
    auto rest = c.substr(1);
    if (c[0] == 'V') history<Value>(rest, run, -1);
    else if (c[0] == 'T') history<TransientObject>(rest, run, -1);
    else if (c[0] == 'X') { for (int n = 0; n < 12; ++n) { history<Value>(rest, run, n); history<TransientObject>(rest.find_first_of("nUbifsrov") == rest.npos ? rest : "k0t", run, n); } }
    else query(rest, run);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C28";
#ifdef SMALL
    const int L = 1;
#else
    const int L = 0;
#endif
    c.bounds = "all histories of up to " + std::to_string(3 - L) + " (thorough +1) operations on 3 slots: set to one of 11 kinds of values, copy/move assignment and construction between all pairs of slots (also to themselves and from moved ones), swap, vectors; longer ones over 2 slots; the same for bare transient objects; every copy failing in turn; payloads counted after each step. "
               "All queries of depth 2 over functions and constants that yield transient objects, evaluated twice";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s); }); };
        std::vector<std::string> all, few, tr, two;
        for (char i : std::string("012")) for (char k : std::string("nUbifsrtuov")) all.push_back("k"s + i + k);
        for (char o : std::string("cmCMsvxq")) for (char i : std::string("012")) for (char j : std::string("012")) { all.push_back(std::string{o, i, j}); tr.push_back(std::string{o, i, j}); if (i < '2' && j < '2') two.push_back(std::string{o, i, j}); }
        for (auto k : {"k0t", "k1u", "k1t", "k0n", "k1s"}) two.push_back(k);
        tr.push_back("k0t"); tr.push_back("k1u"); tr.push_back("k2t");
        for (int n = 1; n <= 2; ++n) seqs("V", all, n);
        for (char k1 : std::string("nUbifsrtuov")) for (char k2 : std::string("nsrtuov")) seqs("Vk0"s + k1 + "k1" + k2, two, (th ? 3 : 2) - (L && (k1 != 't' || k2 != 'u')));
        seqs("Vk0tk1u", two, (th ? 4 : 3) - L);
        if (!L) seqs("V", all, 3);
        for (int n = 1; n <= (th ? 4 : 3) - L; ++n) seqs("T", tr, n);
        for (int n = 1; n <= 2; ++n) seqs("Xk0tk1u", two, n);
        auto g = gen::universal({"mk()", "mv()", "cc", "v"});
        for (auto& l : g.leaves) emit("Q" + l);
        auto l1 = gen::level1(g);
        for (auto& q : l1) emit("Q" + q);
        std::vector<std::string> inner;
        for (auto& q : l1) if (th || q.find("mk()") != q.npos || q.find("mv()") != q.npos) inner.push_back(q);
        if (!L) gen::around(g, inner, [&](std::string const& q) { emit("Q" + q); });
    };
    c.run = run;
    c.show = [](std::string const& s) { return s; };
    c.minOutcomes = 5;
    return mc::main(argc, argv, c);
}
