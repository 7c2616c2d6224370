// C42: node handles keep their model alive, refer to one node through copies, moves and conversions, and raise when empty.
#include "evalutil.h"
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::ModelPool;
using simfil::ValueType;

namespace {
const char* texts[2][2] = {{R"({"o":{"a":[1,-40000],"bB":"text"},"s":"a text that is owned by the pool","n":null})", R"([[3,true],{"a":{"b":2.5}},[]])"}, {R"([{"a":[]},"y",{"a":1,"o":[{"a":0}]}])", R"({"a":{"a":{"a":"deep"}},"o":7})"}};
ref::Doc const& doc(int m, int r) { static std::shared_ptr<ref::Doc> d[2][2]; if (!d[m][r]) d[m][r] = ref::doc(texts[m][r]); return *d[m][r]; }

struct Owners {
    std::shared_ptr<ModelPool> pool[2];
    std::weak_ptr<ModelPool> weak[2];
    std::shared_ptr<simfil::StringPool> strings[2];
    Owners()
    {
        for (int m = 0; m < 2; ++m) {
            pool[m] = std::make_shared<ModelPool>(); weak[m] = pool[m]; strings[m] = pool[m]->strings();
            for (int r = 0; r < 2; ++r) pool[m]->addRoot(eu::build(*doc(m, r).root, *pool[m]));
        }
    }
};

// what a handle refers to: 'e' nothing, 'n' a node of a model, 'v' a value of its own, '?' anything (moved from)
struct Want { char k = 'e'; int m = 0; ref::Node const* n = nullptr; int v = 0; };
const std::string ownTexts[2] = {"an owned text that is carried by the node", "x"};

std::string scalar(simfil::ScalarValueType const& s)
{
    return std::visit([](auto const& v) -> std::string {
        using T = std::decay_t<decltype(v)>;
        if constexpr (std::is_same_v<T, std::monostate>) return "-";
        else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
        else if constexpr (std::is_same_v<T, int64_t>) return "i" + std::to_string(v);
        else if constexpr (std::is_same_v<T, double>) return "f" + std::to_string(v);
        else return "s" + std::string(v);
    }, s);
}
std::string scalar(ref::Node const& n)
{
    switch (n.kind) {
    case ref::Node::Bool: return n.b ? "true" : "false";
    case ref::Node::Int: return "i" + std::to_string(n.i);
    case ref::Node::Float: return "f" + std::to_string(n.f);
    case ref::Node::Str: return "s" + n.s;
    default: return "-";
    }
}
ValueType kind(ref::Node const& n)
{
    switch (n.kind) {
    case ref::Node::Null: return ValueType::Null;
    case ref::Node::Bool: return ValueType::Bool;
    case ref::Node::Int: return ValueType::Int;
    case ref::Node::Float: return ValueType::Float;
    case ref::Node::Str: return ValueType::String;
    case ref::Node::Arr: return ValueType::Array;
    default: return ValueType::Object;
    }
}
void same(ModelNode const& n, ref::Node const& w, simfil::StringPool& strings, std::string const& at, int depth = 0)
{
    auto is = [&](bool ok, char const* what) { if (!ok) mc::fail(at + "the handle shows a different " + what + " than its node has"); };
    is(n.type() == kind(w), "type");
    is(scalar(n.value()) == scalar(w), "value");
    is(n.size() == w.kids.size(), "size");
    is(!n.at(-1) && !n.at(w.kids.size()), "end");
    size_t i = 0;
    for (auto kid : n) {
        is(i < w.kids.size() && kid, "number of children");
        auto& [name, k] = w.kids[i];
        if (w.kind == ref::Node::Obj) {
            auto id = n.keyAt(i);
            is(strings.resolve(id) == std::optional<std::string_view>(name), "name");
            auto g = n.get(id);
            is(g && g->addr().value_ == n.at(i)->addr().value_, "field");
        }
        if (depth < 4) same(*kid, *k, strings, at, depth + 1);
        ++i;
    }
    is(i == w.kids.size(), "number of children");
    if (depth) return;
    i = 0;
    is(n.iterate(ModelNode::IterLambda([&](ModelNode const& c) { is(i < w.kids.size() && c.type() == kind(*w.kids[i].second), "child"); ++i; return true; })), "iteration");
    is(i == w.kids.size(), "iteration");
}

struct Slots { ModelNode::Ptr p[2]; simfil::model_ptr<simfil::Object> o; simfil::model_ptr<simfil::Array> a; };

template <class P> void expect(P& h, Want const& w, Owners& ow, std::string const& at)
{
    P const& ch = h;
    if (w.k == '?') { try { (void)ch->addr(); } catch (std::exception const&) {} return; }
    if (w.k == 'e') {
        if (h) mc::fail(at + "an empty handle reports that it is not");
        int raised = 0;
        try { (void)*h; } catch (std::exception const&) { ++raised; }
        try { (void)*ch; } catch (std::exception const&) { ++raised; }
        try { (void)h->size(); } catch (std::exception const&) { ++raised; }
        try { (void)ch->size(); } catch (std::exception const&) { ++raised; }
        if (raised != 4) mc::fail(at + "an empty handle can be used");
        return;
    }
    if (!h) mc::fail(at + "a handle with a node is empty");
    try {
        if (w.k == 'v') { if (ch->type() != ValueType::String || scalar(ch->value()) != "s" + ownTexts[w.v] || ch->size()) mc::fail(at + "the handle does not carry its value"); return; }
        if (&*h != &*ch || h.operator->() != &*h) mc::fail(at + "a handle leads to two nodes");
        same(*ch, *w.n, *ow.strings[w.m], at);
    } catch (std::exception const& e) { mc::fail(at + "using a handle raises: " + e.what()); }
}
template <class F> bool raises(F&& f) { try { f(); return false; } catch (std::exception const&) { return true; } }
}

// three bytes per operation: kind, destination (0, 1 nodes; 2 object; 3 array), source or argument
static void run(std::string const& c, mc::Run& run)
{
    Owners ow;
    {
        Slots s;
        Want w[4];
        std::string st;
        auto with = [&](int i, auto&& f) { if (i < 2) f(s.p[i]); else if (i == 2) f(s.o); else f(s.a); };
        for (size_t p = 0; p + 3 <= c.size(); p += 3) {
            const char op = c[p]; const int d = c[p + 1] - '0', j = c[p + 2] - '0';
            const auto at = "step " + std::to_string(p / 3) + " " + c.substr(p, 3) + ": ";
            run.step();
            auto child = [&](auto&& take, auto&& pick, auto&& bad) {
                if (w[j].k == '?') return;
                ModelNode::Ptr r;
                const bool raised = raises([&] { with(j, [&](auto& h) { r = take(h); }); });
                if (raised != (w[j].k == 'e')) mc::fail(at + (raised ? "raises" : "an empty handle has children"));
                if (raised) return;
                (void)bad;
                s.p[d] = r;
                auto n = w[j].k == 'n' ? pick(*w[j].n) : nullptr;
                w[d] = n ? Want{'n', w[j].m, n} : Want{};
            };
            switch (op) {
            case 'r': if (ow.pool[j / 2]) { s.p[d] = ow.pool[j / 2]->root(j % 2); w[d] = {'n', j / 2, doc(j / 2, j % 2).root}; } break;
            case 'x': case 'y': { int i = op == 'y'; child([&](auto& h) { return h->at(i); }, [&](ref::Node const& n) { return n.at(i); }, 0); break; }
            case 'g': child([&](auto& h) { return h->get(w[j].k == 'n' ? ow.strings[w[j].m]->get("a") : 5); }, [&](ref::Node const& n) { return n.get("a"); }, 0); break;
            case 'O': {   // by name, with the string
                if (w[2].k == '?') break;
                ModelNode::Ptr r;
                const bool raised = raises([&] { r = s.o->get(std::string_view("A")); });
                if (raised != (w[2].k == 'e')) mc::fail(at + "raises or not");
                if (raised) break;
                auto n = w[2].n->get("a"); s.p[d] = r; w[d] = n ? Want{'n', w[2].m, n} : Want{};
                break;
            }
            case 'c': {
                auto x = w[j];
                if (d < 2) with(j, [&](auto& h) { auto const& ch = h; s.p[d] = ch; });
                else if (d == 2) { auto& q = s.o; s.o = q; } else { auto& q = s.a; s.a = q; }
                w[d] = x;
                break;
            }
            case 'C': {   // through a constructor
                auto x = w[j];
                if (d < 2) with(j, [&](auto& h) { ModelNode::Ptr t(h); ModelNode::Ptr u(t); s.p[d] = std::move(u); expect(t, x, ow, at); });
                else if (d == 2) { auto t = s.o; s.o = std::move(t); } else { auto t = s.a; s.a = std::move(t); }
                w[d] = x;
                break;
            }
            case 'm': {
                auto x = w[j];
                if (d < 2) with(j, [&](auto& h) { s.p[d] = std::move(h); });
                else if (d == 2) { auto& q = s.o; s.o = std::move(q); } else { auto& q = s.a; s.a = std::move(q); }
                if (d != j) { w[d] = x; if (x.k != 'e') w[j].k = '?'; } else if (x.k != 'e') w[d].k = '?';
                break;
            }
            case 'd': ow.pool[j].reset(); break;
            case 'n': with(d, [&](auto& h) { h = nullptr; }); w[d] = {}; break;
            case 'v': s.p[d] = simfil::ValueNode(ownTexts[j]); w[d] = {'v', 0, nullptr, j}; break;
            case 'R': {   // as object or array
                if (w[j].k == '?' || w[j].k == 'v') break;
                auto m = w[j].k == 'n' ? w[j].m : 0;
                if (!ow.pool[m]) break;
                const bool fits = w[j].k == 'n' && w[j].n->kind == (d == 2 ? ref::Node::Obj : ref::Node::Arr);
                const bool raised = raises([&] { if (d == 2) s.o = ow.pool[m]->resolveObject(s.p[j]); else s.a = ow.pool[m]->resolveArray(s.p[j]); });
                if (raised == fits) mc::fail(at + (raised ? "raises" : "a node of another kind or an empty handle is accepted"));
                if (!raised) w[d] = w[j];
                break;
            }
            }
            bool held[2] = {}, unsure = false;
            for (int i = 0; i < 4; ++i) { with(i, [&](auto& h) { expect(h, w[i], ow, at + "handle " + std::to_string(i) + ": "); }); unsure |= w[i].k == '?'; if (w[i].k == 'n') held[w[i].m] = true; }
            if (w[3].k == 'n') { size_t i = 0; s.a->forEach([&](ModelNode const& k) { if (i >= w[3].n->kids.size() || k.type() != kind(*w[3].n->kids[i].second)) mc::fail(at + "forEach"); ++i; return true; }); if (i != w[3].n->kids.size()) mc::fail(at + "forEach stops early"); }
            for (int m = 0; m < 2; ++m) {
                if (ow.weak[m].expired() && (ow.pool[m] || held[m])) mc::fail(at + "the model is gone although a handle refers to it");
                if (!ow.weak[m].expired() && !ow.pool[m] && !held[m] && !unsure) mc::fail(at + "the model stays although nothing refers to it");
            }
            st += c.substr(p, 3);
            run.state(st);
        }
        for (int m = 0; m < 2; ++m) if (ow.pool[m]) for (int r = 0; r < 2; ++r) same(*ow.pool[m]->root(r), *doc(m, r).root, *ow.strings[m], "afterwards: ");
        run.outcome("handles "s + w[0].k + w[1].k);
    }
    for (int m = 0; m < 2; ++m) { ow.pool[m].reset(); if (!ow.weak[m].expired()) mc::fail("a model is never released"); }
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C42";
#ifdef SMALL
    const int L = 1;
#else
    const int L = 0;
#endif
    c.bounds = "all histories of up to " + std::to_string(3 - L) + " (thorough +1) of 70 operations on two node handles, an object handle and an array handle over two models with two roots each: root, child by position and name, copies, moves and conversions by assignment and constructor (also to itself), "
               "resolving as object or array, a node with a value of its own, emptying, dropping the owner of a model; from no handles and from 6 states with all handles set; every handle read completely after each step";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        std::vector<std::string> ops;
        for (char d : "01"s) {
            for (char j : "0123"s) { for (char o : "rxygcCm"s) ops.push_back(std::string{o, d, j}); }
            for (char j : "01"s) ops.push_back(std::string{'v', d, j});
            ops.push_back(std::string{'O', d, '2'});
        }
        for (auto s : {"c22", "c33", "C22", "C33", "m22", "m33", "d00", "d01", "n00", "n10", "n20", "n30", "R20", "R21", "R30", "R31"}) ops.push_back(s);
        const std::vector<std::string> starts = {"", "r00r12R20R31d00", "r00R20r01R30x02", "r02r13R30R21g12d01", "r13R20r12R31d00d01", "v00r10R21y11", "r00x00R20r01x11d00"};
        auto seqs = [&](std::string const& pre, int n) { en::sequences(ops.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += ops[i]; emit(s); }); };
        for (int n = 1; n <= 2; ++n) seqs("", n);
        for (int n = 1; n <= (th ? 3 : 2) - L; ++n) for (auto& s : starts) seqs(s, n);
        if (!L) { seqs("", 3); seqs(starts[1], 3); if (th) seqs(starts[2], 3); }
        if (th && !L) for (auto i : {1, 2, 3}) seqs(starts[i], 4);
    };
    c.run = run;
    c.show = [](std::string const& s) { return s; };
    c.minOutcomes = 8;
    return mc::main(argc, argv, c);
}
