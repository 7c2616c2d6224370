// C29: overlay and procedural objects present one consistent node.
#include "modelutil.h"
#include "evalutil.h"
#include "gen.h"
#include "simfil/overlay.h"
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::ModelPool;
using simfil::OverlayNode;
using simfil::StringId;
using simfil::StringPool;
using simfil::Value;
using simfil::ValueType;

namespace {
std::string text(simfil::ScalarValueType const& v)
{
    if (auto s = std::get_if<std::string_view>(&v)) return "'" + std::string(*s) + "'";
    if (auto s = std::get_if<std::string>(&v)) return "'" + *s + "'";
    if (auto i = std::get_if<int64_t>(&v)) return std::to_string(*i);
    if (auto d = std::get_if<double>(&v)) return std::to_string(*d) + "f";
    if (auto b = std::get_if<bool>(&v)) return *b ? "true" : "false";
    return "null";
}
// Everything a node shows, through one path of access at a time.
std::string look(ModelNode const& n, int depth = 0)
{
    std::string s = std::to_string((int)n.type()) + text(n.value()) + "(" + std::to_string(n.size());
    if (depth > 6) return s;
    for (uint32_t i = 0; i < n.size(); ++i) { auto c = n.at(i); s += " " + std::to_string(n.keyAt(i)) + ":" + (c ? look(*c, depth + 1) : "-"); }
    return s + ")";
}

// ---------- overlay ----------
const std::string longText = "text that does not fit into a small string";
struct Sources { eu::Model m = eu::model(R"({"a":{"b":1,"c":[true,null,"x"]},"n":5,"l":[1,{"a":2}],"s":"str","z":null})"); StringId id(char const* s) { return m.pool->strings()->get(s); } };
Sources& src() { static Sources s; return s; }
Value value(char k)
{
    auto& s = src();
    auto field = [&](char const* f) { return Value::field(*s.m.root->get(s.id(f))); };
    switch (k) {
    case 'n': return Value::null();
    case 'b': return Value::make(true);
    case 'i': return Value::make((int64_t)-7);
    case 'f': return Value::make(2.5);
    case 's': return Value::make(std::string(longText));
    case 'r': return Value::strref(std::string_view(longText).substr(0, 4));
    case 'e': return Value::make(std::string());
    case 'O': return field("a");
    case 'L': return field("l");
    case 'N': return field("n");
    case 'S': return field("s");
    case 'Z': return field("z");
    case 'R': return Value::field(*s.m.root);
    case 'U': return Value::undef();        // a setting all the same: it shows as a node without a value
    }
    return Value::null();
}
// what the value looks like as a node
std::string shown(Value v) { if (v.isa(ValueType::Undef)) v = Value::null(); if (v.node) return look(*v.node); return std::to_string((int)v.type) + text(v.getScalar()) + "(0)"; }

void overlay(std::string const& c, mc::Run& run)     // <kind of underlying><(key,kind)*>; key '!' copies the handle, '*' switches to a second overlay on the first
{
    auto& s = src();
    std::vector<StringId> keys = {StringPool::OverlaySum, StringPool::OverlayValue, StringPool::OverlayIndex, s.id("a"), s.id("b"), s.id("n"), 0, 60000};
    struct Ov { simfil::model_ptr<OverlayNode> n; Value under; std::map<StringId, char> set; };
    std::vector<Ov> ovs;
    ovs.push_back({simfil::model_ptr<OverlayNode>::make(value(c[0])), value(c[0]), {}});
    simfil::model_ptr<OverlayNode> other = ovs[0].n;
    std::function<std::string(size_t)> lookOv;
    auto baseGet = [&](size_t k, StringId id, auto&& self) -> std::optional<std::string> {
        auto& o = ovs[k];
        if (auto i = o.set.find(id); i != o.set.end()) return shown(value(i->second));
        if (k) return self(k - 1, id, self);
        if (!o.under.node) return {};
        auto p = o.under.node->get(id);
        if (!p) return {};
        return look(*p);
    };
    auto check = [&](std::string const& at) {
        for (size_t k = 0; k < ovs.size(); ++k)
            for (auto handle : {0, 1, 2}) {
                if (handle == 1 && k) continue;
                ModelNode::Ptr generic = ovs[k].n;
                ModelNode const& n = handle == 0 ? (ModelNode const&)*ovs[k].n : handle == 1 ? (ModelNode const&)*other : *generic;
                for (auto id : keys) {
                    auto w = baseGet(k, id, baseGet);
                    auto p = n.get(id);
                    if ((bool)p != w.has_value()) mc::fail(at + "get(" + std::to_string(id) + ") finds " + (p ? "something" : "nothing"));
                    if (p && look(*p) != *w) mc::fail(at + "get(" + std::to_string(id) + ") is " + look(*p) + " instead of " + *w);
                }
                if (n.type() != ValueType::Object) mc::fail(at + "an overlay is not an object");
                auto& u = ovs[0].under;
                uint32_t size = u.node ? u.node->size() : 0;
                if (n.size() != size) mc::fail(at + "size is " + std::to_string(n.size()) + " instead of that of the underlying node");
                if (text(n.value()) != text(Value(u).getScalar())) mc::fail(at + "value is " + text(n.value()) + " instead of " + text(Value(u).getScalar()));
                for (int64_t i = -2; i < (int64_t)size + 2; ++i) {
                    auto a = n.at(i), b = u.node ? u.node->at(i) : ModelNode::Ptr{};
                    if ((bool)a != (bool)b || (a && look(*a) != look(*b))) mc::fail(at + "at(" + std::to_string(i) + ") is not that of the underlying node");
                    if (n.keyAt(i) != (u.node ? u.node->keyAt(i) : StringPool::Empty)) mc::fail(at + "keyAt(" + std::to_string(i) + ") is not that of the underlying node");
                }
                for (uint32_t stop = 0; stop <= size; ++stop) {
                    std::string got, want; uint32_t i = 0, j = 0;
                    bool r = n.iterate(ModelNode::IterLambda([&](ModelNode const& x) { got += look(x); return i++ != stop; }));
                    bool r2 = u.node ? u.node->iterate(ModelNode::IterLambda([&](ModelNode const& x) { want += look(x); return j++ != stop; })) : true;
                    if (got != want || r != r2) mc::fail(at + "iterate differs from that of the underlying node");
                }
            }
    };
    check("fresh: ");
    std::string st(1, c[0]);
    for (size_t i = 1; i + 1 < c.size(); i += 2) {
        auto at = "step " + c.substr(i, 2) + ": ";
        auto& cur = ovs.back();
        if (c[i] == '*') { if (ovs.size() > 1) return; Value v = Value::field(cur.n); ovs.push_back({simfil::model_ptr<OverlayNode>::make(v), v, {}}); }
        else if (c[i] == '1') { other->set(keys[c[i] - '0'], value(c[i + 1])); ovs[0].set[keys[c[i] - '0']] = c[i + 1]; }     // through another handle
        else { auto v = value(c[i + 1]); cur.n->set(keys[c[i] - '0'], v); cur.set[keys[c[i] - '0']] = c[i + 1]; }
        check(at);
        run.step();
        st += c.substr(i, 2);
        run.state("o" + st);
    }
    // a query sees the same
    if (ovs.size() == 1 && ovs[0].set.count(keys[0])) {
        simfil::Environment env(s.m.pool->strings());
        auto o = eu::run(env, "$sum", *ovs[0].n);
        if (o.kind != eu::Outcome::Values || o.v.size() != 1) mc::fail("the query $sum does not give one value");
        auto w = value(ovs[0].set[keys[0]]); if (w.isa(ValueType::Undef)) w = Value::null();
        if (eu::show(o.v[0]) != eu::show(w)) mc::fail("the query $sum gives " + eu::show(o.v[0]) + " instead of " + eu::show(w));
    }
    run.outcome(ovs[0].under.node ? "overlay on a node" : "overlay on a value");
}

// many settings on one overlay, or a tower of overlays with one setting each (setting i hides key i % mod)
void big(char kind, int n, char under, mc::Run& run)
{
    auto& s = src();
    std::vector<simfil::model_ptr<OverlayNode>> tower{simfil::model_ptr<OverlayNode>::make(value(under))};
    std::map<StringId, int64_t> want;
    const int mod = kind == 't' ? 1 + n / 2 : n;
    auto check = [&](std::string const& at) {
        auto& o = *tower.back();
        for (int k = 0; k < mod + 2; ++k) {
            StringId id = 1000 + k;
            auto p = o.get(id); auto w = want.find(id);
            if ((bool)p != (w != want.end())) mc::fail(at + "get(" + std::to_string(id) + ") finds " + (p ? "something" : "nothing"));
            if (p && text(p->value()) != std::to_string(w->second)) mc::fail(at + "get(" + std::to_string(id) + ") is " + text(p->value()) + " instead of " + std::to_string(w->second));
        }
        auto u = value(under);
        for (auto id : {s.id("a"), s.id("n"), s.id("b")}) { auto a = o.get(id), b = u.node ? u.node->get(id) : ModelNode::Ptr{}; if ((bool)a != (bool)b || (a && look(*a) != look(*b))) mc::fail(at + "the field underneath is hidden"); }
        if (o.size() != (u.node ? u.node->size() : 0)) mc::fail(at + "size");
        run.step();
    };
    for (int i = 0; i < n; ++i) {
        if (kind == 't' && i) tower.push_back(simfil::model_ptr<OverlayNode>::make(Value::field(tower.back())));
        tower.back()->set(1000 + i * 7 % mod, Value::make((int64_t)i));
        want[1000 + i * 7 % mod] = i;
        if ((i & (i + 1)) == 0) check("after " + std::to_string(i + 1) + ": ");
    }
    check("at the end: ");
    run.state(std::string(1, kind) + std::to_string(n) + under); run.outcome("large overlay");
}

// ---------- procedural objects ----------
const std::vector<std::string> names = {"a", "b", "n", "s"};
template <uint16_t Max> struct Proc : simfil::ProceduralObject<Max, Proc<Max>> {
    using Base = simfil::ProceduralObject<Max, Proc<Max>>;
    using Base::fields_;
    Proc(std::string const& f, simfil::ModelConstPtr pool, ModelNodeAddress a, bool stored) : Base(stored ? (simfil::ArrayIndex)a.index() : simfil::InvalidArrayIndex, std::move(pool), a) { init(f); }
    void init(std::string const& f);
    ModelPool& pool() const { return Base::model(); }
};
// a field is two letters: name and kind (i: constant 7, s: string, o: its own first stored value, k: number of fields, x: object)
template <class P> ModelNode::Ptr produce(P const& p, char kind)
{
    switch (kind) {
    case 'i': return p.pool().newValue((int64_t)7);
    case 's': return p.pool().newValue(std::string_view("made up"));
    case 'k': return p.pool().newValue((int64_t)p.fields_.size());
    case 'x': { auto o = p.pool().newObject(1); o->addField("a", (int64_t)3); return o; }
    default: return simfil::ValueNode((int64_t)-1, p.pool().shared_from_this());
    }
}
template <uint16_t Max> void Proc<Max>::init(std::string const& f)
{
    auto& strings = *pool().strings();
    for (size_t i = 0; i + 1 < f.size(); i += 2) {
        char kind = f[i + 1];
        fields_.emplace_back(strings.emplace(names[f[i] - 'A']), [kind](Proc const& p) { return produce(p, kind); });
    }
}
// A pool whose column 128 is such an object, so that queries can see it.
template <uint16_t Max> struct ProcPool : ModelPool {
    std::string fields; bool stored;
    using ModelPool::ModelPool;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override
    {
        if (n.addr().column() == 128) cb(Proc<Max>(fields, shared_from_this(), n.addr(), stored));
        else ModelPool::resolve(n, cb);
    }
};
void addPlain(simfil::model_ptr<simfil::Object> const& obj, char name, char kind, ModelPool& p, size_t procs)
{
    auto& o = const_cast<simfil::model_ptr<simfil::Object>&>(obj);
    auto n = names[name - 'A'];
    switch (kind) {
    case 'i': o->addField(n, (int64_t)7); break;
    case 's': o->addField(n, std::string_view("made up")); break;
    case 'k': o->addField(n, (int64_t)procs); break;
    case 'x': { auto x = p.newObject(1); x->addField("a", (int64_t)3); o->addField(n, x); break; }
    default: o->addField(n, (int64_t)-1);
    }
}
const std::vector<std::string> queries = {"a", "b", "n.a", "s", "*", "**", "count(*)", "keys(_)", "*.a", "**.a", "{a}", "a + b", "typeof *", "s == 'made up'", "[0]", "[1]", "[2]", "[-1]", "sum(*, $idx)", "any(* == 7)", "_", "*{_ == 7}", "[0..1]", "count(**)", "[\"a\"]", "(a or b) as string"};

template <uint16_t Max> void procedural(std::string const& proc, std::string const& stored, mc::Run& run)
{
    auto pool = std::make_shared<ProcPool<Max>>(std::make_shared<StringPool>());
    pool->fields = proc; pool->stored = stored != "-";
    auto base = pool->newObject(0);
    for (size_t i = 0; stored != "-" && i + 1 < stored.size(); i += 2) addPlain(base, stored[i], stored[i + 1], *pool, proc.size() / 2);
    auto addr = ModelNodeAddress{128, base->addr().index()};
    // the plain object with the same fields
    auto plain = std::make_shared<ModelPool>(pool->strings());
    auto po = plain->newObject(0);
    for (auto& list : {proc, stored}) for (size_t i = 0; list != "-" && i + 1 < list.size(); i += 2) addPlain(po, list[i], list[i + 1], *plain, proc.size() / 2);
    plain->addRoot(po);
    auto p = simfil::model_ptr<Proc<Max>>::make(proc, pool, addr, stored != "-");
    ModelNode::Ptr generic = ModelNode::Ptr::make(pool, addr);
    std::vector<simfil::model_ptr<Proc<Max>>> copies; for (int i = 0; i < 3; ++i) copies.push_back(p);    // copies and moves of the handle, too
    auto moved = std::move(copies[1]);
    size_t total = (proc.size() + (stored == "-" ? 0 : stored.size())) / 2;
    std::vector<std::pair<char const*, ModelNode const*>> views = {{"typed: ", &*p}, {"generic: ", &*generic}, {"copy: ", &*copies[2]}, {"moved: ", &*moved}};
    for (auto& [at_, n] : views) {
        std::string at = at_;
        run.step();
        if (n->type() != ValueType::Object) mc::fail(at + "is not an object");
        if (n->size() != total) mc::fail(at + "has " + std::to_string(n->size()) + " fields instead of " + std::to_string(total));
        for (int64_t i = -3; i < (int64_t)total + 3; ++i) {
            auto a = n->at(i), b = po->at(i);
            if ((bool)a != (bool)b || (a && look(*a) != look(*b))) mc::fail(at + "at(" + std::to_string(i) + ") is " + (a ? look(*a) : "missing") + " instead of " + (b ? look(*b) : "missing"));
            if (n->keyAt(i) != po->keyAt(i)) mc::fail(at + "keyAt(" + std::to_string(i) + ") is " + std::to_string(n->keyAt(i)) + " instead of " + std::to_string(po->keyAt(i)));
        }
        for (int64_t i : mu::out) if (n->at(i) || n->keyAt(i) != StringPool::Empty) mc::fail(at + "at(" + std::to_string(i) + ") exists");
        for (int id = 0; id < 140; ++id) {
            auto a = n->get((StringId)id), b = po->get((StringId)id);
            if ((bool)a != (bool)b || (a && look(*a) != look(*b))) mc::fail(at + "get(" + std::to_string(id) + ") is " + (a ? look(*a) : "missing") + " instead of " + (b ? look(*b) : "missing"));
        }
        for (size_t stop = 0; stop <= total; ++stop) {
            std::string got, want; size_t i = 0, j = 0;
            bool r = n->iterate(ModelNode::IterLambda([&](ModelNode const& x) { got += look(x) + ";"; return i++ != stop; }));
            bool r2 = po->iterate(ModelNode::IterLambda([&](ModelNode const& x) { want += look(x) + ";"; return j++ != stop; }));
            if (got != want || r != r2) mc::fail(at + "iterate stopping at " + std::to_string(stop) + " gives " + got + " instead of " + want);
        }
        std::string got, want;
        for (auto x : *n) got += look(*x) + ";";
        for (auto x : *po) want += look(*x) + ";";
        for (auto const& [id, x] : n->fields()) got += std::to_string(id) + look(*x) + ";";
        for (auto const& [id, x] : po->fields()) want += std::to_string(id) + look(*x) + ";";
        for (auto id : n->fieldNames()) got += std::to_string(id) + ",";
        for (auto id : po->fieldNames()) want += std::to_string(id) + ",";
        if (got != want) mc::fail(at + "iteration gives " + got + " instead of " + want);
        if (n->toJson() != po->toJson()) mc::fail(at + "exports " + n->toJson().dump() + " instead of " + po->toJson().dump());
    }
    pool->addRoot(generic);
    simfil::Environment env(pool->strings());
    for (auto& q : queries) {
        auto a = eu::run(env, q, *pool->root(0)), b = eu::run(env, q, *plain->root(0));
        if (a.kind != b.kind || eu::showAll(a.v) != eu::showAll(b.v)) mc::fail("query " + q + " gives " + eu::showAll(a.v) + a.what + " instead of " + eu::showAll(b.v) + b.what);
        run.step();
    }
    run.state("p" + proc + "|" + stored);
    run.outcome(stored == "-" ? "no stored fields" : proc.size() / 2 > Max ? "many procedural fields" : "procedural and stored");
}
}

static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == '#') return big(c[1], std::stoi(c.substr(3)), c[2], run);
    if (c[0] == 'o') return overlay(c.substr(1), run);
    auto e = c.find('|');
    auto proc = c.substr(2, e - 2), stored = c.substr(e + 1);
    if (c[1] == '1') procedural<1>(proc, stored, run); else if (c[1] == '2') procedural<2>(proc, stored, run); else procedural<5>(proc, stored, run);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C29";
#ifdef SMALL
    const int L = 1;
#else
    const int L = 0;
#endif
    c.bounds = "overlays on 14 kinds of values and nodes, all histories of up to 2 settings of 6 names to 14 kinds of values (thorough 3), through either of two handles or on a second overlay above; procedural objects with all lists of up to 2 (3) procedural and up to 2 stored fields out of 4 names and 5 kinds (longer lists of one kind), with inline capacity 1, 2 and 5, with and without stored fields; up to 257 procedural fields, 1200 settings, 300 overlays on each other; every access path and 26 queries compared with the plain object";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s); }); };
        std::string kinds = "nbifsreOLNSZRU";
        std::vector<std::string> sets = {"*."}, few = {"*."};
        for (char k : std::string("012345")) for (char v : kinds) { sets.push_back(std::string{k, v}); if (std::string("isOnU").find(v) != std::string::npos && k != '2' && k != '4') few.push_back(std::string{k, v}); }
        for (char u : kinds) { emit("o"s + u); seqs("o"s + u, sets, 1); if (!L) seqs("o"s + u, sets, 2); seqs("o"s + u, few, L ? 2 : 3); }
        if (th) { for (char u : std::string("iORsL")) seqs("o"s + u, sets, 3); for (char u : kinds) seqs("o"s + u, few, 4); }
        std::vector<std::string> fields, some;
        for (char n : std::string("ABCD")) for (char k : std::string("iskxv")) { fields.push_back(std::string{n, k}); if (k == 'i' || (k == 'x' && n < 'C') || (k == 's' && n == 'D')) some.push_back(std::string{n, k}); }
        std::vector<std::string> lists[5], short_[5];
        for (int n = 0; n <= 4; ++n) en::sequences(some.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += some[i]; short_[n].push_back(s); });
        for (int n = 0; n <= 2; ++n) en::sequences(fields.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += fields[i]; lists[n].push_back(s); });
        for (char m : std::string("125")) for (int n = 0; n <= 2 - L; ++n) for (auto& f : lists[n]) for (auto st : {"-", "", "Ai", "Bx", "AiAs", "CxDs", "BkAiCs"}) emit("p"s + m + f + "|" + st);
        for (char m : std::string("12")) for (int n = 1; n <= (L ? 2 : 3 + th); ++n) for (auto& f : short_[n]) { emit("p"s + m + f + "|-"); if (n < 3 || th) for (int k = 0; k <= (n < 3 && !L ? 2 : 1); ++k) for (auto& st : short_[k]) emit("p"s + m + f + "|" + st); else emit("p"s + m + f + "|AiBs"); }
        for (int n : {1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) for (char u : std::string("iORnL")) { emit("#s"s + u + std::to_string(n * 4)); emit("#t"s + u + std::to_string(n)); }
        for (int n : {5, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40, 64, 65, L ? 66 : 129, L ? 66 : 257}) for (char m : std::string("125")) for (auto st : {"-", "", "Ai", "BiCi"}) emit("p"s + m + en::rep("Ai", n / 2) + en::rep("Bs", n - n / 2) + "|" + st);
    };
    c.run = run;
    c.show = [](std::string const& s) { return s; };
    c.minOutcomes = 5;
    return mc::main(argc, argv, c);
}
