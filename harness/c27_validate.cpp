// C27: validation reports exactly the models with dangling references.
#include "modelutil.h"
#include <sstream>
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::ModelPool;

namespace {
// Gives access to the stored references, and resolves one custom column with three entries.
struct Open : ModelPool {
    using ModelPool::ModelPool;
    using ModelPool::objectMemberStorage;
    using ModelPool::arrayMemberStorage;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override
    {
        if (n.addr().column() == 128) {
            if (n.addr().index() >= 3) throw std::runtime_error("no such custom node");
            cb(simfil::ValueNode((int64_t)n.addr().index(), shared_from_this()));
            return;
        }
        ModelPool::resolve(n, cb);
    }
};
bool valid(ModelPool const& p, std::string const& at)
{
    auto errors = p.checkForErrors();
    bool raised = false;
    try { p.validate(); } catch (std::exception const&) { raised = true; }
    if (raised == errors.empty()) mc::fail(at + "validate() and checkForErrors() disagree");
    return !raised;
}
}

// one bad reference or name at any of many positions of a large model
static void large(char kind, int n, mc::Run& run)
{
    auto p = std::make_shared<Open>(std::make_shared<simfil::StringPool>());
    std::vector<std::pair<bool, std::pair<int, int>>> site;    // object?, container index, member
    auto obj = [&](simfil::model_ptr<simfil::Object> const& o) { return (int)o->addr().index(); };
    if (kind == 'w') { auto o = p->newObject(2); p->addRoot(o); for (int i = 0; i < n; ++i) { o->addField("k" + std::to_string(i), (int64_t)i); site.push_back({true, {obj(o), i}}); } }
    if (kind == 'a') { auto a = p->newArray(2); p->addRoot(a); for (int i = 0; i < n; ++i) { a->append((int64_t)i); site.push_back({false, {(int)a->addr().index(), i}}); } }
    if (kind == 'n') { auto a = p->newArray(); p->addRoot(a); for (int i = 0; i < n; ++i) { auto o = p->newObject(1); o->addField("x", (int64_t)i); a->append(o); site.push_back({true, {obj(o), 0}}); } }
    if (kind == 'm') { auto o = p->newObject(1); p->addRoot(o); for (int i = 0; i < n; ++i) { auto a = p->newArray(1); a->append(i % 2 == 0); o->addField("k" + std::to_string(i % 100), a); site.push_back({false, {(int)a->addr().index(), 0}}); } }
    if (kind == 'd') { auto o = p->newObject(1); p->addRoot(o); for (int i = 0; i < n; ++i) { auto k = p->newObject(1); o->addField("x", k); site.push_back({true, {obj(o), 0}}); o = k; } }
    if (kind == 'r') for (int i = 0; i < n; ++i) { auto o = p->newObject(1); o->addField("x", (int64_t)i); p->addRoot(o); site.push_back({true, {obj(o), 0}}); }
    if (!valid(*p, "")) mc::fail("a valid model is rejected: " + p->checkForErrors()[0]);
    std::set<int> at{0, 1, 2, n / 2, n / 3, n - 3, n - 2, n - 1};
    for (int k = n > 3000 ? 256 : 4; k <= n; k *= n > 3000 ? 16 : 2) for (int d : {-1, 0, 1}) at.insert(k + d);
    for (int i : at) {
        if (i < 0 || i >= n) continue;
        auto where = "member " + std::to_string(i) + " of " + std::to_string(n) + ": ";
        auto [o, s] = site[i];
        auto& slot = o ? p->objectMemberStorage().at(s.first, s.second).node_ : p->arrayMemberStorage().at(s.first, s.second);
        auto keep = slot;
        for (auto a : {ModelNodeAddress{ModelPool::Objects, 0xffffff}, ModelNodeAddress{ModelPool::Int64, (uint32_t)n + 5}, ModelNodeAddress{ModelPool::Arrays, (uint32_t)n + 5}, ModelNodeAddress{200, 1}}) { slot = a; if (valid(*p, where)) mc::fail(where + "a bad reference is not reported"); run.step(); }
        slot = keep;
        if (o) { auto& name = p->objectMemberStorage().at(s.first, s.second).name_; auto k = name; name = 65000; if (valid(*p, where)) mc::fail(where + "an unknown name is not reported"); name = k; run.step(); }
    }
    if (!valid(*p, "")) mc::fail("the repaired model is rejected");
    run.state(kind + std::to_string(n)); run.outcome("large");
}

static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == '#') return large(c[1], std::stoi(c.substr(2)), run);
    mu::Hist h(mu::someStrings());
    auto open = std::make_shared<Open>(h.pool->strings());
    h.pool = open;
    if (!h.ops(c)) return;
    run.step();
    if (!valid(*open, "")) mc::fail("a valid model is rejected: " + open->checkForErrors()[0]);
    // what the roots reach
    std::set<int> reach;
    std::function<void(int)> go = [&](int k) { if (reach.insert(k).second) for (auto& [n, v] : h.ref.conts[k].kids) if (v.k == mu::V::Cont) go(v.c); };
    for (auto& r : h.ref.roots) if (r.k == mu::V::Cont) go(r.c);
    uint32_t objs = h.count(true), arrs = h.count(false);
    // sizes of the value columns: ask for one more of each
    uint32_t i64 = open->newValue(int64_t(1) << 50)->addr().index(), dbl = open->newValue(2.5)->addr().index(), str = open->newValue("str")->addr().index();
    std::vector<ModelNodeAddress> bad, good = {{ModelPool::Int64, i64}, {ModelPool::Double, dbl}, {ModelPool::String, str}, {128, 2}, {ModelPool::Bool, 1}, {ModelPool::UInt16, 0xffffff}, {ModelPool::Int16, 0x8000}, {ModelPool::Null, 1}};
    for (auto [col, size] : std::vector<std::pair<int, uint32_t>>{{ModelPool::Objects, objs}, {ModelPool::Arrays, arrs}, {ModelPool::Int64, i64 + 1}, {ModelPool::Double, dbl + 1}, {ModelPool::String, str + 1}, {128, 3}})
        for (uint32_t i : {size, size + 1, 0x7fffffu, 0x800000u, 0xffffffu}) bad.push_back({(uint8_t)col, i});
    for (int col : {(int)ModelPool::String + 1, 20, 64, 127, 129, 200, 255}) for (uint32_t i : {0u, 1u, 0xffffffu}) bad.push_back({(uint8_t)col, i});
    std::vector<simfil::StringId> badNames = {(simfil::StringId)(h.pool->strings()->highest() + 1), 60000, 0xffff, 4, 127};
    size_t sites = 0;
    auto tryAll = [&](auto& slot, bool judged, std::string const& at) {
        auto keep = slot;
        for (auto& a : bad) { slot = a; if (valid(*open, at) && judged) mc::fail(at + "replaced by column " + std::to_string(a.column()) + " index " + std::to_string(a.index()) + " is not reported"); run.step(); }
        for (auto& a : good) { slot = a; if (!valid(*open, at)) mc::fail(at + "replaced by the valid column " + std::to_string(a.column()) + " index " + std::to_string(a.index()) + " is rejected"); }
        slot = keep;
        ++sites;
    };
    for (size_t k = 0; k < h.ref.conts.size(); ++k) {
        auto idx = (int)h.node[k]->addr().index();
        for (size_t i = 0; i < h.ref.conts[k].kids.size(); ++i) {
            auto at = "container " + std::to_string(k) + " member " + std::to_string(i) + " ";
            if (h.ref.conts[k].obj) {
                auto& f = open->objectMemberStorage().at(idx, i);
                tryAll(f.node_, reach.count(k), at);
                auto keep = f.name_;
                for (auto n : badNames) { f.name_ = n; if (valid(*open, at) && reach.count(k)) mc::fail(at + "with the unknown name " + std::to_string(n) + " is not reported"); run.step(); }
                for (simfil::StringId n : {0, 1, 128, (int)h.pool->strings()->highest()}) { f.name_ = n; if (!valid(*open, at)) mc::fail(at + "with the known name " + std::to_string(n) + " is rejected"); }
                f.name_ = keep;
            } else tryAll(open->arrayMemberStorage().at(idx, i), reach.count(k), at);
        }
    }
    if (!valid(*open, "")) mc::fail("a repaired model is rejected");
    // names that another string pool does not know
    std::ostringstream out; open->write(out);
    auto other = std::make_shared<Open>(std::make_shared<simfil::StringPool>());
    std::istringstream in(out.str()); other->read(in);
    bool unknown = false;
    for (int k : reach) if (h.ref.conts[k].obj) for (auto& [n, v] : h.ref.conts[k].kids) unknown |= !n.empty() && n[0] != '$';
    bool unreachable = false;
    for (size_t k = 0; k < h.ref.conts.size(); ++k) if (!reach.count(k)) unreachable |= h.ref.conts[k].obj && !h.ref.conts[k].kids.empty();
    bool v = valid(*other, "other string pool: ");
    if (unknown && v) mc::fail("names that are unknown to the string pool are not reported");
    if (!unknown && !unreachable && !v) mc::fail("a model without unknown names is rejected");
    // roots
    for (auto& a : bad) {
        auto r = std::make_shared<Open>(h.pool->strings());
        std::istringstream s(out.str()); r->read(s);
        r->addRoot(ModelNode::Ptr::make(r, a));
        if (valid(*r, "")) mc::fail("a root with column " + std::to_string(a.column()) + " index " + std::to_string(a.index()) + " is not reported");
        r->addRoot(ModelNode::Ptr::make(r, ModelNodeAddress{ModelPool::Bool, 1}));
        if (valid(*r, "")) mc::fail("a bad root before a good one is not reported");
        run.step(2);
    }
    for (auto& a : good) { open->addRoot(ModelNode::Ptr::make(open, a)); if (!valid(*open, "")) mc::fail("a good root is rejected"); }
    run.state(mu::dump(h.ref));
    run.outcome(sites == 0 ? "no members" : reach.empty() ? "nothing reachable" : "members");
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C27";
#ifdef SMALL
    const int L = SMALL;
#else
    const int L = 0;
#endif
    c.bounds = "all models of the histories of C22 (shorter under sanitizers): every member of every object and array replaced, one at a time, by each of 51 addresses outside the model and 8 inside, every name by 5 unknown and 4 known ones, each bad and good root added, single bad members of models of up to 5000 members, and each model read with an empty string pool";
    c.enumerate = [L](bool th, mc::Emit const& emit) {
        mu::corpus(th, L, emit);
        for (char k : std::string("wanmdr")) for (int n : {2, 5, 9, 17, 40, 65, 129, 257, 300, 513, 1025, 2049, 5000}) if (!L || n < 300) if (k != 'd' || n <= (L ? 65 : 513)) emit("#"s + k + std::to_string(n));
        if (L <= 1) for (auto pre : {"a0..+0u0a0..+100o0..+210r2..", "o0..+0s1o0..+101a0..+210r2..", "a0..o0..+001+001+1u1r0.."}) for (int n : {1, 5, 30}) { std::string s = pre; for (int i = 0; i < n; ++i) s += "+0"s + "uls"[i % 3] + char('0' + i % 5); emit(s); }
    };
    c.run = run;
    c.blockSize = 8;
    c.show = mu::show;
    c.caseTimeout = 60;
    c.minOutcomes = 3;
    return mc::main(argc, argv, c);
}
