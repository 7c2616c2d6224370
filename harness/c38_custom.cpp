// C38: nodes of user-defined types (columns of a derived pool) answer queries, export and validation exactly like
// the built-in ones. Every assignment of node implementations to the nodes of a document is explored.
#include "evalutil.h"
#include "gen.h"
#include "simfil/model/json.h"
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::ScalarValueType;
using simfil::StringId;
using simfil::StringPool;

namespace {
// Implementations of a node, one letter per document node in pre-order:
//  P built-in   V view computed on demand from the document, text as string_view   W the same with text as std::string
//  D object/array of a type derived from Object/Array in an own column   X procedural object, first field procedural
//  L alias: scalars: an own column that forwards to the built-in node             S value carried in the node itself (only below V/W)
//  T typed array derived from BaseArray with an own element type (arrays with views only)
struct Pool;
struct View : simfil::MandatoryDerivedModelNodeBase<Pool> {
    View(simfil::ModelConstPtr p, ModelNodeAddress a) : MandatoryDerivedModelNodeBase(std::move(p), a) {}
    View() = default;
    ScalarValueType value() const override;
    simfil::ValueType type() const override;
    ModelNode::Ptr get(StringId const&) const override;
    ModelNode::Ptr at(int64_t) const override;
    StringId keyAt(int64_t) const override;
    uint32_t size() const override;
    bool iterate(IterCallback const&) const override;
};
struct MyObject : simfil::Object { MyObject(simfil::ModelConstPtr p, ModelNodeAddress a) : Object(std::move(p), a) {} MyObject() = default; };
struct MyArray : simfil::Array { MyArray(simfil::ModelConstPtr p, ModelNodeAddress a) : Array(std::move(p), a) {} MyArray() = default; };
struct Typed : simfil::BaseArray<Pool, View> { Typed(simfil::ModelConstPtr p, ModelNodeAddress a); Typed() = default; };
struct Proc : simfil::ProceduralObject<1, Proc, Pool> { Proc(simfil::ModelConstPtr p, ModelNodeAddress a); Proc() = default; };

enum Col : uint8_t { CView = 128, CViewStr, CObject, CArray, CTyped, CProc, CAlias = 255 };

struct Pool : simfil::ModelPool {
    std::vector<ref::Node const*> nodes;                 // views by index
    std::map<ref::Node const*, char> kind;
    std::map<ref::Node const*, ModelNodeAddress> addr;
    std::vector<ModelNodeAddress> alias;
    std::map<uint32_t, ModelNode::Ptr> first;            // the procedural field, by member array
    std::map<uint32_t, StringId> firstName;
    using ModelPool::ModelPool;
    using ModelPool::objectMemberStorage;
    using ModelPool::arrayMemberStorage;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override
    {
        switch (n.addr().column()) {
        case CView: case CViewStr: cb(View(shared_from_this(), n.addr())); break;
        case CObject: cb(MyObject(shared_from_this(), n.addr())); break;
        case CArray: cb(MyArray(shared_from_this(), n.addr())); break;
        case CTyped: cb(Typed(shared_from_this(), n.addr())); break;
        case CProc: cb(Proc(shared_from_this(), n.addr())); break;
        case CAlias: ModelPool::resolve(*ModelNode::Ptr::make(shared_from_this(), alias.at(n.addr().index())), cb); break;
        default: ModelPool::resolve(n, cb);
        }
    }
    ModelNode::Ptr node(ref::Node const* n) const
    {
        if (kind.at(n) == 'S') return simfil::ValueNode(scalar(*n, false), shared_from_this());
        return ModelNode::Ptr::make(shared_from_this(), addr.at(n));
    }
    static ScalarValueType scalar(ref::Node const& n, bool copy)
    {
        switch (n.kind) {
        case ref::Node::Bool: return n.b;
        case ref::Node::Int: return n.i;
        case ref::Node::Float: return n.f;
        case ref::Node::Str: if (copy) return n.s; return std::string_view(n.s);
        default: return std::monostate{};
        }
    }
};
Typed::Typed(simfil::ModelConstPtr p, ModelNodeAddress a) : BaseArray(std::move(p), a) {}
Proc::Proc(simfil::ModelConstPtr p, ModelNodeAddress a) : ProceduralObject((simfil::ArrayIndex)a.index(), std::move(p), a)
{
    auto i = model().first.find(a.index());
    if (i != model().first.end()) fields_.emplace_back(model().firstName.at(a.index()), [](Proc const& self) { return self.model().first.at(self.addr().index()); });
}
ScalarValueType View::value() const { return Pool::scalar(*model().nodes.at(addr_.index()), addr_.column() == CViewStr); }
simfil::ValueType View::type() const
{
    switch (model().nodes.at(addr_.index())->kind) {
    case ref::Node::Bool: return simfil::ValueType::Bool;
    case ref::Node::Int: return simfil::ValueType::Int;
    case ref::Node::Float: return simfil::ValueType::Float;
    case ref::Node::Str: return simfil::ValueType::String;
    case ref::Node::Arr: return simfil::ValueType::Array;
    case ref::Node::Obj: return simfil::ValueType::Object;
    default: return simfil::ValueType::Null;
    }
}
ModelNode::Ptr View::get(StringId const& id) const
{
    auto n = model().nodes.at(addr_.index());
    if (n->kind != ref::Node::Obj) return {};
    for (auto& [k, v] : n->kids) if (model().strings()->get(k) == id) return model().node(v);
    return {};
}
ModelNode::Ptr View::at(int64_t i) const { auto n = model().nodes.at(addr_.index())->at(i); if (!n) return {}; return model().node(n); }
StringId View::keyAt(int64_t i) const { auto n = model().nodes.at(addr_.index()); return n->kind == ref::Node::Obj && i >= 0 && i < (int64_t)n->kids.size() ? model().strings()->get(n->kids[i].first) : StringPool::Empty; }
uint32_t View::size() const { return model().nodes.at(addr_.index())->kids.size(); }
bool View::iterate(IterCallback const& cb) const
{
    for (auto& [k, v] : model().nodes.at(addr_.index())->kids) {
        bool cont = true;
        auto p = model().node(v);
        model().resolve(*p, simfil::Model::Lambda([&](ModelNode const& x) { cont = cb(x); }));
        if (!cont) return false;
    }
    return true;
}

void order(ref::Node const& n, std::vector<ref::Node const*>& out, std::vector<ref::Node const*>& parent, ref::Node const* p = nullptr) { out.push_back(&n); parent.push_back(p); for (auto& [k, v] : n.kids) order(*v, out, parent, &n); }

ModelNode::Ptr plain(ref::Node const& n, Pool& p, std::vector<ModelNode::Ptr>& kids)
{
    switch (n.kind) {
    case ref::Node::Null: return eu::nullNode(p);
    case ref::Node::Bool: return p.newSmallValue(n.b);
    case ref::Node::Int: return p.newValue(n.i);
    case ref::Node::Float: return p.newValue(n.f);
    case ref::Node::Str: return p.newValue(std::string_view(n.s));
    case ref::Node::Arr: { auto a = p.newArray(kids.size()); for (auto& k : kids) a->append(k); return a; }
    case ref::Node::Obj: { auto o = p.newObject(kids.size()); size_t i = 0; for (auto& k : kids) o->addField(n.kids[i++].first, k); return o; }
    }
    return {};
}
ModelNode::Ptr make(ref::Node const& n, std::string const& as, size_t& pos, Pool& p)
{
    const char k = as.at(pos++);
    p.kind[&n] = k;
    for (auto& [name, v] : n.kids) p.strings()->emplace(name);
    std::vector<ModelNode::Ptr> kids;
    for (auto& [name, v] : n.kids) kids.push_back(make(*v, as, pos, p));
    ModelNodeAddress a;
    switch (k) {
    case 'P': a = plain(n, p, kids)->addr(); break;
    case 'V': p.nodes.push_back(&n); a = {CView, (uint32_t)p.nodes.size() - 1}; break;
    case 'W': p.nodes.push_back(&n); a = {CViewStr, (uint32_t)p.nodes.size() - 1}; break;
    case 'D': a = plain(n, p, kids)->addr(); a.setColumn(n.kind == ref::Node::Obj ? CObject : CArray); break;
    case 'T': a = plain(n, p, kids)->addr(); a.setColumn(CTyped); break;
    case 'L': p.alias.push_back(plain(n, p, kids)->addr()); a = {CAlias, (uint32_t)p.alias.size() - 1}; break;
    case 'X': {
        auto o = p.newObject(1);
        for (size_t i = 1; i < kids.size(); ++i) o->addField(n.kids[i].first, kids[i]);
        a = o->addr(); a.setColumn(CProc);
        if (!kids.empty()) { p.first[a.index()] = kids[0]; p.firstName[a.index()] = p.strings()->get(n.kids[0].first); }
        break;
    }
    case 'S': return simfil::ValueNode(Pool::scalar(n, false), p.shared_from_this());
    }
    p.addr[&n] = a;
    return ModelNode::Ptr::make(p.shared_from_this(), a);
}
std::string choices(ref::Node const& n, ref::Node const* parent)
{
    switch (n.kind) {
    case ref::Node::Obj: return "PVDX";
    case ref::Node::Arr: return "PVDT";
    case ref::Node::Str: return "PVWL";
    default: return "PVL";
    }
}
bool valid(std::vector<ref::Node const*> const& ns, std::vector<ref::Node const*> const& parents, std::string const& as)
{
    std::map<ref::Node const*, char> kind;
    for (size_t i = 0; i < ns.size(); ++i) kind[ns[i]] = as[i];
    for (size_t i = 0; i < ns.size(); ++i) {
        const char pk = parents[i] ? kind[parents[i]] : 'P';
        if (as[i] == 'S') { if (ns[i]->compound() || ns[i]->kind == ref::Node::Null) return false; if (!(pk == 'V' || pk == 'W' || (pk == 'X' && parents[i]->kids[0].second == ns[i]))) return false; }
        if (pk == 'T' && as[i] != 'V' && as[i] != 'W') return false;
    }
    return true;
}

struct Cached { std::string key; eu::Model m; std::shared_ptr<Pool> pool; };
Cached& model(std::string const& doc, std::string const& as)
{
    static Cached c;
    if (c.key != doc + "\x01" + as) {
        c.key.clear();
        c.m = {};
        c.m.doc = ref::doc(doc);
        c.pool = std::make_shared<Pool>(std::make_shared<StringPool>());
        size_t pos = 0;
        auto root = make(*c.m.doc->root, as, pos, *c.pool);
        c.m.pool = c.pool;
        c.pool->addRoot(root);
        c.m.root = c.pool->root(0);
        // Model addresses of compounds, for identity checks; values may have none of their own.
        eu::addresses(*c.m.doc->root, *c.m.root);
        c.key = doc + "\x01" + as;
    }
    return c;
}

// The node interface itself
void api(Cached& c, ref::Node const& n, ModelNode const& m, std::string const& at, mc::Run& run)
{
    run.step();
    if (m.size() != n.kids.size()) mc::fail(at + ": size is " + std::to_string(m.size()));
    size_t i = 0;
    for (auto x : m) { if (!x) mc::fail(at + ": iterator gives a null pointer"); if (i >= n.kids.size()) mc::fail(at + ": too many children"); api(c, *n.kids[i].second, *x, at + "/" + std::to_string(i), run); ++i; }
    i = 0;
    for (auto const& [id, x] : m.fields()) {
        if (n.kind == ref::Node::Obj && (*c.pool->strings()->resolve(id) != *c.pool->strings()->resolve(c.pool->strings()->get(n.kids[i].first)))) mc::fail(at + ": wrong field name at " + std::to_string(i));
        ++i;
    }
    for (size_t stop = 0; stop <= n.kids.size(); ++stop) {
        size_t seen = 0;
        bool r = m.iterate(ModelNode::IterLambda([&](ModelNode const& x) {
            if (seen > stop) mc::fail(at + ": iterate goes on after it was stopped");
            auto& w = *n.kids.at(seen).second;
            if (x.size() != w.kids.size()) mc::fail(at + ": iterate gives another child at " + std::to_string(seen));
            if (w.compound() && x.addr().value_ != w.addr) mc::fail(at + ": iterate gives another node at " + std::to_string(seen));
            return seen++ != stop;
        }));
        if (r != (stop == n.kids.size())) mc::fail(at + ": iterate returns " + std::to_string(r) + " when stopped at " + std::to_string(stop));
        if (seen != std::min(stop + 1, n.kids.size())) mc::fail(at + ": iterate visits " + std::to_string(seen) + " children");
    }
    if (m.at(-1) || m.at(n.kids.size())) mc::fail(at + ": a child out of range");
}

std::string dump(ref::Node const& n);

void apiCase(std::string const& doc, std::string const& as, mc::Run& run)
{
    auto& c = model(doc, as);
    api(c, *c.m.doc->root, *c.m.root, "root", run);
    // a resolved node as the start of a query
    {
        simfil::Environment env(c.pool->strings());
        c.pool->resolve(*c.m.root, simfil::Model::Lambda([&](ModelNode const& x) {
            for (auto q : {"**", "count(**)", "*", "a"}) {
                auto a = eu::run(env, q, x), b = eu::run(env, q, *c.m.root);
                if (a.kind != b.kind || eu::showAll(a.v) != eu::showAll(b.v)) mc::fail("query "s + q + " on the resolved root gives " + eu::showAll(a.v) + a.what + " instead of " + eu::showAll(b.v) + b.what);
            }
        }));
    }
    // a typed array hands out its element type
    for (auto& [n, k] : c.pool->kind) if (k == 'T') {
        size_t i = 0;
        auto t = simfil::model_ptr<Typed>::make(c.pool, c.pool->addr.at(n));
        bool all = t->forEach([&](View const& v) { if (v.addr().value_ != c.pool->addr.at(n->kids.at(i).second).value_) mc::fail("forEach gives another element"); ++i; return i < 2; });
        if (i != std::min<size_t>(2, n->kids.size()) || all != (n->kids.size() < 2)) mc::fail("forEach visits " + std::to_string(i) + " elements");
    }
    auto errors = c.pool->checkForErrors();
    if (!errors.empty()) mc::fail("validation reports " + errors[0]);
    auto w = simfil::json::parse(doc)->toJson();
    if (c.pool->toJson() != w) mc::fail("exports " + c.pool->toJson().dump() + " instead of " + w.dump());
    // another string pool: names of stored fields move, views ask the pool
    run.outcome("interface");
}
}

static void run(std::string const& c, mc::Run& run)
{
    auto p = c.find('\x02');
    auto [q, d] = eu::split(c.substr(0, p));
    auto as = c.substr(p + 1);
    if (q == "!") return apiCase(d, as, run);
    auto& m = model(d, as);
    eu::compare(q, m.m, run);
}

#ifdef SMALL
constexpr int FULL = 0;
#else
constexpr int FULL = 2;     // documents with all terms already in the quick tier
#endif
static const std::vector<std::string> docs = {
    R"({"a":1,"b":[true,"x"]})", R"([{"a":"x","b":null},2.5])", R"({"b":{"a":{"a":-70000}}})", R"({"a":{},"b":[]})", R"([[],[[1]]])", R"([1,2,3])", R"({"a":"","b":"x","c":70000})", R"({"a":{"b":"x","a":7},"c":[0]})"};

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C38";
    c.bounds = "8 documents of up to 6 nodes x every assignment of 8 node implementations (built-in, on-demand view, view with owned text, derived object/array, typed array, procedural object, forwarding column (scalars), value in the node) "
               "x 75 queries over all constructs (2 documents, thorough: all: all terms with one construct over 7 leaves); larger documents with 12 assignments; every access path of the interface, validation and export per assignment";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto g = gen::universal({"a", "*", "**", "_", "b", "'x'", "0"});
        auto l1 = gen::level1(g);
        std::vector<std::string> qs = {"a", "b", "*", "**", "_", "a.b", "b.a", "b.a.a", "*.a", "**.a", "b[0]", "[0]", "[1]", "[-1]", "*[1]", "[\"a\"]", "keys(_)", "keys(**)", "count(*)", "count(**)", "typeof **", "a == 1", "**{_ == 'x'}", "** == 'x'", "any(* == 2)",
            "sum(**{typeof _ == 'int'})", "*{a}", "**{a}.a", "b{_}", "a + 1", "a + b", "a as string", "**{typeof _ == 'string'}", "#*", "#**", "#a", "a = 'x'", "b == true", "re'x' == **", "*...", "arr(**)", "select(*, 0)", "a?", "b exists", "not a", "-a", "~a",
            "a < 2", "2.5 == *", "** == null", "a & 1", "split(a, '')", "sum(*, $sum + $val, 0)", "each(**)", "trace(*)", "_ == _", "a == a", "* == *", "a != b", "b.*{_}", "**.**", "count(_) + count(*.*)", "range(0, a)...", "[0].a", "[1][1]", "*[0][0]", "(a or b)", "(a and b)", "_._", "b[\"a\"]", "keys(b)", "**{b}", "nope", "*.nope", "[7]"};
        if (th) qs.insert(qs.end(), l1.begin(), l1.end());
        for (auto& d : docs) {
#ifdef SMALL
            if (!th && &d - &docs[0] > 3) continue;
#endif
            auto doc = ref::doc(d);
            std::vector<ref::Node const*> ns, parents; order(*doc->root, ns, parents);
            std::string as(ns.size(), 'P');
            std::function<void(size_t)> rec = [&](size_t i) {
                if (i == ns.size()) { if (!valid(ns, parents, as)) return; emit("!\x01" + d + "\x02" + as); for (auto& q : qs) emit(q + "\x01" + d + "\x02" + as); if (!th && &d - &docs[0] < FULL) for (auto& q : l1) emit(q + "\x01" + d + "\x02" + as); return; }
                for (char k : choices(*ns[i], parents[i]) + "S") { as[i] = k; rec(i + 1); }
            };
            rec(0);
        }
        // larger documents: each kind of node implemented in one or two alternating ways
        std::vector<std::string> large;
        for (int n : {9, 17, 33, 65, 130, 260}) {
            std::string a = "[", o = "{\"a\":\"x\"", m = "[";
            for (int i = 0; i < n; ++i) {
                auto I = std::to_string(i), K = std::string(1, 'b' + i % 25) + std::to_string(i);
                a += (i ? "," : "") + (i % 3 == 0 ? I : i % 3 == 1 ? "\"x" + I + "\"" : i % 2 ? "2.5"s : "true"s);
                o += ",\"" + K + "\":" + (i % 4 == 0 ? "[" + I + "]" : i % 4 == 1 ? "{\"a\":" + I + ",\"b\":null}" : I);
                m += (i ? "," : "") + ("{\"a\":" + I + ",\"b\":[\"x\"," + I + "]}");
            }
            large.push_back(a + "]"); large.push_back(o + ",\"b\":{\"a\":[1,2]}}"); large.push_back(m + "]");
        }
        for (auto& d : large) {
            if (d.size() > (th ? 100000 : 4000)) continue;
#ifdef SMALL
            if (d.size() > 600) continue;
#endif
            auto doc = ref::doc(d);
            std::vector<ref::Node const*> ns, parents; order(*doc->root, ns, parents);
            for (auto cs : {"PPPP", "VVVV", "DDDD", "DTPL", "XDVW", "PVPV", "XTVV", "VPLS", "XXLL", "TDSV", "DVSS", "VVSS"}) {       // object, array, scalar, every third scalar
                std::string as; size_t k = 0;
                for (size_t i = 0; i < ns.size(); ++i) {
                    auto n = ns[i];
                    char w = n->kind == ref::Node::Obj ? cs[0] : n->kind == ref::Node::Arr ? cs[1] : k++ % 3 ? cs[2] : cs[3];
                    if ((choices(*n, parents[i]) + "S").find(w) == std::string::npos) w = n->kind == ref::Node::Obj || n->kind == ref::Node::Arr ? 'D' : 'P';
                    as += w;
                    if (parents[i] && as[std::find(ns.begin(), ns.end(), parents[i]) - ns.begin()] == 'T' && as[i] != 'V' && as[i] != 'W') as[i] = 'V';
                    if (as[i] == 'S' && !valid({parents[i], n}, {nullptr, parents[i]}, {as[std::find(ns.begin(), ns.end(), parents[i]) - ns.begin()], 'S'})) as[i] = 'V';
                }
                if (!valid(ns, parents, as)) continue;
                emit("!\x01" + d + "\x02" + as);
                for (auto& q : qs) if (q.find("**.**") == q.npos && q.find("* == *") == q.npos) emit(q + "\x01" + d + "\x02" + as);
            }
        }
    };
    c.run = run;
    c.show = [](std::string const& c) { auto p = c.find('\x02'); return (c[0] == '!' ? "interface  on  " + mc::quote(c.substr(2, p - 2)) : eu::showCase(c.substr(0, p))) + " as " + c.substr(p + 1); };
    return mc::main(argc, argv, c);
}
