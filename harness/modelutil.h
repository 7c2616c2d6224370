// Model construction histories: every operation is applied to a real ModelPool and to a reference model;
// check() reads the pool back through every access path.
#pragma once
#include "mc.h"
#include "enumutil.h"
#include "simfil/model/model.h"
#include "simfil/model/string-pool.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <set>

namespace mu {
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::ModelPool;
using simfil::StringId;
using simfil::StringPool;
using simfil::ValueType;

struct V {
    enum K { Null, Bool, Int, Float, Str, Cont } k = Null;
    bool b = false; int64_t i = 0; double f = 0; std::string s; int c = -1;
    static V B(bool x) { V v; v.k = Bool; v.b = x; return v; }
    static V I(int64_t x) { V v; v.k = Int; v.i = x; return v; }
    static V F(double x) { V v; v.k = Float; v.f = x; return v; }
    static V S(std::string x) { V v; v.k = Str; v.s = std::move(x); return v; }
    static V C(int x) { V v; v.k = Cont; v.c = x; return v; }
};
struct Cont { bool obj; std::vector<std::pair<std::string, V>> kids; };
struct Ref { std::vector<Cont> conts; std::vector<V> roots; };

inline std::string fold(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

inline std::string dump(Ref const& r, V const& v, int depth = 0)
{
    char b[64];
    switch (v.k) {
    case V::Null: return "null";
    case V::Bool: return v.b ? "true" : "false";
    case V::Int: return std::to_string(v.i);
    case V::Float: snprintf(b, sizeof b, "%.17gf", v.f); return std::isnan(v.f) ? "nanf" : b;
    case V::Str: return "'" + v.s + "'";
    case V::Cont: {
        auto& c = r.conts[v.c];
        std::string s = c.obj ? "{" : "[";
        if (depth > 300) return s + "...";
        for (auto& [n, k] : c.kids) s += (c.obj ? fold(n) + ":" : ""s) + dump(r, k, depth + 1) + ",";
        return s + (c.obj ? "}" : "]");
    }
    }
    return "?";
}
inline std::string dump(Ref const& r) { std::string s; for (auto& v : r.roots) s += dump(r, v) + ";"; s += "#"; for (size_t i = 0; i < r.conts.size(); ++i) s += dump(r, V::C(i)) + ";"; return s; }

// Content of a real node through generic access (fields by index).
inline std::string dump(ModelPool const& p, ModelNode const& n, int depth = 0)
{
    char b[64];
    switch (n.type()) {
    case ValueType::Null: return "null";
    case ValueType::Bool: return std::get<bool>(n.value()) ? "true" : "false";
    case ValueType::Int: return std::to_string(std::get<int64_t>(n.value()));
    case ValueType::Float: { auto f = std::get<double>(n.value()); snprintf(b, sizeof b, "%.17gf", f); return std::isnan(f) ? "nanf" : b; }
    case ValueType::String: { auto v = n.value(); if (auto s = std::get_if<std::string>(&v)) return "'" + *s + "'"; return "'" + std::string(std::get<std::string_view>(v)) + "'"; }
    case ValueType::Object: case ValueType::Array: {
        bool obj = n.type() == ValueType::Object;
        std::string s = obj ? "{" : "[";
        if (depth > 300) return s + "...";
        for (uint32_t i = 0; i < n.size(); ++i) {
            if (obj) { auto r = p.lookupStringId(n.keyAt(i)); s += (r ? fold(std::string(*r)) : "<" + std::to_string(n.keyAt(i)) + ">") + ":"; }
            auto k = n.at(i);
            if (!k) return s + "<missing>";
            s += dump(p, *k, depth + 1) + ",";
        }
        return s + (obj ? "}" : "]");
    }
    default: return "<" + std::to_string((int)n.type()) + ">";
    }
}
inline std::string dumpRoots(ModelPool const& p) { std::string s; for (size_t i = 0; i < p.numRoots(); ++i) s += dump(p, *p.root(i)) + ";"; return s; }
// Roots and all objects and arrays, reachable or not.
inline std::string dumpAll(ModelPool const& p, size_t objs, size_t arrs)
{
    std::string s = dumpRoots(p) + "#";
    for (size_t i = 0; i < objs; ++i) s += dump(p, *ModelNode::Ptr::make(p.shared_from_this(), ModelNodeAddress{ModelPool::Objects, (uint32_t)i})) + ";";
    for (size_t i = 0; i < arrs; ++i) s += dump(p, *ModelNode::Ptr::make(p.shared_from_this(), ModelNodeAddress{ModelPool::Arrays, (uint32_t)i})) + ";";
    return s;
}

inline bool same(simfil::ScalarValueType const& v, V const& w)
{
    switch (w.k) {
    case V::Null: return std::holds_alternative<std::monostate>(v);
    case V::Bool: return std::holds_alternative<bool>(v) && std::get<bool>(v) == w.b;
    case V::Int: return std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == w.i;
    case V::Float: return std::holds_alternative<double>(v) && (std::isnan(w.f) ? std::isnan(std::get<double>(v)) : !memcmp(&w.f, &std::get<double>(v), 8));
    case V::Str: return (std::holds_alternative<std::string>(v) && std::get<std::string>(v) == w.s) || (std::holds_alternative<std::string_view>(v) && std::get<std::string_view>(v) == w.s);
    case V::Cont: return std::holds_alternative<std::monostate>(v);
    }
    return false;
}
inline ValueType typeOf(Ref const& r, V const& w)
{
    switch (w.k) {
    case V::Null: return ValueType::Null; case V::Bool: return ValueType::Bool; case V::Int: return ValueType::Int; case V::Float: return ValueType::Float; case V::Str: return ValueType::String;
    case V::Cont: return r.conts[w.c].obj ? ValueType::Object : ValueType::Array;
    }
    return ValueType::Undef;
}

const std::vector<std::string> names = {"a", "b", "A", "name", "", "ab\xc3\xa4", "n\0x"s, "$sum", "B"};
const int64_t out[] = {-1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), -2, int64_t(1) << 32, (int64_t(1) << 32) - 1};

struct Hist {
    std::shared_ptr<ModelPool> pool;
    Ref ref;
    std::vector<ModelNode::Ptr> node;                    // of every container
    std::map<std::string, std::string> spelling;         // folded name -> first interned
    explicit Hist(std::shared_ptr<StringPool> s = nullptr) : pool(s ? std::make_shared<ModelPool>(s) : std::make_shared<ModelPool>()) {}

    bool reaches(int from, int to) const
    {
        if (from == to) return true;
        for (auto& [n, k] : ref.conts[from].kids) if (k.k == V::Cont && reaches(k.c, to)) return true;
        return false;
    }
    int create(bool obj, int cap)
    {
        if (obj) node.push_back(cap < 0 ? pool->newObject() : pool->newObject(cap)); else node.push_back(cap < 0 ? pool->newArray() : pool->newArray(cap));
        ref.conts.push_back({obj, {}});
        return ref.conts.size() - 1;
    }
    // how: the kind of value and the call that adds it
    bool add(int k, char how, std::string const& name)
    {
        auto& c = ref.conts[k];
        auto& p = *pool;
        V w; ModelNode::Ptr n;
        auto typed = [&](auto value) {
            if (c.obj) p.resolveObject(node[k])->addField(name, value); else p.resolveArray(node[k])->append(value);
        };
        bool done = true;
        switch (how) {
        case 't': w = V::B(true); if (c.obj) p.resolveObject(node[k])->addBool(name, true); else p.resolveArray(node[k])->append(true); break;
        case 'f': w = V::B(false); if (c.obj) p.resolveObject(node[k])->addBool(name, false); else p.resolveArray(node[k])->append(false); break;
        case 'i': w = V::I(-32768); typed((int16_t)-32768); break;
        case 'j': w = V::I(32767); typed((int16_t)32767); break;
        case 'u': w = V::I(65535); typed((uint16_t)65535); break;
        case 'l': w = V::I(int64_t(1) << 40); typed((int64_t)w.i); break;
        case 'm': w = V::I(-5); typed((int64_t)w.i); break;
        case 'd': w = V::F(0.5); typed(0.5); break;
        case 's': w = V::S("xy"); typed(std::string_view("xy")); break;
        case 'e': w = V::S(""); typed(std::string_view("")); break;
        default: done = false;
        }
        if (!done) {
            switch (how) {
            case 'n': n = ModelNode::Ptr::make(pool, ModelNodeAddress{ModelPool::Null, 1}); break;
            case 'F': w = V::B(false); n = p.newSmallValue(false); break;
            case 'I': w = V::I(-1); n = p.newSmallValue((int16_t)-1); break;
            case 'U': w = V::I(0); n = p.newSmallValue((uint16_t)0); break;
            case 'L': w = V::I(std::numeric_limits<int64_t>::max()); n = p.newValue((int64_t)w.i); break;
            case 'M': w = V::I(-32769); n = p.newValue((int64_t)w.i); break;
            case 'D': w = V::F(-0.0); n = p.newValue(-0.0); break;
            case 'S': w = V::S("a\0\xc3\xa4"s); n = p.newValue(std::string_view(w.s)); break;
            default: {
                int j = how - '0';
                if (j < 0 || j >= (int)ref.conts.size() || reaches(j, k)) return false;
                w = V::C(j); n = node[j];
            }
            }
            if (c.obj) {
                if (w.k == V::Cont && (k & 1)) {   // typed pointers, too
                    if (ref.conts[w.c].obj) p.resolveObject(node[k])->addField(name, p.resolveObject(n)); else p.resolveObject(node[k])->addField(name, p.resolveArray(n));
                } else p.resolveObject(node[k])->addField(name, n);
            } else if (w.k == V::Cont && (k & 1)) {
                if (ref.conts[w.c].obj) p.resolveArray(node[k])->append(p.resolveObject(n)); else p.resolveArray(node[k])->append(p.resolveArray(n));
            } else p.resolveArray(node[k])->append(n);
        }
        if (c.obj) spelling.emplace(fold(name), name);
        c.kids.emplace_back(c.obj ? name : "", w);
        return true;
    }
    bool extend(int k, int j)
    {
        auto& c = ref.conts[k];
        if (c.obj != ref.conts[j].obj) return false;
        for (auto& [n, v] : ref.conts[j].kids) if (v.k == V::Cont && reaches(v.c, k)) return false;
        if (c.obj) pool->resolveObject(node[k])->extend(pool->resolveObject(node[j])); else pool->resolveArray(node[k])->extend(pool->resolveArray(node[j]));
        auto copy = ref.conts[j].kids;
        for (auto& x : copy) c.kids.push_back(x);
        return true;
    }
    // ops of four bytes: o cap . . | a cap . . | + k how name | x k j . | r k . . | R how . . | c . . . ; false: not applicable
    bool op(char const* o)
    {
        auto cont = [&](char x) { return x >= '0' && x - '0' < (int)ref.conts.size(); };
        switch (o[0]) {
        case 'o': create(true, o[1] == 'd' ? -1 : o[1] - '0'); return true;
        case 'a': create(false, o[1] == 'd' ? -1 : o[1] - '0'); return true;
        case '+': return cont(o[1]) && add(o[1] - '0', o[2], ref.conts[o[1] - '0'].obj ? names.at(o[3] - '0') : "");
        case 'x': return cont(o[1]) && cont(o[2]) && extend(o[1] - '0', o[2] - '0');
        case 'r': if (!cont(o[1])) return false; pool->addRoot(node[o[1] - '0']); ref.roots.push_back(V::C(o[1] - '0')); return true;
        case 'R':
            if (o[1] == 's') { pool->addRoot(pool->newValue(std::string_view("root"))); ref.roots.push_back(V::S("root")); }
            else if (o[1] == 'i') { pool->addRoot(pool->newValue((int64_t)65536)); ref.roots.push_back(V::I(65536)); }
            else if (o[1] == 'd') { pool->addRoot(pool->newValue(1e300)); ref.roots.push_back(V::F(1e300)); }
            else { pool->addRoot(pool->newSmallValue(true)); ref.roots.push_back(V::B(true)); }
            return true;
        case 'c': pool->clear(); ref = {}; node.clear(); return true;
        }
        return false;
    }
    bool ops(std::string const& c) { for (size_t i = 0; i + 4 <= c.size(); i += 4) if (!op(c.data() + i)) return false; return true; }
    size_t count(bool obj) const { size_t n = 0; for (auto& c : ref.conts) n += c.obj == obj; return n; }

    // ---- reading back ----
    void checkScalar(ModelNode const& n, V const& w, std::string const& at) const
    {
        if (n.type() != typeOf(ref, w)) mc::fail(at + "has type " + std::to_string((int)n.type()) + " instead of that of " + dump(ref, w));
        if (!same(n.value(), w)) mc::fail(at + "value is " + dump(*pool, n) + " instead of " + dump(ref, w));
        if (w.k == V::Cont) return;
        if (n.size() != 0 || n.at(0) || n.at(-1) || n.get(StringPool::Empty) || n.get(128) || n.keyAt(0) != 0) mc::fail(at + "a scalar has children");
        if (!n.iterate(ModelNode::IterLambda([&](ModelNode const&) { mc::fail(at + "iterating a scalar visits something"); return true; }))) mc::fail(at + "iterating a scalar reports a stop");
        for (auto x : n) { (void)x; mc::fail(at + "a scalar has members"); }
    }
    void checkShallow(ModelNode const& n, V const& w, std::string const& at) const
    {
        checkScalar(n, w, at);
        if (w.k == V::Cont) {
            auto& c = ref.conts[w.c];
            if (n.size() != c.kids.size()) mc::fail(at + "has " + std::to_string(n.size()) + " members instead of " + std::to_string(c.kids.size()));
            if (n.addr().value_ != node[w.c]->addr().value_) mc::fail(at + "is not the expected node");
        }
    }
    void checkName(StringId id, std::string const& name, std::string const& at) const
    {
        auto r = pool->strings()->resolve(id), l = pool->lookupStringId(id);
        if (!r || !l || *r != *l || fold(std::string(*r)) != fold(name)) mc::fail(at + "name is '" + (r ? std::string(*r) : "?") + "' instead of '" + name + "'");
    }
    template <class N> void checkCont(N const& n, int k, std::string const& at) const
    {
        auto& c = ref.conts[k];
        size_t m = c.kids.size();
        checkShallow(n, V::C(k), at);
        for (size_t i = 0; i < m; ++i) {
            auto at2 = at + "[" + std::to_string(i) + "] ";
            auto p = n.at(i);
            if (!p) mc::fail(at2 + "is missing");
            checkShallow(*p, c.kids[i].second, at2);
            if (c.obj) checkName(n.keyAt(i), c.kids[i].first, at2);
        }
        for (int64_t i : out) if (n.at(i) || n.keyAt(i) != StringPool::Empty) mc::fail(at + "at/keyAt(" + std::to_string(i) + ") is not empty");
        for (int64_t i : {(int64_t)m, (int64_t)m + 1, (int64_t)m + 100}) if (n.at(i) || n.keyAt(i) != StringPool::Empty) mc::fail(at + "at/keyAt(" + std::to_string(i) + ") is not empty");
        // by name: the first one wins
        for (auto& name : names) {
            auto id = pool->strings()->get(name);
            if (!id && !fold(name).empty()) continue;
            auto p = n.get(id);
            auto w = std::find_if(c.kids.begin(), c.kids.end(), [&](auto& x) { return c.obj && fold(x.first) == fold(name); });
            if ((w != c.kids.end()) != (bool)p) mc::fail(at + "get('" + name + "') " + (p ? "finds something" : "finds nothing"));
            if (p) checkShallow(*p, w->second, at + "get('" + name + "') ");
        }
        if (n.get((StringId)60000) || n.get((StringId)(pool->strings()->highest() + 1))) mc::fail(at + "an unknown id is found");
        // iteration in all ways
        for (size_t stop = 0; stop <= m; ++stop) {
            size_t i = 0;
            bool r = n.iterate(ModelNode::IterLambda([&](ModelNode const& x) { if (i >= m) mc::fail(at + "iterate visits too much"); checkShallow(x, c.kids[i].second, at + "iterate " + std::to_string(i) + " "); return i++ != stop; }));
            if (i != std::min(stop + 1, m) || r != (stop >= m)) mc::fail(at + "iterate stopping at " + std::to_string(stop) + " visits " + std::to_string(i) + " and returns " + std::to_string(r));
        }
        size_t i = 0;
        for (auto x : n) { if (i >= m) mc::fail(at + "too many children"); checkShallow(*x, c.kids[i].second, at + "child " + std::to_string(i) + " "); ++i; }
        if (i != m) mc::fail(at + "too few children");
        i = 0;
        for (auto const& [id, x] : n.fields()) { if (i >= m) mc::fail(at + "too many fields"); if (c.obj) checkName(id, c.kids[i].first, at); checkShallow(*x, c.kids[i].second, at + "field " + std::to_string(i) + " "); ++i; }
        if (i != m) mc::fail(at + "too few fields");
        i = 0;
        for (auto id : n.fieldNames()) { if (i >= m) mc::fail(at + "too many names"); if (c.obj) checkName(id, c.kids[i].first, at); ++i; }
        if (i != m) mc::fail(at + "too few names");
    }
    void check() const
    {
        if (pool->numRoots() != ref.roots.size()) mc::fail("the pool has " + std::to_string(pool->numRoots()) + " roots instead of " + std::to_string(ref.roots.size()));
        for (size_t i = 0; i < ref.roots.size(); ++i) {
            checkShallow(*pool->root(i), ref.roots[i], "root " + std::to_string(i) + " ");
            auto d = dump(*pool, *pool->root(i)), w = dump(ref, ref.roots[i]);
            if (d != w) mc::fail("root " + std::to_string(i) + " is " + d + " instead of " + w);
        }
        for (size_t i : {ref.roots.size(), ref.roots.size() + 1, (size_t)-1}) {
            bool raised = false;
            try { (void)pool->root(i); } catch (std::exception const&) { raised = true; }
            if (!raised) mc::fail("root(" + std::to_string(i) + ") exists");
        }
        for (size_t k = 0; k < ref.conts.size(); ++k) {
            auto at = "container " + std::to_string(k) + " ";
            checkCont(*node[k], k, at);
            if (ref.conts[k].obj) {
                auto o = pool->resolveObject(node[k]);
                checkCont(*o, k, at);
                for (auto& [n, v] : ref.conts[k].kids) {
                    std::string other = n; for (auto& ch : other) ch = ch >= 'a' && ch <= 'z' ? ch - 32 : ch >= 'A' && ch <= 'Z' ? ch + 32 : ch;
                    for (auto& q : {n, other}) {
                        auto p = o->get(std::string_view(q));
                        auto w = std::find_if(ref.conts[k].kids.begin(), ref.conts[k].kids.end(), [&](auto& x) { return fold(x.first) == fold(n); });
                        if (!p) mc::fail(at + "get(\"" + q + "\") finds nothing");
                        checkShallow(*p, w->second, at + "get(\"" + q + "\") ");
                    }
                }
                bool raised = false;
                try { (void)pool->resolveArray(node[k]); } catch (std::exception const&) { raised = true; }
                if (!raised) mc::fail(at + "an object is accepted as an array");
            } else {
                auto a = pool->resolveArray(node[k]);
                checkCont(*a, k, at);
                auto const& kids = ref.conts[k].kids;
                for (size_t stop = 0; stop <= kids.size(); ++stop) {
                    size_t i = 0;
                    bool r = a->forEach([&](ModelNode const& x) { if (i >= kids.size()) mc::fail(at + "forEach visits too much"); checkShallow(x, kids[i].second, at + "forEach "); return i++ != stop; });
                    if (i != std::min(stop + 1, kids.size()) || r != (stop >= kids.size())) mc::fail(at + "forEach stopping at " + std::to_string(stop) + " visits " + std::to_string(i));
                }
                bool raised = false;
                try { (void)pool->resolveObject(node[k]); } catch (std::exception const&) { raised = true; }
                if (!raised) mc::fail(at + "an array is accepted as an object");
            }
        }
        pool->validate();
        for (auto& [f, s] : spelling) {
            auto id = pool->strings()->get(s);
            auto r = pool->strings()->resolve(id);
            if (!r || fold(std::string(*r)) != f) mc::fail("the name '" + s + "' was lost");
        }
    }
};

// Printable form of a history.
inline std::string show(std::string const& c) { std::string s; for (size_t i = 0; i + 4 <= c.size(); i += 4) { s += (s.empty() ? "" : " "); for (int j = 0; j < 4; ++j) if (c[i + j] != '.') s += c[i + j]; } return s; }
}

namespace mu {
// Histories of models that differ in structure: used by the checks of serialization, string pools and validation.
inline void corpus(bool th, int L, std::function<void(std::string const&)> const& emit)
{
    auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n, std::string const& post = "") { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s + post); }); };
    emit("");
    std::vector<std::string> all; for (char h : std::string("tfijulmdsenFIULMDS")) all.push_back("+0"s + h + "0");
    for (auto kind : {"o0..", "a2.."}) { for (int n = 0; n <= 2; ++n) seqs(kind, all, n, "r0.."); }
    std::vector<std::string> ops = {"o0..", "a1..", "r0..", "r1..", "Rs..", "Ri..", "Rd..", "Rb..", "x01.", "x11.", "c...", "+011", "+101", "+0u0", "+1s2", "+0L4", "+1d1", "+0s3"};
    for (int n = 1; n <= 3 - (L > 1); ++n) seqs("", ops, n);
    for (auto pre : {"o0..a0..", "o1..o0..", "a0..a2..", "a1..o0.."}) for (int n = 2; n <= 3 + th - (L > 0) - (L > 1); ++n) seqs(pre, ops, n, "r0..");
    // arrays in several interleaved pieces
    for (auto pre : {"o0..a0..o1..", "a0..a1..a2.."}) seqs(pre, {"+0u0", "+1s1", "+2l2"}, (th ? 8 : 6) - L, "r0..r2..r1..");
}
// The same containers in another pool (after reading a copy).
inline Hist attach(Hist const& h, std::shared_ptr<ModelPool> pool)
{
    Hist r(pool->strings());
    r.pool = pool; r.ref = h.ref; r.spelling = h.spelling;
    for (auto& n : h.node) r.node.push_back(ModelNode::Ptr::make(pool, n->addr()));
    return r;
}
inline std::shared_ptr<StringPool> someStrings() { auto s = std::make_shared<StringPool>(); s->emplace("zz"); s->emplace("B"); return s; }
}
