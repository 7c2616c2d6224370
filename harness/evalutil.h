// Builds models, runs queries on the real library and compares the values with the reference evaluator.
#pragma once
#include "mc.h"
#include "enumutil.h"
#include "eval.h"
#include "simfil/simfil.h"
#include "simfil/model/model.h"
#include "simfil/function.h"
#include "simfil/types.h"
#include <cmath>
#include <sstream>

namespace eu {
using namespace std::string_literals;
using simfil::Value;
using simfil::ValueType;

inline simfil::ModelNode::Ptr nullNode(simfil::ModelPool& m)
{
    return simfil::ModelNode::Ptr::make(m.shared_from_this(), simfil::ModelNodeAddress{simfil::ModelPool::Null, 1});
}

inline simfil::ModelNode::Ptr build(ref::Node const& n, simfil::ModelPool& m)
{
    switch (n.kind) {
    case ref::Node::Null: return nullNode(m);
    case ref::Node::Bool: return m.newSmallValue(n.b);
    case ref::Node::Int: return m.newValue(n.i);
    case ref::Node::Float: return m.newValue(n.f);
    case ref::Node::Str: return m.newValue(std::string_view(n.s));
    case ref::Node::Arr: {
        auto a = m.newArray(n.kids.size());
        for (auto& [k, v] : n.kids) a->append(build(*v, m));
        return a;
    }
    case ref::Node::Obj: {
        auto o = m.newObject(n.kids.size());
        for (auto& [k, v] : n.kids) o->addField(k, build(*v, m));
        return o;
    }
    }
    return {};
}

inline void addresses(ref::Node const& n, simfil::ModelNode const& m)
{
    n.addr = m.addr().value_;
    for (size_t i = 0; i < n.kids.size(); ++i) {
        auto k = m.at(i);
        if (!k) mc::fail("harness: the model lost a child");
        addresses(*n.kids[i].second, *k);
    }
}

struct Model {
    std::shared_ptr<ref::Doc> doc;
    std::shared_ptr<simfil::ModelPool> pool;
    simfil::ModelNode::Ptr root;
};

// A fresh model of its own.
inline Model modelOf(std::shared_ptr<ref::Doc> doc, std::shared_ptr<simfil::StringPool> strings = nullptr)
{
    Model r;
    r.doc = std::move(doc);
    r.pool = strings ? std::make_shared<simfil::ModelPool>(strings) : std::make_shared<simfil::ModelPool>();
    r.pool->addRoot(build(*r.doc->root, *r.pool));
    r.root = r.pool->root(0);
    addresses(*r.doc->root, *r.root);
    return r;
}
inline Model model(std::string const& text, std::shared_ptr<simfil::StringPool> strings = nullptr) { return modelOf(ref::doc(text), std::move(strings)); }
// Shared between the cases of one worker; queries must not modify it (C15 decides that).
inline Model& cached(std::string const& text)
{
    static std::map<std::string, Model> m;
    auto i = m.find(text);
    if (i == m.end()) i = m.emplace(text, model(text)).first;
    return i->second;
}

inline std::string show(Value const& v)
{
    char b[64];
    switch (v.type) {
    case ValueType::Undef: return "<undef>";
    case ValueType::Null: return "null";
    case ValueType::Bool: return v.as<ValueType::Bool>() ? "true" : "false";
    case ValueType::Int: return std::to_string(v.as<ValueType::Int>());
    case ValueType::Float: snprintf(b, sizeof b, "%.17gf", v.as<ValueType::Float>()); return b;
    case ValueType::String: return "'" + v.as<ValueType::String>() + "'";
    case ValueType::TransientObject: return "<" + v.as<ValueType::TransientObject>().meta->ident + " " + v.toString() + ">";
    case ValueType::Object: return "<object>";
    case ValueType::Array: return "<array>";
    }
    return "<?>";
}
template <class V> std::string showAll(V const& vs) { std::string s; for (auto& v : vs) s += (s.empty() ? "" : ", ") + (s.size() > 600 ? "..."s : show(v)); return "[" + s + "]"; }
inline std::string showAll(std::vector<ref::Val> const& vs) { std::string s; for (auto& v : vs) s += (s.empty() ? "" : ", ") + (s.size() > 600 ? "..."s : ref::show(v)); return "[" + s + "]"; }

inline bool sameF(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) || a != 0 : std::isnan(a) && std::isnan(b); }

// "" if equal
inline std::string diff(Value const& v, ref::Val const& w)
{
    using T = ref::Val;
    bool ok = false;
    switch (w.t) {
    case T::Null: ok = v.isa(ValueType::Null); break;
    case T::Bool: ok = v.isBool(w.b); break;
    case T::Int: ok = v.isa(ValueType::Int) && v.as<ValueType::Int>() == w.i; break;
    case T::Float: ok = v.isa(ValueType::Float) && sameF(v.as<ValueType::Float>(), w.f); break;
    case T::Str: ok = v.isa(ValueType::String) && v.as<ValueType::String>() == w.s; break;
    case T::Range:
    case T::Re: ok = v.isa(ValueType::TransientObject) && v.as<ValueType::TransientObject>().meta->ident == ref::typeName(w) && v.toString() == ref::asString(w); break;
    case T::Model: ok = v.isa(w.ov || w.n->kind == ref::Node::Obj ? ValueType::Object : ValueType::Array); break;
    }
    if (!ok) return "expected " + ref::show(w) + " got " + show(v);
    if (w.n) {
        if (!v.node) return "expected the node " + ref::show(w) + " got a value without node";
        if (w.n->compound() && v.node->addr().value_ != w.n->addr) return "the result " + ref::show(w) + " is not the expected node of the model";
    }
    return "";
}
inline std::string diff(std::vector<Value> const& v, std::vector<ref::Val> const& w)
{
    for (size_t i = 0; i < std::min(v.size(), w.size()); ++i)
        if (auto d = diff(v[i], w[i]); !d.empty()) return "value " + std::to_string(i) + ": " + d + "; expected " + showAll(w) + " got " + showAll(v);
    if (v.size() != w.size()) return "expected " + showAll(w) + " got " + showAll(v);
    return "";
}

struct Outcome {
    enum { Values, CompileError, EvalError } kind = Values;
    std::string what;
    std::vector<Value> v;
};

inline Outcome run(simfil::Environment& env, std::string_view q, simfil::ModelNode const& root, bool any = false, bool wild = false)
{
    Outcome o;
    simfil::ExprPtr e;
    std::vector<char> copy(q.begin(), q.end());    // exact-size copy, so that reads beyond it are seen
    try { e = simfil::compile(env, std::string_view(copy.data(), copy.size()), any, wild); }
    catch (std::exception const& x) { o.kind = Outcome::CompileError; o.what = x.what(); return o; }
    if (!e) { o.kind = Outcome::CompileError; o.what = "null expression"; mc::fail("compile returned a null pointer"); }
    try { o.v = simfil::eval(env, *e, root); }
    catch (std::exception const& x) { o.kind = Outcome::EvalError; o.what = x.what(); }
    return o;
}

struct Expected { bool error = false; std::string why; std::vector<ref::Val> v; bool mayFailEarly = false; bool tooLong = false; };

inline Expected expect(ref::Eval& E, ref::AstP const& ast, ref::Val const& root, size_t maxValues = 200000)
{
    Expected x;
    try { E.steps = 0; E.ev(*ast, root, [&](ref::Val v) { if (x.v.size() >= maxValues) throw ref::Eval::Limit{}; x.v.push_back(std::move(v)); return true; }); }
    catch (ref::Error const& e) { x.error = true; x.why = e.why; }
    catch (ref::Eval::Limit const&) { x.tooLong = true; }
    return x;
}

// A label per class of observation, for the non-vacuity statistics.
inline std::string shape(std::vector<Value> const& v)
{
    if (v.empty()) return "no value";
    std::string s = v.size() == 1 ? "one " : v.size() <= 3 ? "few " : "many ";
    return s + simfil::valueType2String(v[0].type);
}

// Compares one query on one document with the reference. Returns false if the query is malformed.
inline bool compare(std::string const& q, Model& m, mc::Run& run, simfil::Environment* envp = nullptr, ref::Eval* refp = nullptr)
{
    std::unique_ptr<simfil::Environment> own;
    if (!envp) { own = std::make_unique<simfil::Environment>(m.pool->strings()); envp = own.get(); }
    ref::Eval ownRef;
    if (!refp) refp = &ownRef;
    ref::Names names;
    names.constant = [&](std::string const& n) { return refp->constants.count(ref::lower(n)) > 0; };
    ref::AstP ast; std::string why;
    try { ast = ref::parse(q, names); } catch (ref::Error const& e) { why = e.why; }
    run.step();
    if (!ast) {
        auto o = eu::run(*envp, q, *m.root);
        if (o.kind != Outcome::CompileError) mc::fail("accepted a malformed query (" + why + ")");
        run.outcome("malformed"); run.state("malformed " + why);
        return false;
    }
    auto root = ref::Val::N(m.doc->root);
    auto w = expect(*refp, ast, root);
    if (w.tooLong) return true;
    auto o = eu::run(*envp, q, *m.root);
    if (w.error) {
        if (o.kind == Outcome::Values) mc::fail("must raise (" + w.why + ") but returned " + showAll(o.v));
        run.outcome("raises"); run.state("raises " + w.why);
        return true;
    }
    if (o.kind == Outcome::CompileError && refp->anyRaises(*ast, root)) { run.outcome("raises early"); return true; }
    if (o.kind != Outcome::Values) mc::fail("must return " + showAll(w.v) + " but raised: " + o.what);
    if (auto d = diff(o.v, w.v); !d.empty()) mc::fail(d);
    run.outcome(shape(o.v));
    run.state(m.doc->text + "|" + showAll(w.v));
    return true;
}

// case = query '\x01' document
inline std::pair<std::string, std::string> split(std::string const& c) { auto p = c.rfind('\x01'); return {c.substr(0, p), c.substr(p + 1)}; }
inline std::string showCase(std::string const& c) { auto [q, d] = split(c); return mc::quote(q) + "  on  " + mc::quote(d); }

}  // namespace eu
