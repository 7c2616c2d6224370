// C43: a value keeps its kind and content through every conversion, and every accessor agrees on them.
#include "evalutil.h"
#include "simfil/overlay.h"
#include <limits>
using namespace std::string_literals;
using simfil::ModelNode;
using simfil::Value;
using simfil::ValueType;

namespace {
constexpr auto imin = std::numeric_limits<int64_t>::min(), imax = std::numeric_limits<int64_t>::max();
// what a value is: 'n' null, 'b' bool, 'i' int, 'f' float, 's' text, 'u' undefined, 't' transient, 'o' object, 'a' array
struct Want { char k; bool b = false; int64_t i = 0; double f = 0; std::string s; bool node = false; };
const std::string texts[] = {"", "a", "a text that is too long for a small buffer", "with\0zero"s, "\xc3\xa4\n", "5", "null"};
const int64_t ints[] = {0, 1, -1, 255, 32767, 32768, -32768, -32769, 65535, 65536, 4294967296, imin, imax};
const double floats[] = {0.0, -0.0, 0.5, -2.0, 1e300, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 9007199254740993.0};
const std::string docText = R"({"o":{"a":1,"b":[null,"x"]},"a":[1,[2.5],{}],"e":{},"l":[]})";

struct Source { Want w; std::function<Value()> make; };
std::vector<Source> const& sources()
{
    static std::vector<Source> r;
    if (!r.empty()) return r;
    static auto pool = std::make_shared<simfil::ModelPool>();
    static auto m = eu::model(docText);
    auto plain = [&](Want w, std::function<Value()> f) { w.node = false; r.push_back({w, f}); };
    auto node = [&](Want w, std::function<ModelNode::Ptr()> f) { w.node = true; r.push_back({w, [f] { return Value::field(f()); }}); r.push_back({w, [f] { auto n = f(); return Value::field(*n); }}); r.push_back({w, [f] { return Value::field(std::move(*f())); }}); };
    plain({'u'}, [] { return Value::undef(); });
    plain({'n'}, [] { return Value::null(); });
    plain({'n'}, [] { return Value(simfil::ScalarValueType{}); });
    plain({'b', true}, [] { return Value::t(); });
    plain({'b', false}, [] { return Value::f(); });
    for (bool b : {false, true}) {
        plain({'b', b}, [b] { return Value::make(b); }); plain({'b', b}, [b] { return Value(simfil::ScalarValueType(b)); });
        node({'b', b}, [b] { return pool->newSmallValue(b); }); node({'b', b}, [b] { return ModelNode::Ptr(simfil::ValueNode(b)); });
    }
    for (auto i : ints) {
        plain({'i', false, i}, [i] { return Value::make(i); }); plain({'i', false, i}, [i] { return Value(simfil::ScalarValueType(i)); }); plain({'i', false, i}, [i] { return Value(ValueType::Int, i); });
        node({'i', false, i}, [i] { return pool->newValue(i); }); node({'i', false, i}, [i] { return ModelNode::Ptr(simfil::ValueNode(i)); });
        if (i == (int16_t)i) node({'i', false, i}, [i] { return pool->newSmallValue((int16_t)i); });
        if (i == (uint16_t)i) node({'i', false, i}, [i] { return pool->newSmallValue((uint16_t)i); });
    }
    for (auto f : floats) {
        plain({'f', false, 0, f}, [f] { return Value::make(f); }); plain({'f', false, 0, f}, [f] { return Value(simfil::ScalarValueType(f)); });
        node({'f', false, 0, f}, [f] { return pool->newValue(f); }); node({'f', false, 0, f}, [f] { return ModelNode::Ptr(simfil::ValueNode(f)); });
    }
    for (auto& t : texts) {
        Want w{'s', false, 0, 0, t};
        plain(w, [&t] { return Value::make(std::string(t)); }); plain(w, [&t] { return Value::make(t); }); plain(w, [&t] { return Value::strref(t); }); plain(w, [&t] { return Value::make(std::string_view(t)); });
        plain(w, [&t] { return Value(simfil::ScalarValueType(t)); }); plain(w, [&t] { return Value(simfil::ScalarValueType(std::string_view(t))); });
        node(w, [&t] { return pool->newValue(std::string_view(t)); }); node(w, [&t] { return ModelNode::Ptr(simfil::ValueNode(t)); }); node(w, [&t] { return ModelNode::Ptr(simfil::ValueNode(std::string_view(t))); });
    }
    plain({'t', false, 3, 7}, [] { return simfil::IRangeType::Type.make(3, 7); });
    node({'n'}, [] { return eu::nullNode(*pool); });
    node({'n'}, [] { return ModelNode::Ptr(simfil::ValueNode(simfil::ScalarValueType{})); });
    for (auto n : {"o", "e", "a", "l"}) node({n == "o"s || n == "e"s ? 'o' : 'a', false, 0, 0, n}, [n] { return m.root->get(m.pool->strings()->get(n)); });
    return r;
}

ValueType typeOf(char k) { return k == 'u' ? ValueType::Undef : k == 'n' ? ValueType::Null : k == 'b' ? ValueType::Bool : k == 'i' ? ValueType::Int : k == 'f' ? ValueType::Float : k == 's' ? ValueType::String : k == 't' ? ValueType::TransientObject : k == 'o' ? ValueType::Object : ValueType::Array; }
bool eq(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) : a != a && b != b; }
struct Visit {
    std::string r;
    std::string operator()(simfil::UndefinedType) const { return "u"; }
    std::string operator()(simfil::NullType) const { return "n"; }
    std::string operator()(bool) const { return "b"; }
    std::string operator()(int64_t) const { return "i"; }
    std::string operator()(double) const { return "f"; }
    std::string operator()(std::string const& s) const { return "s" + s; }
    std::string operator()(simfil::TransientObject const&) const { return "t"; }
    std::string operator()(ModelNode const& n) const { return n.type() == ValueType::Array ? "a" : n.type() == ValueType::Object ? "o" : "?"; }
};
std::string holds(simfil::ScalarValueType const& s, Want const& w)
{
    const bool ok = w.k == 'b' ? std::holds_alternative<bool>(s) && std::get<bool>(s) == w.b : w.k == 'i' ? std::holds_alternative<int64_t>(s) && std::get<int64_t>(s) == w.i : w.k == 'f' ? std::holds_alternative<double>(s) && eq(std::get<double>(s), w.f)
        : w.k == 's' ? (std::holds_alternative<std::string>(s) ? std::get<std::string>(s) == w.s : std::holds_alternative<std::string_view>(s) && std::get<std::string_view>(s) == w.s) : std::holds_alternative<std::monostate>(s);
    return ok ? "" : "the scalar is another one";
}

void check(Value const& cv, Want const& w, std::string const& at)
{
    auto is = [&](bool ok, std::string const& what) { if (!ok) mc::fail(at + what + " (" + w.k + " '" + mc::quote(w.s) + "' " + std::to_string(w.i) + " " + std::to_string(w.f) + ")"); };
    auto v = cv;
    const auto t = typeOf(w.k);
    is(v.type == t, "type");
    for (int x = 0; x <= (int)ValueType::Array; ++x) is(v.isa((ValueType)x) == ((ValueType)x == t), "isa");
    is(v.isBool(true) == (w.k == 'b' && w.b) && v.isBool(false) == (w.k == 'b' && !w.b), "isBool");
    is((bool)v.node == w.node, "node");
    if (w.k == 'b') is(v.as<ValueType::Bool>() == w.b, "as bool");
    if (w.k == 'i') is(v.as<ValueType::Int>() == w.i, "as int");
    if (w.k == 'f') is(eq(v.as<ValueType::Float>(), w.f), "as float");
    if (w.k == 's') is(v.as<ValueType::String>() == w.s, "as string");
    if (w.k != 't') { auto e = holds(v.getScalar(), w); is(e.empty(), e); }
    is(v.visit(Visit{}) == (w.k == 's' ? "s" + w.s : std::string(1, w.k)), "visit");
    if (auto sv = v.stringViewValue()) is(w.k == 's' && *sv == w.s, "string view");
    auto text = v.toString();
    switch (w.k) {
    case 'u': is(text == "undef", "text"); break;
    case 'n': is(text == "null", "text"); break;
    case 'b': is(text == (w.b ? "true" : "false"), "text"); break;
    case 'i': is(text == std::to_string(w.i), "text"); break;
    case 'f': is(text == std::to_string(w.f), "text"); break;
    case 's': is(text == w.s, "text"); break;
    case 't': is(text == "3..7", "text"); { auto r = simfil::getObject<simfil::IRange>(v, &simfil::IRangeType::Type); is(r && r->begin == 3 && r->end == 7, "object"); } break;
    default: is(nlohmann::json::parse(text) == nlohmann::json::parse(docText)[w.s], "text"); break;
    }
    // numbers
    auto [isInt, asInt] = simfil::getNumeric<int64_t>(w.k == 'f' && !(std::abs(w.f) < 9e18) ? Value::null() : v);
    auto [isFloat, asFloat] = simfil::getNumeric<double>(v);
    if (w.k == 'i') is(isInt && asInt == w.i && isFloat && asFloat == (double)w.i, "number");
    else if (w.k == 'f') { is(isFloat && eq(asFloat, w.f), "number"); if (std::abs(w.f) < 9e18) is(isInt && asInt == (int64_t)w.f, "number"); }
    else is(!isInt && !isFloat, "number");
    if (w.k != 't') { auto [y, d] = simfil::getNumeric<double>(v.getScalar()); is(y == (w.k == 'i' || w.k == 'f'), "number of the scalar"); if (y) is(eq(d, w.k == 'i' ? (double)w.i : w.f), "number of the scalar"); }
    // the node behind it
    if (v.node) {
        auto& n = *v.node;
        is(n.type() == t, "type of the node");
        auto e = holds(n.value(), w); is(e.empty(), "node: " + e);
        if (w.k != 'o' && w.k != 'a') {
            is(n.size() == 0 && !n.at(0) && !n.at(-1) && !n.get(simfil::StringPool::OverlaySum) && n.keyAt(0) == 0, "children of a scalar");
            bool any = false; is(n.iterate(ModelNode::IterLambda([&](ModelNode const&) { any = true; return true; })) && !any, "iterating over a scalar");
            auto j = n.toJson();
            is(w.k == 'n' ? j.is_null() : w.k == 'b' ? j == nlohmann::json(w.b) && j.is_boolean() : w.k == 'i' ? j.is_number_integer() && j.get<int64_t>() == w.i : w.k == 'f' ? j.is_number_float() && eq(j.get<double>(), w.f) : j.is_string() && j.get<std::string>() == w.s, "exported node");
        }
    }
}
}

// case: index of the source, ':' conversions
static void run(std::string const& c, mc::Run& run)
{
    auto colon = c.find(':');
    auto& src = sources().at(std::stoul(c));
    auto w = src.w;
    static auto pool = std::make_shared<simfil::ModelPool>();
    std::deque<std::string> texts;      // what text references refer to
    std::deque<simfil::ScalarValueType> scalars;
    std::vector<ModelNode::Ptr> nodes;
    Value v = src.make();
    check(v, w, "at first: ");
    std::string st = c.substr(0, colon + 1);
    bool compound = w.k == 'o' || w.k == 'a', special = w.k == 't' || w.k == 'u';
    auto keep = [&] { if (v.node) nodes.push_back(v.node); };
    for (size_t p = colon + 1; p < c.size(); ++p) {
        run.step();
        switch (c[p]) {
        case 'c': { Value t(v); Value u = Value::null(); u = t; v = u; break; }
        case 'm': { Value t(std::move(v)); Value u = Value::make("x"s); u = std::move(t); v = std::move(u); break; }
        case 'S': if (compound || special) break; keep(); scalars.push_back(v.getScalar()); v = Value(simfil::ScalarValueType(scalars.back())); w.node = false; break;
        case 'N': if (compound || special) break; keep(); v = Value::field(simfil::ValueNode(v.getScalar())); w.node = true; break;
        case 'n': if (!v.node) break; v = Value::field(*v.node); break;
        case 'p': if (!v.node) break; v = Value::field(ModelNode::Ptr(v.node)); break;
        case 'C': if (!v.node || special) break; { auto s = v.node->value(); scalars.push_back(s); v = Value(v.type, std::move(s), v.node); } break;
        case 'K':   // through the plain type
            if (compound || special || w.k == 'n') break;
            keep();
            v = w.k == 'b' ? Value::make(v.as<ValueType::Bool>()) : w.k == 'i' ? Value::make(v.as<ValueType::Int>()) : w.k == 'f' ? Value::make(v.as<ValueType::Float>()) : Value::make(v.as<ValueType::String>());
            w.node = false;
            break;
        case 'r': if (w.k != 's') break; keep(); texts.push_back(v.as<ValueType::String>()); v = Value::strref(texts.back()); w.node = false; break;
        case 'P': {   // through a model
            if (compound || special) break;
            auto a = pool->newArray(1);
            switch (w.k) { case 'n': a->append(eu::nullNode(*pool)); break; case 'b': a->append(v.as<ValueType::Bool>()); break; case 'i': a->append(v.as<ValueType::Int>()); break; case 'f': a->append(v.as<ValueType::Float>()); break; default: a->append(std::string_view(v.as<ValueType::String>())); }
            v = Value::field(a->at(0)); w.node = true;
            break;
        }
        case 'o': {   // as overlaid field
            if (special) break;
            auto o = simfil::model_ptr<simfil::OverlayNode>::make(Value::null());
            o->set(simfil::StringPool::OverlaySum, v);
            keep(); scalars.push_back(v.getScalar());
            auto n = o->get(simfil::StringPool::OverlaySum);
            if (!n) mc::fail("the overlaid field is missing");
            v = Value::field(n); w.node = true;
            nodes.push_back(o);
            break;
        }
        case 'e': {   // as the value of a constant of a query
            if (w.k == 'u') break;
            static auto strings = std::make_shared<simfil::StringPool>();
            simfil::Environment env(strings);
            env.constants.emplace("c", v);
            auto q = simfil::compile(env, "c", false, false);
            auto r = simfil::eval(env, *q, simfil::ValueNode((int64_t)1));
            if (r.size() != 1) mc::fail("a constant has " + std::to_string(r.size()) + " values");
            keep(); v = std::move(r[0]);
            break;
        }
        case '_': {   // as the current value
            if (!v.node) break;
            static auto strings = std::make_shared<simfil::StringPool>();
            simfil::Environment env(strings);
            auto q = simfil::compile(env, "_", false, false);
            auto r = simfil::eval(env, *q, *v.node);
            if (r.size() != 1) mc::fail("the current value is " + std::to_string(r.size()) + " values");
            v = std::move(r[0]);
            break;
        }
        }
        check(v, w, "after " + c.substr(colon + 1, p - colon) + ": ");
        st += c[p];
        run.state(st);
    }
    run.outcome(std::string(1, w.k) + (w.node ? " in a node" : ""));
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C43";
    c.bounds = "every kind of value made in every way (" + std::to_string(sources().size()) + " sources: constants, scalars of each kind at their limits, texts with and without own storage, nodes of models of each column, nodes with own values, transient objects), and all sequences of up to 4 (thorough: 5) of 13 conversions: copying, moving, "
               "to a scalar and back, to a node with own value, to the plain type, to a text reference, through a model, an overlay, a constant, the current value of a query; all accessors read after each step";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        const std::string ops = "cmSNnpCKrPoe_";
#ifdef SMALL
        const int L = 1;
#else
        const int L = 0;
#endif
        for (int n = 0; n <= (th ? 5 : 4) - L; ++n)
            for (size_t i = 0; i < sources().size(); ++i) {
                auto pre = std::to_string(i) + ":";
                if (n >= 4 && i % (th ? 1 : 5)) continue;
                if (!n) emit(pre); else en::sequences(ops.size(), n, [&](auto& ix) { auto s = pre; for (int k : ix) s += ops[k]; emit(s); });
            }
    };
    c.run = run;
    c.show = [](std::string const& s) { return s; };
    c.minOutcomes = 10;
    return mc::main(argc, argv, c);
}
