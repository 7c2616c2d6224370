// C05: raised errors reach the registered throw handler once, then the caller.
#include "evalutil.h"
#include "simfil/exception-handler.h"
#include "simfil/model/json.h"
#include "simfil/overlay.h"
#include <map>
#include <typeinfo>
#include <thread>
using namespace std::string_literals;

namespace {
struct NoWhat { int x; explicit NoWhat(int v) : x(v) {} };
struct MoveOnly : std::runtime_error { std::unique_ptr<int> p; MoveOnly(std::string a, int b) : std::runtime_error(a + std::to_string(b)), p(std::make_unique<int>(b)) {} };

struct Call { int handler; std::string type, msg; };
std::vector<Call> calls;

simfil::ModelNode::Ptr nullPtr() { return {}; }

// The kinds of errors; each must raise.
struct Kind { char const* name; std::function<void()> f; };
std::vector<Kind> kinds()
{
    auto q = [](char const* s) { return [s] { auto& m = eu::cached(R"({"a":[1,2],"b":true})"); simfil::Environment e(m.pool->strings()); auto x = simfil::compile(e, s, false); simfil::eval(e, *x, *m.root); }; };
    std::vector<Kind> k = {
        {"token", [] { simfil::tokenize("'abc"); }},
        {"token2", [] { simfil::tokenize("a ` b"); }},
        {"number", [] { simfil::tokenize("99999999999999999999"); }},
        {"syntax", q("(a")}, {"eof", q("a +")}, {"rest", q("a b b b _")}, {"cast", q("a as nothing")}, {"function", q("nope(1)")}, {"args", q("range(1)")}, {"argtype", q("range('x', 1)")},
        {"argcount", q("any()")}, {"operand", q("b + 1")}, {"division", q("a.* / 0")}, {"unary", q("-b")}, {"word", q("a foo b")}, {"range op", q("range(1, 2) + a")}, {"re type", q("re(a)")},
        {"constant operand", q("1 + true")},
        {"root", [] { eu::cached("1").pool->root(7); }},
        {"object", [] { auto& m = eu::cached("1"); m.pool->resolveObject(m.root); }},
        {"array", [] { auto& m = eu::cached("1"); m.pool->resolveArray(m.root); }},
        {"strings", [] { simfil::ModelPool m; m.setStrings(nullptr); }},
        {"environment", [] { simfil::Environment e(nullptr); }},
        {"null pointer", [] { auto p = nullPtr(); (void)p->size(); }},
        {"read", [] { std::istringstream s("xx"); auto m = std::make_shared<simfil::ModelPool>(); m->read(s); }},
        {"read strings", [] { std::istringstream s("\x01"); simfil::StringPool p; p.read(s); }},
        {"paren", q("a + (1")}, {"bracket", q("a[1")}, {"brace", q("a{1")}, {"list", q("arr(1 2)")}, {"list end", q("arr(1")}, {"left", q("1 + )")}, {"rest 2", q("1 )")},
        {"cast type", q("a as 5")}, {"cast end", q("a as")}, {"word binary", q("1 foo 2")}, {"word unary", q("a foo")},
        {"missing arg", q("split('a')")}, {"multi arg", q("range(a.*, 1)")}, {"multi opt", q("split('a', 'b', a.*)")}, {"opt type", q("split('a', 'b', 5)")},
        {"too few", q("select()")}, {"each", q("each()")}, {"count", q("count()")}, {"sum", q("sum()")}, {"sum 4", q("sum(1,2,3,4)")}, {"keys", q("keys()")}, {"re", q("re()")}, {"trace", q("trace(a, 'x')")},
        {"modulo", q("a.* % 0")}, {"div ff", q("1.5 / (a.* * 0.0)")}, {"div fi", q("1.5 / (a.* * 0)")}, {"div if", q("1 / (a.* * 0.0)")},
        {"range unary", q("-range(1, 2)")}, {"range right", q("a + range(1, 2)")}, {"re unary", q("-re'x'")}, {"re right", q("a + re'x'")}, {"re left", q("re'x' + 1")}, {"re unpack", q("(re'x')...")},
        {"subscript", q("(b?)[1]")}, {"shift", q("b << 1")}, {"not a model", [] { struct N : simfil::ModelNode {}; auto& m = eu::cached("1"); simfil::Environment e(m.pool->strings()); auto x = simfil::compile(e, "a", false); simfil::eval(e, *x, N()); }},
        {"bad column", [] { auto& m = eu::cached("1"); (void)simfil::ModelNode::Ptr::make(m.pool, simfil::ModelNodeAddress{77, 1})->type(); }},
        {"bad index", [] { auto& m = eu::cached("1"); (void)simfil::ModelNode::Ptr::make(m.pool, simfil::ModelNodeAddress{simfil::ModelPool::Double, 9999})->type(); }},
        {"validate", [] { auto m = std::make_shared<simfil::ModelPool>(); m->addRoot(simfil::ModelNode::Ptr::make(m, simfil::ModelNodeAddress{simfil::ModelPool::Arrays, 7})); m->validate(); }},
        {"arena far", [] { simfil::ArrayArena<int, 8> a; auto i = a.new_array(1); for (int k = 0; k < 5; ++k) a.push_back(i, k); a.at(i, 50); }},
        {"arena const", [] { simfil::ArrayArena<int, 8> a; auto i = a.new_array(0); const_cast<simfil::ArrayArena<int, 8> const&>(a).at(i, 0); }},
        {"arena", [] { simfil::ArrayArena<int, 8> a; auto i = a.new_array(2); a.at(i, 0); }},
        {"custom without what", [] { simfil::raise<NoWhat>(5); }},
        {"custom", [] { simfil::raise<MoveOnly>("m"s, 3); }},
        {"logic", [] { simfil::raise<std::logic_error>("l"); }},
        {"empty message", [] { simfil::raise<std::runtime_error>(""); }},
    };
    for (int n : {1, 15, 16, 255, 256, 1024, 70000}) k.push_back({"long message", [n] { simfil::raise<std::runtime_error>(std::string(n, 'm')); }});
    return k;
}

struct Caught { bool any = false; std::string type, msg; bool lost = false; };
Caught provokeHere(Kind const& k)
{
    Caught c;
    try { k.f(); }
    catch (std::exception const& e) { c = {true, typeid(e).name(), e.what()}; if (auto m = dynamic_cast<MoveOnly const*>(&e); m && (!m->p || *m->p != 3)) c.lost = true; }
    catch (NoWhat const& e) { c = {true, typeid(NoWhat).name(), ""}; c.lost = e.x != 5; }
    return c;
}

// contexts: ' ' plain, '<' in a destructor while another exception unwinds the stack, '=' while handling another exception, '@' in another thread
Caught provoke(Kind const& k, char ctx)
{
    Caught c;
    struct Guard { std::function<void()> f; ~Guard() { f(); } };
    if (ctx == '<') { try { Guard g{[&] { c = provokeHere(k); }}; throw 1; } catch (int) {} }
    else if (ctx == '=') { try { throw 1; } catch (int) { c = provokeHere(k); } }
    else if (ctx == '@') std::thread([&] { c = provokeHere(k); }).join();
    else c = provokeHere(k);
    return c;
}
}

// ops: '1' '2' set handler, '0' clear with nullptr, '-' clear with an empty function, '+' copy of current, 'A'+k provoke error k, '.' a query that works,
// '<' '=' '@' the next error occurs in that context
static void run(std::string const& c, mc::Run& run)
{
    auto ks = kinds();
    static std::map<int, Caught> plain;     // what the caller sees without a handler
    auto& th = simfil::ThrowHandler::instance();
    if (&th != &simfil::ThrowHandler::instance()) mc::fail("there is more than one handler instance");
    th.set(nullptr);
    for (unsigned char o : c) if (o >= 'A' && o - 'A' < (int)ks.size() && !plain.count(o)) plain[o] = provoke(ks[o - 'A'], ' ');
    calls.clear();
    int cur = 0;
    std::string st;
    char ctx = ' ';
    for (char op : c) {
        run.step();
        auto before = calls.size();
        if (op == '1' || op == '2') { int h = op - '0'; th.set([h](std::string const& t, std::string const& m) { calls.push_back({h, t, m}); }); cur = h; }
        else if (op == '0') { th.set(nullptr); cur = 0; }
        else if (op == '-') { th.set(simfil::CustomThrowHandlerType{}); cur = 0; }
        else if (op == '+') { auto copy = th.get(); if ((bool)copy != (cur != 0)) mc::fail("get() does not return the current handler"); th.set(copy); }
        else if (op == '.') {
            auto& m = eu::cached(R"({"a":[1,2],"b":true})");
            simfil::Environment e(m.pool->strings());
            auto o = eu::run(e, "a.* + 1", *m.root);
            if (o.kind != eu::Outcome::Values || eu::showAll(o.v) != "[2, 3]") mc::fail("a valid query fails after errors");
        } else if (op == '<' || op == '=' || op == '@') ctx = op;
        else {
            auto& k = ks.at((unsigned char)op - 'A');
            auto got = provoke(k, ctx);
            ctx = ' ';
            if (got.lost) mc::fail("the exception lost its content");
            if (!got.any) mc::fail("no error was raised for: "s + k.name);
            size_t n = 0;
            for (size_t i = before; i < calls.size(); ++i) {
                if (calls[i].handler != cur) mc::fail("a replaced handler was called");
                n += calls[i].type == got.type && calls[i].msg == got.msg;
            }
            if (!cur && calls.size() != before) mc::fail("a cleared handler was called");
            if (cur && n != 1) mc::fail("error '"s + k.name + "' was delivered " + std::to_string(n) + " times to the handler: caught " + got.type + ": " + got.msg);
            if (cur && (calls.back().type != got.type || calls.back().msg != got.msg)) mc::fail("the last delivered error is not the one that the caller sees");
            // what the caller sees does not depend on the handler
            auto& again = plain[(unsigned char)op];
            if (again.type != got.type || again.msg != got.msg) mc::fail("the caller sees another error: '" + got.msg + "' and without a handler: '" + again.msg + "'");
            run.outcome(k.name);
            st += k.name;
            continue;
        }
        if (calls.size() != before) mc::fail("the handler was called without an error");
        st += op;
        run.state(st);
    }
    th.set(nullptr);
    run.state(st);
}

int main(int argc, char** argv)
{
    const int n = kinds().size();
    mc::Config c;
    c.property = "C05";
    c.bounds = "all histories of up to 3 operations over 2 handlers, two ways of clearing, re-setting a copy, a valid query and " + std::to_string(n) + " kinds of errors, each raised plainly, during unwinding, while handling an exception and in another thread; up to 4 (quick) / 5 (thorough) over 5 kinds; up to 600 errors in a row; messages of up to 70000 characters";
    c.enumerate = [=](bool th, mc::Emit const& emit) {
        std::string setters = "120-+.", all, few = "120-+.";
        for (int i = 0; i < n; ++i) all += char('A' + i);
        for (int i : {0, 3, 11, 17, n - 3}) few += char('A' + i);
        std::vector<std::string> errors;
        for (char a : all) for (char x : " <=@"s) errors.push_back(x == ' ' ? std::string(1, a) : std::string{x, a});
        for (auto& e : errors) {
            emit(e);
            en::strings(setters, 1, [&](std::string const& s) { emit(s + e); emit(e + s); });
            en::strings(setters, 2, [&](std::string const& s) { emit(s + e); emit(s.substr(0, 1) + e + s.substr(1)); });
            for (char f : all) { emit("1" + e + f); emit(e + "2" + f); if (th) for (char s : setters) emit("1"s + e + s + f); }
        }
        en::strings(setters, 3, emit);
        en::strings(few, 4, emit);
        if (th) en::strings(few, 5, emit);
        // many errors, one after the other
        for (int r : {3, 10, 100, 300}) for (auto pre : {"", "1", "12", "1+"}) {
            for (char a : all) if (r <= 10 || th) emit(pre + en::rep(std::string(1, a), r) + "2" + a);
            for (char a : few.substr(6)) for (char x : "<=@"s) { emit(pre + en::rep(std::string{a, x, a}, r)); emit(pre + en::rep(std::string{x, a, '.'}, r)); emit(pre + en::rep(std::string{a, '2', x, a, '1'}, r)); }
        }
        emit("1" + all); emit("1" + all + "2" + all + "0" + all + "1" + all);
    };
    c.run = run;
    c.minOutcomes = n - 6;      // one name for the 7 long messages
    return mc::main(argc, argv, c);
}
