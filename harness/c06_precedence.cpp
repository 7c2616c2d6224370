// C06: queries are parsed with the documented precedence and associativity.
#include "evalutil.h"
using namespace std::string_literals;

// Without constants nothing can be folded, so the tree must be the one of the grammar.
static void run(std::string const& c, mc::Run& run)
{
    auto& m = eu::cached("{}");
    static simfil::Environment env(m.pool->strings());
    env.warnings.clear();
    ref::AstP ast; std::string why;
    try { ast = ref::parse(c); } catch (ref::Error const& e) { why = e.why; }
    simfil::ExprPtr e; std::string what;
    try { e = simfil::compile(env, c, false); } catch (std::exception const& x) { what = x.what(); }
    run.step();
    if (!ast) {
        if (e) mc::fail("accepted a malformed query (" + why + ") as " + e->toString());
        run.outcome("malformed");
        return;
    }
    if (!e) {
        ref::Eval E;
        if (E.anyRaises(*ast, ref::Val())) { run.outcome("raises"); return; }
        mc::fail("rejected a well-formed query: " + what);
    }
    auto got = e->toString(), want = ast->str();
    if (got != want) mc::fail("parsed as " + got + ", expected " + want);
    run.state(want);
    run.outcome(want.substr(0, want.find(' ')));
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C06";
    c.bounds = "all infix chains of up to 3 of 22 binary operators and 4 (quick) / 5 (thorough) of 11 representatives, with every prefix/postfix decoration of up to 3 operands; "
               "all token sequences of up to 6 (7) of 13 tokens; nesting ladders";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        const std::vector<std::string> ops = {".", "*", "/", "%", "+", "-", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "=", "!=", "and", "or", "w", "OR"};
        const std::vector<std::string> rep = {".", "*", "%", "+", "-", "<<", "^", "<=", "!=", "and", "w"};
        const std::vector<std::string> v = {"a", "b", "c", "d", "e", "f", "g"};
        for (int n = 1; n <= 3; ++n) en::sequences(ops.size(), n, [&](auto& ix) { std::string q = v[0]; for (int i = 0; i < n; ++i) q += " " + ops[ix[i]] + " " + v[i + 1]; emit(q); });
        for (int n = 4; n <= (th ? 6 : 4); ++n) en::sequences(rep.size(), n, [&](auto& ix) { std::string q = v[0]; for (int i = 0; i < n; ++i) q += " " + rep[ix[i]] + " " + v[i + 1]; emit(q); });
        // decorated operands
        const std::vector<std::string> deco = {"#", "-#", "~#", "not #", "typeof #", "#?", "#...", "#{x}", "#[x]", "# as int", "# as bool", "(#)", "f(#)"s.replace(0, 1, "any"), "{#}", "[#]", "#{x}.y", "#[x]{y}", "#{x}[y]", "# w", "-#?", "not #{x}", "-#.x", "*", "**", "_", "#.*", "#.**.y", "- -#", "#{x,y}", "count(#, x and y)", "arr(#, (x), {y})", "# as string as float",
                                               "#??", "#... ?", "#[x][y]", "#{x}{y}", "#(x)", "#[x or y]", "#{x or y}", "(# or x)", "((#))", "\xa7#"};
        auto dec = [&](std::string const& d, std::string const& x) { std::string r; for (char ch : d) { if (ch == '\xa7') r += '#'; else if (ch == '#') r += x; else r += ch; } return r; };
        for (auto& d : deco) emit(dec(d, "a"));
        for (auto& d1 : deco) for (auto& d2 : deco) for (auto& o : ops) emit(dec(d1, "a") + " " + o + " " + dec(d2, "b"));
        for (auto& d1 : deco) for (auto& d2 : deco) for (auto& o1 : rep) for (auto& o2 : rep) { emit(dec(d1, "a") + " " + o1 + " " + dec(d2, "b") + " " + o2 + " c"); emit("a " + o1 + " " + dec(d1, "b") + " " + o2 + " " + dec(d2, "c")); }
        // one decoration inside another
        for (auto& d1 : deco) for (auto& d2 : deco) for (auto& d3 : deco) emit(dec(d1, dec(d2, dec(d3, "a"))));
        for (auto& d1 : deco) for (auto& o : rep) for (auto& d2 : deco) for (auto& o2 : {"+"s, "and"s, "."s, "*"s, "w"s}) emit(dec(d1, "a " + o + " " + dec(d2, "b")) + " " + o2 + " c");
        const std::vector<std::string> tok = {"a", "b", ".", "(", ")", "{", "}", "[", "]", "-", "?", "as int", "and"};
        for (int n = 1; n <= (th ? 7 : 6); ++n) en::sequences(tok.size(), n, [&](auto& ix) { std::string q; for (int i : ix) q += " " + tok[i]; emit(q); });
        for (int n : {5, 10, 50, 200, 500}) {
            for (auto& o : ops) emit("a" + en::rep(" " + o + " a", n));
            for (auto& d : deco) { std::string q = "a"; for (int i = 0; i < std::min(n, 50); ++i) q = dec(d, q); emit(q); }
            emit(en::rep("(", n) + "a" + en::rep(")", n)); emit(en::rep("-", n) + "a"); emit(en::rep("a{", n) + "a" + en::rep("}", n)); emit(en::rep("any(", n) + "a" + en::rep(")", n));
        }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
