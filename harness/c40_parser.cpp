// C40: a parser assembled from parselets groups by their precedences and consumes exactly what it parsed.
#include "mc.h"
#include "enumutil.h"
#include "simfil/simfil.h"
#include "simfil/parser.h"
#include <array>
#include <optional>
using namespace std::string_literals;
using simfil::Token;

namespace {
struct Node : simfil::Expr {
    std::string s;
    explicit Node(std::string s) : s(std::move(s)) {}
    auto type() const -> Type override { return VALUE; }
    auto toString() const -> std::string override { return s; }
    auto ieval(simfil::Context ctx, simfil::Value, const simfil::ResultFn& res) const -> simfil::Result override { return res(ctx, simfil::Value::make(s)); }
};
simfil::ExprPtr node(std::string s) { return std::make_unique<Node>(std::move(s)); }
std::string str(simfil::ExprPtr const& e) { return e ? e->toString() : "null"; }

Token tok(char c, size_t i)
{
    auto t = [&] { switch (c) {
        case 'x': return Token::WORD; case '+': return Token::OP_ADD; case '*': return Token::OP_TIMES; case '-': return Token::OP_SUB; case '?': return Token::OP_BOOL;
        case '(': return Token::LPAREN; case ')': return Token::RPAREN; case '[': return Token::LBRACK; case ']': return Token::RBRACK; case '{': return Token::LBRACE; case '}': return Token::RBRACE;
        case ',': return Token::COMMA; case '.': return Token::DOT; default: return Token::NIL; } }();
    if (c == 'x') return Token(t, std::to_string(i), i, i + 1);
    return Token(t, i, i + 1);
}

// config: precedence digits and associativity letters of + * -, precedences of ? and [, binding of prefix -
struct Cfg { int plus, times, minus, quest, sub, pre; bool plusR, timesR; };
// letters are precedences beyond 9
const std::vector<int> high = {14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32768, 65536, 1 << 30};
int level(char k) { return k <= '9' ? k - '0' : high[k - 'a']; }
Cfg cfg(std::string const& s) { return {level(s[0]), level(s[1]), level(s[2]), level(s[3]), level(s[4]), level(s[5]), s[6] == 'R', s[7] == 'R'}; }

// ---- the definition: an operator stack ----
struct Ref {
    std::string toks; Cfg c; size_t p = 0;
    struct Bad {};
    char cur() const { if (p >= toks.size()) throw Bad{}; return toks[p]; }
    int prec(char t) const { switch (t) { case '+': return c.plus; case '*': return c.times; case '-': return c.minus; case '?': return c.quest; case '[': return c.sub; } return 0; }
    std::string expr(int min, bool optional = false)
    {
        struct Pending { char op; bool prefix; int binds; std::string left; };
        std::vector<Pending> st;
        for (bool first = true;; first = false) {
            // operand position
            char t = cur();
            if (t == '-') { ++p; st.push_back({'-', true, c.pre, ""}); continue; }
            std::string v;
            if (t == 'x') { v = "x" + std::to_string(p); ++p; }
            else if (t == '(') { ++p; v = "(" + expr(0) + ")"; if (p >= toks.size() || toks[p] != ')') throw Bad{}; ++p; }
            else if (t == '{') { ++p; v = "{" + list('}') + "}"; }
            else { if (first && optional) return "null"; throw Bad{}; }
            return infix(std::move(st), v, min, optional);
        }
    }
    template <class St> std::string infix(St st, std::string v, int min, bool)
    {
        for (;;) {
            char t = cur();
            int q = prec(t);
            while (!st.empty() && q <= st.back().binds) {
                auto o = st.back(); st.pop_back();
                v = o.prefix ? "(neg " + v + ")" : "("s + o.op + " " + o.left + " " + v + ")";
            }
            if (st.empty() && q <= min) return v;
            ++p;
            if (t == '?') { v = "(? " + v + ")"; continue; }
            if (t == '[') { auto i = expr(0); if (p >= toks.size() || toks[p] != ']') throw Bad{}; ++p; v = "(index " + v + " " + i + ")"; continue; }
            bool right = t == '+' ? c.plusR : t == '*' ? c.timesR : false;
            st.push_back({t, false, right ? q - 1 : q, v});
            for (;;) {
                t = cur();
                if (t == '-') { ++p; st.push_back({'-', true, c.pre, ""}); continue; }
                if (t == 'x') { v = "x" + std::to_string(p); ++p; break; }
                if (t == '(') { ++p; v = "(" + expr(0) + ")"; if (p >= toks.size() || toks[p] != ')') throw Bad{}; ++p; break; }
                if (t == '{') { ++p; v = "{" + list('}') + "}"; break; }
                throw Bad{};
            }
        }
    }
    std::string list(char stop)
    {
        std::string r;
        if (p < toks.size() && toks[p] == stop) { ++p; return r; }
        for (;;) {
            r += (r.empty() ? "" : ", ") + expr(0);
            if (p < toks.size() && toks[p] == stop) { ++p; return r; }
            if (p < toks.size() && toks[p] == ',') { ++p; continue; }
            throw Bad{};
        }
    }
    std::string to(char stop) { auto r = expr(0); if (p >= toks.size() || toks[p] != stop) throw Bad{}; ++p; return r; }
};

// ---- the parselets ----
struct Leaf : simfil::PrefixParselet { simfil::ExprPtr parse(simfil::Parser&, Token t) const override { return node("x" + std::get<std::string>(t.value)); } };
struct Neg : simfil::PrefixParselet { int prec; explicit Neg(int p) : prec(p) {} simfil::ExprPtr parse(simfil::Parser& p, Token) const override { return node("(neg " + str(p.parsePrecedence(prec)) + ")"); } };
struct Paren : simfil::PrefixParselet { simfil::ExprPtr parse(simfil::Parser& p, Token) const override { return node("(" + str(p.parseTo(Token::RPAREN)) + ")"); } };
struct List : simfil::PrefixParselet { simfil::ExprPtr parse(simfil::Parser& p, Token) const override { std::string s; for (auto& e : p.parseList(Token::RBRACE)) s += (s.empty() ? "" : ", ") + str(e); return node("{" + s + "}"); } };
struct Infix : simfil::InfixParselet {
    char op; int prec; bool right;
    Infix(char o, int p, bool r) : op(o), prec(p), right(r) {}
    simfil::ExprPtr parse(simfil::Parser& p, std::unique_ptr<simfil::Expr> left, Token) const override { auto r = p.parsePrecedence(right ? prec - 1 : prec); return node("("s + op + " " + str(left) + " " + str(r) + ")"); }
    int precedence() const override { return prec; }
};
struct Post : simfil::InfixParselet {
    int prec; explicit Post(int p) : prec(p) {}
    simfil::ExprPtr parse(simfil::Parser&, std::unique_ptr<simfil::Expr> left, Token) const override { return node("(? " + str(left) + ")"); }
    int precedence() const override { return prec; }
};
struct Index : simfil::InfixParselet {
    int prec; explicit Index(int p) : prec(p) {}
    simfil::ExprPtr parse(simfil::Parser& p, std::unique_ptr<simfil::Expr> left, Token) const override { auto i = p.parseTo(Token::RBRACK); return node("(index " + str(left) + " " + str(i) + ")"); }
    int precedence() const override { return prec; }
};
}

// case: entry point (P parse, 0..4 parsePrecedence, a..e the same optional, I parseInfix, T parseTo, L parseList), config (8), tokens ('$' = end token)
static void run(std::string const& c, mc::Run& run)
{
    static simfil::Environment env(simfil::Environment::WithNewStringCache);
    const char entry = c[0];
    const auto k = cfg(c.substr(1, 8));
    const auto toks = c.substr(9);
    std::vector<Token> ts;
    for (size_t i = 0; i < toks.size(); ++i) ts.push_back(tok(toks[i], i));
    simfil::Parser p(&env, ts);
    p.prefixParsers[Token::WORD] = std::make_unique<Leaf>();
    p.prefixParsers[Token::OP_SUB] = std::make_unique<Neg>(k.pre);
    p.prefixParsers[Token::LPAREN] = std::make_unique<Paren>();
    p.prefixParsers[Token::LBRACE] = std::make_unique<List>();
    p.infixParsers[Token::OP_ADD] = std::make_unique<Infix>('+', k.plus, k.plusR);
    p.infixParsers[Token::OP_TIMES] = std::make_unique<Infix>('*', k.times, k.timesR);
    p.infixParsers[Token::OP_SUB] = std::make_unique<Infix>('-', k.minus, false);
    p.infixParsers[Token::OP_BOOL] = std::make_unique<Post>(k.quest);
    p.infixParsers[Token::LBRACK] = std::make_unique<Index>(k.sub);

    Ref ref{toks, k};
    std::string want; bool bad = false;
    try {
        if (entry == 'P') want = ref.expr(0);
        else if (entry >= '0' && entry <= '4') want = ref.expr(entry - '0');
        else if (entry >= 'a' && entry <= 'e') want = ref.expr(entry - 'a', true);
        else if (entry == 'I') { struct Pending { char op; bool prefix; int binds; std::string left; }; want = ref.infix(std::vector<Pending>{}, "given", 1, false); }
        else if (entry == 'T') want = ref.to(']');
        else want = ref.list('}');
    } catch (Ref::Bad&) { bad = true; }

    std::string got; bool raised = false;
    try {
        if (entry == 'P') got = str(p.parse());
        else if (entry >= '0' && entry <= '4') got = str(p.parsePrecedence(entry - '0'));
        else if (entry >= 'a' && entry <= 'e') got = str(p.parsePrecedence(entry - 'a', true));
        else if (entry == 'I') got = str(p.parseInfix(node("given"), 1));
        else if (entry == 'T') got = str(p.parseTo(Token::RBRACK));
        else for (auto& e : p.parseList(Token::RBRACE)) got += (got.empty() ? "" : ", ") + str(e);
    } catch (std::exception const&) { raised = true; }
    run.step();
    if (bad != raised) mc::fail(bad ? "must be rejected but was parsed as " + got : "must be parsed as " + want + " but was rejected");
    if (bad) { run.outcome("rejected"); return; }
    if (got != want) mc::fail("parsed as " + got + " instead of " + want);
    // the rest is untouched
    if (p.eof() != (ref.p >= toks.size())) mc::fail("eof() is wrong after parsing");
    for (size_t i = 0; i <= toks.size() - ref.p; ++i) {
        auto l = p.lookahead(i);
        if ((ref.p + i < toks.size()) != (l != nullptr)) mc::fail("lookahead(" + std::to_string(i) + ") is wrong after parsing");
        if (l && (l->begin != ref.p + i || l->type != ts[ref.p + i].type)) mc::fail("parsing consumed up to token " + std::to_string(l->begin - i) + " instead of " + std::to_string(ref.p));
    }
    if (!p.eof()) {
        if (p.current().begin != ref.p) mc::fail("current() is wrong");
        for (auto t : {Token::NIL, Token::RBRACK, Token::COMMA, Token::OP_ADD}) if (p.match(t) != (ts[ref.p].type == t)) mc::fail("match() is wrong");
        if (p.precedence(p.current()) != ref.prec(toks[ref.p])) mc::fail("precedence() is wrong");
        if (p.consume().begin != ref.p) mc::fail("consume() is wrong");
        if (!p.eof() && p.current().begin != ref.p + 1) mc::fail("consume() did not advance by one token");
    } else {
        for (auto t : {Token::NIL, Token::RBRACK, Token::COMMA}) if (p.match(t)) mc::fail("match() at the end");
        bool r1 = false, r2 = false;
        try { p.consume(); } catch (std::exception const&) { r1 = true; }
        try { p.current(); } catch (std::exception const&) { r2 = true; }
        if (!r1 || !r2) mc::fail("reading past the last token must raise");
    }
    run.state(c[0] + want);
    run.outcome(std::string(1, entry) + want.substr(0, want.find_first_of("0123456789 ")) + (ref.p == toks.size() ? " all" : " part"));
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C40";
    c.bounds = "parsers with 3 infix, 2 postfix, 4 prefix parselets: all token sequences of up to 5 (6) of 14 tokens under 16 precedence/associativity assignments and of up to 4 (5) of 7 operator tokens under all 864 assignments (a third of them for chains of 4), through 14 entry points; the same chains of up to 3 (4) operators under 15 series of precedences from 9 to 2^30; chains and nestings up to 2000";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        std::vector<std::string> some, all;
        for (char a : "123"s) for (char b : "123"s) for (char m : "12"s) for (char q : "13"s) for (char s : "14"s) for (char u : "024"s) for (auto r : {"LL", "LR", "RL", "RR"}) all.push_back(std::string() + a + b + m + q + s + u + r);
        for (size_t i = 0; i < 16; ++i) some.push_back(all[(i * 131 + 7) % all.size()]);
        some.push_back("121441LL"); some.push_back("000000LL"); some.push_back("121441RR");
        auto seqs = [&](std::string const& alpha, int n, auto f) { en::sequences(alpha.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += alpha[i]; f(s); }); };
        const std::string toks = "x+*-?()[]{},.$";
        for (int n = 0; n <= (th ? 6 : 5); ++n)
            seqs(toks, n, [&](std::string const& s) {
                if (n > 3 && (s.find('.') != s.npos) && !th) return;
                for (size_t i = 0; i < some.size(); ++i) {
                    if (n >= 5 && i % 4 && !th) continue;
                    emit("P" + some[i] + s + "$");
                    if (n <= 4) for (char e : "PaILT013c4"s) { emit(std::string(1, e) + some[i] + s); if (e != 'P') emit(std::string(1, e) + some[i] + s + "$"); }
                }
            });
        // operator interplay: operands implied
        for (int n = 1; n <= (th ? 5 : 4); ++n)
            seqs("+*-?[n(", n, [&](std::string const& s) {
                std::string q = "x"; bool need = false; int open = 0;
                for (char o : s) {
                    if (o == '?') { q += "?"; }
                    else if (o == '[') { q += "[x]"; }
                    else if (o == 'n') { if (!need) q = "-" + q; else q += "-"; }
                    else if (o == '(') { q += "*(x"; ++open; }
                    else { q += o; q += "x"; }
                }
                q += std::string(open, ')') + "$";
                for (size_t i = 0; i < all.size(); ++i) if (th || n < 4 || i % 3 == 0) for (char e : "P2"s) emit(std::string(1, e) + all[i] + q);
                std::string w = q; // unary minus before every operand
                for (size_t i = w.size(); i-- > 0;) if (w[i] == 'x') w.insert(i, "-");
                for (size_t i = 0; i < all.size(); ++i) if (th || n < 4 || i % 3 == 1) emit("P" + all[i] + w);
            });
        // the same with high precedences
        for (auto lv : {"0abcd", "0bcde", "0cdex", "0fghi", "0ghij", "0klmn", "0lmnw", "0opqr", "0pqrw", "0stuv", "0tuvw", "01cwz", "09bcd", "0wxyz", "01xyz"})
            for (int n = 1; n <= (th ? 4 : 3); ++n)
                seqs("+*-?[n", n, [&](std::string const& s) {
                    std::string q = "x"; bool pre = false;
                    for (char o : s) { if (o == '?') q += "?"; else if (o == '[') q += "[x]"; else if (o == 'n') { q = "-" + q; pre = true; } else { q += o; q += "x"; } }
                    for (size_t i = pre; i < all.size(); i += th ? 1 : n < 3 ? 2 : 5) {
                        auto k = all[i]; for (int j = 0; j < 6; ++j) k[j] = lv[k[j] - '0'];
                        emit("P" + k + q + "$");
                    }
                });
        for (int n : {10, 63, 64, 65, 255, 256, 257, 1000, 2000}) for (auto& k : some) {
            std::string a = "x", b = "x", d = "x", l;
            for (int i = 0; i < n; ++i) { a += i % 2 ? "+x" : "*x"; b = "(" + b + ")"; d += "?"; l += i ? ",x" : "x"; }
            emit("P" + k + a + "$"); emit("P" + k + std::string(n, '-') + "x$"); emit("P" + k + d + "$"); emit("L" + k + l + "}"); emit("L" + k + l + "]"); if (n <= 1000) emit("P" + k + b + "$");
        }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
