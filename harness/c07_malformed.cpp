// C07: any token sequence either compiles, exactly if it is an expression of the grammar, or throws.
#include "evalutil.h"
using namespace std::string_literals;

static void run(std::string const& c, mc::Run& run)
{
    auto& m = eu::cached(R"({"a":[1,{"b":2}],"b":"s"})");
    std::vector<char> copy(c.begin(), c.end());
    ref::AstP ast; std::string why;
    try { ast = ref::parse(c); } catch (ref::Error const& e) { why = e.why; }
    for (int mode = 0; mode < 4; ++mode) {
        simfil::Environment env(m.pool->strings());
        simfil::ExprPtr e; std::string what; bool threw = false;
        try { e = simfil::compile(env, std::string_view(copy.data(), copy.size()), mode & 1, mode & 2); } catch (std::exception const& x) { threw = true; what = x.what(); }
        run.step();
        if (!ast) {
            if (!threw) mc::fail("accepted a malformed query (" + why + ")");
            run.outcome("malformed: " + why.substr(0, 30));
            if (c.size() > 3) break;   // the wrapping happens after parsing
            continue;
        }
        if (threw) {
            ref::Eval E;
            if (!E.anyRaises(*ast, ref::Val())) mc::fail("rejected a well-formed query: " + what);
            run.outcome("raises"); run.state("raises");
            break;
        }
        if (!e) mc::fail("compile returned null");
        if (e->toString().empty()) mc::fail("empty tree");
        if (mode == 0) run.state(ast->str());
        run.outcome("compiles");
    }
}

static const std::vector<std::string> all = {
    "a", "A", "_", "f(", "any(", "arr(", "1", "1.5", "'s'", "re's'", "true", "null", "+", "-", "*", "/", "%", "**", "~", "not", "#", "typeof", "?", "...", "as", "int", "(", ")", "{", "}", "[", "]", ",", ".", ":",
    "==", "<", "<<", "&", "and", "or"};
static const std::vector<std::string> few = {"a", "any(", "1", "-", "*", "?", "as", "int", "(", ")", "{", "}", "[", "]", ",", ".", "and"};

int main(int argc, char** argv)
{
    bool asan = false;
#ifdef __SANITIZE_ADDRESS__
    asan = true;
#endif
    mc::Config c;
    c.property = "C07";
    c.blockSize = 16;
    c.bounds = asan ? "under AddressSanitizer and UBSan: all sequences of up to 2 of 41 tokens and 3 (thorough: 4) of 17 tokens, every truncation and every one-token edit of 24 queries, nesting up to 200 levels"
                    : "all sequences of up to 3 (quick) / 4 (thorough) of 41 tokens and 5 (6) of 17 tokens, every truncation, every one-token edit of 24 queries and pairs of such edits, nesting up to 500 (2000) levels; 4 compile modes";
    c.enumerate = [asan](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::vector<std::string> const& t, int n) { en::sequences(t.size(), n, [&](auto& ix) { std::string q; for (int i : ix) q += (q.empty() ? "" : " ") + t[i]; emit(q); }); };
        emit("");
        emit(" ");
        for (int n = 1; n <= (asan ? 2 : th ? 4 : 3); ++n) seqs(all, n);
        for (int n = 1; n <= (asan ? 3 : 5) + th; ++n) seqs(few, n);
        const std::vector<std::vector<std::string>> queries = {
            {"a", ".", "b", "{", "c", "==", "1", "}"}, {"any(", "a", ",", "b", ")"}, {"sum(", "range(", "1", ",", "10", ")", "...", ",", "$sum", "+", "$val", ")"}, {"**", ".", "a", "[", "0", "]"},
            {"(", "a", "+", "b", ")", "*", "c"}, {"typeof", "a", "==", "'string'"}, {"a", "as", "int", "as", "string"}, {"split(", "'a,b'", ",", "','", ")", "..."}, {"not", "(", "a", "and", "b", ")"},
            {"a", "{", "{", "b", "}", "}"}, {"[", "[", "0", "]", "]"}, {"a", "[", "'x'", "]", "[", "1", "]"}, {"#", "a", ">", "0", "and", "-", "b", "<", "3"}, {"select(", "arr(", "1", ",", "2", ")", ",", "1", ")"},
            {"a", "w", "b", "w", "c"}, {"*", "*", "*"}, {"_", ".", "_", ".", "*", ".", "**"}, {"trace(", "a", ",", "2", ",", "'n'", ")"}, {"re(", "'a.*'", ")", "==", "a"}, {"a", "?", "?", "...", "..."},
            {"~", "1", "<<", "2", "|", "3"}, {"keys(", "a", ".", "*", ")"}, {"a", ".", "any(", "b", ")", ".", "C"}, {"true", "or", "false", "and", "null"}};
        auto join = [](std::vector<std::string> const& t) { std::string q; for (auto& x : t) q += (q.empty() ? "" : " ") + x; return q; };
        for (auto& q : queries) {
            auto s = join(q);
            for (size_t i = 0; i <= s.size(); ++i) { emit(s.substr(0, i)); emit(s.substr(i)); }
            std::vector<std::vector<std::string>> edits;
            for (size_t i = 0; i < q.size(); ++i) {
                auto d = q; d.erase(d.begin() + i); edits.push_back(d);
                if (i + 1 < q.size()) { d = q; std::swap(d[i], d[i + 1]); edits.push_back(d); }
            }
            for (size_t i = 0; i <= q.size(); ++i) for (auto& t : all) { auto d = q; d.insert(d.begin() + i, t); edits.push_back(d); if (i < q.size()) { d = q; d[i] = t; edits.push_back(d); } }
            for (auto& d : edits) emit(join(d));
            if (!asan) for (auto& e : edits) for (size_t i = 0; i < e.size(); ++i) { auto d = e; d.erase(d.begin() + i); emit(join(d)); if (th) for (auto& t : few) { d = e; d[i] = t; emit(join(d)); } }
        }
        for (int n : {1, 2, 10, 100, 200, 500, 2000}) {
            if (!th && n > 500) break;
            if (asan && n > 200) break;
            for (auto p : std::vector<std::pair<std::string, std::string>>{{"(", ")"}, {"[", "]"}, {"{", "}"}, {"any(", ")"}, {"a[", "]"}, {"a{", "}"}, {"-", ""}, {"not ", ""}, {"a.", ""}, {"", "?"}, {"", "..."}, {"a and ", ""}, {"", "{a}"}}) {
                for (auto core : {"a", "1", ""}) { emit(en::rep(p.first, n) + core + en::rep(p.second, n)); emit(en::rep(p.first, n) + core + en::rep(p.second, n - 1)); emit(en::rep(p.first, n) + core + en::rep(p.second, n + 1)); }
            }
        }
    };
    c.run = run;
    return mc::main(argc, argv, c);
}
