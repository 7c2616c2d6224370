// C17: functions and constants are resolved by case-insensitive name.
#include "evalutil.h"
#include <cstring>
#include <map>
using namespace std::string_literals;

namespace {
// A registered function: yields "tag/<number of arguments>", then the values of its arguments.
class Tagged : public simfil::Function
{
    std::string tag; simfil::FnInfo info;
public:
    explicit Tagged(std::string t) : tag(t), info{t, "", ""} {}
    auto ident() const -> const simfil::FnInfo& override { return info; }
    auto eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const -> simfil::Result override
    {
        if (ctx.phase == simfil::Context::Compilation) return res(ctx, simfil::Value::undef());
        if (res(ctx, simfil::Value::make(tag + "/" + std::to_string(args.size()))) == simfil::Stop) return simfil::Stop;
        for (auto& a : args) if (a->eval(ctx, val, res) == simfil::Stop) return simfil::Stop;
        return simfil::Continue;
    }
};
struct Reg { bool fn; std::string name; };
const std::vector<Reg> regs = {{false, "foo"}, {false, "Bar"}, {true, "foo"}, {true, "F_2"}, {true, "Count"}, {false, "count"}, {false, "FOO"}, {true, "bAr"}, {false, "a"}};
const std::vector<Tagged*>& tags() { static std::vector<Tagged*> t = [] { std::vector<Tagged*> r; for (auto& x : regs) r.push_back(new Tagged("T" + x.name)); return r; }(); return t; }
const std::string doc = R"({"a":{"foo":"a.foo","bar":"a.bar","count":"a.count","f_2":1,"a":"a.a"},"foo":"field foo","bar":{"foo":3,"bar":4},"count":["x"],"F_2":"field f_2"})";
}

// case: digits of the registry (in registration order) '\x01' query
static void run(std::string const& c, mc::Run& run)
{
    auto p = c.find('\x01');
    auto& m = eu::cached(doc);
    simfil::Environment env(m.pool->strings());
    ref::Eval E;
    E.custom = [](std::string const& tag, std::vector<ref::AstP> const& a, ref::Val const& cur, ref::Out const& out, ref::Eval& ev, bool& handled) {
        if (tag[0] != 'T') return true;
        handled = true;
        if (!out(ref::Val::S(tag + "/" + std::to_string(a.size())))) return false;
        for (auto& x : a) if (!ev.ev(*x, cur, out)) return false;
        return true;
    };
    for (size_t i = 0; i < p; ++i) {
        if (c[i] == '%' || c[i] == '&') {    // many names; long names
            static std::map<std::string, Tagged*> t;
            for (int k = 1; k <= (c[i] == '%' ? 3000 : 400); k += 1 + (c[i] == '&' && k > 40)) {
                auto name = c[i] == '%' ? "Nm" + std::to_string(k) : std::string(k - 1, 'x') + "Y", low = ref::lower(name);
                if (k % 2) { env.constants.insert_or_assign(name, simfil::Value::make("C" + low)); E.constants[low] = ref::Val::S("C" + low); }
                else { auto& f = t[low]; if (!f) f = new Tagged("T" + low); env.functions[name] = f; E.functions[low] = "T" + low; }
            }
            continue;
        }
        if (c[i] == '~' || c[i] == '^' || c[i] == '$') {    // a name for every letter
            for (char l = 'a'; l <= 'z'; ++l) {
                std::string n = std::string(1, l) + l, up = n;
                for (auto& ch : up) ch = toupper(ch);
                auto name = c[i] == '~' ? n : up;
                if (c[i] == '$') { static std::map<std::string, Tagged*> t; auto& f = t[n]; if (!f) f = new Tagged("T" + n); env.functions[name] = f; E.functions[n] = "T" + n; }
                else { env.constants.insert_or_assign(name, simfil::Value::make("C" + n)); E.constants[n] = ref::Val::S("C" + n); }
            }
            continue;
        }
        auto& r = regs[c[i] - '0'];
        if (r.fn) { env.functions[r.name] = tags()[c[i] - '0']; E.functions[ref::lower(r.name)] = "T" + r.name; }
        else { env.constants.insert_or_assign(r.name, simfil::Value::make("C" + r.name)); E.constants[ref::lower(r.name)] = ref::Val::S("C" + r.name); }
    }
    eu::compare(c.substr(p + 1), m, run, &env, &E);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C17";
    c.bounds = "all registries of up to 3 (thorough: 4) of 9 constants/functions (names in different letter cases, overriding a built-in, equal up to case) in every registration order x all letter cases of 7 words x 37 positions; a constant or function for every letter of the alphabet; 3000 names, names of up to 400 letters; registries of one entry x 312 more positions (thorough: all)";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        std::vector<std::string> words;
        for (std::string w : {"foo", "bar", "count", "f_2", "a", "nope", "any"}) {
            std::vector<std::string> v = {w};
            auto up = w; for (auto& ch : up) ch = toupper(ch);
            auto cap = w; cap[0] = toupper(cap[0]);
            auto tail = up; tail[0] = w[0];
            auto last = w; last.back() = toupper(last.back());
            for (auto& x : {up, cap, tail, last}) { bool in = false; for (auto& y : v) in |= y == x; if (!in) v.push_back(x); }
            words.insert(words.end(), v.begin(), v.end());
        }
        std::vector<std::string> pos = {"#", "#()", "#(1)", "# ( 1 , a )", "#.foo", "#.#", "a.#", "a.(#)", "a.#(1)", "(#)", "# + '!'", "'!' + #", "any(#)", "arr(#, a.foo)", "a{# == 'Cfoo'}", "a[#]", "a{#}.foo", "not #", "# == #", "#{_}", "#[0]", "# as string", "typeof #", "arr(#(), #(#))",
            "*.#", "**.#", "_.#", "a.any(#)", "a.arr(#.#, #)", "#?", "#...", "# or #", "a.foo + #", "{#}", "#.foo.bar", "(#).bar", "a as #", "foo # 1"};
        const size_t basic = pos.size();
        // every combination of what stands before and after
        for (auto b : {"", "a.", "_.", "*.", "**.", "a.bar.", "bar.", "a[0].", "(", "a.(", "-", "not ", "1 + "}) for (auto e : {"", ".foo", "[0]", "['foo']", "['foo'][0]", "{_}", "{1}", "()", "(1)", "(1)[0]", "(#)", "?", "...", " + 1", " as string", ".#", ".#[0]", ".#()", ".(#)", "[#]", "{#}", " [0]", " . foo", " (1)"}) {
            std::string x = std::string(b) + "#" + e; if (x.find('(') == strlen(b) - 1 && b[0] && b[strlen(b) - 1] == '(') x += ")";
            pos.push_back(x);
        }
        std::vector<std::string> sets = {""};
        for (int n = 1; n <= (th ? 4 : 3); ++n) en::sequences(regs.size(), n, [&](auto& ix) {
            std::string s; for (int i : ix) { if (s.find(char('0' + i)) != std::string::npos) return; s += char('0' + i); }
            if (n >= 3) for (int k = 1; k + 1 < n; ++k) if (s[k] > s[k + 1]) return;   // order matters only between the first and the rest
            sets.push_back(s);
        });
        for (auto s : {"~", "^", "$", "~$"}) for (char l = 'a'; l <= 'z'; ++l) for (int u = 0; u < 4; ++u) {
            std::string w{u & 1 ? (char)toupper(l) : l, u & 2 ? (char)toupper(l) : l};
            for (auto x : {"#", "#()", "# = 'x'", "any(#)", "a.#"}) { std::string q; for (char ch : std::string(x)) if (ch == '#') q += w; else q += ch; emit(s + ("\x01" + q)); }
        }
        for (auto pat : {"#", "#()", "#(1)", "arr(#, #)", "a.#", "#.a"}) {
            auto put = [&](char set, std::string const& w) { std::string q; for (char ch : std::string(pat)) if (ch == '#') q += w; else q += ch; emit(std::string(1, set) + "\x01" + q); };
            for (int k = 0; k <= 3001; k += k < 20 || k > 2990 ? 1 : 37) for (auto pre : {"nm", "Nm", "NM", "nM", "n"}) { put('%', pre + std::to_string(k)); }
            for (int k = 0; k < 420; ++k) for (int v = 0; v < 5; ++v) { std::string w = std::string(k, v & 1 ? 'X' : 'x') + (v & 2 ? "Y" : "y"); if (v == 4) { if (!k) continue; w[k / 2] = 'z'; } put('&', w); }
        }
        for (auto& s : sets) for (auto& w : words) for (size_t k = 0; k < (th || s.size() < 2 ? pos.size() : basic); ++k) { auto& x = pos[k]; std::string q; for (char ch : x) if (ch == '#') q += w; else q += ch; emit(s + "\x01" + q); }
    };
    c.run = run;
    c.show = [](std::string const& x) { auto p = x.find('\x01'); std::string s; for (size_t i = 0; i < p; ++i) { if (!isdigit((unsigned char)x[i])) { s += "names of every letter; "; continue; } auto& r = regs[x[i] - '0']; s += (r.fn ? "function " : "constant ") + r.name + "; "; } return "[" + s + "] " + x.substr(p + 1); };
    return mc::main(argc, argv, c);
}
