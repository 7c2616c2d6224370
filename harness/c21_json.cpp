// C21: a JSON document survives import and export; malformed text is rejected.
#include "mc.h"
#include "enumutil.h"
#include "simfil/model/json.h"
#include "simfil/model/model.h"
#include "nlohmann/json.hpp"
#include <sstream>
using namespace std::string_literals;
using json = nlohmann::json;

namespace {
std::string fold(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

// What the exported document must look like (names folded). Fields whose names are equal up to case form the documented multi-map.
json expected(json const& j)
{
    if (j.is_array()) { json r = json::array(); for (auto& x : j) r.push_back(expected(x)); return r; }
    if (j.is_object()) {
        std::map<std::string, std::vector<json>> m;
        bool multi = false;
        for (auto& [k, v] : j.items()) { auto& l = m[fold(k)]; l.push_back(expected(v)); multi |= l.size() > 1; }
        json r = json::object();
        for (auto& [k, l] : m) if (multi) r[k] = l; else r[k] = l[0];
        if (multi) r["_multimap"] = true;
        return r;
    }
    if (j.is_number_unsigned()) { auto u = j.get<uint64_t>(); if (u > (uint64_t)INT64_MAX) return json((double)u); return json((int64_t)u); }
    return j;
}
json folded(json const& j)
{
    if (j.is_array()) { json r = json::array(); for (auto& x : j) r.push_back(folded(x)); return r; }
    if (j.is_object()) { json r = json::object(); for (auto& [k, v] : j.items()) { if (r.contains(fold(k))) mc::fail("the export has two names that are equal up to case"); r[fold(k)] = folded(v); } return r; }
    if (j.is_number_unsigned()) { auto u = j.get<uint64_t>(); if (u > (uint64_t)INT64_MAX) mc::fail("the export has an unsigned integer"); return json((int64_t)u); }
    return j;
}
// Strict equality: number types and bits count.
bool same(json const& a, json const& b)
{
    if (a.is_number() && b.is_number()) {
        if (a.is_number_float() != b.is_number_float()) return false;
        if (a.is_number_float()) { double x = a.get<double>(), y = b.get<double>(); return !memcmp(&x, &y, 8); }
        return a.get<int64_t>() == b.get<int64_t>();
    }
    if (a.type() != b.type() || a.size() != b.size()) return false;
    if (a.is_array()) { for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
    if (a.is_object()) { for (auto& [k, v] : a.items()) { auto i = b.find(k); if (i == b.end() || !same(v, *i)) return false; } return true; }
    return a == b;
}
std::string text(json const& j) { return j.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 300); }

void importAll(std::string const& doc, mc::Run& run)
{
    bool ok = true; json j;
    try { j = json::parse(doc); } catch (json::exception const&) { ok = false; }
    auto shared = std::make_shared<simfil::ModelPool>();
    simfil::json::parse("{\"Zz\":[1,{\"q\":\"before\"}]}"s, shared);
    auto before = shared->toJson().dump();
    for (int how = 0; how < 3; ++how) {
        static char const* name[] = {"parse(string)", "parse(string, model)", "parse(istream, model)"};
        auto at = std::string(name[how]) + ": ";
        simfil::ModelPoolPtr p = shared;
        bool raised = false; std::string what;
        size_t roots = p->numRoots();
        try {
            if (how == 0) { p = simfil::json::parse(doc); roots = 0; if (!p) mc::fail("no model"); }
            else if (how == 1) simfil::json::parse(doc, p);
            else { std::istringstream s(doc); simfil::json::parse(s, p); }
        } catch (std::exception const& e) { raised = true; what = e.what(); }
        run.step();
        if (raised != !ok) mc::fail(at + (raised ? "a valid document is rejected: " + what : "malformed text is accepted"));
        if (raised) {
            if (shared->numRoots() != roots || shared->toJson().dump() != before) mc::fail(at + "a rejected document changed the model");
            continue;
        }
        if (p->numRoots() != roots + 1) mc::fail(at + "the model has " + std::to_string(p->numRoots()) + " roots");
        auto w = expected(j);
        auto root = p->root(roots);
        auto e = folded(root->toJson());
        if (!same(e, w)) mc::fail(at + "exported " + text(e) + " instead of " + text(w));
        auto all = p->toJson();
        if (!all.is_array() || all.size() != roots + 1 || !same(folded(all[roots]), w)) mc::fail(at + "the export of the model differs from that of its root");
        if (how) before = all.dump();
        // the exported document can be imported again
        auto again = simfil::json::parse(root->toJson().dump());
        auto w2 = expected(root->toJson());
        if (!same(folded(again->root(0)->toJson()), w2)) mc::fail(at + "importing the export gives " + text(again->root(0)->toJson()));
        // members export like their parts
        if (w.is_array()) for (size_t i = 0; i < w.size(); ++i) if (!same(folded(root->at(i)->toJson()), w[i])) mc::fail(at + "member " + std::to_string(i) + " exports differently");
        p->validate();
    }
    if (json first = json::parse(shared->root(0)->toJson().dump()); !same(folded(first), json::parse("{\"zz\":[1,{\"q\":\"before\"}]}"))) mc::fail("an earlier root was changed");
    run.outcome(!ok ? "malformed" : j.is_array() ? "array" : j.is_object() ? "object" : j.is_string() ? "string" : j.is_number_float() ? "float" : j.is_number() ? "integer" : "literal");
    run.state(doc);
}
}

static void run(std::string const& c, mc::Run& run)
{
    if (c[0] == 'U') {       // all \u escapes of one block of 256
        char b[32];
        for (int i = 0; i < 256; ++i) { snprintf(b, sizeof b, "\"\\u%02x%02X\"", atoi(c.c_str() + 1), i); importAll(b, run); snprintf(b, sizeof b, "{\"a\\u%02x%02Xb\":1}", atoi(c.c_str() + 1), i); importAll(b, run); }
        return;
    }
    if (c[0] == 'P') {       // surrogate pairs
        char b[32];
        for (int i = 0; i < 256; ++i) { snprintf(b, sizeof b, "[\"\\ud8%02x\\udc%02x\"]", atoi(c.c_str() + 1), i); importAll(b, run); }
        return;
    }
    importAll(c.substr(1), run);
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C21";
    c.bounds = "all documents over 24 leaves (every literal, integer and float boundary, strings) nested in 14 array and object shapes up to depth 2 (pairs), names equal up to case included; all texts of up to 5 (thorough 6) JSON tokens out of 13 and up to 3 (4) characters of 20, valid or not; every byte and pair of special bytes in a string, every \\u escape in strings and names; all names and strings of up to 3 (4) characters of 10 special ones, pairs of short names, string lengths around powers of two up to 70000; "
               "depth and width ladders; each through the three import functions, exported, re-imported";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        std::vector<std::string> leaves = {"null", "true", "false", "0", "-0", "1", "-1", "65535", "65536", "-32768", "-32769", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616",
            "1.5", "-0.0", "1e5", "1e400", "5e-324", "0.1", "\"\"", "\"x\\u0000\\n\\\"\\\\ \xc3\xa4\xf0\x9f\x98\x80\""};
        auto E = [&](std::string const& s) { emit("D" + s); };
        auto shapes1 = [](std::string const& x) { return std::vector<std::string>{"[" + x + "]", "{\"a\":" + x + "}", "{\"\":" + x + "}", "{\"_multimap\":" + x + "}", "{\"A\xc3\xa4\":" + x + "}"}; };
        auto shapes2 = [](std::string const& x, std::string const& y) { return std::vector<std::string>{"[" + x + "," + y + "]", "{\"a\":" + x + ",\"B\":" + y + "}", "{\"a\":" + x + ",\"A\":" + y + "}", "{\"a\":" + x + ",\"a\":" + y + "}", "{\"b\":" + x + ",\"A\":1,\"B\":" + y + ",\"a\":2}", "{\"A\":" + x + ",\"b\":{\"a\":" + y + "}}", "{\"x\":" + x + ",\"b\":1,\"B\":2,\"z\":" + y + "}"}; };
        std::vector<std::string> l1 = {"[]", "{}"};
        for (auto& l : leaves) { E(l); E(" \t\r\n" + l + " "); for (auto& s : shapes1(l)) { E(s); l1.push_back(s); } }
        for (auto& a : leaves) for (auto& b : leaves) for (auto& s : shapes2(a, b)) { E(s); if (&a == &leaves[5] && (&b == &leaves[2] || &b == &leaves[22])) l1.push_back(s); }
        for (auto& x : l1) { E(x); for (auto& s : shapes1(x)) E(s); for (auto& y : l1) for (auto& s : shapes2(x, y)) if (th || (&x - &l1[0] + (&y - &l1[0])) % 3 == 0 || x.size() + y.size() < 14) E(s); }
        std::vector<std::string> tok = {"[", "]", "{", "}", ",", ":", "1", "\"a\"", "null", "\"A\"", "-", "2.5", " "};
        for (int n = 0; n <= (th ? 6 : 5); ++n) en::sequences(tok.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += tok[i]; E(s); });
        for (int n = 1; n <= (th ? 4 : 3); ++n) en::strings("[]{},:\"'\\u0 1-+.eEtn/\x80\n"s, n, [&](std::string const& s) { E(s); if (n <= 2) E("\"" + s + "\""); });
        for (int x = 0; x < 256; ++x) { auto s = std::string(1, (char)x); E(s); E("\"" + s + "\""); E("\"\\" + s + "\""); E("{\"" + s + "\":1}"); E("1" + s); for (int y : {0, 0x22, 0x7f, 0x80, 0x8f, 0x9f, 0xbf, 0xc0}) { E("\"" + s + (char)y + "\""); E("\"" + s + (char)y + "\x80\""); } }
        {   // names and strings of every combination of special characters, two to an object
            std::vector<std::string> ch = {"a", "A", "\\u0000", "\\\"", " ", "\xc3\xa4", ".", "9", "\\\\", "\\n"}, names;
            for (int n = 0; n <= (th ? 4 : 3); ++n) en::sequences(ch.size(), n, [&](auto& ix) { std::string s; for (int i : ix) s += ch[i]; names.push_back(s); });
            for (auto& n : names) { E("{\"" + n + "\":[1]}"); E("[\"" + n + "\"]"); E("{\"x\":2,\"" + n + "\":\"" + n + "\"}"); }
            for (size_t i = 0; i < 111 && i < names.size(); ++i) for (size_t k = 0; k < 111; ++k) E("{\"" + names[i] + "\":1,\"" + names[k] + "\":\"" + names[i] + "\"}");
            for (int l : {7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 8191, 8192, 8193, 65535, 65536, 70000}) for (auto z : {"", "\\u0000", "\\n"}) { auto n = std::string(l, 'x') + z; E("{\"" + n + "\":1}"); E("{\"" + n + "b\":1,\"" + n + "c\":\"" + n + "\"}"); E("[\"" + n + "\",\"b\"]"); }
        }
        for (int b = 0; b < 256; ++b) emit("U" + std::to_string(b));
        for (int b : {0, 1, 0x7f, 0xff, 3}) emit("P" + std::to_string(b & 3));
        for (int d : {10, 100, 400}) { E(en::rep("[", d) + en::rep("]", d)); E(en::rep("{\"a\":", d) + "1" + en::rep("}", d)); E(en::rep("[", d)); E(en::rep("[", d) + en::rep("]", d + 1)); E(en::rep("[{\"b\":", d) + "0" + en::rep("}]", d)); }
        for (int w : {10, 100, 1000, 8193, 20000}) { std::string a = "[", o = "{", s = "\"", f = "["; for (int i = 0; i < w; ++i) { a += std::to_string(i * 100003ll) + ","; if (i < 9000) o += "\"k" + std::to_string(i) + "\":\"" + std::to_string(i) + "\","; s += char('a' + i % 26); f += std::to_string(i) + ".5,"; } E(a + "0]"); E(o + "\"z\":0}"); E(s + "\""); E(f + "0.5]"); E(a + "]"); }
    };
    c.run = run;
    c.caseTimeout = 60;
    c.minOutcomes = 7;
    return mc::main(argc, argv, c);
}
