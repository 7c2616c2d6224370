// C25: string pool updates transfer every string with its id.
#include "mc.h"
#include "enumutil.h"
#include "simfil/model/string-pool.h"
#include <map>
#include <memory>
#include <sstream>
using namespace std::string_literals;
using simfil::StringId;
using simfil::StringPool;

namespace {
std::string fold(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
const std::vector<std::string> words = {"a", "B", "b", "", "ab\xc3\xa4\0x"s, "longer than any small string buffer, really", "c", "D"};

struct Pool {
    std::unique_ptr<StringPool> p = std::make_unique<StringPool>();
    std::map<StringId, std::string> ids;       // everything that must be there
    std::map<std::string, StringId> names;
    StringId next = 128;                       // no smaller dynamic id may be given away
    Pool() { put(0, ""); put(1, "$sum"); put(2, "$val"); put(3, "$idx"); }
    void put(StringId id, std::string const& s) { ids[id] = s; names[fold(s)] = id; if (id >= 128) next = std::max<int>(next, id + 1); }
    Pool copy() const { Pool r; r.p = std::make_unique<StringPool>(*p); r.ids = ids; r.names = names; r.next = next; return r; }
    void add(std::string const& s, std::string const& at)
    {
        auto id = p->emplace(s);
        auto k = names.find(fold(s));
        if (k != names.end()) { if (id != k->second) mc::fail(at + "interning " + mc::quote(s) + " gives " + std::to_string(id) + " instead of " + std::to_string(k->second)); }
        else { if (id < next || ids.count(id)) mc::fail(at + "a new string gets the id " + std::to_string(id) + ", which is not fresh"); put(id, s); }
    }
    void check(std::string const& at) const
    {
        for (auto& [id, s] : ids) {
            auto v = p->resolve(id);
            if (!v || *v != s) mc::fail(at + "id " + std::to_string(id) + " is " + (v ? mc::quote(*v) : "missing") + " instead of " + mc::quote(s));
            if (p->get(s) != id) mc::fail(at + "get(" + mc::quote(s) + ") is " + std::to_string(p->get(s)) + " instead of " + std::to_string(id));
        }
        if (p->size() != names.size()) mc::fail(at + "has " + std::to_string(p->size()) + " strings instead of " + std::to_string(names.size()));
        if (p->highest() != (StringId)(next - 1)) mc::fail(at + "highest is " + std::to_string(p->highest()) + " instead of " + std::to_string(next - 1));
        size_t b = 0; for (auto& [id, s] : ids) if (id >= 128) b += s.size();
        if (p->bytes() != b) mc::fail(at + "bytes is " + std::to_string(p->bytes()) + " instead of " + std::to_string(b));
        for (int id = 0; id < 200; ++id) if (!ids.count(id) && p->resolve(id)) mc::fail(at + "unknown id " + std::to_string(id) + " resolves");
    }
};
}

// e<w> master interns; n new empty reader; c reader copied from the master; u<how> update of all readers from an offset; f<w> (last) every reader interns; x a reader becomes the master
static void run(std::string const& c, mc::Run& run)
{
    Pool master;
    std::vector<Pool> readers;
    if (c[0] == 'L') {     // L<n>,<k>,<off>: n strings; a reader that has k of them; update from the given distance to the reader's end
        int n, k, off; sscanf(c.c_str() + 1, "%d,%d,%d", &n, &k, &off);
        Pool reader;
        for (int i = 0; i < n; ++i) { if (i == k) reader = master.copy(); master.add("s" + std::to_string(i) + std::string(i % 300, 'x'), "master: "); }
        if (k >= n) reader = master.copy();
        int from = std::max(0, std::min<int>(master.next, reader.next + off));
        std::stringstream s; master.p->write(s, from); reader.p->read(s);
        for (auto& [id, str] : master.ids) if (id >= from) reader.put(id, str);
        reader.check("reader: ");
        reader.add("brand new", "reader: "); reader.check("reader afterwards: ");
        master.check("master: ");
        run.step(n); run.state(c); run.outcome("ladder");
        return;
    }
    std::string st;
    for (size_t i = 0; i < c.size(); ++i) {
        run.step();
        auto at = "step " + std::to_string(i) + " " + c.substr(i, 2) + ": ";
        st += c[i];
        switch (c[i]) {
        case 'e': st += c[i + 1]; master.add(words[c[++i] - 'A'], at); break;
        case 'n': readers.emplace_back(); break;
        case 'c': readers.push_back(master.copy()); break;
        case 'x': if (readers.empty()) return; std::swap(master, readers[0]); readers.erase(readers.begin()); readers.clear(); break;
        case 'u': {
            char how = c[++i]; st += how;
            for (auto& r : readers) {
                int from = how == '0' ? 0 : how == '1' ? 1 : how == '8' ? 128 : how == '9' ? 129 : how == 'h' ? r.next : how == 'H' ? r.next - 1 : how == 'm' ? master.next - 1 : master.next;
                std::stringstream s;
                master.p->write(s, (StringId)from);
                auto data = s.str();
                r.p->read(s);
                if (s.peek() != EOF) mc::fail(at + "the reader did not consume the whole update");
                for (auto& [id, str] : master.ids) if (id >= from) r.put(id, str);
                // followed by other data on the same stream
                StringPool e; std::stringstream s2(data + "tail"); e.read(s2); std::string t; s2 >> t; if (t != "tail") mc::fail(at + "reading an update consumes what follows");
            }
            break;
        }
        case 'f': { auto& w = words[c[++i] - 'A']; st += c[i]; for (auto& r : readers) r.add(w, at); for (auto& r : readers) r.check(at + "reader: "); readers.clear(); break; }
        }
    }
    master.check("master: ");
    for (auto& r : readers) { r.check("reader: "); r.add("brand new", "reader: "); r.add("BRAND new", "reader: "); r.check("reader afterwards: "); }
    run.state(st);
    run.outcome(readers.empty() ? "no reader" : master.next == 128 ? "empty master" : "updates");
}

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C25";
    c.bounds = "all histories of up to 4 (thorough 5) operations: the master interns one of 8 strings, a reader starts empty or as a copy, all readers are updated from one of 8 starting ids (0, 1, first, second, reader's next and last, master's last and next), readers intern, a reader takes over; longer ones over 3 strings; ladders up to 5000 strings, and around powers of two up to 65400";
    c.enumerate = [](bool th, mc::Emit const& emit) {
        auto seqs = [&](std::string const& pre, std::vector<std::string> const& o, int n) { en::sequences(o.size(), n, [&](auto& ix) { std::string s = pre; for (int i : ix) s += o[i]; emit(s); }); };
        std::vector<std::string> ops = {"n", "c", "x"};
        for (size_t w = 0; w < words.size(); ++w) ops.push_back("e"s + char('A' + w));
        for (char h : std::string("0189hHmM")) ops.push_back("u"s + h);
        for (auto f : {"fA", "fC", "fG"}) ops.push_back(f);
        for (int n = 1; n <= (th ? 5 : 4); ++n) seqs("", ops, n);
        for (auto pre : {"c", "n", "eAc", "eAceB", "neAceBeE"}) seqs(pre, {"eA", "eB", "eC", "eF", "eG", "u0", "uh", "uH", "um", "u8", "u9", "c", "x"}, th ? 5 : 4);
        for (int n : {1, 2, 100, 1000, 5000}) for (int k : {0, 1, 50, 999, 5000}) for (int off : {-5000, -1, 0, 1, 5000}) emit("L" + std::to_string(n) + "," + std::to_string(k) + "," + std::to_string(off));
        for (int n : {127, 128, 255, 256, 32639, 32640, 32767, 32768, 32769, 40000, 65000, 65400}) for (int k : {0, 1, n - 1, n}) for (int off : {-70000, 0}) emit("L" + std::to_string(n) + "," + std::to_string(k) + "," + std::to_string(off));
    };
    c.run = run;
    c.caseTimeout = 60;
    return mc::main(argc, argv, c);
}
