// C32: every interleaving of threads that each create, fill and read their own arrays of one arena
// compiled with ARRAY_ARENA_THREAD_SAFE.
#include "mc.h"
#include "threads.h"
#include "simfil/model/arena.h"
#include <fcntl.h>
#include <unistd.h>

using namespace simfil;

namespace {
struct Item { int a = -1; int b = -1; Item() = default; Item(int x, int y) : a(x), b(y) {} };
using Arena = ArrayArena<Item, 2, 2>;   // tiny pages: every few elements the page tables grow
Arena* A;
int own[4], nextVal[4];
int extra[4];            // arrays created by a thread in its program

std::string num(long v) { return std::to_string(v); }
std::string item(Item const& i) { return num(i.a) + (i.b == i.a + 1 ? "" : "!"); }

std::string all(int x)
{
    std::string r = "[";
    size_t n = A->size(x);
    for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + item(A->at(x, i));
    return r + "]";
}

std::string op(int t, char c)
{
    try {
        switch (c) {
        case 'n': own[t] = A->new_array(0); return "new" ;
        case 'm': own[t] = A->new_array(1); return "new";
        case 'M': own[t] = A->new_array(3); return "new";
        case 'N': return num(A->new_array(2));                       // the number it gets
        case 'p': { int v = t * 100 + 2 * nextVal[t]++; auto& e = A->push_back(own[t], Item(v, v + 1)); return item(e); }
        case 'e': { int v = t * 100 + 2 * nextVal[t]++; auto& e = A->emplace_back(own[t], v, v + 1); return item(e); }
        case 'r': { std::string s; for (auto& e : A->range(own[t])) s += item(e) + ","; return s; }
        case 'c': { std::string s; auto const& ca = *A; for (auto i = ca.begin(own[t]); i != ca.end(own[t]); ++i) s += item(*i) + ","; return s; }
        case 'i': { std::string s; A->iterate(own[t], [&](Item& e) { s += item(e) + ","; return true; }); return s; }
        case 'I': { std::string s; A->iterate(own[t], [&](Item& e, size_t k) { s += num(k) + ":" + item(e) + ","; }); return s; }
        case 'q': { std::string s; A->iterate(own[t], [&](Item& e) { s += item(e) + ","; return false; }); return s; }
        case 'v': { A->iterate(own[t], [&](Item& e) { e.b = e.a + 1; }); return "ok"; }
        case 'j': { std::string s; A->iterate(own[t], [&](Item& e) { s += item(A->at(own[t], 0)); }); return s; }   // uses the arena from the callback
        case 'k': { A->iterate(own[t], [&](Item& e, size_t k) { if (k == 0) A->new_array(1); }); return "ok"; }
        case 'a': return item(A->at(own[t], 0));
        case 'z': return item(A->at(own[t], 7));
        case 's': return num(A->size(own[t]));
        case 'S': return num(A->size());
        case 'o': return num(A->range(own[t]).size());
        case 'b': { auto r = A->range(own[t]); return item(r[0]); }
        case 'w': { auto& e = A->at(own[t], 0); e.b = e.a + 1; return "ok"; }
        case 'B': { long k = 0; for (auto i = A->begin(); i != A->end(); ++i) ++k; return num(k); }        // counts the arrays
        }
    } catch (std::exception const&) {
        return "throws";
    }
    return "?";
}

const std::string Ops = "nmMNpericIqvjkazsSobwB";
const std::string Core = "nmpeiraS";

bool grows(std::string const& s) { return s.find_first_of("nmMNpek") != std::string::npos; }

void programs(std::string const& alpha, int n, std::vector<std::string>& out)
{
    std::vector<std::string> r{""};
    for (int i = 0; i < n; ++i) { std::vector<std::string> q; for (auto& p : r) for (char c : alpha) q.push_back(p + c); r = q; }
    out.insert(out.end(), r.begin(), r.end());
}

// case: <switches><elements the arrays start with><program>|<program>
void enumerate(bool thorough, mc::Emit const& emit)
{
    std::vector<std::string> o1, o2, c2, c3, p3, c1;
    programs(Ops, 1, o1); programs(Ops, 2, o2); programs(Core, 2, c2); programs("npi", 3, p3); programs(Core, 1, c1);
    auto pairs = [&](std::string const& pre, std::vector<std::string> const& a, std::vector<std::string> const& b, bool sym) {
        for (size_t i = 0; i < a.size(); ++i) for (size_t k = sym ? i : 0; k < b.size(); ++k) if (grows(a[i]) || grows(b[k])) emit(pre + a[i] + "|" + b[k]);
    };
    auto triples = [&](std::string const& pre, std::vector<std::string> const& a) {
        for (size_t i = 0; i < a.size(); ++i) for (size_t j = i; j < a.size(); ++j) for (size_t k = j; k < a.size(); ++k)
            if (grows(a[i] + a[j] + a[k])) emit(pre + a[i] + "|" + a[j] + "|" + a[k]);
    };
    for (char k : {'0', '1', '2', '3'}) pairs(std::string("9") + k, o1, o1, true);
    for (char k : {'0', '1', '2', '3'}) pairs(std::string("3") + k, o1, o2, false);
    for (char k : {'0', '2'}) triples(std::string("2") + k, o1);
    for (char k : {'0', '1', '2'}) pairs(std::string("2") + k, c2, c2, true);
    pairs("20", p3, p3, true);
    emit("20npppppp|npppppp"); emit("22ppppp|npeieip"); emit("20npp|npe|nep");
    if (thorough) {
        for (char k : {'0', '1', '2', '3'}) pairs(std::string("3") + k, o2, o2, true);
        programs(Core, 3, c3);
        for (char k : {'0', '2'}) pairs(std::string("2") + k, c3, c3, true);
        for (char k : {'0', '1', '2'}) triples(std::string("3") + k, o1);
        triples("20", c2);
    }
}

void run(std::string const& c, mc::Run& r)
{
    sched::Program p;
    p.threads.emplace_back();
    for (size_t i = 2; i < c.size(); ++i) {
        int t = (int)p.threads.size() - 1;
        if (c[i] == '|') p.threads.emplace_back();
        else p.threads.back().push_back([t, o = c[i]] { return op(t, o); });
    }
    int n = (int)p.threads.size(), k = c[1] - '0';
    p.setup = [n, k] {
        A = new Arena;
        for (int t = 0; t < n; ++t) {
            own[t] = A->new_array(0);
            nextVal[t] = 0;
            for (int i = 0; i < k; ++i) { int v = t * 100 + 2 * nextVal[t]++; A->emplace_back(own[t], v, v + 1); }
        }
    };
    p.final = [n] {
        std::string s = num(A->size());
        for (int t = 0; t < n; ++t) s += " " + all(own[t]) + all(t);
        return s;
    };
    sched::Options o;
    o.preemptions = c[0] == '9' ? 1000 : c[0] - '0';
    auto R = sched::explore(p, o);
    r.step(R.points);
    for (auto h : R.outcomes) r.state(h ^ mc::hash(c));
    r.outcome(std::to_string(n) + " threads");
    r.outcome(R.outcomes.size() > 1 ? "several outcomes" : "one outcome");
    r.outcome(R.complete ? "every schedule within the bound" : "schedules cut off");
    if (auto f = getenv("MC_STAT")) dprintf(open(f, O_CREAT | O_WRONLY | O_TRUNC, 0644), "%s exec=%lu points=%lu max=%lu orders=%lu out=%zu\n", c.c_str(), R.executions, R.points, R.maxPoints, R.orders, R.outcomes.size());
    if (!R.violation.empty()) mc::fail(R.violation);
}
}  // namespace

int main(int argc, char** argv)
{
    sched::boot();
    mc::Config c;
    c.property = "C32";
    c.bounds = "arena with pages of 2 elements, arrays starting with 0 to 3 elements: 2 threads with one call each out of 22 (all schedules), one and two calls (3 preemptions), two calls each out of 8 (2), three calls each out of 3 (2), 3 threads with one call each (2), three long programs. thorough: two calls each out of 22 (3), three calls each out of 8 (2), 3 threads with two calls (2)";
    c.enumerate = enumerate;
    c.run = run;
    c.memLimitMb = 0;
    c.caseTimeout = 120;
    c.blockSize = 4;
    return mc::main(argc, argv, c);
}
