// C30: every interleaving of small programs of threads that share string pools.
#include "mc.h"
#include "threads.h"
#include "simfil/model/string-pool.h"
#include <fcntl.h>
#include <functional>
#include <sstream>

using namespace simfil;

namespace {
StringPool *P, *Q;       // in globals the scheduler resets before every execution
std::string in1;         // a written pool (built before the exploration)

std::string num(long v) { return std::to_string(v); }

std::string view(std::optional<std::string_view> v)
{
    if (!v) return "-";
    std::string r;
    for (char c : *v) r += c;           // reads the pool's memory
    return r;
}

std::string dump(StringPool& p)
{
    std::string r = num(p.size()) + "/" + num((long)p.bytes()) + "/" + num(p.highest());
    for (int i = 126; i <= p.highest() && i < 140; ++i) r += " " + view(p.resolve((StringId)i));
    for (auto s : {"a", "x", "y", "z", "$sum"}) r += "," + num(p.get(s));
    return r;
}

std::string op(char c)
{
    try {
        switch (c) {
        case 'x': return num(P->emplace("x"));
        case 'X': return num(P->emplace("X"));
        case 'y': return num(P->emplace("some longer string: y"));
        case 'a': return num(P->emplace("a"));
        case 'g': return num(P->get("x"));
        case 'G': return num(P->get("A"));
        case 'r': return view(P->resolve(129));
        case 'q': return view(P->resolve(128));
        case 's': return num(P->size());
        case 'b': return num(P->bytes());
        case 'h': return num(P->highest());
        case '=': return num(*P == *Q);
        case '~': return num(*Q == *P);
        case 'u': return num(Q->emplace("x"));
        case 'c': { StringPool c2(*P); return dump(c2); }
        case 'C': { StringPool c2(*Q); return dump(c2); }
        case 'w': { std::ostringstream o; P->write(o, 128); return o.str(); }
        case 'W': { std::ostringstream o; P->write(o); return o.str(); }
        case 'R': { std::istringstream i(in1); P->read(i); return "read"; }
        case 'T': { std::istringstream i(in1.substr(0, in1.size() - 1)); P->read(i); return "read"; }
        }
    } catch (std::exception const&) {
        return "throws";
    }
    return "?";
}

const std::string Ops = "xXyagGrqsbh=~ucCwWRT";
const std::string Core = "xXyrbscwR=~u";

std::vector<std::string> programs(std::string const& alpha, int n)
{
    std::vector<std::string> r{""};
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> q;
        for (auto& p : r) for (char c : alpha) q.push_back(p + c);
        r = q;
    }
    return r;
}
bool writes(std::string const& s) { return s.find_first_of("xXyauRT") != std::string::npos; }

void enumerate(bool thorough, mc::Emit const& emit)
{
    auto pairs = [&](char pb, std::vector<std::string> const& a, std::vector<std::string> const& b, bool sym) {
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t k = sym ? i : 0; k < b.size(); ++k)
                if (writes(a[i]) || writes(b[k])) emit(std::string(1, pb) + a[i] + "|" + b[k]);
    };
    auto o1 = programs(Ops, 1), o2 = programs(Ops, 2), c2 = programs(Core, 2), c3 = programs("xybcR=", 3), c1 = programs(Core, 1);
    pairs('9', o1, o1, true);            // no bound on switches
    pairs('3', o1, o2, false);
    for (size_t i = 0; i < o1.size(); ++i)
        for (size_t j = i; j < o1.size(); ++j)
            for (size_t k = j; k < o1.size(); ++k)
                if (writes(o1[i] + o1[j] + o1[k])) emit("3" + o1[i] + "|" + o1[j] + "|" + o1[k]);
    pairs('2', c2, c2, true);
    if (thorough) {
        pairs('3', o2, o2, true);
        pairs('4', o1, o2, false);
        pairs('2', c2, c3, false);
        for (auto& a : c1) for (auto& b : c1) for (auto& c : c2) if (a <= b && writes(a + b + c)) emit("2" + a + "|" + b + "|" + c);
    }
}

void run(std::string const& c, mc::Run& r)
{
    sched::Program p;
    p.setup = [] {
        P = new StringPool; Q = new StringPool;
        P->emplace("a");
        Q->emplace("a");
    };
    p.final = [] { auto counts = num(P->hits()) + "+" + num(P->misses()) + " "; return counts + dump(*P) + " " + dump(*Q) + num(*P == *Q); };
    p.threads.emplace_back();
    for (size_t i = 1; i < c.size(); ++i) {
        if (c[i] == '|') p.threads.emplace_back();
        else p.threads.back().push_back([o = c[i]] { return op(o); });
    }
    sched::Options o;
    o.preemptions = c[0] == '9' ? 1000 : c[0] - '0';
    auto R = sched::explore(p, o);
    r.step(R.points);
    for (auto h : R.outcomes) r.state(h ^ mc::hash(c));
    r.outcome(std::to_string(p.threads.size()) + " threads");
    r.outcome(R.outcomes.size() > 1 ? "several outcomes" : "one outcome");
    r.outcome(R.complete ? "every schedule within the bound" : "schedules cut off");

    if (auto f = getenv("MC_STAT")) dprintf(open(f, O_CREAT | O_WRONLY | O_TRUNC, 0644), "%s exec=%lu points=%lu max=%lu orders=%lu out=%zu\n", c.c_str(), R.executions, R.points, R.maxPoints, R.orders, R.outcomes.size());
    if (!R.violation.empty()) mc::fail(R.violation);
}
}  // namespace

int main(int argc, char** argv)
{
    sched::boot();
    {
        StringPool p;
        p.emplace("pad"); p.emplace("x"); p.emplace("z");
        std::ostringstream o;
        p.write(o, 129);
        in1 = o.str();
    }
    mc::Config c;
    c.property = "C30";
    c.bounds = "2 threads with one call each out of 20 (all schedules), with one and two calls (3 preemptions), two calls each out of 12 (2 preemptions), 3 threads with one call each (3 preemptions); thorough: two calls each out of 20 with 3 preemptions, two and three calls";
    c.enumerate = enumerate;
    c.run = run;
    c.memLimitMb = 0;
    c.caseTimeout = 120;
    c.blockSize = 4;
    return mc::main(argc, argv, c);
}
