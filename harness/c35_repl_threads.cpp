// C35: every schedule of the interactive tool's parallel evaluation. The tool's real main() runs as one
// thread of the controlled scheduler; the threads it starts itself become further ones.
#include "mc.h"
#include "replutil.h"
#include "threads.h"
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

using namespace replutil;

int program_main(int argc, char* argv[]);

namespace {
const std::vector<std::string> Queries = {
    "a", "zz", "**.a", "6 / a", "a + 1", "_", "count(*)", "trace(a)", "a or b", "x", "keys(_)", "b.*", "any(** == 1)", "s = 'x'", "arr[0]['k']", "6 / (a + 2)", "a.trace(_, name='t')", "sum(*)"};
int docFd[16];
std::string* Expect;
std::streambuf *cinBuf, *coutBuf;

void enumerate(bool thorough, mc::Emit const& emit)
{
    // preemptions, documents, input
    auto put = [&](int p, std::string const& docs, std::string const& in) { emit(std::to_string(p) + docs + "\n" + in); };
    std::vector<std::string> two{"01", "10", "05", "50", "55", "00", "27"}, three{"015", "570", "505", "777"};
    std::vector<std::string> core{"a", "6 / a", "trace(a)"};
    for (auto& q : Queries) {
        for (auto& d : two) put(d[0] == d[1] || d == "10" ? 0 : 1, d, q + "\n");
        for (auto& d : three) put(0, d, q + "\n");
        put(2, "0", q + "\n");
        put(2, "", q + "\n");
    }
    for (auto& q : core) {
        for (auto& d : {"01", "05"}) put(2, d, q + "\n");
        for (auto& d : three) put(1, d, q + "\n");
        put(0, "05", q + "\n" + q + "\n");
        put(1, "57", "/mt\n" + q + "\n");
        put(1, "57", "/any\n" + q + "\n");
    }
    put(0, "01570", "a\n");         // more documents than processors
    put(0, "05500", "6 / a\n");
    if (thorough) {
        for (auto& q : Queries) {
            for (auto& d : two) put(2, d, q + "\n");
            for (auto& d : three) put(1, d, q + "\n");
            put(0, "0157", q + "\n");
            put(1, "05", "/wildcard\n" + q + "\n" + "a\n");
            put(1, "05", q + "\n" + q + "\n");
        }
        for (auto& q : core) {
            for (auto& d : three) put(2, d, q + "\n");
            put(3, "05", q + "\n");
            put(1, "01570", q + "\n");
        }
    }
}

// the judged part of the output
std::string judged(std::string const& out)
{
    std::string before, r;
    for (auto& p : cut(out, before)) r += parse(p).text() + "\n";
    return r;
}

std::string session(std::string const& docs, std::string const& input)
{
    std::istringstream in(input);
    std::ostringstream out;
    std::cin.clear(); std::cout.clear();
    std::cin.rdbuf(in.rdbuf()); std::cout.rdbuf(out.rdbuf());
    std::vector<std::string> args{"simfil-repl", "-Dx=1"};
    for (char d : docs) args.push_back("/proc/self/fd/" + std::to_string(docFd[d - '0']));
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    int rc = program_main((int)args.size(), argv.data());
    std::cin.rdbuf(cinBuf); std::cout.rdbuf(coutBuf);
    auto got = judged(out.str());
    if (rc) sched::fail("exit code " + std::to_string(rc));
    if (got != *Expect) sched::fail("the tool prints " + mc::quote(got) + ", expected " + mc::quote(*Expect));
    return got;
}

void run(std::string const& c, mc::Run& r)
{
    if (!docFd[0])
        for (size_t i = 0; i < Docs.size(); ++i) {
            docFd[i] = memfd_create("c35", 0);
            if (write(docFd[i], Docs[i].data(), Docs[i].size()) < 0) abort();
        }
    auto nl = c.find('\n');
    std::string docs = c.substr(1, nl - 1), input = c.substr(nl + 1), expect;
    {
        Tool t;
        std::vector<std::string> args{"-Dx=1"};
        for (char d : docs) args.push_back(std::string("@") + d);
        t.arguments(args);
        auto ls = split(input, '\n'); ls.pop_back();
        for (auto& l : ls) expect += t.line(l).text() + "\n";
        expect += "\n";
    }
    Expect = &expect;
    sched::Program p;
    p.setup = [] { std::cin.rdbuf(cinBuf); std::cout.rdbuf(coutBuf); };
    p.final = [] { return std::string(); };
    p.threads = {{[&] { return session(docs, input); }}};
    sched::Options o;
    o.preemptions = c[0] - '0';
    o.maxExecutions = 2000000;
    auto R = sched::explore(p, o);
    std::cin.rdbuf(cinBuf); std::cout.rdbuf(coutBuf);
    r.step(R.points);
    r.state(c); 
    for (auto h : R.outcomes) r.state(h ^ mc::hash(c));
    r.outcome(expect.find("error") != std::string::npos ? "error" : "results");
    r.outcome(std::to_string(docs.size()) + " documents");
    r.outcome(R.complete ? "every schedule within the bound" : "schedules cut off");
    if (auto f = getenv("MC_STAT")) dprintf(open(f, O_CREAT | O_WRONLY | O_APPEND, 0644), "%s exec=%lu points=%lu max=%lu out=%zu\n", mc::quote(c).c_str(), R.executions, R.points, R.maxPoints, R.outcomes.size());
    if (!R.violation.empty()) mc::fail(R.violation);
}
}  // namespace

int main(int argc, char** argv)
{
    sched::boot();
    cinBuf = std::cin.rdbuf(); coutBuf = std::cout.rdbuf();
    mc::Config c;
    c.property = "C35";
    c.bounds = "18 queries x 7 pairs of documents (4 of them with 1 preemption) and 4 triples (no preemption, all orders of starting and ending), 3 queries with 2 preemptions on 2 documents and 1 on 3, sessions of two lines, 5 documents on 3 processors; thorough: 2 preemptions for all pairs, 3 for 3 queries, up to 5 documents";
    c.enumerate = enumerate;
    c.run = run;
    c.memLimitMb = 0;
    c.caseTimeout = 1800;
    c.blockSize = 1;
    return mc::main(argc, argv, c);
}
