// C34: sessions of the interactive tool. The tool's real main() runs in a process of its own for every
// command line and every sequence of input lines within the bounds.
#include "mc.h"
#include "replutil.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <fcntl.h>

int program_main(int argc, char* argv[]);     // the tool, see registry.py

using namespace replutil;

namespace {
const char AS = '\x1f', LS = '\x1e';

std::vector<std::vector<std::string>> argSets(bool thorough)
{
    std::vector<std::vector<std::string>> r = {
        {}, {"@0"}, {"@1"}, {"@3"}, {"@4"}, {"@0", "@1"}, {"@1", "@0"}, {"@2", "@0"}, {"@5", "@0"}, {"@0", "@5"}, {"@0", "@0"}, {"@8", "@6"},
        {"@7", "@1", "@0"}, {"@0", "@5", "@7"}, {"@3", "@4", "@2", "@1", "@0"},
        {"-Dx=1", "@0"}, {"-D", "x=1", "@0"}, {"@0", "-D", "x=1"}, {"-Dx=1", "-DX=2", "@0"}, {"-DX=2", "-Dx=1"}, {"-Dx=a=b"}, {"-Dx="}, {"-Da=9", "@0"},
        {"-Dx=1", "-Dy=2", "@0", "@1"}, {"--", "@0"}, {"@1", "--", "@0"}, {"-D", "x=1", "--", "@0"}, {"-D", "-x=1", "@0"}, {"-Ds=str", "-Dx==", "@0"},
    };
    if (thorough)
        for (int a = 0; a < 9; ++a)
            for (int b = 0; b < 9; ++b) {
                r.push_back({"@" + std::to_string(a), "@" + std::to_string(b)});
                for (int c = 0; c < 9; ++c) r.push_back({"@" + std::to_string(a), "-Dx=1", "@" + std::to_string(b), "@" + std::to_string(c)});
            }
    return r;
}
const std::vector<std::vector<std::string>> Ending = {
    {"-h"}, {"@0", "-h"}, {"-D"}, {"@0", "-D"}, {"-D", "x"}, {"-Dx"}, {"-D=1"}, {"-D", "=1"}, {"-q"}, {"-"}, {"-q", "-h"}, {"-h", "-q"}, {"-Dx=1", "-D"}, {"-x=1", "@0"}, {"@0", "-v"}};

const std::vector<std::string> Lines = {
    "a", "b", "*", "**.a", "6 / a", "x", "X", "1 + 1", "a b", "_", "c.a", "a == x", "/any", "/wildcard", "/verbose", "/mt", "/any  ", "/anyx", "/ any", "", "b.b", "count(b.*)", "a + x"};
const std::vector<std::string> Core = {"a", "**", "6 / a", "x", "a b", "/any", "/wildcard", "/verbose", "/mt", ""};

void enumerate(bool thorough, mc::Emit const& emit)
{
    auto put = [&](std::vector<std::string> const& args, std::vector<std::string> const& lines, bool newline) {
        std::string s(1, newline ? 'n' : 'e');
        for (auto& a : args) s += a + AS;
        for (auto& l : lines) s += LS + l;
        emit(s);
    };
    for (auto& a : Ending) { put(a, {}, true); put(a, {"a"}, true); }
    for (auto& a : argSets(thorough)) {
        put(a, {}, true);
        for (auto& l : Lines) { put(a, {l}, true); put(a, {l}, false); }
        for (auto& l : Lines) for (auto& k : Lines) put(a, {l, k}, true);
    }
    for (auto& a : argSets(false)) {
        if (!thorough && a.size() == 1 && a[0] != "@0") continue;
        for (auto& l : Core) for (auto& k : Core) for (auto& m : Core) {
            put(a, {l, k, m}, true);
            if (thorough) for (auto& n : Core) put(a, {l, k, m, n}, true);
        }
    }
    // spaces around lines
    for (auto l : {"a\r", "/any\r", "\t", " ", "\r", "/mt \t", " a ", "\ta", "/wildcard\r", "/verbose\t", "a\v"}) for (auto k : {"a", "/any", "1", "b"}) { put({"@0"}, {l, k, "x == a"}, true); put({"@0", "@1"}, {k, l, "a"}, false); }
    // numbers of documents, definitions, lines, results and letters
    for (int n = 1; n <= 40; ++n) for (auto mt : {"", "/mt"}) { std::vector<std::string> d(n, "@0"); for (int i = 0; i < n; i += 3) d[i] = "@1"; put(d, {mt, "a", "_", "6 / a"}, true); }
    for (int n : {2, 9, 40}) { std::vector<std::string> d; for (int i = 0; i < n; ++i) d.push_back("-Dk" + std::to_string(i) + "=v" + std::to_string(i)); d.push_back("@0"); put(d, {"k0", "K" + std::to_string(n - 1), "k" + std::to_string(n / 2), "k" + std::to_string(n)}, true); }
    for (int n : {100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000}) {
        auto N = std::to_string(n);
        std::string l = "arr(1"; for (int i = 1; i < n; ++i) l += ",1";
        put({"@0"}, {"/any", "count(" + l + "))", "a"}, true); put({"@0"}, {"range(1, " + N + ")...", "/any", "range(1, " + N + ")...", "a"}, true);
        put({"@0", "@1"}, {"'" + std::string(n, 'x') + "' + a", "a"}, false); put({}, {"-Dx=" + N, std::string(n, ' ') + "1", "a" + std::string(n, ' ')}, true);
        put({"-Dx=" + std::string(n, 'y'), "@0"}, {"x", "/any", "x"}, true); put({"-D" + std::string(n, 'z') + "=1"}, {std::string(n, 'z'), "/any", std::string(n, 'Z') + "y", std::string(n, 'z')}, true);
    }
    // length ladder
    for (int n : {10, 100}) {
        std::vector<std::string> ls;
        for (int i = 0; i < n; ++i) ls.push_back(Core[i % Core.size()]);
        put({"@0", "@1"}, ls, true);
        std::vector<std::string> many(n, "@0");
        many.insert(many.begin() + n / 2, "@1");
        put(many, {"a", "/mt", "a", "_"}, true);
    }
}

int memfd(std::string const& data)
{
    int fd = memfd_create("c34", 0);
    if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) { perror("memfd"); abort(); }
    lseek(fd, 0, SEEK_SET);
    return fd;
}
std::string slurp(int fd)
{
    std::string s; char buf[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
    return s;
}

int docFd[16];

void run(std::string const& c, mc::Run& r)
{
    auto parts = split(c.substr(1), LS);
    auto args = split(parts[0], AS); args.pop_back();
    std::vector<std::string> lines(parts.begin() + 1, parts.end());
    if (!docFd[0]) for (size_t i = 0; i < Docs.size(); ++i) docFd[i] = memfd(Docs[i]);
    std::string in;
    for (size_t i = 0; i < lines.size(); ++i) in += lines[i] + (i + 1 < lines.size() || c[0] == 'n' ? "\n" : "");
    int fin = memfd(in), fout = memfd(""), ferr = memfd("");
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGALRM, SIG_DFL);
        alarm(8);
        rlimit lim{1 << 20, 1 << 20};
        setrlimit(RLIMIT_FSIZE, &lim);
        dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2);
        std::vector<std::string> real{"simfil-repl"};
        for (auto& a : args) real.push_back(a[0] == '@' ? "/proc/self/fd/" + std::to_string(docFd[a[1] - '0']) : a);
        std::vector<char*> argv;
        for (auto& a : real) argv.push_back(a.data());
        argv.push_back(nullptr);
        int rc = program_main((int)real.size(), argv.data());
        std::cout.flush(); std::cerr.flush();
        fflush(stdout); fflush(stderr);
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    auto out = slurp(fout), err = slurp(ferr);
    close(fin); close(fout); close(ferr);
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM || s == SIGXFSZ) mc::fail("the tool does not end when its input does");
        mc::fail("the tool is killed by signal " + std::to_string(s) + ": " + err.substr(0, 200));
    }
    int rc = WEXITSTATUS(st);
    Tool t;
    r.step();
    auto end = t.arguments(args);
    std::string before;
    auto chunks = cut(out, before);
    if (end) {
        if (rc != *end) mc::fail("exit code " + std::to_string(rc) + ", expected " + std::to_string(*end));
        if (!chunks.empty()) mc::fail("the tool starts a session although it must not");
        if (*end == 1 && err.empty()) mc::fail("a wrong argument is not reported");
        if (*end == 0 && before.empty()) mc::fail("no help is shown");
        r.outcome(*end ? "arguments rejected" : "help");
        r.state("end" + std::to_string(rc) + parts[0]);
        return;
    }
    if (rc != 0) mc::fail("exit code " + std::to_string(rc) + " at the end of the session");
    std::string hist = parts[0];
    for (size_t i = 0; i < lines.size(); ++i) {
        if (i >= chunks.size()) mc::fail("the session ends before line " + std::to_string(i + 1));
        auto want = t.line(lines[i]);
        auto got = parse(chunks[i]);
        r.step();
        if (want.kind == "?") { r.outcome("unknown command"); continue; }
        r.outcome(want.kind.empty() ? "empty line" : want.kind);
        if (got.text() != want.text())
            mc::fail("line " + std::to_string(i + 1) + " " + mc::quote(lines[i]) + ": got " + mc::quote(got.text()) + ", expected " + mc::quote(want.text()));
        hist += "\n" + want.text();
        r.state(hist);
    }
    for (size_t i = lines.size(); i < chunks.size(); ++i)
        if (!parse(chunks[i]).text().empty()) mc::fail("output after the end of the input: " + mc::quote(chunks[i]));
}

std::string show(std::string const& c)
{
    std::string s = "repl";
    auto parts = split(c.substr(1), LS);
    for (auto& a : split(parts[0], AS)) if (!a.empty()) s += " " + (a[0] == '@' ? "<" + Docs[a[1] - '0'] + ">" : a);
    for (size_t i = 1; i < parts.size(); ++i) s += " ; " + parts[i];
    return s;
}
}  // namespace

int main(int argc, char** argv)
{
    mc::Config c;
    c.property = "C34";
    c.bounds = "29 command lines (up to 5 files, definitions, `--`) and 15 that end at once; all sessions of up to 2 lines out of 23 and up to 3 lines out of 10, last line with and without newline; 1..40 files, 40 definitions, lines and results of up to 10 000 letters and values; thorough: all pairs and triples of 9 files, 4 lines; ladders of 100 lines and 101 files";
    c.enumerate = enumerate;
    c.run = run;
    c.show = show;
    c.caseTimeout = 20;
    return mc::main(argc, argv, c);
}
