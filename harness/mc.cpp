#include "mc.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

namespace mc {

std::string quote(std::string_view s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

namespace {

constexpr int MaxWorkers = 64;

struct Slot {
    std::atomic<int64_t> cur;          // index of the running case, -1 if none
    std::atomic<int64_t> since;        // ms timestamp when it started
    std::atomic<int64_t> cpu;          // ms of processor time of the worker when it started
    std::atomic<uint64_t> cases, steps;
    std::atomic<int64_t> block;        // claimed block
};
struct Shared {
    std::atomic<int64_t> nextBlock;
    std::atomic<int> stop;
    std::atomic<int> nviol;
    Slot slots[MaxWorkers];
};
Shared* sh;

int64_t nowMs()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Processor time of a child. A case counts as endless by its processor time, so that a busy machine makes no
// difference; one that waits forever by a generous multiple of the time.
int64_t cpuMs(pid_t pid)
{
    clockid_t clk; timespec t;
    if (clock_getcpuclockid(pid, &clk) || clock_gettime(clk, &t)) return 0;
    return t.tv_sec * 1000ll + t.tv_nsec / 1000000;
}
int64_t wallLimit(int timeout, int factor) { return 1000ll * std::min(factor * timeout, std::max(timeout, 30 * factor)); }

std::string jsonStr(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

std::string hex(std::string_view s)
{
    std::string r; char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}
std::string unhex(std::string_view s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(std::string(s.substr(i, 2)), nullptr, 16);
    return r;
}

struct WRun : Run {
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t, std::less<>> outcomes;
    using Run::state;
    void state(uint64_t h) override { states.insert(h); }
    void outcome(std::string_view l) override
    {
        auto it = outcomes.find(l);
        if (it == outcomes.end()) outcomes.emplace(std::string(l), 1); else ++it->second;
    }
};

struct Violation { int64_t idx; std::string cas, msg; std::vector<std::pair<int64_t, int64_t>> hist; bool crash = false; };

struct StopEnum {};

void limits(Config const& cfg)
{
    struct rlimit r { 0, 0 };
    setrlimit(RLIMIT_CORE, &r);
#ifndef MC_ASAN
    if (cfg.memLimitMb) {
        r.rlim_cur = r.rlim_max = cfg.memLimitMb << 20;
        setrlimit(RLIMIT_AS, &r);
    }
#endif
}

// Runs one case; returns "" or the failure message.
std::string runOne(Config const& cfg, std::string const& c, Run& run)
{
    try {
        cfg.run(c, run);
    } catch (Fail const& f) {
        return f.msg.empty() ? "failed" : f.msg;
    } catch (std::bad_alloc const&) {
        return "unexpected exception: std::bad_alloc";
    } catch (std::exception const& e) {
        return std::string("unexpected exception: ") + e.what();
    } catch (...) {
        return "unexpected exception of unknown type";
    }
    return "";
}

void writeAll(int fd, std::string const& s)
{
    size_t o = 0;
    while (o < s.size()) { auto n = write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(99); o += n; }
}

std::string dir;

void worker(Config const& cfg, bool thorough, int k, int gen, std::vector<std::pair<int64_t, int64_t>> hist,
            int64_t resumeBlock, int64_t resumeFrom, std::set<std::string> const& known)
{
    limits(cfg);
    auto& slot = sh->slots[k];
    std::string base = dir + "/w" + std::to_string(k) + "." + std::to_string(gen);
    int vfd = open((dir + "/viol").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    int efd = open((base + ".err").c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0644);
    dup2(efd, 2);
    WRun run;
    int64_t idx = -1, block = resumeBlock, from = resumeFrom;
    const int64_t B = cfg.blockSize;
    if (block < 0) { block = sh->nextBlock.fetch_add(1); from = block * B; }
    slot.block = block;
    std::vector<std::string> samples;
    hist.clear();
    hist.push_back({from, from});
    uint64_t lastSteps = 0;
    const bool slowest = getenv("VERIF_SLOW"); int64_t slow = 0; std::string slowCase;
    try {
        cfg.enumerate(thorough, [&](std::string const& c) {
            ++idx;
            if (idx < from) return;
            while (idx >= (block + 1) * B) {
                block = sh->nextBlock.fetch_add(1);
                from = block * B;
                slot.block = block;
                hist.push_back({from, from});
                if (hist.size() > 1 && hist[hist.size() - 2].second == from) { hist.pop_back(); }
            }
            if (idx < from) return;
            if (sh->stop) throw StopEnum{};
            slot.since = nowMs();
            slot.cpu = cpuMs(getpid());
            slot.cur = idx;
            auto msg = runOne(cfg, c, run);
            slot.cur = -1;
            if (slowest) if (auto t = cpuMs(getpid()) - slot.cpu; t > slow) { slow = t; slowCase = c; }
            hist.back().second = idx + 1;
            slot.cases.fetch_add(1);
            slot.steps.fetch_add(run.steps - lastSteps);
            lastSteps = run.steps;
            if (samples.size() < 2 || (samples.size() < 4 && idx % 997 == 0)) samples.push_back(cfg.show ? cfg.show(c) : quote(c));
            if (!msg.empty()) {
                bool isKnown = known.count(c) > 0;
                std::string h;
                for (auto& p : hist) h += std::to_string(p.first) + "-" + std::to_string(p.second) + ",";
                writeAll(vfd, (isKnown ? "K " : "V ") + std::to_string(idx) + " " + (h.size() > 40000 ? "-" : h) + " " + hex(c) + "x " + hex(msg) + "\n");
                if (!isKnown && ++sh->nviol >= 25) sh->stop = 1;
            }
        });
    } catch (StopEnum const&) {
    }
    if (slowest) printf("slowest: %lld ms %s\n", (long long)slow, quote(slowCase).substr(0, 100).c_str()), fflush(stdout);
    {
        std::ofstream f(base + ".states", std::ios::binary);
        for (auto s : run.states) f.write((char const*)&s, 8);
    }
    {
        std::ofstream f(base + ".info");
        f << "total " << (idx + 1) << "\n";
        for (auto& [o, n] : run.outcomes) f << "o " << hex(o) << "x " << n << "\n";
        for (auto& s : samples) f << "s " << hex(s) << "x\n";
    }
    _exit(0);
}

// Runs `f` in a child with a time limit. Returns 0 ok, 1 failed (msg set), 2 crashed, 3 hang
int inChild(std::function<std::string()> const& f, int timeout, std::string& msg)
{
    int p[2];
    if (pipe(p)) exit(2);
    std::string errPath = dir + "/replay.err";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int efd = open(errPath.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0644);
        dup2(efd, 2);
        auto m = f();
        writeAll(p[1], m);
        _exit(m.empty() ? 0 : 1);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    auto t0 = nowMs();
    int st = 0;
    msg.clear();
    char buf[65536];
    for (;;) {
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0) msg.append(buf, n);
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (cpuMs(pid) > timeout * 1000ll || nowMs() - t0 > wallLimit(timeout, 4)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); close(p[0]); msg = "does not terminate"; return 3; }
        usleep(5000);
    }
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) msg.append(buf, n);
    close(p[0]);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !msg.empty()) return 1;
    std::ifstream ef(errPath);
    std::string err((std::istreambuf_iterator<char>(ef)), {});
    auto at = err.find("ERROR: ");
    if (at == std::string::npos) at = err.find("runtime error: ");
    if (at == std::string::npos) at = err.find("Assertion");
    auto line = at == std::string::npos ? std::string() : err.substr(at, err.find('\n', at) - at);
    msg = WIFSIGNALED(st) ? std::string("crash: ") + strsignal(WTERMSIG(st)) : "crash: abnormal exit " + std::to_string(WEXITSTATUS(st));
    if (!line.empty()) msg += " [" + line + "]";
    return 2;
}

std::string replayHist(Config const& cfg, bool thorough, std::vector<std::pair<int64_t, int64_t>> const& hist, int64_t upto)
{
    limits(cfg);
    WRun run;
    int64_t idx = -1;
    size_t h = 0;
    std::string res;
    struct Done {};
    try {
        cfg.enumerate(thorough, [&](std::string const& c) {
            ++idx;
            while (h < hist.size() && idx >= hist[h].second && idx != upto) ++h;
            bool in = idx == upto || (h < hist.size() && idx >= hist[h].first && idx < hist[h].second);
            if (in) {
                auto m = runOne(cfg, c, run);
                if (idx == upto) { res = m; throw Done{}; }
            }
            if (idx >= upto) throw Done{};
        });
    } catch (Done const&) {
    }
    return res;
}

}  // namespace

int main(int argc, char** argv, Config cfg)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string out = "", replay, outDir = ".", knownFile;
    bool thorough = false;
    int jobs = 8, budget = 480;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = next();
        else if (a == "--dir") outDir = next();
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--replay") replay = next();
        else if (a == "--jobs") jobs = std::stoi(next());
        else if (a == "--budget") budget = std::stoi(next());
        else if (a == "--known") knownFile = next();
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    jobs = std::min(jobs, MaxWorkers);
    char tmpl[] = "/tmp/mc.XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    dir = tmpl;
    auto cleanup = [&] { (void)!system(("rm -rf '" + dir + "'").c_str()); };

    if (list) {
        int64_t n = 0;
        cfg.enumerate(thorough, [&](std::string const& c) { ++n; printf("%s\n", (cfg.show ? cfg.show(c) : quote(c)).c_str()); });
        fprintf(stderr, "%lld cases\n", (long long)n);
        cleanup();
        return 0;
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, cas, hist, th; int64_t idx = -1; bool hasCase = false;
        while (std::getline(f, line)) {
            if (line.rfind("case ", 0) == 0) { cas = unhex(line.substr(5)); hasCase = true; }
            if (line.rfind("hist ", 0) == 0) hist = line.substr(5);
            if (line.rfind("tier ", 0) == 0) thorough = line.substr(5) == "thorough";
            if (line.rfind("idx ", 0) == 0) idx = std::stoll(line.substr(4));
        }
        if (!hasCase) { fprintf(stderr, "no case in replay file\n"); cleanup(); return 2; }
        std::string msg;
        int r;
        if (hist.empty())
            r = inChild([&] { limits(cfg); WRun w; return runOne(cfg, cas, w); }, cfg.caseTimeout * 4, msg);
        else {
            std::vector<std::pair<int64_t, int64_t>> hv; std::stringstream ss(hist); std::string t;
            while (std::getline(ss, t, ',')) if (auto d = t.find('-'); d != std::string::npos) hv.push_back({std::stoll(t.substr(0, d)), std::stoll(t.substr(d + 1))});
            r = inChild([&] { return replayHist(cfg, thorough, hv, idx); }, 300, msg);
        }
        printf("%s: %s\n", r ? "reproduced" : "not reproduced", msg.c_str());
        cleanup();
        return r ? 1 : 0;
    }

    std::set<std::string> known;
    if (!knownFile.empty()) { std::ifstream f(knownFile); std::string l; while (std::getline(f, l)) known.insert(unhex(l)); }

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    for (auto& s : sh->slots) { s.cur = -1; s.block = -1; }

    auto t0 = nowMs();
    std::vector<pid_t> pids(jobs);
    std::vector<int> gens(jobs, 0);
    auto spawn = [&](int k, int64_t rb, int64_t rf) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) worker(cfg, thorough, k, gens[k], {}, rb, rf, known);
        pids[k] = p;
    };
    for (int k = 0; k < jobs; ++k) spawn(k, -1, 0);

    struct Crash { int64_t idx; bool hang; };
    std::vector<Crash> crashes;
    int alive = jobs;
    bool capped = false, slowOk = false;
    while (alive > 0) {
        usleep(20000);
        auto now = nowMs();
        if (now - t0 > budget * 1000ll && !sh->stop) { capped = true; sh->stop = 1; }
        for (int k = 0; k < jobs; ++k) {
            if (pids[k] <= 0) continue;
            auto& slot = sh->slots[k];
            int st;
            bool hang = false;
            pid_t r = waitpid(pids[k], &st, WNOHANG);
            if (r == 0) {
                auto cur = slot.cur.load();
                if (cur >= 0 && now - slot.since > cfg.caseTimeout * 1000ll && (cpuMs(pids[k]) - slot.cpu > cfg.caseTimeout * 1000ll || now - slot.since > wallLimit(cfg.caseTimeout, 4))) {
                    kill(pids[k], SIGKILL);
                    waitpid(pids[k], &st, 0);
                    hang = true;
                } else
                    continue;
            }
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pids[k] = 0; --alive; continue; }
            auto cur = slot.cur.load();
            if (cur < 0) {
                fprintf(stderr, "explorer: worker died outside a case (status %x)\n", st);
                cleanup();
                return 2;
            }
            crashes.push_back({cur, hang});
            slot.cur = -1;
            slot.cases.fetch_add(1);
            ++gens[k];
            if (crashes.size() >= 8) sh->stop = 1;
            spawn(k, slot.block, cur + 1);
        }
    }

    // collect
    std::vector<Violation> viol;
    std::vector<Violation> knownSeen;
    {
        std::ifstream f(dir + "/viol");
        std::string line;
        while (std::getline(f, line)) {
            std::stringstream ss(line);
            std::string tag, h, c, m; int64_t i;
            ss >> tag >> i >> h >> c >> m;
            Violation v{i, unhex(std::string_view(c).substr(0, c.size() - 1)), unhex(m)};
            std::stringstream hs(h); std::string t;
            while (std::getline(hs, t, ',')) if (auto d = t.find('-'); d != std::string::npos && d > 0) v.hist.push_back({std::stoll(t.substr(0, d)), std::stoll(t.substr(d + 1))});
            (tag == "K" ? knownSeen : viol).push_back(v);
        }
    }
    const auto tc = nowMs();
    auto late = [&] { return nowMs() - tc > 90 * 1000ll; };   // enough spent on confirming
    bool someConfirmed = false;
    for (auto& c : crashes) {
        if (someConfirmed && late()) break;
        struct Done {};
        std::string cas; int64_t idx = -1;
        try { cfg.enumerate(thorough, [&](std::string const& s) { if (++idx == c.idx) { cas = s; throw Done{}; } }); } catch (Done const&) {}
        std::string m;
        int r = inChild([&] { limits(cfg); WRun w; return runOne(cfg, cas, w); }, cfg.caseTimeout * 2, m);
        if (r == 0 && c.hang) { slowOk = true; continue; }   // slow, but fine when run alone
        if (r) someConfirmed = true;
        Violation v{c.idx, cas, r ? m : "crash that needs preceding cases", {}, true};
        if (r == 0) { auto b = c.idx / cfg.blockSize * cfg.blockSize; v.hist.push_back({b, c.idx}); }
        if (known.count(cas)) knownSeen.push_back(v); else viol.push_back(v);
    }
    std::sort(viol.begin(), viol.end(), [](auto& a, auto& b) { return a.idx < b.idx; });

    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes;
    std::vector<std::string> samples;
    int64_t total = -1;
    for (int k = 0; k < jobs; ++k)
        for (int g = 0; g <= gens[k]; ++g) {
            std::string base = dir + "/w" + std::to_string(k) + "." + std::to_string(g);
            std::ifstream f(base + ".states", std::ios::binary);
            uint64_t s;
            while (f.read((char*)&s, 8)) states.insert(s);
            std::ifstream i(base + ".info");
            std::string line;
            while (std::getline(i, line)) {
                std::stringstream ss(line); std::string t, a; ss >> t >> a;
                if (t == "total" && !sh->stop) total = std::max<int64_t>(total, std::stoll(a));
                if (t == "o") { uint64_t n; ss >> n; outcomes[unhex(std::string_view(a).substr(0, a.size() - 1))] += n; }
                if (t == "s" && samples.size() < 12) samples.push_back(unhex(std::string_view(a).substr(0, a.size() - 1)));
            }
        }
    uint64_t cases = 0, steps = 0;
    for (int k = 0; k < jobs; ++k) { cases += sh->slots[k].cases; steps += sh->slots[k].steps; }

    // replay before report
    int reported = 0, unrepro = 0;
    std::string firstMsg, firstFile;
    (void)!system(("mkdir -p '" + outDir + "'").c_str());
    for (auto& v : viol) {
        if (reported && late()) break;
        std::string m1, m2;
        std::string histStr;
        int tmo = cfg.caseTimeout * 2;
        int r = inChild([&] { limits(cfg); WRun w; return runOne(cfg, v.cas, w); }, tmo, m1);
        if (r != 0 && r != 3) {
            int r2 = inChild([&] { limits(cfg); WRun w; return runOne(cfg, v.cas, w); }, tmo, m2);
            if (r2 == 0) r = 0;
        }
        if (r == 0 && !v.hist.empty()) {
            r = inChild([&] { return replayHist(cfg, thorough, v.hist, v.idx); }, 300, m1);
            if (r != 0) for (auto& p : v.hist) histStr += std::to_string(p.first) + "-" + std::to_string(p.second) + ",";
        }
        if (r == 0) { ++unrepro; fprintf(stderr, "not reproduced on replay: %s: %s\n", quote(v.cas).c_str(), v.msg.c_str()); continue; }
        std::string path = outDir + "/" + cfg.property + "-" + std::to_string(reported) + ".replay";
        std::ofstream f(path);
        f << "property " << cfg.property << "\n" << "tier " << (thorough ? "thorough" : "quick") << "\n"
          << "idx " << v.idx << "\n" << "case " << hex(v.cas) << "\n";
        if (!histStr.empty()) f << "hist " << histStr << "\n";
        f << "# " << (cfg.show ? cfg.show(v.cas) : quote(v.cas)) << "\n# " << quote(m1) << "\n";
        printf("VIOLATION property=%s replay=%s\n", cfg.property.c_str(), path.c_str());
        printf("  case: %s\n  what: %s\n", (cfg.show ? cfg.show(v.cas) : quote(v.cas)).c_str(), quote(m1).c_str());
        if (++reported >= 5) break;
    }

    bool exhaustive = !capped && !sh->stop && crashes.empty() && total >= 0;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"cases\":" << cases << ",\"total\":" << total << ",\"states\":" << states.size() << ",\"transitions\":" << steps
          << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"capped\":" << (capped ? "true" : "false")
          << ",\"violations\":" << reported << ",\"known\":[";
        for (size_t i = 0; i < knownSeen.size(); ++i) f << (i ? "," : "") << jsonStr(hex(knownSeen[i].cas));
        f << "],\"bounds\":" << jsonStr(cfg.bounds) << ",\"outcomes\":{";
        bool first = true;
        int n = 0;
        for (auto& [o, c] : outcomes) { if (++n > 60) break; f << (first ? "" : ",") << jsonStr(o) << ":" << c; first = false; }
        f << "},\"distinct_outcomes\":" << outcomes.size() << ",\"samples\":[";
        first = true;
        for (auto& s : samples) { f << (first ? "" : ",") << jsonStr(s.substr(0, 400)); first = false; }
        f << "]}\n";
    }
    printf("%s: cases=%llu states=%zu transitions=%llu outcomes=%zu exhaustive=%d%s wall=%.1fs\n", cfg.property.c_str(),
           (unsigned long long)cases, states.size(), (unsigned long long)steps, outcomes.size(), (int)exhaustive,
           capped ? " (capped)" : "", (nowMs() - t0) / 1000.0);
    cleanup();
    if (reported) return 1;
    if (unrepro) { fprintf(stderr, "%d failures did not reproduce on replay\n", unrepro); return 2; }
    if ((int)outcomes.size() < cfg.minOutcomes) { fprintf(stderr, "vacuous exploration: %zu outcome classes\n", outcomes.size()); return 2; }
    (void)slowOk;
    return 0;
}

}  // namespace mc
