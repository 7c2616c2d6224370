// Bounded exhaustive explorer: enumerates a deterministic stream of cases, runs every one of them
// against the real code in forked workers, and turns a failed comparison, crash or hang into a
// violation that has been replayed in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace mc {

struct Fail { std::string msg; };

[[noreturn]] inline void fail(std::string msg) { throw Fail{std::move(msg)}; }

inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}

// Handed to the case runner: records what the exploration really covered.
struct Run {
    uint64_t steps = 0;     // operations executed on the real code and compared with the model
    virtual ~Run() = default;
    void step(uint64_t n = 1) { steps += n; }
    virtual void state(uint64_t h) = 0;                  // a (canonical) state/observation reached
    void state(std::string_view s) { state(hash(s)); }
    virtual void outcome(std::string_view label) = 0;    // coarse outcome class, for non-vacuity
};

using Emit = std::function<void(std::string const&)>;

struct Config {
    std::string property;
    std::string bounds;                                         // human readable alphabet and bounds
    std::function<void(bool thorough, Emit const&)> enumerate;  // deterministic, simplest first
    std::function<void(std::string const& c, Run&)> run;        // throws Fail on a violation
    int caseTimeout = 10;                                       // seconds
    std::function<std::string(std::string const&)> show;        // render a case for humans
    size_t memLimitMb = 3000;                                   // 0: none
    int blockSize = 64;
    int minOutcomes = 2;                                        // non-vacuity: fewer is an error
};

int main(int argc, char** argv, Config cfg);

std::string quote(std::string_view s);   // printable form

}  // namespace mc
