// Property-based testing engine: recorded choice sequences, forked workers,
// shrinking, replay, evidence.  See DESIGN.md "Engine".
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace pbt {

// Every random decision of a case is a draw from a Source.  A recorded sequence
// of draws reproduces the case; smaller draws mean simpler cases.
struct Source {
    std::vector<uint64_t> rec;
    const std::vector<uint64_t> *replay = nullptr;
    size_t pos = 0;
    uint64_t st[2] = {1, 2};
    void seed(uint64_t s);
    uint64_t next();
    uint64_t draw(uint64_t bound);  // uniform in [0, bound); bound 0: 64 bits
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }  // 0 => false
};

struct Failure {
    std::string msg;
};

struct Case {
    std::string desc;                   // human readable: what was generated
    std::vector<std::string> labels;    // classification counters
    bool nontrivial = false;
    uint64_t hash = 0;                  // identity of the case (0: from desc)
    std::vector<std::pair<std::string, std::string>> known;  // known findings hit
    [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
    void label(const std::string &l) { labels.push_back(l); }
};

struct Property {
    std::string id;
    std::string rule;  // how cases are made, what is non-trivial
    void (*run)(Source &, Case &);
    uint64_t quick_cases, thorough_cases;
    std::vector<std::string> assumptions;
    // a worker runs its cases in fresh processes of so many cases each, in turn
    std::vector<uint64_t> segments = {24, 200, 1500};
};

bool known_listed(const std::string &finding);  // is it in known_findings.jsonl?
bool thorough();
uint64_t seed();
uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull);

int run_main(int argc, char **argv, const Property &p);
}  // namespace pbt
