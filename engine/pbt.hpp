// A small property-based testing engine: tape-recorded choices, one forked
// child per case, tape shrinking, deterministic replay.
//
// A case is a pure function of its tape (the list of drawn numbers); the tape
// is a pure function of (VERIF_SEED, suite name, case index).
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

constexpr size_t MAX_TAPE = 1 << 16;
constexpr size_t MAX_LABELS = 192;
constexpr size_t TRACE_CAP = 96 * 1024;

struct Label {
    char name[56];
    uint64_t count;
};

// Shared between a worker and the child that runs the case.
struct Shared {
    uint32_t ntape;
    uint32_t failed;
    uint32_t nontrivial;
    uint32_t discarded;
    uint64_t ops;
    char sig[256];
    char msg[4096];
    uint32_t tracelen;
    char trace[TRACE_CAP];
    uint32_t nlabels;
    Label labels[MAX_LABELS];
    uint64_t tape[MAX_TAPE];
};

struct Ctx {
    Shared *sh;
    bool replaying;
    const std::vector<uint64_t> *in; // tape to replay
    uint64_t rng;
    uint64_t index;   // case index (0 when replaying)
    bool thorough;
    bool ignore_known; // replaying a known finding: do not steer around it
    const char *scratch; // private scratch directory of this case's worker

    uint64_t next();
    uint64_t range(uint64_t lo, uint64_t hi); // inclusive
    bool chance(unsigned num, unsigned den);  // shrinks to false
    size_t index_of(size_t n) { return (size_t)range(0, n - 1); }
    template <class T> const T &pick(const std::vector<T> &v) {
        return v[index_of(v.size())];
    }
    template <class T> T oneof(std::initializer_list<T> v) {
        return *(v.begin() + index_of(v.size()));
    }
    // weighted choice: returns index into weights
    size_t weighted(const std::vector<unsigned> &w);
    // sizes: mixes small values, powers of two +-1, log-uniform values
    uint64_t size(uint64_t max);
    uint64_t pow2(unsigned loLog, unsigned hiLog) {
        return 1ull << range(loLog, hiLog);
    }

    void label(const char *name, uint64_t n = 1);
    void nontrivial() { sh->nontrivial = 1; }
    void op() { sh->ops++; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *sig, const char *fmt, ...)
        __attribute__((format(printf, 3, 4)));
    // the case cannot be judged (environment, precondition): not counted
    [[noreturn]] void discard(const char *why);
    // is this known finding listed (and so to be steered around)?
    bool known(const char *id);
};

// The current case (for helpers that have no Ctx at hand)
extern Ctx *cur;

struct Suite {
    const char *name;
    void (*fn)(Ctx &);
    unsigned quick;    // number of cases on the quick tier
    unsigned thorough; // number of cases on the thorough tier
    unsigned timeout_s = 60;
    bool concurrent = false; // outcome may depend on the schedule
    unsigned weight = 1;     // unused, for documentation
};

int run_main(int argc, char **argv, const char *property, const char *rule,
             const std::vector<Suite> &suites);

} // namespace pbt

#define PCHECK(c, cond, sig, ...)                                              \
    do {                                                                       \
        if (!(cond))                                                           \
            (c).fail(sig, __VA_ARGS__);                                        \
    } while (0)
