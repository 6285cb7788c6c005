// Minimal property-based testing engine: recorded choice sequences, forked workers,
// coverage-guided reuse of choice sequences, shrinking, replay, statistics.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

// Source of choices.  Every generated value is a recorded choice; value 0 is always the simplest.
class Gen {
public:
    // uniform in [0,n), n >= 1
    uint64_t uni(uint64_t n);
    // biased towards small values, boundaries and constants found in the code under test, in [0,n)
    // (lo is the offset the caller will add, so that code constants map to absolute values)
    uint64_t below(uint64_t n, int64_t lo = 0);
    // biased value in [lo,hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1, lo); }
    int64_t urange(int64_t lo, int64_t hi) { return lo + (int64_t)uni((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den);
    template <class T> const T &pick(const std::vector<T> &v) { return v[uni(v.size())]; }
    template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + uni(l.size())); }
    // weighted index
    unsigned weighted(std::initializer_list<unsigned> w);
    uint8_t byte() { return (uint8_t)below(256); }
    // explicit bytes, one choice per byte
    std::string bytes(size_t n);
    // n pseudo-random bytes from one seed choice (never shrinks byte-wise)
    std::string blob(size_t n);
    uint64_t seed64() { return uni(UINT64_C(1) << 48); }
    std::string str(size_t n, const char *alphabet);
    size_t used() const { return pos; }

    // engine side
    enum Mode { RANDOM, REPLAY } mode = RANDOM;
    std::vector<uint64_t> base;          // replayed prefix
    bool pad_random = true;              // after the prefix: random (true) or zero (false)
    uint64_t s[4];
    uint64_t *rec = nullptr; uint32_t *nrec = nullptr; uint32_t maxrec = 0;
    size_t pos = 0;
    void reseed(uint64_t seed);
    uint64_t next();
private:
    uint64_t emit(uint64_t v);
    bool fromBase(uint64_t n, uint64_t *v);
};

class Ctx {
public:
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // record a failure without unwinding (for callbacks entered from C code)
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    bool failed() const { return !first.empty(); }
    void check() { if (failed()) throw Fail{first}; }
    void label(const char *l) { labels[l]++; }
    void nontrivial() { nt = true; }
    bool want = false;                   // a description of this case is wanted
    void describe(const std::string &s) { if (want && desc.size() < 3000) desc += s; }
    void descf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    std::string first;
    std::map<std::string, uint64_t> labels;
    bool nt = false;
    std::string desc;
};

struct Prop {
    const char *id;
    const char *name;                    // sub-check name (several Props may share an id)
    const char *rule;                    // when is a case non-trivial
    std::function<void(Gen &, Ctx &)> run;
    unsigned weight;
};
void add(const Prop &p);
#define PROPERTY(ID, NAME, RULE, W, FN) \
    static struct Reg_##FN { Reg_##FN() { pbt::add({ID, NAME, RULE, FN, W}); } } reg_##FN

std::string hex(const void *p, size_t n, size_t max = 64);
std::string hex(const std::string &s, size_t max = 64);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string cesc(const std::string &s, size_t max = 200);

// optional hook run once in each worker before the first case
extern void (*worker_init)();
extern const char *scratch_dir;          // directory owned by this run
extern unsigned worker_index;
int main(int argc, char **argv);
}
