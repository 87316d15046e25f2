// Small property-based testing engine: every random decision of a case is one entry of a
// choice sequence, so that any failing case can be shrunk and replayed as a list of integers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Failure { std::string key, msg; };

class Source {
public:
    // random mode
    static Source random(uint64_t seed) { Source s; s._mode = 0; s._state = seed; return s; }
    // replay mode: values beyond the end are 0 (the simplest choice)
    static Source replay(const std::vector<uint64_t>& v) { Source s; s._mode = 1; s._seq = v; return s; }
    // bytes mode (libFuzzer)
    static Source bytes(const uint8_t* d, size_t n) { Source s; s._mode = 2; s._d = d; s._n = n; return s; }

    // value in [0,n); n==0 means the whole 64-bit range
    uint64_t choice(uint64_t n);
    // integer in [lo,hi]; lo is the simplest
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choice((uint64_t)(hi - lo) + 1); }
    int irange(int lo, int hi) { return (int)range(lo, hi); }
    // true with probability num/den; false is the simplest
    bool chance(int num, int den) { return choice(den) >= (uint64_t)(den - num); }
    bool boolean() { return choice(2) == 1; }
    // index with the given weights; index 0 is the simplest
    int weighted(std::initializer_list<int> w);
    // small numbers are more likely than large ones
    int sized(int lo, int hi);
    double unit() { return (double)choice(1ull << 32) / 4294967296.0; }        // [0,1)
    double unit_closed() { return (double)choice((1ull << 32) + 1) / 4294967296.0; } // [0,1]
    // real in [lo,hi]; often an integer or a simple fraction
    double real(double lo, double hi);
    // plain uniform real
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit_closed(); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + choice(l.size())); }
    template <class T> const T& pick(const std::vector<T>& l) { return l[choice(l.size())]; }

    // a stored or shrunk case is run again: what depends on timing may be tried more often
    bool replaying() const { return _mode == 1; }
    const std::vector<uint64_t>& record() const { return _rec; }
    bool exhausted() const { return _mode == 2 && _pos >= _n; }
private:
    Source() {}
    int _mode = 0;
    uint64_t _state = 0;
    std::vector<uint64_t> _seq;
    const uint8_t* _d = nullptr;
    size_t _n = 0, _pos = 0;
    std::vector<uint64_t> _rec;
};

class Ctx {
public:
    bool verbose = false;
    bool nontrivial = false;
    std::string scratch;                 // private scratch directory (with trailing /)
    std::vector<std::string> notes;
    std::map<std::string, uint64_t>* labels = nullptr;
    FILE* live = nullptr;                // notes are also written here at once, so that they survive a crash
    void note(const std::string& s);
    void label(const std::string& s) { if (labels) (*labels)[s]++; }
    void trivial_unless(bool b) { if (b) nontrivial = true; }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
};

typedef void (*PropFn)(Source&, Ctx&);
struct Prop {
    const char* name; PropFn fn;
    int quick;       // number of cases, quick tier
    int thorough;    // number of cases, thorough tier
    int block;       // cases per child process
    const char* rule; // what makes a case non-trivial
    bool fuzz;       // also run coverage-guided (thorough tier)
};
std::vector<Prop>& registry();
struct Reg { Reg(Prop p) { registry().push_back(p); } };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
size_t live_bytes(); // bytes currently allocated on the heap (0 if unknown)
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

void slow_case(int seconds); // allow the running case more CPU time than the usual limit
} // namespace pbt

#define PROP(NAME, QUICK, THOROUGH, BLOCK, RULE) \
    static void prop_##NAME(pbt::Source& s, pbt::Ctx& c); \
    static pbt::Reg reg_##NAME(pbt::Prop{#NAME, prop_##NAME, QUICK, THOROUGH, BLOCK, RULE, true}); \
    static void prop_##NAME([[maybe_unused]] pbt::Source& s, [[maybe_unused]] pbt::Ctx& c)

// same, never run in process under libFuzzer (touches the file system, limits, ...)
#define PROP_NOFUZZ(NAME, QUICK, THOROUGH, BLOCK, RULE) \
    static void prop_##NAME(pbt::Source& s, pbt::Ctx& c); \
    static pbt::Reg reg_##NAME(pbt::Prop{#NAME, prop_##NAME, QUICK, THOROUGH, BLOCK, RULE, false}); \
    static void prop_##NAME([[maybe_unused]] pbt::Source& s, [[maybe_unused]] pbt::Ctx& c)

#define CHECK(COND, KEY, ...) do { if (!(COND)) c.fail(KEY, std::string(#COND " is false: ") + pbt::fmt(__VA_ARGS__)); } while (0)
#define NOTE(...) do { if (c.verbose) c.note(pbt::fmt(__VA_ARGS__)); } while (0)
#define LABEL(...) c.label(pbt::fmt(__VA_ARGS__))
