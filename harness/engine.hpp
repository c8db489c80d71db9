// Small property-based testing engine: choice tapes, forked workers, shrinking.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

[[noreturn]] inline void fail(std::string const & msg) { throw Failure{msg}; }

#define PBT_CHECK(cond, ...)                                                   \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream pbt_os_;                                        \
            pbt_os_ << __VA_ARGS__;                                            \
            ::pbt::fail(pbt_os_.str());                                        \
        }                                                                      \
    } while (0)

inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Deterministic expansion of a single choice into bulk data. Choice 0 expands
// to zeros, so that bulk data shrinks like everything else.
struct Bulk
{
    uint64_t seed, ctr = 0;
    explicit Bulk(uint64_t s) : seed(s) {}
    uint64_t next() { return seed == 0 ? 0 : mix64(seed + 0x632be59bd9b4e019ull * ++ctr); }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int range(int lo, int hi) { return int(int64_t(lo) + int64_t(below(uint64_t(int64_t(hi) - lo + 1)))); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // num==0 -> false
};

// Choice tape. All random decisions of a case come from here.
struct Tape
{
    // random source
    uint64_t state = 0;
    // replayed choices, null when random
    std::vector<uint64_t> const * src = nullptr;
    std::size_t pos = 0;
    std::vector<uint64_t> rec;
    uint64_t volatile * shm = nullptr; // [0] = count, then choices
    std::size_t shm_cap = 0;

    uint64_t raw()
    {
        state += 0x9e3779b97f4a7c15ull;
        return mix64(state);
    }

    // uniform in [0, bound]
    uint64_t draw(uint64_t bound)
    {
        uint64_t v;
        if (src)
        {
            v = pos < src->size() ? (*src)[pos] : 0;
            ++pos;
        }
        else
        {
            v = raw();
        }
        if (bound != UINT64_MAX)
        {
            v = src ? (v > bound ? v % (bound + 1) : v) : v % (bound + 1);
        }
        rec.push_back(v);
        if (shm && rec.size() < shm_cap)
        {
            shm[rec.size()] = v;
            shm[0] = rec.size();
        }
        return v;
    }

    int range(int lo, int hi) { return int(int64_t(lo) + int64_t(draw(uint64_t(int64_t(hi) - lo)))); }
    std::size_t index(std::size_t n) { return draw(n - 1); }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // shrinks to false
    bool coin() { return draw(1) != 0; }
    Bulk bulk() { return Bulk(draw(0xffffffffull)); }
    uint64_t bits() { return draw(UINT64_MAX); }

    template<typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + index(l.size())); }
    template<typename T>
    T const & pick(std::vector<T> const & l) { return l[index(l.size())]; }

    // index according to weights; index 0 is the simplest
    int weighted(std::initializer_list<unsigned> w)
    {
        unsigned tot = 0;
        for (auto x : w) tot += x;
        auto v = draw(tot - 1);
        int i = 0;
        for (auto x : w)
        {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
};

struct Ctx
{
    bool nontrivial = false;
    uint64_t key = 0;            // identity of the case, 0: hash of its tape
    std::ostringstream desc;     // human readable sample
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> sums;
    uint64_t sub_evaluations = 0; // additional evaluations of the oracle

    void label(std::string const & l) { ++labels[l]; }
    void add(std::string const & l, double v) { sums[l] += v; }
};

struct Property
{
    char const * id;
    void (*run)(Tape &, Ctx &);
    uint64_t quick_cases;
    uint64_t thorough_cases;
    int workers;              // concurrent worker processes
    double case_timeout_s;    // far above anything a case takes
    char const * rule;
    std::vector<std::string> assumptions;
};

Property const & property(); // defined by each cNN.cpp

int main_impl(int argc, char ** argv);

} // namespace pbt
