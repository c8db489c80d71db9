// C16: random generators are reproducible, copyable, within range and even.
#include "engine.hpp"

#include "mt.hpp"

#include <climits>
#include <cmath>
#include <cstring>
#include <memory>

using pbt::Bulk;
using pbt::Ctx;
using pbt::Tape;

namespace {

template<typename G> struct name_of;
template<unsigned A, unsigned N> struct name_of<basic_IRNG<A, N>>
{ static std::string str() { return "IRNG<" + std::to_string(A) + "," + std::to_string(N) + ">"; } };
template<unsigned A, unsigned N> struct name_of<basic_FRNG<A, N>>
{ static std::string str() { return "FRNG<" + std::to_string(A) + "," + std::to_string(N) + ">"; } };

template<typename F>
void for_type(int k, F && f)
{
    switch (k)
    {
        case 0: f(static_cast<IRNG *>(nullptr)); break;
        case 1: f(static_cast<FRNG *>(nullptr)); break;
        case 2: f(static_cast<basic_IRNG<64, 1> *>(nullptr)); break;
        case 3: f(static_cast<basic_FRNG<32, 4> *>(nullptr)); break;
        case 4: f(static_cast<basic_IRNG<32, 16> *>(nullptr)); break;
        default: f(static_cast<basic_FRNG<16, 1> *>(nullptr)); break;
    }
}

int gen_seed(Tape & t)
{
    switch (t.weighted({3, 2, 1}))
    {
        case 0: return int(unsigned(t.draw(UINT32_MAX)));
        case 1: return t.range(-3, 100);
        default: return t.pick({INT_MAX, INT_MIN, 0, 1, -1});
    }
}

template<typename V>
std::string vstr(V v) { std::ostringstream os; os.precision(10); os << v; return os.str(); }

// What a generator of given seed draws, by a generator used for nothing else.
template<typename G>
struct Stream
{
    std::unique_ptr<G> g;
    std::vector<typename G::result_type> v;
    explicit Stream(int seed) : g(new G(seed)) {}
    typename G::result_type at(std::size_t i)
    {
        while (v.size() <= i) v.push_back((*g)());
        return v[i];
    }
};

// Histories over a few generators against the model (seed, number of draws so far).
template<typename G>
void history(Tape & t, Ctx & ctx)
{
    constexpr unsigned period = G::MTSZ * G::NS; // numbers made per refill
    struct Slot { std::unique_ptr<G> g; int seed; std::size_t count; };
    std::map<int, std::unique_ptr<Stream<G>>> streams;
    auto stream = [&](int seed) -> Stream<G> &
    {
        auto & s = streams[seed];
        if (!s) s.reset(new Stream<G>(seed));
        return *s;
    };
    std::vector<Slot> slots;
    int const seeds[2] = {gen_seed(t), gen_seed(t)};
    auto pick_seed = [&]{ return seeds[t.range(0, 1)]; };
    int const s0 = pick_seed();
    slots.push_back({std::unique_ptr<G>(new G(s0)), s0, 0});
    int const ops = t.range(2, 16);
    ctx.desc << name_of<G>::str() << " seeds " << seeds[0] << "," << seeds[1] << ":";
    std::size_t draws = 0;
    bool refilled = false, copied = false;

    auto compare_all = [&](std::string const & when)
    {
        for (auto & a : slots) for (auto & b : slots)
        {
            bool const same = a.seed == b.seed && a.count == b.count;
            if (same) PBT_CHECK(*a.g == *b.g, when << ": generators of the same seed after the same draws (" << a.count << ") are not equal");
            else PBT_CHECK(!(*a.g == *b.g), when << ": generators (seed " << a.seed << ", " << a.count << " draws) and (seed "
                << b.seed << ", " << b.count << " draws) are equal");
        }
    };

    for (int k = 0; k < ops; ++k)
    {
        int const op = t.weighted({8, 3, 2, 2, 2, 1});
        std::size_t const i = t.index(slots.size());
        auto & s = slots[i];
        std::ostringstream when;
        when << "step " << k << ", ";
        switch (op)
        {
            case 0:
            {
                std::size_t n = 1;
                switch (t.weighted({4, 2, 2, 1}))
                {
                    case 0: n = std::size_t(t.range(1, 20)); break;
                    case 1: n = period - s.count % period + std::size_t(t.range(0, 2)) - 1; break; // about the refill
                    case 2: n = std::size_t(t.range(1, int(period))); break;
                    default: n = std::size_t(t.range(1, 3)) * period; break;
                }
                when << "draw " << n << " of #" << i;
                bool const peek = t.coin();
                int const how = t.range(0, 3);
                for (std::size_t j = 0; j < n; ++j)
                {
                    auto const expect = stream(s.seed).at(s.count);
                    if (peek)
                    {
                        G const & cg = *s.g;
                        auto const p = cg.peek();
                        PBT_CHECK(p == expect, when.str() << ": peek before draw " << s.count << " gives " << vstr(p) << ", the draw gives " << vstr(expect));
                    }
                    auto const v = how == 0 ? (*s.g)() : how == 1 ? s.g->rand() : how == 2 ? s.g->next()
                        : (j % 3 == 0 ? (*s.g)() : j % 3 == 1 ? s.g->rand() : s.g->next());
                    PBT_CHECK(v == expect, when.str() << ": draw number " << s.count << " of seed " << s.seed << " is " << vstr(v) << ", was " << vstr(expect));
                    PBT_CHECK(v >= G::min() || v >= 0, "below min()");
                    PBT_CHECK(v <= G::max(), "above max()");
                    ++s.count;
                }
                refilled |= s.count > period;
                draws += n;
                break;
            }
            case 1:
            {
                int const seed = pick_seed();
                when << "init #" << i << " with " << seed;
                s.g->init(seed);
                s.seed = seed;
                s.count = 0;
                break;
            }
            case 2:
                when << "copy of #" << i;
                slots.push_back({std::unique_ptr<G>(new G(*s.g)), s.seed, s.count});
                copied = true;
                break;
            case 3:
            {
                std::size_t const j = t.index(slots.size());
                when << "#" << j << " = #" << i;
                G & r = (*slots[j].g = *s.g, *slots[j].g);
                PBT_CHECK(&r == slots[j].g.get(), "assignment");
                slots[j].seed = s.seed;
                slots[j].count = s.count;
                copied = true;
                break;
            }
            case 4:
            {
                int const seed = pick_seed();
                when << "new with seed " << seed;
                slots.push_back({std::unique_ptr<G>(new G(seed)), seed, 0});
                break;
            }
            default:
            {
                when << "move of #" << i;
                auto moved = std::unique_ptr<G>(new G(std::move(*s.g)));
                s.g = std::move(moved);
                copied = true;
                break;
            }
        }
        ctx.desc << " " << when.str() << ";";
        compare_all(when.str());
        ++ctx.sub_evaluations;
    }
    // all go on as the model says
    for (auto & s : slots)
        for (int j = 0; j < 30; ++j, ++s.count)
        {
            auto const v = (*s.g)();
            auto const expect = stream(s.seed).at(s.count);
            PBT_CHECK(v == expect, "at the end: draw number " << s.count << " of seed " << s.seed << " is " << vstr(v) << ", was " << vstr(expect));
        }
    ctx.nontrivial = draws > 0;
    ctx.label("history");
    if (refilled) ctx.label("history beyond a refill");
    if (copied) ctx.label("history with copies");
}

// Chi-square of counts against equal shares. The limit is beyond 1e-11 for any number of bins.
void check_even(std::vector<uint64_t> const & c, std::string const & what)
{
    double tot = 0;
    for (auto x : c) tot += double(x);
    double const e = tot / double(c.size());
    double chi2 = 0;
    for (auto x : c) chi2 += (double(x) - e) * (double(x) - e) / e;
    double const k = double(c.size() - 1);
    double const limit = k + 9 * std::sqrt(2 * k) + 50;
    std::ostringstream os;
    for (std::size_t i = 0; i < c.size() && i < 20; ++i) os << " " << c[i];
    PBT_CHECK(chi2 <= limit, what << ": chi-square " << chi2 << " over " << c.size() << " values, " << tot << " draws; counts" << os.str());
}

void bounded(Tape & t, Ctx & ctx)
{
    IRNG g(gen_seed(t));
    int const skip = t.pick({0, 1, 4990, 4991, 4992, 100});
    for (int i = 0; i < skip; ++i) (void)g();
    ctx.desc << "bounds:";
    int const rounds = t.range(1, 40);
    for (int k = 0; k < rounds; ++k)
    {
        if (t.coin())
        {
            unsigned const x = unsigned(t.weighted({1, 1}) == 0 ? t.pick<unsigned>({1, 2, 3, 1u << 31, (1u << 31) + 1, UINT_MAX, UINT_MAX - 1, 1u << 16})
                : 1 + t.draw(UINT_MAX - 1));
            for (int j = 0; j < 20; ++j)
            {
                auto const v = g.next(x);
                PBT_CHECK(v < x, "next(" << x << ") gives " << v);
            }
        }
        else
        {
            int a, b;
            switch (t.weighted({2, 2, 1}))
            {
                case 0: a = t.range(-100, 100); b = a + t.range(0, 100); break;
                case 1: a = int(unsigned(t.draw(UINT_MAX))); b = int(unsigned(t.draw(UINT_MAX))); break;
                default: a = t.pick({INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX - 1, INT_MAX}); b = t.pick({INT_MAX, INT_MAX - 1, 0, -1, 1, INT_MIN}); break;
            }
            if (a > b) std::swap(a, b);
            if (k < 6) ctx.desc << " [" << a << "," << b << "]";
            for (int j = 0; j < 20; ++j)
            {
                int const v = int(g.next(a, b));
                PBT_CHECK(v >= a && v <= b, "next(" << a << ", " << b << ") gives " << v);
            }
        }
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = rounds > 1;
    ctx.label("bounds");
}

// Every value of a bounded draw is reachable and about equally likely; also by position within a refill.
template<typename G>
void even(Tape & t, Ctx & ctx)
{
    constexpr bool integral = std::is_integral<typename G::result_type>::value;
    int const seed = gen_seed(t);
    G g(seed);
    int const skip = t.range(0, 6000);
    for (int i = 0; i < skip; ++i) (void)g();
    unsigned const n = 20000 + unsigned(t.range(0, 4)) * 20000;
    int const mode = integral ? t.range(0, 5) : t.range(3, 4);
    ctx.desc << name_of<G>::str() << " seed " << seed << " evenness mode " << mode << " over " << n << " draws";
    std::ostringstream what;
    what << name_of<G>::str() << " seed " << seed << ": ";
    if constexpr (integral)
    {
        if (mode == 0 || mode == 1)
        {
            unsigned const x = unsigned(t.range(2, 300));
            int const a = mode == 1 ? t.range(-400, 100) : 0;
            if (mode == 0) what << "next(" << x << ")";
            else what << "next(" << a << ", " << a + int(x) - 1 << ")";
            std::vector<uint64_t> c(x);
            for (unsigned i = 0; i < n; ++i)
            {
                int64_t const v = mode == 0 ? int64_t(g.next(x)) : int64_t(int(g.next(a, a + int(x) - 1))) - a;
                PBT_CHECK(v >= 0 && v < int64_t(x), what.str() << " out of bounds");
                ++c[std::size_t(v)];
            }
            check_even(c, what.str());
            ctx.label("evenness of bounded draws");
        }
        else if (mode == 2)
        {
            std::vector<uint64_t> ones(32);
            for (unsigned i = 0; i < n; ++i) { auto const v = g(); for (unsigned b = 0; b < 32; ++b) ones[b] += (v >> b) & 1; }
            for (unsigned b = 0; b < 32; ++b) check_even({ones[b], n - ones[b]}, what.str() + "bit " + std::to_string(b));
            ctx.label("evenness of bits");
        }
        else if (mode == 5)
        {
            // wide ranges: every part of them, and every bit of powers of two
            unsigned const shift = unsigned(t.range(9, 32));
            unsigned const x = t.coin() ? (shift == 32 ? UINT_MAX : 1u << shift) : unsigned((uint64_t{1} << (shift - 1)) + t.draw((uint64_t{1} << (shift - 1)) - 1));
            bool const pair = t.coin();
            int const a = !pair ? 0 : x > unsigned(INT_MAX) ? INT_MIN : t.pick({0, -5, -int(x / 2), INT_MIN, INT_MAX - int(x - 1)});
            if (pair) what << "next(" << a << ", " << int64_t(a) + x - 1 << ")";
            else what << "next(" << x << ")";
            unsigned const bins = 16;
            std::vector<uint64_t> c(bins), ones(32);
            for (unsigned i = 0; i < n; ++i)
            {
                int64_t const v = pair ? int64_t(int(g.next(a, int(int64_t(a) + x - 1)))) - a : int64_t(g.next(x));
                PBT_CHECK(v >= 0 && v < int64_t(x), what.str() << " out of bounds");
                ++c[std::size_t(uint64_t(v) * bins / x)];
                for (unsigned b = 0; b < 32; ++b) ones[b] += (uint64_t(v) >> b) & 1;
            }
            for (unsigned i = 0; i < bins; ++i)
            {
                // taking a remainder makes the first values up to twice as likely as the other ones
                double const share = double(c[i]) * bins / n;
                double const slack = 0.3 + double(x) / 4294967296.0;
                PBT_CHECK(share > 1 - slack && share < 1 + slack, what.str() << ": " << c[i] << " of " << n << " draws are in part " << i << " of " << bins);
            }
            if ((x & (x - 1)) == 0)
            {
                for (unsigned b = 0; (uint64_t{1} << b) < x; ++b) check_even({ones[b], n - ones[b]}, what.str() + " bit " + std::to_string(b));
            }
            ctx.label("evenness of draws from wide ranges");
        }
    }
    if (mode == 3 || mode == 4)
    {
        auto unit = [&](typename G::result_type v) { return integral ? (double(v) + 0.5) / 4294967296.0 : double(v); };
        if (mode == 3)
        {
            unsigned const bins = unsigned(t.range(2, 256));
            std::vector<uint64_t> c(bins);
            for (unsigned i = 0; i < n; ++i)
            {
                double const u = unit(g());
                PBT_CHECK(u > 0 && u <= 1, what.str() << "draw " << u << " is not in (0, 1]");
                ++c[std::min(bins - 1, unsigned(u * bins))];
            }
            check_even(c, what.str() + "bins");
            ctx.label("evenness of bins");
        }
        else
        {
            // per stream: draws at the same place modulo the number of streams
            unsigned const m = unsigned(t.pick({8, 2, 3, 16, 624}));
            unsigned const parts = 4;
            std::vector<std::vector<uint64_t>> c(m, std::vector<uint64_t>(parts));
            for (unsigned i = 0; i < 4 * n; ++i) ++c[i % m][std::min(parts - 1, unsigned(unit(g()) * parts))];
            for (unsigned i = 0; i < m; ++i) check_even(c[i], what.str() + "draws " + std::to_string(i) + " modulo " + std::to_string(m));
            ctx.label("evenness by position");
        }
    }
    ctx.nontrivial = true;
    ctx.add("draws tested for evenness", n);
}

// Conversion of integers to reals over the whole range of integers, where the generator lets it be seen.
template<typename G>
auto conversion(G & p, Tape & t, int) -> decltype(void(p.post_process(0u)))
{
    Bulk b = t.bulk();
    float last = 0;
    for (unsigned y : {0u, 1u, 2u, 255u, 1u << 23, (1u << 24) - 1, 1u << 24, (1u << 24) + 1, 1u << 31, UINT_MAX - 256, UINT_MAX - 128, UINT_MAX - 1, UINT_MAX})
    {
        float const v = p.post_process(y);
        PBT_CHECK(v > 0.f && v <= 1.f && v >= last, "integer " << y << " becomes " << v);
        last = v;
    }
    for (int i = 0; i < 1000; ++i)
    {
        unsigned const y = unsigned(b.next());
        float const v = p.post_process(y);
        PBT_CHECK(v > 0.f && v <= 1.f && std::abs(double(v) - (y + 0.5) / 4294967296.0) < 1e-6, "integer " << y << " becomes " << v);
    }
}
template<typename G>
void conversion(G &, Tape &, long) {}

// Real draws over many refills and seeds are in (0, 1] and reach close to both ends.
void reals(Tape & t, Ctx & ctx)
{
    int const seed = gen_seed(t);
    FRNG g(seed);
    float lo = 1, hi = 0;
    unsigned const n = 50000;
    for (unsigned i = 0; i < n; ++i)
    {
        float const v = g.next();
        PBT_CHECK(v > 0.f && v <= 1.f, "FRNG seed " << seed << " draws " << v);
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    // (1 - 1e-3)^50000 < 1e-21
    PBT_CHECK(lo < 1e-3f && hi > 1 - 1e-3f, "FRNG seed " << seed << ": 50000 draws all within [" << lo << ", " << hi << "]");
    conversion(g, t, 0);
    ctx.desc << "reals of seed " << seed;
    ctx.nontrivial = true;
    ctx.label("reals");
}

void run(Tape & t, Ctx & ctx)
{
    switch (t.weighted({6, 3, 2, 1}))
    {
        case 0: for_type(t.range(0, 5), [&](auto * p){ history<std::remove_pointer_t<decltype(p)>>(t, ctx); }); break;
        case 1: bounded(t, ctx); break;
        case 2: for_type(t.range(0, 5), [&](auto * p){ even<std::remove_pointer_t<decltype(p)>>(t, ctx); }); break;
        default: reals(t, ctx); break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C16", run, 600000, 10000000, 8, 60,
        "distinct histories which draw numbers, several bounds per case, or 20000 and more draws tested for evenness",
        {"evenness is judged by chi-square limits which an even generator exceeds with probability below 1e-10 per test"}};
    return p;
}
