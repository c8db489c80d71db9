// C12: each regressor training step gives only the prescribed feedback.
#include "feedback.hpp"

#include <cmath>

using namespace tsm;

namespace {

double loss(std::string const & name, double C1, double e)
{
    double const a = std::abs(e);
    if (name == "MAE" || name == "L1") return a;
    if (name == "MSE" || name == "L2") return a * a;
    if (name == "L1+2") return C1 * a + (1 - C1) * a * a;
    return a <= C1 ? a : a * a - C1 * C1 + C1; // berHu
}

// Bounds on number of clause updates
std::pair<int64_t, int64_t> updates(Cfg const & c, int n, int v, int y)
{
    if (v == y) return {0, 0};
    if (c.box_muller) return {0, n};
    // C1 may be anything finite: products beyond the number of clauses all mean as many updates as there are clauses
    double const exact = n * loss(c.loss, c.C1, (double(v) - y) / c.T);
    // The error itself is a rounded real number, unless it is a fraction which reals represent
    bool const plain = c.loss == "MAE" || c.loss == "L1" || c.loss == "MSE" || c.loss == "L2";
    bool const precise = plain && c.T <= 1024 && (c.T & (c.T - 1)) == 0 && n < 16;
    bool const precise_linear = (c.loss == "MAE" || c.loss == "L1") && c.T <= 1024 && (c.T & (c.T - 1)) == 0 && n < 8192;
    double const slack = precise || precise_linear ? 0 : 1e-4 * std::max(1., std::min(exact, n + 1.)) + 1e-6 * n * std::max(0., std::abs(double(c.C1)) - 1) * std::abs(double(v) - y) / c.T;
    double const want = std::min(exact, n + 1. + slack);
    int64_t lo, hi;
    if (want < 0.5 - slack) { lo = 0; hi = 1; } // also for losses below zero, which some C1 have
    else { lo = want < 0.5 + slack ? 0 : int64_t(std::floor(want - slack + 0.5)); hi = std::max<int64_t>(1, int64_t(std::floor(std::min(want + slack, n + 1.) + 0.5))); }
    return {std::min<int64_t>(lo, n), std::min<int64_t>(hi, n)};
}

template<typename Tr>
void check_step(Cfg const & c, Snap const & before, Snap const & after, Row const & x, int y, Ctx & ctx)
{
    PBT_CHECK(before.rows == after.rows && before.cols == after.cols && before.weights.size() == after.weights.size(), "a training step changed the shape of the state");
    int const n = clauses_of(before);
    int const v = ref_response(before, c.T, x, true);
    std::ostringstream head;
    head << "vote " << v << ", response " << y << " of " << c.T << ": ";

    // bounds on number of updates
    double const want = n * loss(c.loss, c.C1, (double(v) - y) / c.T);
    auto const [lo, hi] = updates(c, n, v, y);

    Step const st{c, before, after, x, Tr::bitwise};
    bool const first = v < y;
    int64_t sum_lo = 0, sum_hi = 0;
    uint64_t judged = 0;
    for (int j = 0; j < n; ++j)
    {
        bool const fired = all_true(before, j, x);
        if (!st.unchanged(j) && v == y) pbt::fail(head.str() + "clause " + std::to_string(j) + " changed although there is no error");
        auto const h = first ? st.type1(j, fired) : st.type2(j, fired);
        PBT_CHECK(!h.none(), head.str() << "Type " << (first ? "I" : "II") << " feedback to clause " << j << " which " << (fired ? "fires" : "does not fire")
            << " does not explain the change: " << h.why);
        sum_lo += h.lo;
        sum_hi = h.hi > hi || sum_hi > hi ? hi + 1 : sum_hi + h.hi;
        if (!st.unchanged(j)) ++judged;
    }
    PBT_CHECK(sum_lo <= hi, head.str() << "at least " << sum_lo << " clause updates were made, expected " << (lo == hi ? "" : "at most ") << hi << " (" << n << " clauses, product with loss " << want << ")");
    PBT_CHECK(sum_hi >= lo, head.str() << "at most " << sum_hi << " clause updates were made, expected at least " << lo << " (" << n << " clauses, product with loss " << want << ")");
    ++ctx.sub_evaluations;
    ctx.nontrivial = ctx.nontrivial || judged > 0 || (hi == 0);
    ctx.add("changed clauses judged", double(judged));
    ctx.label(v == y ? "no error" : first ? "vote too low" : "vote too high");
    if (v != y && want < 0.5) ctx.label("less than half an update");
    if (v != y && lo == hi && want == std::floor(want) + 0.5) ctx.label("half an update, rounded up");
    if (!c.box_muller && sum_lo == lo && lo == hi && lo > 0) ctx.label("number of updates determined exactly");
}

template<typename Tr>
void steps(Tape & t, Ctx & ctx)
{
    Cfg c;
    Big const big = gen_big(t, {Big::Clauses, Big::Features, Big::Features});
    bool const huge = big == Big::Clauses && t.chance(1, 30);
    c.clauses = 2 * (huge ? t.coin() ? t.range(16500, 33000) : huge_size(t) : big == Big::Clauses ? big_units(t) * t.pick({1, 3}) : t.range(1, t.chance(1, 4) ? 60 : 8));
    c.states = t.pick({100, 1, 2, 3, 127, 128, 32767, 32768, INT_MAX});
    c.s = t.pick({1e30f, 1.0f, 2.0f, 3.9f, 1.3f, 50.f});
    c.T = t.weighted({3, 2}) == 0 ? t.range(1, 12) : t.pick({1, 10, 100, 1000000, (1 << 30), INT_MAX});
    c.weighted = t.coin();
    c.max_weight = gen_max_weight(t);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    c.C1 = t.pick({0.f, 0.25f, 0.5f, 0.7f, 1.f, 2.f, 40.f, 6e9f, 1e30f, -1.f});
    c.box_muller = t.chance(1, 4);
    c.seed = gen_seed(t);
    int const F = big == Big::Features ? big_features(t, Tr::bitwise) : big == Big::Clauses ? t.range(1, huge ? 3 : 9) : gen_features(t, t.chance(1, 8) ? 1200 : 140, c.tile, false);
    int const n = huge ? 1 : t.range(1, 6);
    if (huge) ctx.label("tens of thousands of clauses");
    ctx.desc << Tr::name() << " " << c.str(true) << " features=" << F;

    auto e = blank<Tr>(c, 1, F);
    for (int k = 0; k < n; ++k)
    {
        Bulk b = t.bulk();
        bool const recraft = k == 0 || t.chance(1, 2);
        int const goal = t.range(0, 4);
        Row const x = gen_row(b, F);
        if (recraft)
        {
            auto st = e.clone_state();
            int const lean = int(b.below(3));
            for (int j = 0; j < c.clauses / 2; ++j)
            {
                Craft kind = Craft(b.below(uint64_t(Craft::COUNT)));
                if (lean == 1 && b.below(4)) kind = Craft::Consistent;
                if (lean == 2 && b.below(4)) kind = Craft::OneWrong;
                Row inc[2];
                craft_clause(b, kind, x, inc);
                write_clause(*st, unsigned(j), inc, b, c.states);
                if (c.weighted) st->ta_state.weights[j] = craft_weight(b, c.max_weight);
            }
            e = typename Tr::est(*st);
        }
        auto const before = snap_of<Tr>(e, false);
        int const v = ref_response(before, c.T, x, true);
        int y;
        switch (goal)
        {
            case 0: y = v; break;
            case 1: y = 0; break;
            case 2: y = c.T; break;
            case 3: y = int(b.below(uint64_t(c.T) + 1)); break;
            default: y = clamp64(int64_t(v) + int64_t(b.below(5)) - 2, 0, c.T); break;
        }
        partial_fit<Tr>(e, to_data<Tr>({x}), {y}, 1);
        auto const after = snap_of<Tr>(e, false);
        if (k < 2) ctx.desc << (recraft ? "; crafted" : "") << "; sample " << row_str(x) << " response " << y << " vote " << v;
        check_step<Tr>(c, before, after, x, y, ctx);
    }
    ctx.label(Tr::name());
    if (c.weighted) ctx.label("weighted");
    if (big != Big::None) ctx.label("one large dimension");
    if (c.box_muller) ctx.label("random count");
    ctx.label("loss " + c.loss);
}

// Votes equal responses for all samples: training changes nothing.
template<typename Tr>
void fixed_point(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.states = t.pick({100, 1, 3, 127, 128});
    c.s = t.pick({1.0f, 2.0f, 3.9f});
    c.boost = t.coin();
    c.weighted = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    c.C1 = t.pick({0.f, 0.5f, 1.f});
    c.box_muller = t.coin();
    c.seed = gen_seed(t);
    int const rows = t.range(1, 10);
    c.clauses = 2 * t.range(1, 30);
    int const n = c.clauses / 2;
    int const F = rows + t.pick({0, 1, 60, 130});
    unsigned const epochs = unsigned(t.range(1, 10));
    Bulk b = t.bulk();

    Rows X;
    for (int i = 0; i < rows; ++i)
    {
        Row r = gen_row(b, F);
        for (int k = 0; k < rows; ++k) r[k] = char(i == k);
        X.push_back(r);
    }
    // any clause includes negations of some of the one-hot features: votes are whatever they are
    c.T = n * 3;
    auto e = blank<Tr>(c, 1, F);
    auto st = e.clone_state();
    for (int j = 0; j < n; ++j)
    {
        Row inc[2] = {Row(F, 0), Row(F, 0)};
        for (int k = 0; k < rows; ++k) inc[1][k] = char(b.below(2));
        write_clause(*st, unsigned(j), inc, b, c.states);
        if (c.weighted) st->ta_state.weights[j] = uint32_t(b.below(4));
    }
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    Labels y;
    for (auto const & x : X) y.push_back(ref_response(before, c.T, x, true));
    partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    ctx.desc << Tr::name() << " " << c.str(true) << " rows=" << rows << " features=" << F << " responses equal votes " << list_str(y) << ", " << epochs << " epochs";
    auto const after = snap_of<Tr>(e, false);
    auto const d = diff(before, after);
    PBT_CHECK(d.empty(), "votes equal responses for all samples, but training changed the state: " << d);
    ctx.nontrivial = true;
    ctx.label("votes equal all responses, many rows and epochs");
}

// Training on several rows and epochs ends in a state to which prescribed steps lead.
template<typename Tr>
void reachable(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 2 * t.range(1, 4);
    c.states = t.pick({100, 1, 2, 3, 5, 127, 128, 129, 32768});
    c.s = !Tr::bitwise && t.coin() ? 1.f : 1e30f;
    c.T = t.range(1, 6);
    c.weighted = t.coin();
    c.max_weight = gen_max_weight(t);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    c.C1 = t.pick({0.f, 0.25f, 0.5f, 1.f});
    c.box_muller = t.chance(1, 6);
    c.seed = gen_seed(t);
    bool const big = t.chance(1, 20);
    int const F = big ? std::min(1100, big_features(t, Tr::bitwise)) : t.chance(1, 4) ? gen_features(t, 140, c.tile, false) : t.range(1, 5);
    int const n = t.weighted({0, 2, 4, 3, 1});
    unsigned const epochs = unsigned(t.range(1, n == 1 ? 4 : n <= 3 ? 2 : 1));
    Bulk b = t.bulk();
    auto const X = gen_rows(b, n, F);
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(uint64_t(c.T) + 1)));
    auto e = blank<Tr>(c, 1, F);
    auto st = e.clone_state();
    for (int j = 0; j < c.clauses / 2; ++j)
    {
        Row inc[2];
        craft_clause(b, b.below(3) ? Craft(b.below(uint64_t(Craft::COUNT))) : Craft::Consistent, X[0], inc);
        write_clause(*st, unsigned(j), inc, b, c.states);
        if (c.weighted) st->ta_state.weights[j] = b.below(2) ? std::min<uint32_t>(uint32_t(b.below(3)), uint32_t(c.max_weight) - 1) : craft_weight(b, c.max_weight);
    }
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    auto const after = snap_of<Tr>(e, false);
    ctx.desc << Tr::name() << " " << c.str(true) << " features=" << F << "; crafted; " << n << " rows";
    for (int i = 0; i < n; ++i) ctx.desc << " " << row_str(X[i]) << ":" << y[i];
    ctx.desc << ", " << epochs << " epochs";
    PBT_CHECK(before.rows == after.rows && before.cols == after.cols && before.weights.size() == after.weights.size(), "training changed the shape of the state");

    Reach r{c, true, 1, F, big || F > 40 ? 400u : 6000u, false, [&](int v, int want)
    {
        auto const k = updates(c, c.clauses / 2, v, want);
        return std::make_pair(int(k.first), int(k.second));
    }};
    std::set<Reach::State> now{r.pack(before)};
    for (unsigned k = 0; k < epochs && !r.overflow; ++k) now = r.epoch(now, X, y);
    ctx.label(r.overflow ? "several rows: too many outcomes" : "several rows: all outcomes known");
    if (r.overflow) return;
    auto const got = r.pack(after);
    ctx.add("outcomes of several rows", double(now.size()));
    PBT_CHECK(now.count(got), "training on " << n << " rows for " << epochs << " epochs ended in none of the " << now.size() << " states to which prescribed feedback leads, in any order of rows");
    ctx.nontrivial = got != r.pack(before) || now.size() == 1;
    ++ctx.sub_evaluations;
}

void run(Tape & t, Ctx & ctx)
{
    bool const several = t.chance(1, 4);
    bool const fixed = t.chance(1, 10);
    for_kind(t.range(2, 3), [&](auto tr)
    {
        using Tr = decltype(tr);
        if constexpr (Tr::regressor)
        {
            if (several) reachable<Tr>(t, ctx);
            else if (fixed) fixed_point<Tr>(t, ctx);
            else steps<Tr>(t, ctx);
        }
    });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C12", run, 300000, 10000000, 8, 60,
        "distinct sequences of steps in which at least one clause changed and was judged against the prescribed feedback, or no change at all was required",
        {"the number of updates is inferred from the changes: it is exact where weights or automata count the updates and an interval elsewhere",
         "products of clause count and loss within 1e-4 of a rounding boundary accept both roundings, unless reals represent them exactly: halves are rounded up then"}};
    return p;
}
