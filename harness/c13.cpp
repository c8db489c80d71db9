// C13: feedback is randomised at the configured rates.
// Automata have so many states and start so far from decisions that votes do not change during a run, so that they count
// the feedback each clause and literal received.
#include "tsm.hpp"

#include <cmath>

using namespace tsm;

namespace {

int const DEEP = 100000000;

// Bernstein's bound for a sum of independent [0, 1] variables with given variance; exceeded with probability < 2e-13
double bound(double variance) { double const l = 30; return std::sqrt(2 * variance * l) + 2. / 3. * l; }

void check_rate(double count, double trials, double p, double variance, std::string const & what, double slack = 0)
{
    double const want = trials * p, b = bound(variance + slack) + slack;
    PBT_CHECK(std::abs(count - want) <= b, what << ": " << count << " times in " << trials << " trials, expected " << want << " +- " << b << " at rate " << p);
}

template<typename State>
int ta_value(State const & st, unsigned r, unsigned c)
{
    return std::visit([&](auto const & m){ return int(m.row_data(r)[c]); }, st.ta_state.matrix);
}

struct Label { int fired_even, fired_odd; };

// Writes clauses of a label: the given numbers of even and odd clauses fire for x.
template<typename State>
void write_label(State & st, int first, int per, Label const & l, Row const & x, Bulk & b)
{
    int const F = int(x.size());
    int even = 0, odd = 0;
    for (int j = first; j < first + per; ++j)
    {
        bool const fire = j % 2 == 0 ? even++ < l.fired_even : odd++ < l.fired_odd;
        for (int f = 0; f < F; ++f) { set_ta(st, 2 * j, f, -DEEP); set_ta(st, 2 * j + 1, f, -DEEP); }
        int const f = int(b.below(uint64_t(F)));
        int const true_side = x[f] ? 0 : 1;
        if (!fire) set_ta(st, 2 * j + 1 - true_side, f, DEEP);
        else if (b.below(4)) set_ta(st, 2 * j + true_side, f, DEEP);
    }
}

Row mixed_row(Bulk & b, int F)
{
    Row r = gen_row(b, F);
    r[0] = 1;
    if (F > 1) r[F - 1] = 0;
    return r;
}

// Rates at which clauses of a classifier get feedback
template<typename Tr>
void clause_rates(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const half = t.range(1, 10);        // even clauses of a label, and odd ones
    int const per = 2 * half;
    c.clauses = 2 * per;
    c.states = INT_MAX;
    c.s = 1e30f;
    c.T = t.range(1, t.chance(1, 3) ? 200 : 2 * half);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    int const labels = t.weighted({3, 1, 1, 1}) + 2;
    bool const saturated_others = labels > 2 && t.coin();
    if (saturated_others) c.T = std::min(c.T, half);
    bool const vast = !saturated_others && t.chance(1, 4); // thresholds which reals and doubled integers do not hold
    if (vast)
    {
        c.T = t.pick({INT_MAX, 1 << 30, (1 << 30) + 1, 2000000000, (1 << 30) - 1, (1 << 24) + 1, 100000007});
        c.weighted = c.T >= 1 << 29 && t.chance(3, 4);
    }
    int const F = t.range(2, 6);
    unsigned const R = unsigned(t.pick({16, 1, 5, 40}));
    unsigned const K = (t.chance(1, 8) ? 60000u : 12000u) / R * R;
    Bulk b = t.bulk();
    Row const x = mixed_row(b, F);
    int const y = int(b.below(uint64_t(labels)));

    std::vector<Label> ls;
    for (int l = 0; l < labels; ++l)
    {
        Label lb{int(b.below(uint64_t(half) + 1)), int(b.below(uint64_t(half) + 1))};
        if (saturated_others && l != y) lb = {half, 0};
        ls.push_back(lb);
    }
    auto e = blank<Tr>(c, labels, F);
    auto st = e.clone_state();
    for (int l = 0; l < labels; ++l) write_label(*st, l * per, per, ls[l], x, b);
    if (c.weighted)
        for (auto & w : st->ta_state.weights) w = unsigned(c.T) / 4 + b.below(unsigned(c.T) / 4);
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    auto const votes = ref_decision(before, labels, c.T, x, true);
    partial_fit<Tr>(e, to_data<Tr>(Rows(R, x)), Labels(R, y), K / R);
    auto const after = snap_of<Tr>(e, false);

    ctx.desc << Tr::name() << " T=" << c.T << " labels=" << labels << " clauses=" << per << " per label, votes " << list_str(votes) << " label " << y << ", " << K << " steps";
    auto const votes_after = ref_decision(after, labels, c.T, x, true);
    if (!c.weighted) PBT_CHECK(votes_after == votes, "votes changed although automata are far from their decisions");
    double chosen_total = 0;
    for (int l = 0; l < labels; ++l)
    {
        bool const target = l == y;
        double const p = (target ? double(c.T) - votes[l] : double(c.T) + votes[l]) / (2. * c.T) / (target ? 1. : labels - 1.);
        // weights of vast thresholds drift a little
        double const drift = std::abs(double(votes_after[l]) - votes[l]) / (2. * c.T) / (target ? 1. : labels - 1.);
        double total = 0;
        int judged = 0;
        for (int j = l * per; j < (l + 1) * per; ++j)
        {
            if (!all_true(before, unsigned(j), x)) continue;
            bool const type1 = (j % 2 == 0) == target;
            // literals which are true for Type I, false for Type II
            int f = type1 ? 0 : F - 1;
            double const n = double(after.at(2 * unsigned(j), f)) - before.at(2 * unsigned(j), f);
            std::ostringstream what;
            what << "feedback to clause " << j << " of label " << l << " (vote " << votes[l] << " of " << c.T << (target ? ", label of the sample)" : ", other label)");
            check_rate(n, K, p, K * p * (1 - p), what.str(), K * drift);
            if (p == 0. && !c.weighted) PBT_CHECK(n == 0, what.str() << " was given at rate 0");
            if (p == 1. && !c.weighted) PBT_CHECK(n == K, what.str() << " was not always given");
            total += n;
            ++judged;
            ++ctx.sub_evaluations;
        }
        if (judged && (target || labels == 2))
        {
            std::ostringstream what;
            what << "feedback to all firing clauses of label " << l << " (vote " << votes[l] << " of " << c.T << ")";
            check_rate(total, double(K) * judged, p, double(K) * judged * p * (1 - p), what.str(), K * judged * drift);
        }
        if (judged && !target && votes[l] == c.T)
        {
            // such clauses count how often the label was drawn
            chosen_total += total / judged;
        }
        if (judged && p > 0 && p < 1) ctx.nontrivial = true;
    }
    if (saturated_others)
        PBT_CHECK(chosen_total == K, "other labels were drawn " << chosen_total << " times in " << K << " steps");
    ctx.label(saturated_others ? "draws of the other label" : vast ? "clause rates, vast thresholds" : labels > 2 ? "clause rates, many labels" : "clause rates, two labels");
}

// Draws of the other label among hundreds of labels and more
template<typename Tr>
void many_labels(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 4;
    c.states = INT_MAX;
    c.s = 1e30f;
    c.T = 1;
    c.tile = gen_tile(t);
    c.n_jobs = 1;
    c.seed = unsigned(t.draw(UINT32_MAX));
    int const labels = t.weighted({3, 1}) == 0 ? t.range(100, 1500) : t.range(1500, 70000);
    Bulk b = t.bulk();
    unsigned const R = unsigned(t.pick({100, 1, 1000, 10007})), K = std::max(2000u, 8u * unsigned(labels)) / R * R + R;
    Row const x{1, 0};
    int const y = int(b.below(uint64_t(labels)));
    auto e = blank<Tr>(c, labels, 2);
    auto st = e.clone_state();
    for (int l = 0; l < labels; ++l) write_label(*st, l * 2, 2, {1, 0}, x, b);
    e = typename Tr::est(*st);
    auto const before = e.clone_state();
    partial_fit<Tr>(e, to_data<Tr>(Rows(R, x)), Labels(R, y), K / R);
    auto const after = e.clone_state();
    ctx.desc << Tr::name() << " labels=" << labels << " label " << y << ", " << K << " steps";
    // every label votes at the limit, so that the sample's label never gets feedback and the drawn one always does
    std::vector<double> drawn(labels);
    double total = 0, part[8] = {}, residue[8] = {}, in_part[8] = {}, in_residue[8] = {};
    for (int l = 0; l < labels; ++l)
    {
        double const n = double(ta_value(*after, 4 * unsigned(l), 1)) - ta_value(*before, 4 * unsigned(l), 1);
        PBT_CHECK(n >= 0 && (l != y || n == 0), "label " << l << " counted " << n << " for samples of label " << y);
        drawn[l] = n;
        total += n;
        int const k = int(int64_t(l) * 8 / labels);
        part[k] += n;
        residue[l % 8] += n;
        if (l != y) { ++in_part[k]; ++in_residue[l % 8]; }
    }
    PBT_CHECK(total == K, "other labels were drawn " << total << " times in " << K << " steps");
    for (int k = 0; k < 8; ++k)
    {
        double const p = in_part[k] / (labels - 1), q = in_residue[k] / (labels - 1);
        check_rate(part[k], K, p, K * p * (1 - p), "other labels drawn from part " + std::to_string(k) + " of 8");
        check_rate(residue[k], K, q, K * q * (1 - q), "other labels which are " + std::to_string(k) + " modulo 8 drawn");
    }
    double const p = 1. / (labels - 1);
    for (int k = 0; k < 20; ++k)
    {
        int const l = (y + (k < 10 ? k + 1 : int(b.below(uint64_t(labels))))) % labels;
        if (l != y) check_rate(drawn[l], K, p, K * p * (1 - p), "label " + std::to_string(l) + " drawn");
    }
    ctx.nontrivial = true;
    ctx.label("draws among many labels");
}

// The same for first steps of many seeds
template<typename Tr>
void seed_rates(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const half = t.range(1, 6), per = 2 * half;
    c.clauses = 2 * per;
    c.states = INT_MAX;
    c.s = 1e30f;
    c.T = t.range(1, 2 * half);
    int const labels = t.range(2, 4);
    int const F = 2;
    int const n = 1500;
    Bulk b = t.bulk();
    Row const x = mixed_row(b, F);
    int const y = int(b.below(uint64_t(labels)));
    std::vector<Label> ls;
    for (int l = 0; l < labels; ++l) ls.push_back({int(b.below(uint64_t(half) + 1)), int(b.below(uint64_t(half) + 1))});
    c.seed = unsigned(t.draw(UINT32_MAX));
    unsigned const stride = t.pick({8u, 9u, 1000u, 65536u, 0x9e3779b1u});

    std::vector<double> counts(std::size_t(per * labels), 0.);
    std::vector<char> fires;
    std::vector<int> votes;
    auto const X = to_data<Tr>({x});
    for (int k = 0; k < n; ++k)
    {
        auto e = blank<Tr>(c, labels, F);
        c.seed += stride;
        auto st = e.clone_state();
        Bulk bb(12345);
        for (int l = 0; l < labels; ++l) write_label(*st, l * per, per, ls[l], x, bb);
        e = typename Tr::est(*st);
        auto const before = snap(*st, false);
        if (k == 0)
        {
            votes = ref_decision(before, labels, c.T, x, true);
            for (int j = 0; j < per * labels; ++j) fires.push_back(all_true(before, unsigned(j), x));
        }
        partial_fit<Tr>(e, X, {y}, 1);
        auto const after = snap_of<Tr>(e, false);
        for (int j = 0; j < per * labels; ++j)
        {
            bool const type1 = (j % 2 == 0) == (j / per == y);
            int const f = type1 ? 0 : F - 1;
            counts[j] += double(after.at(2 * unsigned(j), f)) - before.at(2 * unsigned(j), f);
        }
    }
    ctx.desc << Tr::name() << " T=" << c.T << " labels=" << labels << " clauses=" << per << " per label, votes " << list_str(votes) << " label " << y << ", first step of " << n << " seeds, stride " << stride;
    for (int j = 0; j < per * labels; ++j)
    {
        int const l = j / per;
        bool const target = l == y;
        double const p = (target ? double(c.T) - votes[l] : double(c.T) + votes[l]) / (2. * c.T) / (target ? 1. : labels - 1.);
        if (fires[j]) check_rate(counts[j], n, p, n * p * (1 - p), "over seeds, feedback to clause " + std::to_string(j) + " of label " + std::to_string(l) + " at vote " + std::to_string(votes[l]));
        if (fires[j] && p > 0 && p < 1) ctx.nontrivial = true;
    }
    ctx.label("clause rates over seeds");
}

float gen_s(Tape & t)
{
    switch (t.weighted({3, 2, 2, 1}))
    {
        case 0: return t.pick({2.0f, 1.0f, 1.5f, 3.0f, 3.9f, 10.f, 27.f, 100.f});
        case 1: return 1.f + float(t.range(1, 1000)) / 100.f;
        case 2: return 1.f + float(t.range(1, 1000)) / 1000.f;
        default: return float(t.range(1, 3000));
    }
}

// Rates at which literals are drawn by Type I, classifiers and regressors
template<typename Tr>
void literal_rates(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const half = 4;
    c.states = INT_MAX;
    c.s = gen_s(t);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    int const F = t.weighted({3, 2, 1}) == 0 ? t.range(1, 12) : t.pick({1, 2, 3, 31, 63, 64, 65, 100, 127, 128, 129, 200, 300});
    unsigned const R = 10;
    unsigned K = unsigned(std::min(20000, 600000 / F)) / R * R;
    Bulk b = t.bulk();
    Row const x = mixed_row(b, F);
    int const y = Tr::regressor ? 0 : int(b.below(2));
    int per;
    if (Tr::regressor) { c.clauses = 4 * half; per = 2 * half; c.T = 4 * half; c.loss = "MAE"; }
    else { c.clauses = 4 * half; per = 2 * half; c.T = 1; }

    auto e = blank<Tr>(c, 2, F);
    auto st = e.clone_state();
    int target_y;
    if constexpr (Tr::regressor)
    {
        // loss of the largest error, so that all counts are large: response at T, votes at 2
        write_label(*st, 0, per, {1, 1}, x, b);
        target_y = c.T;
    }
    else
    {
        // label at the opposite extreme: one even clause fires, all odd ones do, every even one gets Type I
        write_label(*st, y * per, per, {1, half}, x, b);
        write_label(*st, (1 - y) * per, per, {0, half}, x, b);
        target_y = y;
    }
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    partial_fit<Tr>(e, to_data<Tr>(Rows(R, x)), Labels(R, target_y), K / R);
    auto const after = snap_of<Tr>(e, false);
    ctx.desc << Tr::name() << " s=" << c.s << " features=" << F << " boost=" << c.boost << ", " << K << " steps";

    double const p = 1. / double(c.s);
    double trials = K;
    bool exact_trials = true;
    if (Tr::regressor)
    {
        // number of updates of each clause is itself random
        int const v = ref_response(before, c.T, x, true);
        double const hits = std::round(per * (double(c.T) - v) / c.T);
        trials = K * hits / per;
        exact_trials = false;
    }
    double tot_silent = 0, n_silent = 0, tot_false = 0, n_false = 0, tot_true = 0, n_true = 0;
    for (int j = (Tr::regressor ? 0 : y * per); j < (Tr::regressor ? per : (y + 1) * per); ++j)
    {
        if (!Tr::regressor && j % 2) continue;
        bool const fired = all_true(before, unsigned(j), x);
        for (int side = 0; side < 2; ++side)
            for (int f = 0; f < F; ++f)
            {
                bool const truth = side == 0 ? x[f] != 0 : x[f] == 0;
                double const d = double(after.at(2 * j + side, f)) - before.at(2 * j + side, f);
                std::ostringstream what;
                what << (side ? "negated" : "positive") << " literal of feature " << f << " of clause " << j << ", which " << (fired ? "fires" : "does not fire");
                // updates of a regressor's clause vary like a binomial
                double const extra = exact_trials ? 0. : trials;
                if (fired && truth)
                {
                    double const q = c.boost ? 1. : 1. - p;
                    check_rate(d, trials, q, trials * q * (1 - q) + q * q * extra, what.str() + ", which is true, moved towards inclusion");
                    tot_true += d;
                    n_true += 1;
                }
                else
                {
                    // variance of draws with replacement does not exceed that of a Poisson count
                    check_rate(-d, trials, p, trials * p + p * p * extra, what.str() + ", moved towards exclusion");
                    (fired ? tot_false : tot_silent) -= d;
                    (fired ? n_false : n_silent) += 1;
                }
                ++ctx.sub_evaluations;
            }
    }
    if (exact_trials)
    {
        double const q = c.boost ? 1. : 1. - p;
        if (n_silent) check_rate(tot_silent, trials * n_silent, p, trials * n_silent * p, "all literals of clauses which do not fire, moved towards exclusion");
        if (n_false) check_rate(tot_false, trials * n_false, p, trials * n_false * p, "all false literals of firing clauses, moved towards exclusion");
        if (n_true) check_rate(tot_true, trials * n_true, q, trials * n_true * q * (1 - q), "all true literals of firing clauses, moved towards inclusion");
    }
    ctx.nontrivial = c.s > 1.f;
    ctx.label(std::string("literal rates, ") + Tr::name());
}

// Number of updates of a regressor
template<typename Tr>
void regressor_rates(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const n = t.range(1, t.coin() ? 12 : 150);
    c.clauses = 2 * n;
    c.states = INT_MAX;
    c.s = 1e30f;
    c.T = n + t.range(0, 3 * n);
    c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    c.C1 = t.pick({0.f, 0.25f, 0.5f, 1.f});
    c.box_muller = t.coin();
    c.tile = gen_tile(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    int const F = t.range(2, 4);
    unsigned const R = unsigned(t.pick({16, 1, 5}));
    unsigned const K = unsigned(n > 50 ? 8000 : 20000) / R * R;
    Bulk b = t.bulk();
    Row const x = mixed_row(b, F);
    int y = t.range(0, c.T);
    if (t.chance(1, 2)) y = clamp64(int64_t(n) + int64_t(b.below(uint64_t(c.T) / 4 + 1)) - c.T / 8, 0, c.T);

    auto e = blank<Tr>(c, 1, F);
    auto st = e.clone_state();
    write_label(*st, 0, n, {n, n}, x, b);
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    int const v = ref_response(before, c.T, x, true);
    partial_fit<Tr>(e, to_data<Tr>(Rows(R, x)), Labels(R, y), K / R);
    auto const after = snap_of<Tr>(e, false);

    double const err = (double(v) - y) / c.T, a = std::abs(err);
    double P = a;
    if (c.loss == "MSE" || c.loss == "L2") P = a * a;
    if (c.loss == "L1+2") P = c.C1 * a + (1 - c.C1) * a * a;
    if (c.loss == "berHu") P = a <= c.C1 ? a : a * a - double(c.C1) * c.C1 + c.C1;
    P = std::min(1., P);
    double const NP = n * P;

    ctx.desc << Tr::name() << " clauses=" << n << " loss=" << c.loss << " C1=" << c.C1 << " box_muller=" << c.box_muller << " vote " << v << " response " << y << " of " << c.T << ", " << K << " steps, mean " << NP;
    double total = 0;
    std::vector<double> counts;
    for (int j = 0; j < n; ++j)
    {
        int const f = v < y ? 0 : F - 1;
        double const d = double(after.at(2 * unsigned(j), f)) - before.at(2 * unsigned(j), f);
        PBT_CHECK(d >= 0, "clause " << j << " counted " << d);
        counts.push_back(d);
        total += d;
    }
    if (v == y) PBT_CHECK(total == 0, "feedback was given without error");
    else if (c.box_muller)
    {
        // approximated by a rounded and clamped normal variable
        double const sd = std::sqrt(NP * (1 - P));
        double const tol = 0.1 + 0.06 * sd + bound(K * (NP * (1 - P) + 1)) / K;
        PBT_CHECK(std::abs(total / K - NP) <= tol, "random number of updates averages " << total / K << ", expected " << NP << " +- " << tol << " (" << n << " clauses at loss " << P << ")");
        ctx.add("largest deviation / tolerance sum", std::abs(total / K - NP) / tol);
        if (sd >= 1.5 && NP - 4 * sd > 0 && NP + 4 * sd < n)
        {
            // and it spreads like a binomial one, where clamping does not matter
            int const M = 4000;
            auto const X = to_data<Tr>({x});
            auto sum = [&](Snap const & s) { double r = 0; for (int j = 0; j < n; ++j) r += s.at(2 * unsigned(j), v < y ? 0 : F - 1); return r; };
            double last = sum(after), s1 = 0, s2 = 0;
            for (int k = 0; k < M; ++k)
            {
                partial_fit<Tr>(e, X, {y}, 1);
                double const now = sum(snap_of<Tr>(e, false)), d = now - last;
                last = now;
                PBT_CHECK(d >= 0 && d <= n, "one step made " << d << " updates of " << n << " clauses");
                s1 += d;
                s2 += d * d;
            }
            double const var = (s2 - s1 * s1 / M) / (M - 1);
            PBT_CHECK(var > 0.8 * sd * sd && var < 1.25 * (sd * sd + 0.1), "random number of updates has variance " << var << " in " << M << " steps, expected about " << sd * sd << " (" << n << " clauses at loss " << P << ")");
            ctx.label("spread of the random count");
            ++ctx.sub_evaluations;
        }
    }
    else if (NP < 0.4999) check_rate(total, K, NP, K * NP * (1 - NP), "single updates at less than half an update per step");
    else if (std::abs(NP - std::floor(NP) - 0.5) > 1e-3)
        PBT_CHECK(total == double(K) * std::round(NP), "made " << total << " updates in " << K << " steps, expected " << std::round(NP) << " each");
    for (int j = 0; j < n && total > 0; ++j)
        check_rate(counts[j], total, 1. / n, total / n, "updates of clause " + std::to_string(j) + " of " + std::to_string(n));
    ctx.sub_evaluations += n;
    ctx.nontrivial = v != y && NP > 0;
    ctx.label(c.box_muller ? "regressor updates, random count" : NP < 0.5 ? "regressor updates, below one half" : "regressor updates, rounded");
}

// Where automata of a newly fitted estimator start
template<typename Tr>
void initial_states(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 4 * t.range(1, 8);
    c.states = t.pick({100, 1, 127, 128, 1000, 32767, 100000});
    c.weighted = t.coin();
    c.tile = gen_tile(t);
    c.n_jobs = gen_jobs(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    unsigned const stride = t.pick({8u, 9u, 1000u, 65536u, 0x9e3779b1u}); // nearer seeds share streams, so they do not count as independent
    int const labels = t.range(2, 4);
    int const F = t.weighted({3, 2}) == 0 ? t.range(1, 40) : t.pick({63, 64, 65, 100, 127, 128, 129, 200});
    Bulk b = t.bulk();
    Rows rows;
    Labels y;
    for (int i = 0; i < labels; ++i) { rows.push_back(gen_row(b, F)); y.push_back(Tr::regressor ? int(b.below(uint64_t(c.T) + 1)) : i); }
    auto const X = to_data<Tr>(rows);
    int const n = std::max(20, 60000 / (c.clauses * F));

    std::vector<double> at;                 // by automaton
    double total = 0, alternations = 0, cells = 0, pairs = 0;
    unsigned R = 0;
    for (int k = 0; k < n; ++k, c.seed += stride)
    {
        auto e = make<Tr>(c);
        fit<Tr>(e, X, y, 0, labels);
        auto const s = snap_of<Tr>(e, false);
        R = unsigned(s.rows);
        at.resize(std::size_t(R) * F, 0.);
        double in = 0;
        for (unsigned r = 0; r < R; ++r)
            for (int f = 0; f < F; ++f)
            {
                auto const v = s.at(r, f);
                PBT_CHECK(v == -1 || v == 0, "automaton " << r << ", " << f << " starts at " << v);
                if (v == 0) { ++in; ++at[std::size_t(r) * F + f]; }
                if (f) { alternations += v != s.at(r, f - 1); ++pairs; }
                if (r % 2) { alternations += v != s.at(r - 1, f); ++pairs; }
            }
        double const m = double(R) * F;
        check_rate(in, m, 0.5, m / 4, "automata of one estimator starting at inclusion");
        total += in;
        cells += m;
    }
    ctx.desc << Tr::name() << " features=" << F << " clauses=" << c.clauses << " states=" << c.states << ", " << n << " seeds";
    check_rate(total, cells, 0.5, cells / 4, "automata starting at inclusion");
    check_rate(alternations, pairs, 0.5, pairs / 4, "neighbouring automata starting differently");
    for (unsigned r = 0; r < R; ++r)
        for (int f = 0; f < F; ++f)
            check_rate(at[std::size_t(r) * F + f], n, 0.5, n / 4., "over seeds, automaton " + std::to_string(r) + ", " + std::to_string(f) + " starting at inclusion");
    ctx.sub_evaluations += n;
    ctx.nontrivial = true;
    ctx.label("initial states");
}

// No stretch of initial states is found again elsewhere, as it is or complemented
template<typename Tr>
void initial_repeats(Tape & t, Ctx & ctx)
{
    Cfg c;
    bool const wide = t.coin();
    int const labels = t.range(2, 4);
    int const F = wide ? t.range(1000, 80000) : t.range(1, 200);
    int const cells = t.range(50000, 600000);
    c.clauses = 4 * std::clamp(cells / F / 4 / (Tr::regressor ? 1 : labels), 1, 20000);
    c.states = t.pick({100, 1, 127, 128, 1000, 32767, 100000});
    c.weighted = t.coin();
    c.tile = gen_tile(t);
    c.n_jobs = gen_jobs(t);
    c.seed = gen_seed(t);
    Rows const x{Row(F, 0), Row(F, 1)};
    auto e = make<Tr>(c);
    fit<Tr>(e, to_data<Tr>(x), Labels{0, Tr::regressor ? 1 : labels - 1}, 0, labels);
    auto const s = e.clone_state();
    int const R = std::visit([](auto const & m){ return int(m.rows()); }, s->ta_state.matrix);
    ctx.desc << Tr::name() << " features=" << F << " rows of automata=" << R << " seed=" << c.seed;
    using Window = unsigned __int128;
    std::vector<std::pair<Window, unsigned>> seen;
    seen.reserve(std::size_t(R) * F);
    Window w = 0;
    unsigned at = 0;
    std::visit([&](auto const & m)
    {
        for (int r = 0; r < R; ++r)
        {
            auto const * p = m.row_data(r);
            for (int f = 0; f < F; ++f)
            {
                w = w << 1 | unsigned(p[f] >= 0);
                if (++at >= 128) seen.emplace_back(w >> 127 ? ~w : w, at - 128);
            }
        }
    }, s->ta_state.matrix);
    std::sort(seen.begin(), seen.end());
    for (std::size_t i = 1; i < seen.size(); ++i)
        PBT_CHECK(seen[i].first != seen[i - 1].first, "128 automata in a row from number " << seen[i - 1].second << " (row " << seen[i - 1].second / F << ") start like the ones from " << seen[i].second
            << " (row " << seen[i].second / F << "), or all unlike them");
    ++ctx.sub_evaluations;
    ctx.nontrivial = seen.size() > 1;
    ctx.label("initial states which do not repeat");
}

// Type I feedback to a clause which does not fire, at numbers of features which reals cannot represent
template<typename Tr>
void many_features(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 2;
    c.states = 100000;
    c.loss = "MAE";
    c.weighted = t.coin();
    c.tile = gen_tile(t);
    c.n_jobs = 1;
    c.seed = unsigned(t.draw(UINT32_MAX));
    c.s = Tr::bitwise ? t.pick({1.f, 1.f, 1.f, 1.5f, 3.f, 1000.f}) : t.pick({1.f, 3.f, 10.f, 1000.f});
    int const size = t.weighted({3, 3, 1});
    int const F = size == 0 ? (1 << 24) + t.range(1, 16) : size == 1 ? t.range(60000, 300000) : t.range(1000, 1 << 24);
    auto e = make<Tr>(c);
    Row x(F, 0);
    auto const X = to_data<Tr>({x});
    fit<Tr>(e, X, {c.T}, 0, 2);
    auto const before = e.clone_state();
    partial_fit<Tr>(e, X, {c.T}, 1);
    auto const after = e.clone_state();
    ctx.desc << Tr::name() << " s=" << c.s << " features=" << F;
    double const want = double(F) / double(c.s), tol = 2 + F * 1e-6;
    for (int side = 0; side < 2; ++side)
    {
        double steps = 0;
        double eighth[8] = {}, residue[8] = {};
        for (int f = 0; f < F; ++f)
        {
            int const d = ta_value(*before, side, f) - ta_value(*after, side, f);
            PBT_CHECK(d >= 0, "automaton of feature " << f << " moved towards inclusion");
            steps += d;
            eighth[int64_t(f) * 8 / F] += d;
            residue[f % 8] += d;
        }
        PBT_CHECK(steps <= F, steps << " literals of " << F << " were touched");
        PBT_CHECK(std::abs(steps - want) <= tol, steps << " literals of " << F << " were touched, expected " << want << " at s=" << c.s);
        // evenly, wherever the feature is
        for (int k = 0; k < 8; ++k)
        {
            double const part = want / 8, off = 8 * std::sqrt(part) + 8;
            PBT_CHECK(std::abs(eighth[k] - part) <= off, eighth[k] << " literals of features within part " << k << " of 8 of " << F << " were touched, expected " << part << " at s=" << c.s);
            PBT_CHECK(std::abs(residue[k] - part) <= off, residue[k] << " literals of features " << k << " modulo 8 of " << F << " were touched, expected " << part << " at s=" << c.s);
        }
    }
    ctx.sub_evaluations += 2;
    ctx.nontrivial = true;
    ctx.label("about 2^24 features and less");
}

// Which of tens of thousands of clauses of a regressor get the updates of a step
template<typename Tr>
void many_clauses(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const n = t.weighted({3, 1}) == 0 ? t.range(66000, 140000) : t.range(1000, 66000);
    c.clauses = 2 * n;
    c.states = INT_MAX;
    c.s = 1e30f;
    bool const up = t.coin();
    c.T = up ? 2 * n : n;
    c.loss = t.pick({"MAE", "MSE"});
    c.box_muller = false;
    c.tile = gen_tile(t);
    c.n_jobs = gen_jobs(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    unsigned const K = unsigned(t.range(4, 12)) * (up ? 2 : 1);
    Bulk b = t.bulk();
    Row const x{1, 0};
    auto e = blank<Tr>(c, 1, 2);
    auto st = e.clone_state();
    // all clauses fire, and a vote of the limit or of its half is wanted to be nothing or the limit
    write_label(*st, 0, n, {n, n}, x, b);
    e = typename Tr::est(*st);
    auto const before = e.clone_state();
    int const y = up ? c.T : 0;
    partial_fit<Tr>(e, to_data<Tr>(Rows{x}), Labels{y}, K);
    auto const after = e.clone_state();
    ctx.desc << Tr::name() << " clauses=" << n << " response " << y << " of " << c.T << ", " << K << " steps";
    double total = 0, part[8] = {}, residue[8] = {}, in_part[8] = {}, in_residue[8] = {}, never = 0;
    for (int j = 0; j < n; ++j)
    {
        unsigned const f = up ? 0 : 1;
        double const d = double(ta_value(*after, 2 * unsigned(j), f)) - ta_value(*before, 2 * unsigned(j), f);
        PBT_CHECK(d >= 0, "clause " << j << " counted " << d);
        int const k = int(int64_t(j) * 8 / n);
        total += d;
        part[k] += d;
        residue[j % 8] += d;
        ++in_part[k];
        ++in_residue[j % 8];
        never += d == 0;
    }
    ctx.desc << ", " << total << " updates";
    for (int k = 0; k < 8; ++k)
    {
        double const p = in_part[k] / n, q = in_residue[k] / n;
        check_rate(part[k], total, p, total * p * (1 - p), "updates of clauses within part " + std::to_string(k) + " of 8 of " + std::to_string(n));
        check_rate(residue[k], total, q, total * q * (1 - q), "updates of clauses " + std::to_string(k) + " modulo 8 of " + std::to_string(n));
    }
    // as many clauses are left out as by independent picks
    double const out = std::exp(total * std::log1p(-1. / n));
    check_rate(never, n, out, n * out * (1 - out), "clauses which got no update");
    ctx.sub_evaluations += 16;
    ctx.nontrivial = true;
    ctx.label("updates among many clauses");
}

// Spread of the random number of updates of a regressor with thousands of clauses
template<typename Tr>
void many_clauses_spread(Tape & t, Ctx & ctx)
{
    Cfg c;
    int const n = t.weighted({3, 1}) == 0 ? t.range(200, 20000) : t.range(20000, 80000);
    c.clauses = 2 * n;
    c.states = INT_MAX;
    c.s = 1e30f;
    bool const up = t.coin();
    c.T = up ? 2 * n : n + t.range(0, n);
    c.loss = t.pick({"MAE", "MSE"});
    c.box_muller = true;
    c.tile = gen_tile(t);
    c.n_jobs = 1;
    c.seed = unsigned(t.draw(UINT32_MAX));
    Bulk b = t.bulk();
    Row const x{1, 0};
    auto e = blank<Tr>(c, 1, 2);
    auto st = e.clone_state();
    write_label(*st, 0, n, {n, n}, x, b);
    e = typename Tr::est(*st);
    int const y = up ? c.T : c.T / 4;
    double const a = std::abs(double(n) - y) / c.T, P = c.loss == "MSE" ? a * a : a, NP = n * P, sd = std::sqrt(NP * (1 - P));
    auto const X = to_data<Tr>(Rows{x});
    auto sum = [&]
    {
        auto const s = e.clone_state();
        double r = 0;
        for (int j = 0; j < n; ++j) r += ta_value(*s, 2 * unsigned(j), n < y ? 0 : 1);
        return r;
    };
    int const M = 300;
    double last = sum(), s1 = 0, s2 = 0;
    for (int k = 0; k < M; ++k)
    {
        partial_fit<Tr>(e, X, {y}, 1);
        double const now = sum(), d = now - last;
        last = now;
        PBT_CHECK(d >= 0 && d <= n, "one step made " << d << " updates of " << n << " clauses");
        s1 += d - NP;
        s2 += (d - NP) * (d - NP);
    }
    ctx.desc << Tr::name() << " clauses=" << n << " response " << y << " of " << c.T << " loss=" << c.loss << ", mean of " << M << " steps off by " << s1 / M << ", deviation " << std::sqrt(s2 / M) << " for " << sd;
    if (NP - 4 * sd < 0 || NP + 4 * sd > n) return;
    // mean and variance of as many normal variables, six or more deviations away
    PBT_CHECK(std::abs(s1 / M) <= 0.1 + 0.06 * sd + 8 * sd / std::sqrt(M), "random number of updates averages " << NP + s1 / M << ", expected " << NP << " (" << n << " clauses at loss " << P << ")");
    double const var = (s2 - s1 * s1 / M) / (M - 1);
    PBT_CHECK(var > 0.45 * sd * sd && var < 1.8 * sd * sd, "random number of updates has variance " << var << " in " << M << " steps, expected about " << sd * sd << " (" << n << " clauses at loss " << P << ")");
    ctx.sub_evaluations += 2;
    ctx.nontrivial = true;
    ctx.label("spread of the random count, many clauses");
}

void run(Tape & t, Ctx & ctx)
{
    if (t.chance(1, 500))
    {
        if (t.chance(3, 4)) many_features<RB>(t, ctx); else many_features<RC>(t, ctx);
        return;
    }
    if (t.chance(1, 60))
    {
        if (t.coin()) many_labels<CB>(t, ctx); else many_labels<CC>(t, ctx);
        return;
    }
    if (t.chance(1, 100))
    {
        if (t.coin()) many_clauses_spread<RB>(t, ctx); else many_clauses_spread<RC>(t, ctx);
        return;
    }
    if (t.chance(1, 60))
    {
        for_kind(t.range(0, 3), [&](auto tr){ initial_repeats<decltype(tr)>(t, ctx); });
        return;
    }
    if (t.chance(1, 40))
    {
        if (t.coin()) many_clauses<RB>(t, ctx); else many_clauses<RC>(t, ctx);
        return;
    }
    int const kind = t.weighted({4, 4, 4, 1, 1});
    bool const bitwise = t.coin();
    switch (kind)
    {
        case 0: if (bitwise) clause_rates<CB>(t, ctx); else clause_rates<CC>(t, ctx); break;
        case 1: for_kind(t.range(0, 1) * 2 + bitwise, [&](auto tr){ literal_rates<decltype(tr)>(t, ctx); }); break;
        case 2: if (bitwise) regressor_rates<RB>(t, ctx); else regressor_rates<RC>(t, ctx); break;
        case 4: for_kind(t.range(0, 1) * 2 + bitwise, [&](auto tr){ initial_states<decltype(tr)>(t, ctx); }); break;
        default: if (bitwise) seed_rates<CB>(t, ctx); else seed_rates<CC>(t, ctx); break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C13", run, 5000, 100000, 8, 120,
        "distinct configurations in which some rate lies strictly between 0 and 1 and its count was compared with the expected one",
        {"counts are compared with expected ones using Bernstein bounds exceeded with probability below 2e-13 per comparison; rates off by less than roughly 2% escape",
         "draws of different steps and clauses are taken as independent",
         "the normal-approximated count may deviate from the binomial mean by 0.1 + 0.06 standard deviations"}};
    return p;
}
