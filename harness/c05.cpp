// C05: epochs compose, and each epoch presents every row once, in a random order.
#include "tsm.hpp"

#include <set>

#include <cmath>
#include <numeric>

using namespace tsm;

namespace {

template<typename Tr>
void same(typename Tr::est const & a, typename Tr::est const & b, data_t<Tr> const & X, char const * what)
{
    auto const d = diff(snap_of<Tr>(a), snap_of<Tr>(b));
    PBT_CHECK(d.empty(), what << ": " << d);
    PBT_CHECK(answers<Tr>(a, X) == answers<Tr>(b, X), what << ": answers differ");
}

template<typename Tr>
Cfg gen_cfg(Tape & t)
{
    Cfg c;
    c.clauses = (Tr::regressor ? 2 : 4) * t.range(1, 5);
    c.states = t.pick({100, 1, 3, 127, 128});
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f, 1e6f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 3});
    c.boost = t.coin();
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.tile = gen_tile(t);
    c.seed = unsigned(t.draw(UINT32_MAX));
    if (Tr::regressor) { c.box_muller = t.coin(); c.loss = t.pick({"MSE", "MAE", "L1+2"}); c.C1 = 0.5f; }
    return c;
}

template<typename Tr>
void fit_default(typename Tr::est & e, data_t<Tr> const & X, Labels const & y, bool partial, int max_labels)
{
    if constexpr (Tr::regressor) expect_ok(partial ? e.partial_fit(X, y) : e.fit(X, y), "fit with default epochs");
    else expect_ok(partial ? e.partial_fit(X, y, max_number_of_labels_t{max_labels}) : e.fit(X, y, max_number_of_labels_t{max_labels}), "fit with default epochs");
}

// n epochs at once, or in parts
template<typename Tr>
void composition(Tape & t, Ctx & ctx)
{
    auto cfg = gen_cfg<Tr>(t);
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Rows, Big::Features, Big::Epochs});
    if (big == Big::Clauses) cfg.clauses = (Tr::regressor ? 2 : 4) * big_units(t);
    if (big == Big::Labels) cfg.clauses = 4;
    int const labels = Tr::regressor ? 1 : big == Big::Labels ? big_labels(t) : t.range(2, 5);
    int const F = big == Big::Features ? big_features(t, Tr::bitwise) : t.pick({1, 2, 7, 20, 63, 64, 65, 100});
    int const n = big == Big::Rows ? big_rows(t) : t.range(2, 14);
    int const parts = t.range(1, big == Big::None ? 5 : 3);
    std::vector<unsigned> split;
    for (int i = 0; i < parts; ++i) split.push_back(big == Big::Epochs ? big_epochs(t) : unsigned(t.range(0, big == Big::None ? 6 : 2)));
    if (big != Big::None) ctx.label("one large dimension");
    bool const first_partial = t.coin();
    int const max_labels = t.pick({0, 3, 6});
    int const other = big == Big::None || big == Big::Epochs ? t.weighted({3, 1, 1}) : 0;
    Bulk b = t.bulk();
    auto const X = to_data<Tr>(gen_rows(b, n, F));
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(labels))));
    if (!Tr::regressor) y[0] = labels - 1;
    unsigned const total = std::accumulate(split.begin(), split.end(), 0u);

    ctx.desc << Tr::name() << " " << cfg.str(Tr::regressor) << " labels=" << labels << " features=" << F << " rows=" << n << " epochs " << list_str(split);

    auto whole = make<Tr>(cfg);
    fit<Tr>(whole, X, y, total, max_labels);
    auto pieces = make<Tr>(cfg);
    for (int i = 0; i < parts; ++i)
    {
        if (i == 0 && !first_partial) fit<Tr>(pieces, X, y, split[0], max_labels);
        else partial_fit<Tr>(pieces, X, y, split[i], max_labels);
    }
    same<Tr>(whole, pieces, X, "epochs in parts");

    // zero epochs of partial_fit change nothing, with any acceptable data
    {
        auto const before = snap_of<Tr>(whole);
        auto const X2 = to_data<Tr>(gen_rows(b, 3, F));
        Labels y2 = {0, 0, Tr::regressor ? cfg.T : labels - 1};
        partial_fit<Tr>(whole, X2, y2, 0);
        auto const d = diff(before, snap_of<Tr>(whole));
        PBT_CHECK(d.empty(), "partial_fit for zero epochs changed the state: " << d);
    }
    // partial_fit of an untrained estimator is fit
    if (other == 0)
    {
        auto f = make<Tr>(cfg), p = make<Tr>(cfg);
        fit<Tr>(f, X, y, total, max_labels);
        partial_fit<Tr>(p, X, y, total, max_labels);
        same<Tr>(f, p, X, "partial_fit of an untrained estimator");
    }
    // no epochs given: 100 of them
    if (other == 1)
    {
        auto d = make<Tr>(cfg), e = make<Tr>(cfg);
        bool const p = b.below(2);
        fit_default<Tr>(d, X, y, p, max_labels);
        fit<Tr>(e, X, y, 100, max_labels);
        same<Tr>(d, e, X, "default number of epochs");
        fit_default<Tr>(d, X, y, true, max_labels);
        partial_fit<Tr>(e, X, y, 100, max_labels);
        same<Tr>(d, e, X, "default number of epochs of partial_fit");
        ctx.label("default number of epochs");
    }
    // order of optional arguments
    if constexpr (!Tr::regressor)
    {
        auto p = make<Tr>(cfg), q = make<Tr>(cfg);
        expect_ok(p.fit(X, y, max_number_of_labels_t{max_labels}, number_of_epochs_t{total}), "fit");
        expect_ok(q.fit(X, y, number_of_epochs_t{total}, max_number_of_labels_t{max_labels}), "fit");
        same<Tr>(p, q, X, "order of arguments of fit");
        expect_ok(p.partial_fit(X, y, max_number_of_labels_t{labels}, number_of_epochs_t{3}), "partial_fit");
        expect_ok(q.partial_fit(X, y, number_of_epochs_t{3}, max_number_of_labels_t{labels}), "partial_fit");
        same<Tr>(p, q, X, "order of arguments of partial_fit");
    }
    int const nz = int(std::count_if(split.begin(), split.end(), [](unsigned v){ return v > 0; }));
    ctx.nontrivial = nz >= 2;
    ctx.sub_evaluations = 3;
    ctx.label("composition");
}

// Thousands of epochs in one call, a small estimator
template<typename Tr>
void many_epochs(Tape & t, Ctx & ctx)
{
    auto cfg = gen_cfg<Tr>(t);
    cfg.clauses = Tr::regressor ? 2 : 4;
    cfg.n_jobs = 1;
    int const labels = Tr::regressor ? 1 : 2, F = t.range(1, 3), n = t.range(2, 3);
    unsigned const base = t.pick({255u, 256u, 511u, 512u, 1000u, 1023u, 1024u, 2048u, 4096u, 8192u, 10000u, 16384u, 32767u, 32768u, 65535u, 65536u});
    unsigned const total = t.coin() ? base + unsigned(t.range(0, 3)) : unsigned(t.range(300, 20000));
    // parts of modest size
    unsigned const part = t.pick({100u, 97u, 128u, 250u});
    Bulk b = t.bulk();
    auto const X = to_data<Tr>(gen_rows(b, n, F));
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(labels))));
    ctx.desc << Tr::name() << " " << cfg.str(Tr::regressor) << " features=" << F << " rows=" << n << " epochs " << total << " in parts of " << part;
    auto whole = make<Tr>(cfg), pieces = make<Tr>(cfg);
    fit<Tr>(whole, X, y, total, labels);
    for (unsigned done = 0; done < total; done += part) partial_fit<Tr>(pieces, X, y, std::min(part, total - done), labels);
    same<Tr>(whole, pieces, X, "thousands of epochs in parts");
    partial_fit<Tr>(whole, X, y, 1, labels);
    partial_fit<Tr>(pieces, X, y, 1, labels);
    same<Tr>(whole, pieces, X, "one more epoch");
    ctx.nontrivial = true;
    ctx.label("hundreds or thousands of epochs");
}

// Rows to look at: all of them, or ones about limits of types and some more
std::vector<int> marks(int n, int all, Bulk b)
{
    std::set<int> m;
    if (n <= all) for (int i = 0; i < n; ++i) m.insert(i);
    else
    {
        m = {0, n - 1, n / 2};
        for (int at : {255, 256, 1023, 1024, 32767, 32768, 65535, 65536}) if (at < n) m.insert(at);
        while (m.size() < 40) m.insert(int(b.below(uint64_t(n))));
    }
    return {m.begin(), m.end()};
}

// Every row is counted by the weight of a clause of its own which fires for it
// alone; opposing clauses hold the vote at -T, so that all clauses of the row's
// label get feedback and those of the other one get none.
template<typename Tr>
void visits_classifier(Tape & t, Ctx & ctx)
{
    int const labels = t.range(2, 4);
    Big const big = gen_big(t, {Big::Rows, Big::Epochs});
    bool const huge = big == Big::Rows && t.chance(1, 15);
    int const n = big == Big::Rows ? huge ? huge_size(t) : t.pick({30, 63, 64, 65, 127, 128, 129, 200}) : t.range(1, 12);
    unsigned const epochs = big == Big::Epochs ? big_epochs(t) : unsigned(t.range(1, huge ? 2 : 5));
    int const calls = t.range(1, huge ? 2 : 3);
    // marked rows have a feature of their own, further ones are alike
    std::vector<int> const marked = marks(n, 200, t.bulk());
    int const F = int(marked.size());
    Cfg cfg;
    cfg.clauses = 4 * (F + t.range(0, 2)); // outputs per label: half of it, and half of these support
    cfg.states = 1000000;
    cfg.s = 1e30f;
    cfg.T = t.range(1, 30);
    cfg.weighted = true;
    cfg.boost = t.coin();
    cfg.n_jobs = t.pick({1, 2});
    cfg.seed = unsigned(t.draw(UINT32_MAX));
    Bulk b = t.bulk();
    int const dup = t.range(0, 3); // repeated rows at the end

    Rows X(n, Row(F, 0));
    Labels y;
    for (int f = 0; f < F; ++f) X[marked[f]][f] = 1;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(labels)));
    std::vector<int> expected(F, 1);
    for (int i = 0; i < dup; ++i)
    {
        auto const f = b.below(F);
        X.push_back(X[marked[f]]);
        y.push_back(y[marked[f]]);
        ++expected[f];
    }
    ctx.desc << Tr::name() << " " << cfg.str(false) << " visits: rows=" << X.size() << " labels of rows " << list_str(y) << " epochs=" << epochs << " calls=" << calls;

    auto st = blank<Tr>(cfg, labels, F).clone_state();
    int const per = clauses_of(snap(*st, false)) / labels;
    int const N = cfg.states;
    std::vector<unsigned> counter(F);
    std::vector<int> used(labels, 0);
    for (int j = 0; j < per * labels; ++j)
    {
        for (int f = 0; f < F; ++f) { set_ta(*st, 2 * j, f, -N); set_ta(*st, 2 * j + 1, f, -N); }
        st->ta_state.weights.at(j) = j % 2 ? 1000000 : 0;
    }
    for (int f = 0; f < F; ++f)
    {
        int const label = y[marked[f]];
        int const j = label * per + 2 * used[label]++;
        counter[f] = unsigned(j);
        set_ta(*st, 2 * j, f, 0);
    }
    for (int l = 0; l < labels; ++l)
    {
        // unused supporting clauses never fire: literal contradicts itself
        for (int k = used[l]; 2 * k < per; ++k)
        {
            set_ta(*st, 2 * (l * per + 2 * k), 0, 0);
            set_ta(*st, 2 * (l * per + 2 * k) + 1, 0, 0);
        }
    }
    typename Tr::est e(*st);
    for (int c = 0; c < calls; ++c) partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    auto const s = snap_of<Tr>(e, false);
    for (int f = 0; f < F; ++f)
    {
        int64_t const got = s.weights.at(counter[f]);
        PBT_CHECK(got == int64_t(expected[f]) * epochs * calls, "row " << marked[f] << " with label " << y[marked[f]] << " was presented " << got << " times in "
            << epochs * calls << " epochs, it is " << expected[f] << " times in the data");
    }
    ctx.nontrivial = n > 1;
    ctx.label("visits of rows, classifier");
    if (huge) ctx.label("about 32768 or 65536 rows");
}

// One clause, which always fires and whose automata count rows of each feature
template<typename Tr>
void visits_regressor(Tape & t, Ctx & ctx)
{
    Big const big = gen_big(t, {Big::Rows, Big::Epochs});
    bool const huge = big == Big::Rows && t.chance(1, 15);
    int const n = big == Big::Rows ? huge ? huge_size(t) : big_rows(t) : t.range(1, 12);
    unsigned const epochs = big == Big::Epochs ? big_epochs(t) : unsigned(t.range(1, huge ? 2 : 6));
    int const calls = t.range(1, huge ? 2 : 3);
    bool const mixed = t.coin();
    Cfg cfg;
    cfg.clauses = 2;
    cfg.states = 1000000;
    cfg.s = 1e30f;
    cfg.T = mixed ? 1 : t.range(3, 50);
    cfg.weighted = false;
    cfg.boost = true;
    cfg.loss = t.pick({"MAE", "L1"});
    cfg.n_jobs = t.pick({1, 2});
    cfg.seed = unsigned(t.draw(UINT32_MAX));
    Bulk b = t.bulk();
    Rows X;
    Labels y;
    int zeros = 0;
    // marked rows have a feature of their own, all other ones are alike
    std::vector<int> const marked = marks(n, 64, t.bulk());
    int const F = int(marked.size());
    std::vector<int> feature(n, -1);
    for (int f = 0; f < F; ++f) feature[marked[f]] = f;
    for (int i = 0; i < n; ++i)
    {
        Row r(F, 0);
        if (feature[i] >= 0) r[feature[i]] = 1;
        X.push_back(r);
        y.push_back(mixed ? int(b.below(2)) : cfg.T);
        zeros += y.back() == 0;
    }
    ctx.desc << Tr::name() << " " << cfg.str(true) << " visits: rows=" << n << " responses " << list_str(y) << " epochs=" << epochs << " calls=" << calls;
    auto st = blank<Tr>(cfg, 1, F).clone_state();
    int const base = -500000;
    for (int f = 0; f < F; ++f) { set_ta(*st, 0, f, base); set_ta(*st, 1, f, base); }
    typename Tr::est e(*st);
    for (int c = 0; c < calls; ++c) partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    auto const s = snap_of<Tr>(e, false);
    int const E = int(epochs) * calls;
    for (int f = 0; f < F; ++f)
    {
        int const i = marked[f];
        int pos, neg;
        if (mixed)
        {
            // Type II for rows of response 0: excluded false literals
            pos = E * (zeros - (y[i] == 0));
            neg = E * (y[i] == 0);
        }
        else
        {
            // Type I for all rows: true literals only, as no literal is dropped
            pos = E;
            neg = E * (n - 1);
        }
        PBT_CHECK(s.at(0, f) - base == pos && s.at(1, f) - base == neg, "automata of the feature of row " << i << " moved by " << s.at(0, f) - base << " and " << s.at(1, f) - base
            << ", presenting each row once per epoch moves them by " << pos << " and " << neg);
    }
    ctx.nontrivial = n > 1;
    ctx.label("visits of rows, regressor");
    if (huge) ctx.label("about 32768 or 65536 rows");
}

// The only clause which can learn starts empty and copies the first row presented
// to it, after which it fires for no other row: this row is read back.
template<typename Tr>
int first_row(typename Tr::state const & fresh, IRNG & igen, FRNG & fgen, Cfg const & cfg, data_t<Tr> const & X, Labels const & y, unsigned epochs, int n)
{
    auto st = fresh;
    st.igen = igen;
    st.fgen = fgen;
    typename Tr::est e(st);
    partial_fit<Tr>(e, X, y, epochs);
    auto out = e.clone_state();
    igen = out->igen;
    fgen = out->fgen;
    auto const s = snap(*out, false);
    int row = -1;
    for (int f = 0; f < n; ++f)
    {
        if (s.at(0, f) >= 0) row = row == -1 ? f : -2;
    }
    PBT_CHECK(row >= 0, "clause did not learn exactly one of the rows");
    return row;
}

double chi2_bound(int dof)
{
    // far beyond 1e-9 for the degrees of freedom used here
    return dof + 7 * std::sqrt(2.0 * dof) + 40;
}

template<typename Tr>
void order(Tape & t, Ctx & ctx)
{
    int const n = t.range(2, 6);
    Cfg cfg;
    cfg.states = 1;
    cfg.s = 1e30f;
    cfg.T = 1000;
    cfg.boost = true;
    cfg.n_jobs = 1;
    if (Tr::regressor) { cfg.clauses = 2; cfg.weighted = false; cfg.loss = "MAE"; }
    else { cfg.clauses = 4; cfg.weighted = true; }
    unsigned const epochs = unsigned(t.range(1, 3));
    cfg.seed = unsigned(t.draw(UINT32_MAX));
    ctx.desc << Tr::name() << " order of rows: rows=" << n << " epochs=" << epochs << " seed=" << cfg.seed;
    Rows X;
    Labels y;
    for (int i = 0; i < n; ++i) { Row r(n, 0); r[i] = 1; X.push_back(r); y.push_back(Tr::regressor ? cfg.T : 0); }
    auto const data = to_data<Tr>(X);

    auto st = blank<Tr>(cfg, 2, n).clone_state();
    unsigned const rows = snap(*st, false).rows;
    for (unsigned r = 0; r < rows; ++r) for (int f = 0; f < n; ++f) set_ta(*st, r, f, -1);
    if constexpr (!Tr::regressor)
    {
        // opposing clause of the label: contradicts nothing, so it always fires while empty,
        // and is kept from learning by including both literals of nothing
        for (auto & w : st->ta_state.weights) w = 0;
        st->ta_state.weights.at(1) = 1000000000;
    }
    IRNG ig = st->igen;
    FRNG fg = st->fgen;
    int const K = 600;
    std::vector<int> first(n, 0);
    std::vector<int> pair(n * n, 0);
    int prev = -1;
    for (int k = 0; k < K; ++k)
    {
        int const r = first_row<Tr>(*st, ig, fg, cfg, data, y, epochs, n);
        ++first[r];
        if (prev >= 0) ++pair[prev * n + r];
        prev = r;
        ++ctx.sub_evaluations;
    }
    double c1 = 0, c2 = 0;
    for (int v : first) c1 += (v - double(K) / n) * (v - double(K) / n) / (double(K) / n);
    for (int v : pair) c2 += (v - double(K - 1) / (n * n)) * (v - double(K - 1) / (n * n)) / (double(K - 1) / (n * n));
    PBT_CHECK(c1 < chi2_bound(n - 1), "first rows of " << K << " trainings are not spread evenly: " << list_str(first) << ", chi-square " << c1);
    PBT_CHECK(c2 < chi2_bound(n * n - 1), "first rows of successive trainings are not independent: " << list_str(pair) << ", chi-square " << c2);
    ctx.nontrivial = true;
    ctx.label("order of rows");
}

// The same for longer data, in which rows are numbered by their bits: without forgetting (s without limit)
// the clause keeps the first row it was given, while at s=1 it copies rows and forgets them by the next ones,
// which leaves one of the last. If the rows are all patterns of their bits then they are alike for it, so that
// any of them is as likely.
template<typename Tr>
void long_order(Tape & t, Ctx & ctx)
{
    bool const last = t.coin();
    int const n = last ? 1 << t.range(7, 16) : t.pick({101, 1001, 4097, 5001, 10001, 33001, 66001}) + t.range(0, 40);
    Cfg cfg;
    cfg.states = 1;
    cfg.s = last ? 1.f : 1e30f;
    cfg.T = 1000;
    cfg.boost = true;
    cfg.n_jobs = 1;
    cfg.tile = gen_tile(t);
    cfg.weighted = false;
    if (Tr::regressor) { cfg.clauses = 2; cfg.loss = "MAE"; }
    else cfg.clauses = 4;
    cfg.seed = unsigned(t.draw(UINT32_MAX));
    unsigned const epochs = n < 2000 ? t.pick({1u, 2u}) : 1;
    int const K = std::min(600, std::max(60, 3000000 / n));
    int F = 1;
    while (1 << F < n) ++F;
    ctx.desc << Tr::name() << " order of rows: rows=" << n << " epochs=" << epochs << " seed=" << cfg.seed << (last ? ", last ones" : ", first ones");
    Rows X;
    Labels const y(n, !Tr::regressor ? 0 : last ? 400 : cfg.T);
    for (int i = 0; i < n; ++i)
    {
        Row r(F);
        for (int f = 0; f < F; ++f) r[f] = i >> f & 1;
        X.push_back(r);
    }
    auto const data = to_data<Tr>(X);
    auto st = blank<Tr>(cfg, 2, F).clone_state();
    unsigned const rows = snap(*st, false).rows;
    for (unsigned r = 0; r < rows; ++r) for (int f = 0; f < F; ++f) set_ta(*st, r, f, -1);
    IRNG ig = st->igen;
    FRNG fg = st->fgen;
    std::vector<int> seen;
    int residue[8] = {};
    for (int k = 0; k < K; ++k)
    {
        auto from = *st;
        from.igen = ig;
        from.fgen = fg;
        typename Tr::est e(from);
        partial_fit<Tr>(e, data, y, epochs);
        auto out = e.clone_state();
        ig = out->igen;
        fg = out->fgen;
        auto const s = snap(*out, false);
        int row = 0, pos = 0, neg = 0;
        for (int f = 0; f < F; ++f)
        {
            if (s.at(0, f) >= 0) { ++pos; row |= 1 << f; }
            if (s.at(1, f) >= 0) ++neg;
        }
        if (last && pos + neg != F) continue;
        PBT_CHECK(pos + neg == F && row < n, "clause includes " << pos << " + " << neg << " literals of " << F << " features, which is no row");
        seen.push_back(row);
        ++residue[row % 8];
    }
    ctx.sub_evaluations += seen.size();
    double const m = double(seen.size());
    PBT_CHECK(m >= K / 8, "clause learned a row in only " << m << " of " << K << " trainings");
    std::sort(seen.begin(), seen.end());
    double D = 0, c = 0;
    for (std::size_t i = 0; i < seen.size(); ++i)
        D = std::max({D, std::abs((seen[i] + 1.0) / n - i / m), std::abs((i + 1) / m - double(seen[i]) / n)});
    for (int v : residue) c += (v - m / 8) * (v - m / 8) / (m / 8);
    // exceeded with probability below 2e-13
    PBT_CHECK(D <= std::sqrt(16 / m) + 1. / n, (last ? "last" : "first") << " rows of " << m << " trainings are not spread evenly: distance " << D);
    PBT_CHECK(c < chi2_bound(7), (last ? "last" : "first") << " rows of " << m << " trainings modulo 8 are not spread evenly: chi-square " << c);
    ctx.nontrivial = true;
    ctx.label("order of long data");
}

void run(Tape & t, Ctx & ctx)
{
    switch (t.weighted({2000, 1200, 1200, 100, 10, 8}))
    {
        case 5: for_kind(t.range(0, 3), [&](auto tr){ long_order<decltype(tr)>(t, ctx); }); break;
        case 4: for_kind(t.range(0, 3), [&](auto tr){ many_epochs<decltype(tr)>(t, ctx); }); break;
        case 0: for_kind(t.range(0, 3), [&](auto tr){ composition<decltype(tr)>(t, ctx); }); break;
        case 1: if (t.coin()) visits_classifier<CB>(t, ctx); else visits_classifier<CC>(t, ctx); break;
        case 2: if (t.coin()) visits_regressor<RB>(t, ctx); else visits_regressor<RC>(t, ctx); break;
        default: for_kind(t.range(0, 3), [&](auto tr){ order<decltype(tr)>(t, ctx); }); break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C05", run, 40000, 800000, 8, 120,
        "distinct cases with at least two non-empty parts of the training (composition), or at least two rows (visit counts and order)",
        {"visit counts are read from weights and automata of crafted clauses at s=1e30, where no literal is dropped at random",
         "evenness of the order is judged by chi-square and Kolmogorov-Smirnov statistics, bounds far beyond 1e-9"}};
    return p;
}
