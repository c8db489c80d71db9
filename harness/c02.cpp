// C02: predictions, batches and accuracy agree with decision values.
#include "tsm.hpp"

#include <cmath>

using namespace tsm;

namespace {

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg cfg;
    cfg.tile = gen_tile(t);
    cfg.n_jobs = gen_jobs(t);
    cfg.weighted = t.coin();
    cfg.states = t.pick({100, 1, 5, 200});
    cfg.T = t.pick({15, 1, 3, 100});
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Rows, Big::Features});
    bool const huge = (big == Big::Rows || big == Big::Labels) && gen_huge(t, big, 15);
    cfg.clauses = (Tr::regressor ? 2 : 4) * (huge ? 1 : big == Big::Clauses ? big_units(t) : big == Big::Labels ? 1 : t.range(1, 6));
    cfg.seed = 1 + unsigned(t.draw(1000)) * 16;
    int const labels = Tr::regressor ? 1 : big == Big::Labels ? huge ? huge_size(t) : big_labels(t) : huge ? 2 : t.range(2, 7);
    int const F = huge ? t.range(1, 4) : big == Big::Features ? big_features(t, Tr::bitwise) : gen_features(t, big == Big::None ? 200 : 40, cfg.tile, Tr::bitwise);
    int const n = big == Big::Rows ? huge ? huge_size(t) : big_rows(t) : big == Big::None ? t.pick({1, 2, 3, 7, 20, 45}) : t.pick({1, 2, 3, 7});
    bool const trained = t.coin();
    Bulk b = t.bulk();

    ctx.desc << Tr::name() << " " << cfg.str(Tr::regressor) << " labels=" << labels << " features=" << F << " rows=" << n << (trained ? " trained" : " crafted");

    Rows X = gen_rows(b, n, F);
    for (int i = 1; i < n; ++i) if (b.below(5) == 0) X[i] = X[b.below(i)]; // repeated rows
    auto st = blank<Tr>(cfg, labels, F).clone_state();
    if (trained)
    {
        typename Tr::est e(*st);
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(labels))));
        partial_fit<Tr>(e, to_data<Tr>(X), y, 1 + unsigned(b.below(huge ? 2 : 20)));
        st = e.clone_state();
    }
    else
    {
        unsigned const nclauses = snap(*st, false).rows / 2;
        // only the clauses of labels from this one on are ever active
        unsigned const active = labels > 8 && b.below(2) ? unsigned(labels - 1 - int(b.below(6))) : 0;
        for (unsigned j = 0; j < nclauses; ++j)
        {
            Row inc[2];
            if (j / (nclauses / labels) < active) { inc[0] = inc[1] = Row(F, 0); write_clause(*st, j, inc, b, cfg.states); continue; }
            craft_clause(b, Craft(b.below(uint64_t(Craft::COUNT))), X[b.below(n)], inc);
            write_clause(*st, j, inc, b, cfg.states);
            if (cfg.weighted) st->ta_state.weights.at(j) = uint32_t(b.below(5));
        }
    }
    typename Tr::est const e(*st);
    auto const data = to_data<Tr>(X);
    auto const before = data;

    // asked one by one, in a shuffled order with repetitions
    std::vector<int> single(n, -1);
    std::vector<std::vector<int>> single_dec(n);
    int const asks = huge ? std::min(n, 40) : 2 * n + 2;
    for (int k = 0; k < asks; ++k)
    {
        int const i = k < n ? (k * 7 + int(b.seed % 5)) % n : int(b.below(n));
        int const p = ok(e.predict(data[i]), "predict");
        PBT_CHECK(single[i] == -1 || single[i] == p, "prediction of the same sample changed from " << single[i] << " to " << p);
        single[i] = p;
        if constexpr (!Tr::regressor)
        {
            auto const d = ok(e.decision_function(data[i]), "decision_function");
            std::vector<int> v(d.begin(), d.end());
            PBT_CHECK(int(v.size()) == labels, "decision values of " << v.size() << " labels, expected " << labels);
            PBT_CHECK(single_dec[i].empty() || single_dec[i] == v, "decision values of the same sample changed");
            single_dec[i] = v;
            PBT_CHECK(p == argmax(v), "predicted label " << p << " is not the first maximum of [" << list_str(v) << "]");
        }
        else
        {
            PBT_CHECK(p >= 0 && p <= cfg.T, "response " << p << " outside [0, " << cfg.T << "]");
        }
        // interleaved batch of another composition
        if (b.below(6) == 0)
        {
            data_t<Tr> sub;
            for (int q = int(b.below(4)); q >= 0; --q) sub.push_back(data[b.below(n)]);
            (void)ok(e.predict(sub), "predict");
        }
        ++ctx.sub_evaluations;
    }
    for (int i = 0; i < n; ++i)
    {
        if (single[i] != -1) continue;
        single[i] = ok(e.predict(data[i]), "predict");
        if constexpr (!Tr::regressor)
        {
            auto const d = ok(e.decision_function(data[i]), "decision_function");
            single_dec[i].assign(d.begin(), d.end());
        }
    }

    auto const batch = ok(e.predict(data), "predict");
    PBT_CHECK(std::vector<int>(batch.begin(), batch.end()) == single, "batch prediction [" << list_str(batch) << "] differs from single ones [" << list_str(single) << "]");
    auto const again = ok(e.predict(data), "predict");
    PBT_CHECK(again == batch, "repeated batch prediction differs");

    // one sample object and one batch object, given other contents in place
    {
        auto place = data[0];
        int last = -1;
        for (int k = 0; k < std::min(n, 12); ++k)
        {
            int const i = int(b.below(n));
            place = data[i];
            if constexpr (!Tr::regressor) if (b.below(2))
            {
                auto const d = ok(e.decision_function(place), "decision_function");
                PBT_CHECK(std::vector<int>(d.begin(), d.end()) == single_dec[i], "decision values of a sample object which held another sample before");
            }
            int const p = ok(e.predict(place), "predict");
            PBT_CHECK(p == single[i], "prediction " << p << " for a sample object which held another sample before" << (last >= 0 ? ", whose answer was " + std::to_string(last) : std::string()) << ", expected " << single[i]);
            last = p;
        }
        auto places = data;
        for (int k = 0; k < 2; ++k)
        {
            std::vector<int> want(n);
            for (int i = 0; i < n; ++i) { int const j = k == 0 && n > 1 ? (i + 1) % n : int(b.below(n)); places[i] = data[j]; want[i] = single[j]; }
            auto const r = ok(e.predict(places), "predict");
            PBT_CHECK(std::vector<int>(r.begin(), r.end()) == want, "batch prediction [" << list_str(r) << "] for a batch object which held other rows before, expected [" << list_str(want) << "]");
            if constexpr (!Tr::regressor)
            {
                double const acc = ok(e.evaluate(places, Labels(want.begin(), want.end())), "evaluate");
                PBT_CHECK(std::fabs(acc - 1) < 1e-5, "accuracy " << acc << " for a batch object which held other rows before, with all labels matching");
            }
        }
    }

    bool distinct_rows = false, tie = false;
    if constexpr (!Tr::regressor)
    {
        auto const dec = ok(e.decision_function(data), "decision_function");
        PBT_CHECK(int(dec.size()) == n, "decision values for " << dec.size() << " rows of " << n);
        for (int i = 0; i < n; ++i)
        {
            std::vector<int> v(dec[i].begin(), dec[i].end());
            PBT_CHECK(v == single_dec[i], "row " << i << " of batch decision values [" << list_str(v) << "], alone [" << list_str(single_dec[i]) << "]");
            distinct_rows = distinct_rows || v != single_dec[0];
            auto m = *std::max_element(v.begin(), v.end());
            if (std::count(v.begin(), v.end(), m) > 1) tie = true;
        }
        // accuracy for several labellings, including labels the estimator has never seen
        for (int k = 0; k < 5; ++k)
        {
            Labels y;
            int right = 0;
            for (int i = 0; i < n; ++i)
            {
                int const v = k == 0 ? single[i] : k == 1 ? (b.below(2) ? single[i] : int(b.below(labels))) : k == 2 ? int(b.below(labels)) : k == 3 ? int(b.below(labels + 3)) : single[i] + 1; // all of them wrong
                y.push_back(v);
                right += v == single[i];
            }
            double const acc = ok(e.evaluate(data, y), "evaluate");
            PBT_CHECK(std::fabs(acc - double(right) / n) < 1e-5, "accuracy " << acc << " with " << right << " of " << n << " labels matching");
            ++ctx.sub_evaluations;
        }
        // order of rows
        data_t<Tr> rev(data.rbegin(), data.rend());
        auto const r = ok(e.predict(rev), "predict");
        PBT_CHECK(std::equal(r.begin(), r.end(), batch.rbegin(), batch.rend()), "predictions of reversed rows are not reversed");
        if (tie) ctx.label("tie for the highest decision value");
    }
    else
    {
        for (int v : batch) PBT_CHECK(v >= 0 && v <= cfg.T, "response " << v << " outside [0, " << cfg.T << "]");
        distinct_rows = std::any_of(batch.begin(), batch.end(), [&](int v){ return v != batch[0]; });
    }
    PBT_CHECK(same_data(before, data), "input samples were modified");
    ctx.nontrivial = distinct_rows;
    ctx.label(Tr::name());
    if (big != Big::None) ctx.label("one large dimension");
    if (huge) ctx.label("one dimension about 32768 or 65536");
    if (distinct_rows) ctx.label("rows with different answers");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.weighted({3, 3, 1, 1}), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C02", run, 80000, 1500000, 8, 60,
        "distinct cases whose batch holds at least two rows with different answers",
        {"accuracy is compared within 1e-5 of the exact fraction"}};
    return p;
}
