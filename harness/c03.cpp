// C03: training is deterministic in the seed and independent of execution settings.
#include "tsm.hpp"

using namespace tsm;

namespace {

template<typename Tr>
void compare(typename Tr::est const & a, typename Tr::est const & b, data_t<Tr> const & X, char const * when)
{
    auto sa = snap_of<Tr>(a), sb = snap_of<Tr>(b);
    for (auto k : {"n_jobs", "clause_output_tile_size", "verbose", "counting_type"})
    {
        sa.params.erase(k);
        sb.params.erase(k);
    }
    auto const d = diff(sa, sb, true, false);
    PBT_CHECK(d.empty(), when << ": " << d);
    auto const pa = answers<Tr>(a, X), pb = answers<Tr>(b, X);
    PBT_CHECK(pa == pb, when << ": answers differ [" << list_str(pa) << "] vs [" << list_str(pb) << "]");
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg a;
    int const mode = t.weighted({6, 3, 1});    // small, medium, wide
    Big const big = mode == 2 ? Big::None : gen_big(t, {Big::Labels, Big::Clauses, Big::Rows, Big::Epochs});
    a.clauses = (Tr::regressor ? 2 : 4) * (big == Big::Clauses ? big_units(t) : big == Big::Labels ? 1 : t.range(1, mode == 2 ? 4 : 8));
    a.states = t.pick({100, 1, 2, 10, 126, 127, 128, 200, 32767, 32768});
    a.s = t.pick({2.0f, 1.0f, 1.5f, 3.9f, 10.f, 100.f, 1e6f});
    a.T = t.pick({15, 1, 2, 5, 50});
    a.weighted = t.coin();
    a.max_weight = t.pick({INT_MAX, 1, 2, 5});
    a.boost = t.coin();
    a.seed = gen_seed(t);
    if (Tr::regressor)
    {
        a.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
        a.C1 = t.pick({0.f, 0.25f, 0.5f, 1.f});
        a.box_muller = t.coin();
    }
    a.tile = gen_tile(t);
    a.n_jobs = t.pick({1, 2, 3, 4, 5, 8, 16, -1});
    a.counting = gen_counting(t);
    Cfg b = a;
    bool const same = t.chance(1, 6);
    if (!same)
    {
        b.tile = gen_tile(t);
        b.n_jobs = t.pick({1, 2, 3, 4, 5, 8, 16, -1});
        b.verbose = t.chance(1, 8);
        b.counting = gen_counting(t);
    }
    int const labels = Tr::regressor ? 1 : big == Big::Labels ? big_labels(t) : t.range(2, 5);
    int const limit = mode == 0 || big != Big::None ? 40 : mode == 1 ? 400 : (Tr::bitwise ? 8300 : 1200);
    int F = gen_features(t, limit, t.coin() ? a.tile : b.tile, Tr::bitwise && mode == 2);
    int const ops = t.range(1, mode == 2 ? 2 : 4);
    Bulk bk = t.bulk();

    ctx.desc << Tr::name() << " A{" << a.str(Tr::regressor) << "} B{tile=" << b.tile << " n_jobs=" << b.n_jobs << " counting=" << b.counting
             << " verbose=" << b.verbose << "} labels=" << labels << " features=" << F << " ops:";

    auto ea = make<Tr>(a);
    auto eb = make<Tr>(b);
    bool moved = false;
    Snap last;
    for (int op = 0; op < ops; ++op)
    {
        bool const first = op == 0;
        int const kind = first ? int(bk.below(2)) : int(bk.below(3)); // fit, partial_fit, fit with another shape
        if (kind == 2) F = std::max(1, std::min(limit, F + int(bk.below(5)) - 2));
        int const n = big == Big::Rows ? 60 + int(bk.below(600)) : 1 + int(bk.below(mode == 2 ? 4 : 16));
        auto const Xl = gen_rows(bk, n, F);
        auto const X = to_data<Tr>(Xl);
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(bk.below(Tr::regressor ? uint64_t(a.T) + 1 : uint64_t(labels))));
        unsigned const epochs = big == Big::Epochs ? 20 + unsigned(bk.below(250)) : unsigned(bk.below(mode == 2 || big == Big::Rows ? 3 : 9)) + 1;
        auto const X0 = X;
        auto const y0 = y;
        if (kind == 1)
        {
            partial_fit<Tr>(ea, X, y, epochs, labels);
            partial_fit<Tr>(eb, X, y, epochs, labels);
        }
        else
        {
            fit<Tr>(ea, X, y, epochs, labels);
            fit<Tr>(eb, X, y, epochs, labels);
        }
        PBT_CHECK(same_data(X0, X) && y0 == y, "training data were modified");
        ctx.desc << (kind == 1 ? " partial_fit(" : " fit(") << n << " rows, " << epochs << " epochs)";
        compare<Tr>(ea, eb, X, kind == 1 ? "after partial_fit" : "after fit");
        auto s = snap_of<Tr>(ea, false);
        if (!last.ta.empty() ? last.ta != s.ta : std::any_of(s.ta.begin(), s.ta.end(), [](int v){ return v != 0 && v != -1; })) moved = true;
        last = s;
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = moved && !same;
    ctx.label(Tr::name());
    if (big != Big::None) ctx.label("one large dimension");
    if (a.n_jobs != b.n_jobs) ctx.label("different n_jobs");
    if (a.tile != b.tile) ctx.label("different tile size");
    if (a.counting != b.counting) ctx.label("different counting type");
    if (expected_width(a) != expected_width(b)) ctx.label("different storage width");
    if (b.verbose) ctx.label("different verbosity");
    if (same) ctx.label("identical settings");
    if (mode == 2) ctx.label("wide");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C03", run, 20000, 400000, 8, 120,
        "distinct pairs of estimators which differ in at least one execution setting and whose automata were moved by training",
        {"parallel runs are sampled under the schedules the machine produces; the harness does not control them"}};
    return p;
}
