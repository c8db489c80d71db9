// C06: saved state restores to an indistinguishable estimator.
#include "tsm.hpp"

using namespace tsm;

namespace {

template<typename Tr>
Cfg gen_cfg(Tape & t)
{
    Cfg c;
    c.clauses = (Tr::regressor ? 2 : 4) * t.range(1, 4);
    c.states = gen_states(t);
    c.s = t.pick({2.0f, 1.0f, 3.9f, 1.0000001f, 3.3333333f, 1e30f, 3.4e38f, 123456.789f});
    c.T = t.pick({15, 1, 4, INT_MAX});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 1, 3});
    c.boost = t.coin();
    c.counting = gen_counting(t);
    c.n_jobs = t.pick({1, 2, 3});
    c.tile = gen_tile(t);
    c.seed = t.pick({1u, 0u, UINT32_MAX, 0x80000000u, 12345u});
    if (t.coin()) c.seed = unsigned(t.draw(UINT32_MAX));
    if (Tr::regressor)
    {
        c.box_muller = t.coin();
        c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
        c.C1 = t.pick({0.f, 0.1f, 0.33333334f, 1.f, 1e-30f, 1e30f, -2.5f});
    }
    return c;
}

template<typename Tr>
typename Tr::est build(Tape & t, Cfg const & cfg, bool from_json)
{
    if (!from_json) return make<Tr>(cfg);
    std::ostringstream os;
    os.precision(9);
    os << "{\"number_of_states\": " << cfg.states << ", \"threshold\": " << cfg.T << ", \"s\": " << cfg.s << ", \"random_state\": " << cfg.seed
       << ", \"weighted\": " << (cfg.weighted ? "true" : "false") << ", \"n_jobs\": " << cfg.n_jobs << ", \""
       << (Tr::regressor ? "number_of_regressor_clauses" : "number_of_clauses_per_label") << "\": " << cfg.clauses << "}";
    return unwrap(Tr::from_json(os.str()), "estimator from JSON");
}

struct Shape { int features, labels; };

template<typename Tr>
void train(Bulk & b, typename Tr::est & e, Shape sh, int T, bool refit)
{
    int const n = 2 + int(b.below(8));
    auto const X = to_data<Tr>(gen_rows(b, n, sh.features));
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(std::min(T, 1000)) + 1 : uint64_t(sh.labels))));
    if (refit) fit<Tr>(e, X, y, unsigned(b.below(12)), sh.labels);
    else partial_fit<Tr>(e, X, y, unsigned(b.below(12)), sh.labels);
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    auto cfg = gen_cfg<Tr>(t);
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Features, Big::Epochs});
    bool const huge = (big == Big::Clauses || big == Big::Labels || big == Big::Features) && gen_huge(t, big, 50);
    if (huge) { cfg.clauses = Tr::regressor ? 2 : 4; ctx.label("one dimension about 32768 or 65536"); }
    if (big == Big::Clauses) cfg.clauses = (Tr::regressor ? 2 : 4) * (huge ? (huge_size(t) + 1) / 2 : big_units(t));
    if (big == Big::Labels) cfg.clauses = 4;
    if (big != Big::None) ctx.label("one large dimension");
    bool const js = t.chance(1, 3);
    auto e = build<Tr>(t, cfg, js);
    int const how = t.weighted({1, 1, 3, 2, 2}); // untrained, blank, trained, re-trained, crafted
    Shape sh{big == Big::Features ? huge ? huge_size(t) : std::min(2100, big_features(t, Tr::bitwise)) : huge ? 2 : t.pick({1, 2, 9, 63, 64, 65, 130}),
        big == Big::Labels ? huge ? huge_size(t) : big_labels(t) : huge ? 2 : t.range(2, 5)};
    if (big == Big::Clauses || big == Big::Labels) sh.features = std::min(sh.features, 9);
    int const target = t.weighted({2, 2, 2, 1});
    Bulk b = t.bulk();
    ctx.desc << Tr::name() << " " << cfg.str(Tr::regressor) << (js ? " from JSON" : " from arguments") << " features=" << sh.features << " labels=" << sh.labels;
    static char const * const hows[] = {"untrained", "initialised", "trained", "re-trained", "crafted"};
    ctx.desc << " " << hows[how];
    if (how >= 1)
    {
        auto const z = to_data<Tr>(gen_rows(b, 2, sh.features));
        fit<Tr>(e, z, Labels{0, Tr::regressor ? 0 : sh.labels - 1}, 0);
    }
    if (how >= 2 && how != 4) for (int k = big == Big::Epochs ? 40 : 1; k > 0; --k) train<Tr>(b, e, sh, cfg.T, false);
    if (how == 3)
    {
        sh.features = t.pick({1, 3, 64, 70});
        train<Tr>(b, e, sh, cfg.T, true);
        train<Tr>(b, e, sh, cfg.T, false);
    }
    if (how == 4)
    {
        auto st = e.clone_state();
        int const N = js ? cfg.states : cfg.states;
        auto const s = snap(*st, false);
        for (unsigned r = 0; r < s.rows; ++r) for (unsigned c = 0; c < s.cols; ++c) set_ta(*st, r, c, craft_value(b, b.below(2), N));
        for (auto & w : st->ta_state.weights) w = craft_weight(b, js ? INT_MAX : cfg.max_weight);
        // generators in the middle of their sequences
        for (auto k = b.below(6000); k > 0; --k) { st->igen(); if (k % 3 == 0) st->fgen(); }
        e = typename Tr::est(*st);
    }

    auto const saved = e.clone_state();
    auto const text = to_json_string(*saved);
    auto const want = snap(*saved);

    // object to restore into
    // of parameters of its own, or only some of them differ
    Cfg other = t.coin() ? gen_cfg<Tr>(t) : cfg;
    if (t.coin()) other.s = t.pick({1.5f, 6.f, 1.f, 1e30f});
    if (t.coin()) other.clauses = Tr::regressor ? 6 : 8;
    if (t.coin()) other.states = t.pick({50, 300, 70000});
    if (t.coin()) other.weighted = !other.weighted;
    if (t.coin()) other.tile = gen_tile(t);
    other.seed = 77;
    auto oe = target == 3 ? make<Tr>(cfg) : make<Tr>(other);
    if (target == 1) train<Tr>(b, oe, Shape{5, 3}, other.T, true);
    if (target == 2) train<Tr>(b, oe, sh, other.T, true);
    auto const st = oe.clone_state();
    try
    {
        from_json_string(*st, text);
    }
    catch (std::exception const & ex)
    {
        pbt::fail(std::string("restoring threw: ") + ex.what());
    }
    auto const d = diff(want, snap(*st));
    PBT_CHECK(d.empty(), "restored state differs: " << d);
    PBT_CHECK(equal(*st, *saved) && equal(*saved, *st), "restored state compares unequal");
    auto const text2 = to_json_string(*st);
    PBT_CHECK(text2 == text, "writing the restored state again gives another text");
    auto const d0 = diff(want, snap(*saved));
    PBT_CHECK(d0.empty(), "saving changed the state: " << d0);
    {
        auto const sa = *saved;
        bool ig = sa.igen == st->igen, fg = sa.fgen == st->fgen;
        PBT_CHECK(ig && fg, "restored generators compare unequal");
        // whole remaining sequence over a refill
        auto a = saved->igen, c = st->igen;
        auto fa = saved->fgen, fc = st->fgen;
        for (int i = 0; i < 5200; ++i) PBT_CHECK(a() == c() && fa() == fc(), "restored generators diverge after " << i << " draws");
    }

    // behaves the same
    typename Tr::est r(*st);
    PBT_CHECK(params_map(r.read_params()) == params_map(e.read_params()), "parameters differ");
    if (how == 0)
    {
        auto p = r.predict(to_data<Tr>(Rows(1, Row(3, 0))));
        PBT_CHECK(p.isLeft && p.leftValue.first == S_NOT_FITTED_ERROR, "restored untrained estimator does not report being untrained");
    }
    else
    {
        auto const Q = to_data<Tr>(gen_rows(b, 5, sh.features));
        PBT_CHECK(answers<Tr>(e, Q) == answers<Tr>(r, Q), "answers of the restored estimator differ");
    }
    for (int k = 0; k < 2; ++k)
    {
        Bulk b1 = b, b2 = b;
        train<Tr>(b1, e, sh, js ? cfg.T : cfg.T, k == 1);
        train<Tr>(b2, r, sh, cfg.T, k == 1);
        auto const dd = diff(snap_of<Tr>(e), snap_of<Tr>(r));
        PBT_CHECK(dd.empty(), "further " << (k ? "fit" : "partial_fit") << " differs: " << dd);
        auto const Q = to_data<Tr>(gen_rows(b1, 3, sh.features));
        PBT_CHECK(answers<Tr>(e, Q) == answers<Tr>(r, Q), "answers differ after further training");
    }
    ctx.nontrivial = how >= 2;
    ctx.sub_evaluations = 6;
    ctx.label(std::string(hows[how]));
    ctx.label(Tr::name());
    if (target == 1 || target == 2) ctx.label("restored into a trained state");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C06", run, 15000, 300000, 8, 60,
        "distinct cases whose saved state was trained, re-trained or crafted with extreme automata, weights and generator positions",
        {"text that no estimator wrote is outside the property"}};
    return p;
}
