// C04: fit() starts from scratch whatever happened before.
#include "tsm.hpp"

using namespace tsm;

namespace {

template<typename Tr>
struct Data { data_t<Tr> X; Labels y; int features; };

template<typename Tr>
Data<Tr> gen_data(Bulk & b, int features, int labels, int T, Big big)
{
    Data<Tr> d;
    d.features = features;
    int const n = big == Big::Rows ? 50 + int(b.below(500)) : 2 + int(b.below(12));
    d.X = to_data<Tr>(gen_rows(b, n, features));
    for (int i = 0; i < n; ++i) d.y.push_back(int(b.below(Tr::regressor ? uint64_t(T) + 1 : uint64_t(labels))));
    if (!Tr::regressor) d.y[b.below(n)] = labels - 1;
    return d;
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg cfg;
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Rows, Big::Features});
    cfg.clauses = (Tr::regressor ? 2 : 4) * (big == Big::Clauses ? big_units(t) : big == Big::Labels ? 1 : t.range(1, 5));
    cfg.states = t.pick({100, 1, 3, 127, 128, 40000});
    cfg.s = t.pick({2.0f, 1.0f, 3.9f, 50.f, 1e6f});
    cfg.T = t.pick({15, 1, 4, 40});
    cfg.weighted = t.coin();
    cfg.max_weight = t.pick({INT_MAX, 3});
    cfg.boost = t.coin();
    cfg.counting = gen_counting(t);
    cfg.n_jobs = gen_jobs(t);
    cfg.tile = gen_tile(t);
    cfg.seed = gen_seed(t);
    if (Tr::regressor) { cfg.box_muller = t.coin(); cfg.loss = t.pick({"MSE", "MAE", "L1+2"}); cfg.C1 = 0.5f; }
    int const ops = t.range(1, 6);

    ctx.desc << Tr::name() << " " << cfg.str(Tr::regressor) << " history:";
    auto used = make<Tr>(cfg);
    int last_features = 0;
    bool trained = false;
    for (int k = 0; k < ops; ++k)
    {
        int const op = t.weighted({4, 4, 2, 2, 2, 2, 1});
        int const labels = big == Big::Labels && t.coin() ? big_labels(t) : t.range(2, 6);
        int const features = (last_features && t.chance(3, 4) && op == 1) ? last_features
            : big == Big::Features && t.coin() ? big_features(t, Tr::bitwise) : t.pick({1, 3, 8, 17, 63, 64, 65, 130});
        Bulk b = t.bulk();
        auto d = gen_data<Tr>(b, features, labels, cfg.T, big);
        unsigned const epochs = unsigned(b.below(12));
        switch (op)
        {
            case 0:
                fit<Tr>(used, d.X, d.y, epochs, int(b.below(7)));
                ctx.desc << " fit(" << features << " features, " << labels << " labels, " << epochs << " epochs)";
                last_features = features;
                trained = trained || epochs > 0;
                break;
            case 1:
            {
                auto s = partial_fit_raw<Tr>(used, d.X, d.y, epochs, int(b.below(7)));
                ctx.desc << " partial_fit(" << features << " features, " << labels << " labels, " << epochs << " epochs)=" << s.first;
                if (s.first == S_OK) { last_features = features; trained = trained || epochs > 0; }
                break;
            }
            case 2:
            {
                auto r = used.predict(d.X);
                ctx.desc << " predict=" << (r.isLeft ? "refused" : "ok");
                if constexpr (!Tr::regressor) (void)used.decision_function(d.X);
                break;
            }
            case 3:
            {
                // refused: bad label or response at the end, ragged rows, or empty
                switch (b.below(3))
                {
                    case 0: d.y.back() = -1; break;
                    case 1: d.y.pop_back(); break;
                    default: d.X.clear(); d.y.clear(); break;
                }
                auto s = b.below(2) ? fit_raw<Tr>(used, d.X, d.y, epochs) : partial_fit_raw<Tr>(used, d.X, d.y, epochs);
                PBT_CHECK(s.first == S_VALUE_ERROR, "malformed data accepted");
                ctx.desc << " refused call";
                break;
            }
            case 4:
            {
                auto st = used.clone_state();
                used = typename Tr::est(*st);
                ctx.desc << " restored from clone";
                break;
            }
            case 5:
            {
                auto cfg2 = cfg;
                if (b.below(2))
                {
                    // over the state of an estimator of other parameters
                    cfg2.s = b.below(2) ? 6.f : 1.25f;
                    cfg2.weighted = b.below(2);
                    cfg2.clauses = b.below(2) ? cfg.clauses : 12;
                    cfg2.tile = 128;
                    cfg2.seed = 3;
                }
                auto other = make<Tr>(cfg2);
                if (b.below(2)) fit<Tr>(other, d.X, d.y, 1);
                auto st = other.clone_state();
                from_json_string(*st, to_json_string(*used.clone_state()));
                used = typename Tr::est(*st);
                ctx.desc << " restored from JSON";
                break;
            }
            default:
            {
                auto tmp = std::move(used);
                used = std::move(tmp);
                ctx.desc << " moved";
                break;
            }
        }
    }

    int const labels = big == Big::Labels && t.coin() ? big_labels(t) : t.range(2, 6);
    int const features = t.chance(1, 2) && last_features ? last_features
        : big == Big::Features && t.coin() ? big_features(t, Tr::bitwise) : t.pick({1, 3, 8, 17, 63, 64, 65, 130});
    unsigned const epochs = t.pick({5u, 0u, 1u, 2u, 20u});
    int const max_labels = t.pick({0, 2, 5, 8});
    Bulk b = t.bulk();
    auto d = gen_data<Tr>(b, features, labels, cfg.T, big);
    ctx.desc << " then fit(" << d.X.size() << " rows, " << features << " features, " << labels << " labels, " << epochs << " epochs)";

    auto fresh = make<Tr>(cfg);
    bool const via_partial = t.chance(1, 8); // a fresh estimator is trained the same by partial_fit
    if (via_partial) partial_fit<Tr>(fresh, d.X, d.y, epochs, max_labels);
    else fit<Tr>(fresh, d.X, d.y, epochs, max_labels);
    // the very objects may have been passed before, with other contents
    auto place = d;
    bool const reuse = t.coin();
    if (reuse)
    {
        std::rotate(place.X.begin(), place.X.begin() + 1, place.X.end());
        std::rotate(place.y.begin(), place.y.begin() + std::ptrdiff_t(b.below(place.y.size())), place.y.end());
        fit<Tr>(used, place.X, place.y, 1, max_labels);
        if (b.below(2)) (void)used.predict(place.X);
        place.X = d.X;
        place.y = d.y;
        ctx.desc << " in place of other data";
        ctx.label("data objects with new contents");
    }
    fit<Tr>(used, place.X, place.y, epochs, max_labels);

    auto const df = diff(snap_of<Tr>(used), snap_of<Tr>(fresh));
    PBT_CHECK(df.empty(), "used estimator differs from a new one after the same fit: " << df);
    PBT_CHECK(equal(*used.clone_state(), *fresh.clone_state()), "states compare unequal after the same fit");
    auto const pa = answers<Tr>(used, d.X), pb = answers<Tr>(fresh, d.X);
    PBT_CHECK(pa == pb, "answers differ after the same fit: [" << list_str(pa) << "] vs [" << list_str(pb) << "]");

    // and both go on identically
    auto d2 = gen_data<Tr>(b, features, labels, cfg.T, big);
    place.X = d2.X;
    place.y = d2.y;
    partial_fit<Tr>(used, place.X, place.y, 2);
    partial_fit<Tr>(fresh, d2.X, d2.y, 2);
    auto const df2 = diff(snap_of<Tr>(used), snap_of<Tr>(fresh));
    PBT_CHECK(df2.empty(), "training after the fit differs: " << df2);
    ctx.sub_evaluations = 4;
    ctx.nontrivial = trained;
    ctx.label(Tr::name());
    if (big != Big::None) ctx.label("one large dimension");
    if (trained) ctx.label("trained before the fit");
    if (last_features && last_features != features) ctx.label("number of features changes");
    if (cfg.weighted && trained) ctx.label("weighted and trained before the fit");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C04", run, 50000, 1000000, 8, 60,
        "distinct histories which trained the estimator for at least one epoch before the final fit",
        {}};
    return p;
}
