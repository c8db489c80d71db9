// C07: invalid calls are refused with the right status and change nothing.
#include "tsm.hpp"

using namespace tsm;

namespace {

// Breaks one row. Returns a description, or an empty string when this kind of damage does not apply.
template<typename Tr>
std::string damage_row(Bulk & b, typename Tr::sample & s, int kind)
{
    std::ostringstream os;
    if constexpr (Tr::bitwise)
    {
        if (kind == 0)
        {
            // bit behind the last one, or any bit of a spare block
            auto const n = s.size();
            if (n % 64 != 0 && b.below(2))
            {
                auto const bit = n % 64 + b.below(64 - n % 64);
                s.m_vector[n / 64] |= uint64_t{1} << bit;
                os << "padding bit " << bit;
            }
            else
            {
                auto blocks = s.m_vector;
                auto const extra = 1 + b.below(3);
                blocks.resize(blocks.size() + extra, 0);
                blocks[blocks.size() - 1 - b.below(extra)] |= uint64_t{1} << b.below(64);
                s = bit_vector_uint64(n, std::move(blocks));
                os << "dirty spare block";
            }
            return os.str();
        }
    }
    else
    {
        if (kind == 0)
        {
            static int const bad[] = {2, -1, 127, -128, 3, 48, 49, 100, -2, 16, 64};
            auto const p = b.below(4) == 0 ? s.size() - 1 : b.below(s.size());
            int const v = bad[b.below(11)];
            s[p] = char(v);
            os << "value " << v << " at " << p;
            return os.str();
        }
    }
    // wrong width
    auto const n = s.size();
    auto const m = (n > 1 && b.below(2)) ? n - 1 - (n > 2 ? b.below(std::min<uint64_t>(n - 2, 3)) : 0) : n + 1 + b.below(70);
    s = to_sample<Tr>(gen_row(b, int(m)));
    os << "row of " << m << " features";
    return os.str();
}

template<typename Tr>
struct Trial
{
    data_t<Tr> X;
    Labels y;
    std::string what;   // empty: well-formed
};

template<typename Tr>
void check_unchanged(typename Tr::est const & e, Snap const & before, std::string const & call)
{
    auto const d = diff(before, snap_of<Tr>(e));
    PBT_CHECK(d.empty(), call << " was refused but changed the state: " << d);
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg cfg;
    cfg.clauses = (Tr::regressor ? 2 : 4) * t.range(1, 3);
    cfg.T = t.pick({15, 1, 3, 100});
    cfg.weighted = t.coin();
    cfg.n_jobs = 1;
    cfg.seed = gen_seed(t);
    bool const fitted = t.chance(3, 4);
    Big const big = gen_big(t, {Big::Features, Big::Rows, Big::Labels}, 40);
    bool const huge = gen_huge(t, big, 12);
    int const F = huge ? big == Big::Features ? huge_size(t) : t.pick({1, 2, 5}) : big == Big::Features ? big_features(t, Tr::bitwise) : t.pick({1, 2, 5, 31, 63, 64, 65, 127, 128, 130});
    int const labels = big == Big::Labels ? huge ? huge_size(t) : big_labels(t) : t.range(2, 5);
    int const n = big == Big::Rows ? huge ? t.coin() ? t.range(65538, 70000) : huge_size(t) : big_rows(t) : t.pick({1, 2, 3, 5, 9, 30});
    if (big != Big::None) { cfg.clauses = Tr::regressor ? 2 : 4; ctx.label("one large dimension"); }
    if (huge) ctx.label("one dimension about 32768 or 65536");
    bool const far_target = huge && big == Big::Rows && t.chance(1, 2);
    int const call = far_target ? t.range(0, 1) : t.range(0, 6); // fit, partial_fit, predict one, predict, decision one, decision, evaluate
    static char const * const calls[] = {"fit", "partial_fit", "predict(sample)", "predict", "decision_function(sample)", "decision_function", "evaluate"};
    int const damage = far_target ? t.range(6, 7) : t.range(0, 9); // 0: well-formed
    int const pos_kind = far_target ? t.range(1, 2) : t.range(0, 3);
    Bulk b = t.bulk();

    auto e = make<Tr>(cfg), twin = make<Tr>(cfg);
    auto const base = to_data<Tr>(gen_rows(b, 6, F));
    Labels by;
    for (int i = 0; i < 6; ++i) by.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(labels))));
    by[0] = Tr::regressor ? 0 : labels - 1;
    if (fitted) { fit<Tr>(e, base, by, 3); fit<Tr>(twin, base, by, 3); }
    auto const before = snap_of<Tr>(e);

    auto X = to_data<Tr>(gen_rows(b, n, F));
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(labels))));
    if (!Tr::regressor) y[b.below(n)] = labels - 1;
    // well-formed rows may have spare clean blocks
    if constexpr (Tr::bitwise)
    {
        if (b.below(4) == 0)
        {
            auto blocks = X[n - 1].m_vector;
            blocks.resize(blocks.size() + 1 + b.below(3), 0);
            X[n - 1] = bit_vector_uint64(F, std::move(blocks));
        }
    }

    bool const single = call == 2 || call == 4;
    bool const training = call < 2;
    bool const fresh_training = call == 0 || (call == 1 && !fitted);
    int const pos = pos_kind == 0 ? 0 : pos_kind == 1 ? n - 1 : int(b.below(n));
    int max_labels = fresh_training ? int(b.below(labels + 3)) : labels;
    std::string what;
    switch (damage)
    {
        case 0: break;
        case 1: what = damage_row<Tr>(b, X[pos], 0) + " in row " + std::to_string(pos); break;
        case 2:
            // ragged, or of another width than the estimator was trained for
            if (single || n > 1 || !fresh_training) what = damage_row<Tr>(b, X[pos], 1) + " in row " + std::to_string(pos);
            break;
        case 3:
            if (!single) { X.clear(); if (b.below(2)) y.clear(); what = "no rows"; }
            break;
        case 4:
            if (training || call == 6) { y.clear(); what = "no targets"; }
            break;
        case 5:
            if (training || call == 6)
            {
                if (b.below(2)) y.push_back(y.back());
                else y.pop_back();
                what = "different number of rows and targets";
            }
            break;
        case 6:
            if (training)
            {
                y[pos] = b.below(3) == 0 ? INT_MIN : -1 - int(b.below(3));
                what = "negative target in row " + std::to_string(pos);
            }
            break;
        case 7:
            if (training && Tr::regressor)
            {
                y[pos] = b.below(3) == 0 ? INT_MAX : cfg.T + 1 + int(b.below(5));
                what = "response above threshold in row " + std::to_string(pos);
            }
            else if (training && !fresh_training)
            {
                y[pos] = b.below(3) == 0 ? INT_MAX : labels + int(b.below(3));
                what = "unknown label in row " + std::to_string(pos);
            }
            else if (training)
            {
                y[pos] = INT_MAX - int(b.below(3));
                what = "label too large in row " + std::to_string(pos);
            }
            break;
        case 8:
            if (!Tr::regressor && fresh_training)
            {
                std::fill(y.begin(), y.end(), 0);
                max_labels = int(b.below(2));
                what = "one label only";
            }
            break;
        default:
            // all rows of another width
            if (!fresh_training)
            {
                int const W = F > 1 && b.below(2) ? F - 1 : F + 1 + int(b.below(64));
                X = to_data<Tr>(gen_rows(b, n, W));
                what = "all rows of " + std::to_string(W) + " features";
            }
            break;
    }
    bool const bad = !what.empty();
    unsigned const epochs = unsigned(b.below(huge ? 2 : 3));
    ctx.desc << Tr::name() << (fitted ? " trained" : " untrained") << " " << calls[call] << " features=" << F << " rows=" << n << " labels=" << labels
             << " T=" << cfg.T << ": " << (bad ? what : "well-formed");

    auto const X0 = X;
    auto const y0 = y;
    StatusCode got = S_OK;
    bool done = true;
    auto note = [&](auto && r){ got = r.isLeft ? r.leftValue.first : S_OK; };
    switch (call)
    {
        case 0: got = fit_raw<Tr>(e, X, y, epochs, max_labels).first; break;
        case 1: got = partial_fit_raw<Tr>(e, X, y, epochs, max_labels).first; break;
        case 2: note(e.predict(X.at(pos))); break;
        case 3: note(e.predict(X)); break;
        case 4: if constexpr (!Tr::regressor) note(e.decision_function(X.at(pos))); else done = false; break;
        case 5: if constexpr (!Tr::regressor) note(e.decision_function(X)); else done = false; break;
        default: if constexpr (!Tr::regressor) note(e.evaluate(X, y)); else done = false; break;
    }
    if (!done) { ctx.label("no such call"); return; }
    PBT_CHECK(same_data(X0, X) && y0 == y, calls[call] << " modified its arguments");

    bool const query_untrained = !training && !fitted;
    if (query_untrained)
    {
        PBT_CHECK(got == S_NOT_FITTED_ERROR || (bad && got == S_VALUE_ERROR), calls[call] << " of an untrained estimator: status " << got << " (" << (bad ? what : "well-formed") << ")");
    }
    else if (bad)
    {
        PBT_CHECK(got == S_VALUE_ERROR, calls[call] << " with " << what << ": status " << got);
    }
    else
    {
        PBT_CHECK(got == S_OK, calls[call] << " with well-formed data: status " << got);
    }

    if (bad || query_untrained || !training)
    {
        check_unchanged<Tr>(e, before, calls[call]);
        // goes on as if nothing happened
        auto const Q = to_data<Tr>(gen_rows(b, 4, F));
        if (fitted) PBT_CHECK(answers<Tr>(e, Q) == answers<Tr>(twin, Q), "answers changed after refused " << calls[call]);
        partial_fit<Tr>(e, base, by, 2);
        partial_fit<Tr>(twin, base, by, 2);
        auto const d = diff(snap_of<Tr>(e), snap_of<Tr>(twin));
        PBT_CHECK(d.empty(), "training after refused " << calls[call] << " (" << what << ") differs: " << d);
    }
    else
    {
        // accepted training equals the same call on the twin with plainly stored rows
        if constexpr (Tr::bitwise) for (auto & r : X) r.m_vector.resize(r.content_blocks());
        if (call == 0) fit<Tr>(twin, X, y, epochs, max_labels);
        else partial_fit<Tr>(twin, X, y, epochs, max_labels);
        auto const d = diff(snap_of<Tr>(e), snap_of<Tr>(twin));
        PBT_CHECK(d.empty(), "accepted " << calls[call] << " depends on spare storage: " << d);
    }
    ctx.sub_evaluations = 2;
    ctx.nontrivial = bad || query_untrained;
    ctx.label(std::string(calls[call]) + (bad ? ", malformed" : query_untrained ? ", untrained" : ", well-formed"));
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.weighted({3, 3, 2, 2}), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C07", run, 500000, 10000000, 8, 60,
        "distinct calls which have to be refused: malformed data, or a query of an untrained estimator",
        {"rows without features are not generated", "evaluate() with labels the estimator does not know counts them as wrong and is not treated as malformed"}};
    return p;
}
