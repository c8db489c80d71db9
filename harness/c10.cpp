// C10: every reachable state is well-formed.
#include "tsm.hpp"

using namespace tsm;

namespace {

struct Shape { int labels = 0, features = 0; }; // of a fitted estimator

template<typename Tr>
void check_state(typename Tr::est const & e, Cfg const & c, Shape const & sh, std::string const & when)
{
    auto const st = e.clone_state();
    auto const s = snap(*st, false);
    unsigned const rows = unsigned(c.clauses * (Tr::regressor ? 1 : sh.labels));
    PBT_CHECK(s.rows == rows && s.cols == unsigned(sh.features),
        when << ": automata are " << s.rows << "x" << s.cols << ", expected " << rows << "x" << sh.features);
    PBT_CHECK(s.width == expected_width(c), when << ": automata are stored on " << s.width << " bits, expected " << expected_width(c)
        << " for " << c.states << " states and counting type " << c.counting);
    for (std::size_t i = 0; i < s.ta.size(); ++i)
        PBT_CHECK(s.ta[i] >= -int64_t(c.states) && s.ta[i] <= int64_t(c.states) - 1,
            when << ": automaton row " << i / s.cols << " feature " << i % s.cols << " is at " << s.ta[i] << " of [-N, N-1], N=" << c.states);
    std::size_t const nw = c.weighted ? rows / 2 : 0;
    PBT_CHECK(s.weights.size() == nw, when << ": " << s.weights.size() << " weights, expected " << nw);
    for (std::size_t i = 0; i < nw; ++i)
        PBT_CHECK(uint64_t(s.weights[i]) + 1 <= uint64_t(c.max_weight), when << ": weight of clause " << i << " is " << uint64_t(s.weights[i]) + 1
            << ", allowed [1, " << c.max_weight << "]");
    if constexpr (Tr::bitwise)
    {
        PBT_CHECK(s.polarity.size() == s.ta.size(), when << ": inclusion bits are " << st->ta_state.polarity.rows() << "x" << st->ta_state.polarity.cols());
        for (std::size_t i = 0; i < s.ta.size(); ++i)
            PBT_CHECK(bool(s.polarity[i]) == (s.ta[i] >= 0), when << ": inclusion bit row " << i / s.cols << " feature " << i % s.cols << " is "
                << int(s.polarity[i]) << " for automaton at " << s.ta[i]);
        PBT_CHECK(s.pad.empty(), when << ": padding bits are set");
    }
    auto const p = params_map(e.read_params());
    auto const want = [&](char const * key, int v)
    {
        auto it = p.find(key);
        PBT_CHECK(it != p.end() && it->second == "0:" + std::to_string(v), when << ": parameter " << key << " is "
            << (it == p.end() ? "missing" : it->second) << ", expected " << v);
    };
    want("number_of_features", sh.features);
    if (!Tr::regressor) want("number_of_labels", sh.labels);
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg c;
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Features, Big::Rows, Big::Epochs});
    bool const huge = (big == Big::Labels || big == Big::Clauses || big == Big::Features) && gen_huge(t, big, 40);
    c.clauses = (Tr::regressor ? 2 : 4) * (big == Big::Clauses ? huge ? (huge_size(t) + 1) / 2 : big_units(t) : huge ? 1 : big == Big::Labels ? 1 : t.range(1, 5));
    c.states = t.pick({100, 1, 2, 3, 5, 126, 127, 128, 129, 32766, 32767, 32768, 1 << 24, INT_MAX});
    c.s = t.pick({2.0f, 1.0f, 1.1f, 3.9f, 20.f, 1e6f, 1e30f});
    c.T = t.pick({15, 1, 2, 5, 1000, INT_MAX});
    c.weighted = t.coin();
    c.max_weight = gen_max_weight(t);
    c.boost = t.coin();
    c.n_jobs = gen_jobs(t);
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.seed = gen_seed(t);
    if (Tr::regressor)
    {
        c.loss = t.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
        c.C1 = t.pick({0.f, 0.5f, 1.f});
        c.box_muller = t.coin();
    }
    int const ops = t.range(1, huge ? 3 : 7);
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << " history:";

    auto e = make<Tr>(c);
    Shape sh;
    uint64_t moved = 0;
    bool saturated = false;
    for (int k = 0; k < ops; ++k)
    {
        int const op = sh.features == 0 ? t.weighted({3, 2}) : t.weighted({2, 6, 3, 1, 1, 1, 1});
        Bulk b = t.bulk();
        bool const fitted = sh.features != 0;
        int const F = fitted && op != 0 ? sh.features : big == Big::Features ? huge ? huge_size(t) : big_features(t, Tr::bitwise) : huge ? t.range(1, 3)
            : t.pick({3, 1, 2, 17, 63, 64, 65, 127, 128, 130, big == Big::None ? 1100 : 9});
        int const L = big == Big::Labels ? huge ? huge_size(t) : big_labels(t) : huge ? 2 : t.range(2, 5);
        int const maxl = huge ? L : int(b.below(7));
        int const n = 1 + int(b.below(big == Big::Rows ? 300 : F > 200 ? 4 : 12));
        unsigned const epochs = unsigned(b.below(big == Big::Epochs ? 150 : big != Big::None || F > 200 ? 3 : 30));
        auto X = gen_rows(b, n, F);
        Labels y;
        int const Lnow = fitted && op != 0 ? sh.labels : L;
        for (int i = 0; i < n; ++i)
            y.push_back(Tr::regressor ? int(b.below(3) == 0 ? b.below(2) * uint64_t(c.T) : b.below(uint64_t(c.T) + 1)) : int(b.below(uint64_t(Lnow))));
        std::ostringstream when;
        when << "after step " << k << " ";
        switch (op)
        {
            case 0:
            case 1:
            {
                when << (op == 0 ? "fit" : "partial_fit") << "(" << n << " rows, " << F << " features, " << epochs << " epochs)";
                if (op == 0 || !fitted)
                {
                    int const top = *std::max_element(y.begin(), y.end()) + 1;
                    if (!Tr::regressor && std::max(top, maxl) < 2) { y.back() = 1; }
                    sh.features = F;
                    sh.labels = Tr::regressor ? 1 : std::max(*std::max_element(y.begin(), y.end()) + 1, maxl);
                }
                if (op == 0) fit<Tr>(e, to_data<Tr>(X), y, epochs, maxl);
                else partial_fit<Tr>(e, to_data<Tr>(X), y, epochs, maxl);
                moved += epochs;
                break;
            }
            case 2:
            {
                // continue from a state with automata and weights at and near their limits
                when << "crafted state, then partial_fit";
                auto st = e.clone_state();
                int const clauses = c.clauses / 2 * (Tr::regressor ? 1 : sh.labels);
                for (int j = 0; j < clauses; ++j)
                {
                    Row inc[2];
                    craft_clause(b, Craft(b.below(uint64_t(Craft::COUNT))), X[0], inc);
                    write_clause(*st, unsigned(j), inc, b, c.states);
                    if (c.weighted) st->ta_state.weights[j] = craft_weight(b, c.max_weight);
                }
                e = typename Tr::est(*st);
                check_state<Tr>(e, c, sh, "after crafting (harness)");
                saturated = true;
                partial_fit<Tr>(e, to_data<Tr>(X), y, 1 + unsigned(b.below(3)));
                ++moved;
                break;
            }
            case 3:
            {
                when << "clone";
                auto st = e.clone_state();
                e = typename Tr::est(*st);
                break;
            }
            case 4:
            {
                when << "JSON round trip";
                auto other = make<Tr>(c);
                auto st = other.clone_state();
                from_json_string(*st, to_json_string(*e.clone_state()));
                e = typename Tr::est(*st);
                break;
            }
            case 5:
            {
                when << "queries";
                (void)answers<Tr>(e, to_data<Tr>(X));
                break;
            }
            default:
            {
                when << "refused calls";
                auto X2 = X;
                X2.back().push_back(0);
                auto y2 = y;
                PBT_CHECK(partial_fit_raw<Tr>(e, to_data<Tr>(X2), y2, 2).first == S_VALUE_ERROR || n == 0, "ragged rows accepted");
                y2.back() = -1;
                PBT_CHECK(fit_raw<Tr>(e, to_data<Tr>(X), y2, 2).first == S_VALUE_ERROR, "bad label accepted");
                break;
            }
        }
        ctx.desc << "; " << when.str();
        check_state<Tr>(e, c, sh, when.str());
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = moved > 0;
    ctx.label(Tr::name());
    ctx.label("stored on " + std::to_string(expected_width(c)) + " bits");
    if (c.weighted) ctx.label("weighted");
    if (saturated) ctx.label("continued from automata at their limits");
    if (big != Big::None) ctx.label("one large dimension");
    if (huge) ctx.label("one dimension about 32768 or 65536");
    if (c.states == 1) ctx.label("one state");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C10", run, 30000, 1500000, 8, 60,
        "distinct histories which train for at least one epoch",
        {"the state is observed through clone_state() after every call; moments inside a call are not observed"}};
    return p;
}
