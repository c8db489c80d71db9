// C17: querying an estimator never changes it.
#include "tsm.hpp"

using namespace tsm;

namespace {

// Makes a sample or one row of a batch unacceptable
template<typename Tr>
void spoil(Bulk & b, typename Tr::sample & s)
{
    int const n = int(s.size());
    switch (b.below(3))
    {
        case 0:
            if constexpr (Tr::bitwise) { if (n % 64) { s.m_vector[n / 64] |= uint64_t{1} << (n % 64 + b.below(64 - n % 64)); return; } }
            else { s[b.below(uint64_t(n))] = char(2 + b.below(100)); return; }
            [[fallthrough]];
        case 1: s = to_sample<Tr>(gen_row(b, n + 1 + int(b.below(70)))); return;
        default: s = to_sample<Tr>(gen_row(b, n > 1 ? n - 1 : n + 64)); return;
    }
}

// All the answers a query gives, as text
template<typename Tr>
std::string query(typename Tr::est const & e, int kind, uint64_t seed, int F, int L, int T)
{
    Bulk b(seed | 1);
    std::ostringstream os;
    bool const bad = b.below(3) == 0;
    int const n = 1 + int(b.below(6));
    auto X = to_data<Tr>(gen_rows(b, n, F));
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(uint64_t(Tr::regressor ? T + 1 : L))));
    if (bad) spoil<Tr>(b, X[b.below(uint64_t(n))]);
    if (bad && b.below(4) == 0) X.clear();
    auto out = [&os](auto const & r)
    {
        using V = std::decay_t<decltype(r.rightValue)>;
        if (r.isLeft) { os << "status " << r.leftValue.first << " " << r.leftValue.second; return; }
        if constexpr (std::is_arithmetic_v<V>) os << r.rightValue;
        else if constexpr (std::is_arithmetic_v<std::decay_t<decltype(r.rightValue[0])>>) { for (auto v : r.rightValue) os << v << " "; }
        else for (auto const & row : r.rightValue) { for (auto v : row) os << v << " "; os << "/"; }
    };
    switch (kind)
    {
        case 0: out(e.predict(X)); break;
        case 1: if (X.empty()) X.push_back(to_sample<Tr>(Row(F, 1))); out(e.predict(X[b.below(X.size())])); break;
        case 2: if constexpr (!Tr::regressor) out(e.decision_function(X)); break;
        case 3: if constexpr (!Tr::regressor) { if (X.empty()) X.push_back(to_sample<Tr>(Row(F, 1))); out(e.decision_function(X[b.below(X.size())])); } break;
        case 4:
            if constexpr (!Tr::regressor)
            {
                if (bad && b.below(2)) y.push_back(0);
                if (!bad && b.below(4) == 0) y.back() = L + 5;
                out(e.evaluate(X, y));
            }
            break;
        case 5: os << params_str(params_map(e.read_params())); break;
        case 6:
        {
            // a clone which is then used and trained by somebody else
            auto st = e.clone_state();
            typename Tr::est other(*st);
            os << partial_fit_raw<Tr>(other, X, y, 2, L).first;
            os << (*st == *e.clone_state());
            break;
        }
        case 7: os << (*e.clone_state() == *e.clone_state()); break;
        case 8: os << std::hash<std::string>{}(to_json_string(*e.clone_state())); break;
        default:
        {
            // exported into another estimator
            auto st = e.clone_state();
            auto const js = to_json_string(*st);
            auto into = e.clone_state();
            from_json_string(*into, js);
            os << (*into == *st);
            break;
        }
    }
    return os.str();
}

char const * const query_name[] = {"predict", "predict(sample)", "decision_function", "decision_function(sample)", "evaluate", "read_params",
    "clone and train the clone", "compare", "to JSON", "JSON into another"};

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg c;
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Features, Big::Rows});
    c.clauses = (Tr::regressor ? 2 : 4) * (big == Big::Clauses ? big_units(t) : big == Big::Labels ? 1 : t.range(1, 5));
    c.states = t.pick({100, 1, 3, 127, 128, 40000});
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f, 1e6f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 3});
    c.boost = t.coin();
    c.n_jobs = gen_jobs(t);
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.seed = gen_seed(t);
    if (Tr::regressor) { c.loss = t.pick({"MSE", "MAE", "berHu"}); c.C1 = 0.5f; c.box_muller = t.coin(); }
    int F = 0, L = 0;
    auto e = make<Tr>(c), twin = make<Tr>(c);
    int const rounds = t.range(1, 4);
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << ":";
    unsigned queries = 0;
    for (int r = 0; r < rounds; ++r)
    {
        // queries, on an untrained estimator in the first round
        int const q = t.range(r == 0 ? 0 : 1, 6);
        auto const before = snap_of<Tr>(e);
        auto const before_state = e.clone_state();
        for (int k = 0; k < q; ++k)
        {
            int const kind = t.range(0, 9);
            uint64_t const seed = t.draw(UINT32_MAX);
            int const width = F ? F : 5;
            int const labels = L ? L : 3;
            ctx.desc << " " << query_name[kind] << ",";
            auto const & ce = e;
            auto const a1 = query<Tr>(ce, kind, seed, width, labels, c.T);
            auto const d = diff(before, snap_of<Tr>(e));
            PBT_CHECK(d.empty(), query_name[kind] << " changed the estimator: " << d);
            PBT_CHECK(*before_state == *e.clone_state(), query_name[kind] << ": state is no longer equal to the one before");
            auto const a2 = query<Tr>(ce, kind, seed, width, labels, c.T);
            PBT_CHECK(a1 == a2, query_name[kind] << " answers differently when repeated: " << a1 << " and then " << a2);
            queries += 2;
            ctx.label(query_name[kind]);
        }
        bool const refit = F == 0 || t.chance(1, 5);
        if (refit)
        {
            F = big == Big::Features ? big_features(t, Tr::bitwise) : t.pick({3, 1, 8, 17, 63, 64, 65, 130});
            L = big == Big::Labels ? big_labels(t) : t.range(2, 4);
        }
        Bulk b = t.bulk();
        int const n = 1 + int(b.below(big == Big::Rows ? 400 : 8));
        auto const X = to_data<Tr>(gen_rows(b, n, F));
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(uint64_t(Tr::regressor ? c.T + 1 : L))));
        unsigned const epochs = unsigned(b.below(big == Big::None ? 8 : 3));
        ctx.desc << (refit ? " fit " : " partial_fit ") << epochs << " epochs;";
        if (refit) { fit<Tr>(e, X, y, epochs, L); fit<Tr>(twin, X, y, epochs, L); if (!Tr::regressor) L = std::max(L, *std::max_element(y.begin(), y.end()) + 1); }
        else { partial_fit<Tr>(e, X, y, epochs, L); partial_fit<Tr>(twin, X, y, epochs, L); }
        auto const d = diff(snap_of<Tr>(e), snap_of<Tr>(twin));
        PBT_CHECK(d.empty(), "training after queries differs from training without them: " << d);
        if (t.coin())
        {
            // copies of both answer alike, too, whatever was asked before
            int const kind = t.range(0, 4);
            uint64_t const seed = t.draw(UINT32_MAX);
            typename Tr::est ce(*e.clone_state()), ct(*twin.clone_state());
            auto const a1 = query<Tr>(ce, kind, seed, F, L, c.T), a2 = query<Tr>(ct, kind, seed, F, L, c.T);
            PBT_CHECK(a1 == a2, query_name[kind] << " answers " << a1 << ", without earlier queries " << a2);
        }
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = queries > 0;
    ctx.label(Tr::name());
    if (big != Big::None) ctx.label("one large dimension");
    ctx.add("queries", queries);
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C17", run, 20000, 800000, 8, 60,
        "distinct histories of calls with at least one query, each asked twice",
        {"the state is observed through clone_state(), which is one of the queries"}};
    return p;
}
