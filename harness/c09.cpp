// C09: named arguments and JSON configure the same estimator, in any order and subset.
#include "tsm.hpp"

#include "json/json.hpp"

#include <array>
#include <cfloat>
#include <cmath>
#include <thread>
#include <tuple>
#include <utility>

using namespace tsm;
using json = nlohmann::json;

namespace {

using ClassifierArgs = std::tuple<
    number_of_physical_classifier_clauses_per_label_t, number_of_states_t, specificity_t, threshold_t, weighted_flag_t, max_weight_t,
    boost_tpf_t, number_of_jobs_t, verbosity_t, counting_type_t, clause_output_tile_size_t, random_seed_t>;
using RegressorArgs = std::tuple<
    number_of_physical_regressor_clauses_t, number_of_states_t, specificity_t, threshold_t, weighted_flag_t, max_weight_t,
    boost_tpf_t, number_of_jobs_t, verbosity_t, counting_type_t, clause_output_tile_size_t, random_seed_t,
    loss_fn_name_t, loss_fn_C1_t, box_muller_flag_t>;
char const * const NAMES[] = {"", "number_of_states", "s", "threshold", "weighted", "max_weight", "boost_true_positive_feedback", "n_jobs",
    "verbose", "counting_type", "clause_output_tile_size", "random_state", "loss_fn", "loss_fn_C1", "box_muller"};
enum { CLAUSES, STATES, S, THRESHOLD, WEIGHTED, MAX_WEIGHT, BOOST, N_JOBS, VERBOSE, COUNTING, TILE, SEED, LOSS, C1, BOX_MULLER };

std::string name_of(int i, bool regressor) { return i ? NAMES[i] : regressor ? "number_of_regressor_clauses" : "number_of_clauses_per_label"; }

// Which arguments are passed, in which order and how; fixed at compile time
template<int N>
struct Plan
{
    int order[N] = {};
    int how[N] = {};     // l-value, const l-value, r-value
    int count = 0;
};

template<int N>
constexpr Plan<N> make_plan(unsigned k)
{
    Plan<N> p;
    for (int i = 0; i < N; ++i) p.order[i] = i;
    unsigned x = k * 2654435761u + 12345u;
    auto next = [&x](unsigned n) { x = x * 1664525u + 1013904223u; return (x >> 16) % n; };
    for (int i = 0; i < N; ++i) p.how[i] = int(next(3));
    if (k == 0) p.count = 0;
    else if (k <= unsigned(N)) { p.order[0] = int(k) - 1; p.count = 1; }
    else
    {
        for (int i = N - 1; i > 0; --i) { int j = int(next(unsigned(i) + 1)); int v = p.order[i]; p.order[i] = p.order[j]; p.order[j] = v; }
        p.count = k % 3 == 0 ? N : k % 3 == 1 ? N - 1 - int(next(3)) : 2 + int(next(N - 3));
    }
    return p;
}

template<int How, typename T>
constexpr decltype(auto) pass(T & v)
{
    if constexpr (How == 0) return static_cast<T &>(v);
    else if constexpr (How == 1) return static_cast<T const &>(v);
    else return static_cast<T &&>(v);
}

template<typename Tr, typename Args, unsigned K>
struct Call
{
    static constexpr int N = int(std::tuple_size_v<Args>);
    static constexpr Plan<N> plan = make_plan<N>(K);
    template<std::size_t ...I>
    static auto go(Args & a, std::index_sequence<I...>)
    {
        return Tr::from_args(pass<plan.how[I]>(std::get<std::size_t(plan.order[I])>(a))...);
    }
    static Either<status_message_t, typename Tr::est> call(Args & a)
    {
        return go(a, std::make_index_sequence<std::size_t(plan.count)>{});
    }
};

template<typename Tr, typename Args>
struct Table
{
    using Fn = Either<status_message_t, typename Tr::est> (*)(Args &);
#ifndef PBT_NO_ARGUMENTS
    static constexpr unsigned K = 1 + unsigned(std::tuple_size_v<Args>) + 16;
#else
    static constexpr unsigned K = 1;
#endif
    template<std::size_t ...I>
    static Fn at(unsigned k, std::index_sequence<I...>)
    {
        static constexpr Fn fns[] = {&Call<Tr, Args, unsigned(I)>::call...};
        return fns[k];
    }
    static Fn at(unsigned k) { return at(k, std::make_index_sequence<K>{}); }
};

int gen_int(Tape & t) { return t.pick({1, 2, 0, -1, 3, 5, 7, 127, 128, INT_MAX, INT_MIN, 32768, 1 << 30}); }

struct Values
{
    int i[15] = {};
    float f[15] = {};
    std::string s[15];
    bool trainable = true;
};

Values gen_values(Tape & t, bool regressor)
{
    Values v;
    int const bad = t.chance(2, 5) ? t.range(0, regressor ? 14 : 11) : -1;
    auto num = [&](int k, std::initializer_list<int> good, std::initializer_list<int> other)
    {
        v.i[k] = k == bad ? (t.coin() ? t.pick(other) : gen_int(t)) : t.pick(good);
    };
    if (regressor) num(CLAUSES, {2, 4, 6, 20, 30}, {0, 1, -2, 3, INT_MAX, INT_MAX - 1});
    else num(CLAUSES, {4, 8, 12, 20}, {0, 1, 2, 6, -4, 10, INT_MAX - 3});
    num(STATES, {1, 2, 100, 127, 128, 40000, INT_MAX}, {0, -1, -100});
    v.f[S] = S == bad ? t.pick({0.999f, 0.f, -1.f, 1e38f, NAN, INFINITY, -INFINITY, 0.99999994f, FLT_EPSILON, 1e-45f})
        : t.pick({2.f, 1.f, 1.0000001f, 3.9f, 1e6f, 3.3333333f, 2.718281828f});
    num(THRESHOLD, {1, 2, 15, 100, INT_MAX}, {0, -1, -15});
    v.i[WEIGHTED] = t.coin();
    num(MAX_WEIGHT, {1, 2, 7, INT_MAX}, {0, -1, INT_MIN});
    v.i[BOOST] = t.coin();
    num(N_JOBS, {1, 2, 3, -1}, {0, -2, INT_MIN});
    v.i[VERBOSE] = t.chance(1, 4);
    v.s[COUNTING] = COUNTING == bad ? t.pick<std::string>({"", "int", "int64", "Auto", "auto ", "\"", "\\", "int8\n", "int8,int16"}) : t.pick<std::string>({"auto", "int8", "int16", "int32"});
    num(TILE, {16, 32, 64, 128}, {0, 8, 17, 256, -16});
    v.i[SEED] = int(gen_seed(t));
    v.s[LOSS] = LOSS == bad ? t.pick<std::string>({"", "mse", "L1+2 ", "berhu", "L3", "\""}) : t.pick<std::string>({"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    v.f[C1] = C1 == bad ? t.pick({-0.1f, 1.1f, NAN, INFINITY, -1e30f}) : t.pick({0.f, 0.1f, 0.5f, 1.f, 0.33333334f});
    v.i[BOX_MULLER] = t.coin();
    return v;
}

json value_json(Values const & v, int k)
{
    switch (k)
    {
        case S: case C1: return double(v.f[k]);
        case WEIGHTED: case VERBOSE: case BOX_MULLER: return bool(v.i[k]);
        case COUNTING: case LOSS: return v.s[k];
        case SEED: return unsigned(v.i[k]);
        default: return v.i[k];
    }
}

std::string value_param(Values const & v, int k)
{
    switch (k)
    {
        case S: case C1: return param_str(param_value_t(real_type(v.f[k])));
        case WEIGHTED: case VERBOSE: case BOX_MULLER: return param_str(param_value_t(bool(v.i[k])));
        case COUNTING: case LOSS: return param_str(param_value_t(v.s[k]));
        case SEED: return param_str(param_value_t(seed_type(v.i[k])));
        case N_JOBS: return param_str(param_value_t(v.i[k] == -1 ? std::max(1, int(std::thread::hardware_concurrency())) : v.i[k]));
        default: return param_str(param_value_t(v.i[k]));
    }
}

std::map<std::string, std::string> meaningful(params_t const & p)
{
    auto m = params_map(p);
    for (auto it = m.begin(); it != m.end();) it = it->second == "4:none" ? m.erase(it) : std::next(it);
    return m;
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    using Args = std::conditional_t<Tr::regressor, RegressorArgs, ClassifierArgs>;
    using Tab = Table<Tr, Args>;
    constexpr int N = int(std::tuple_size_v<Args>);
    unsigned const k = unsigned(t.index(Tab::K));
    auto const plan = make_plan<N>(k);
    auto const v = gen_values(t, Tr::regressor);

    auto build = [&]() -> Args
    {
        using Clauses = std::tuple_element_t<0, Args>;
        std::tuple<Clauses, number_of_states_t, specificity_t, threshold_t, weighted_flag_t, max_weight_t, boost_tpf_t, number_of_jobs_t,
            verbosity_t, counting_type_t, clause_output_tile_size_t, random_seed_t> a{
            Clauses{v.i[CLAUSES]}, number_of_states_t{v.i[STATES]}, specificity_t{v.f[S]}, threshold_t{v.i[THRESHOLD]}, weighted_flag_t{bool(v.i[WEIGHTED])},
            max_weight_t{v.i[MAX_WEIGHT]}, boost_tpf_t{bool(v.i[BOOST])}, number_of_jobs_t{v.i[N_JOBS]}, verbosity_t{bool(v.i[VERBOSE])},
            counting_type_t{v.s[COUNTING]}, clause_output_tile_size_t{v.i[TILE]}, random_seed_t{seed_type(v.i[SEED])}};
        if constexpr (Tr::regressor)
            return std::tuple_cat(a, std::make_tuple(loss_fn_name_t{v.s[LOSS]}, loss_fn_C1_t{v.f[C1]}, box_muller_flag_t{bool(v.i[BOX_MULLER])}));
        else
            return a;
    };

    json doc = json::object();
    bool expressible = true, seeded = false, refuse = false;
    ctx.desc << Tr::name() << "(";
    static char const * const HOW[] = {"l", "cl", "r"};
    for (int i = 0; i < plan.count; ++i)
    {
        int const p = plan.order[i];
        doc[name_of(p, Tr::regressor)] = value_json(v, p);
        if ((p == S || p == C1) && !std::isfinite(v.f[p])) expressible = false;
        if (p == SEED) seeded = true;
        ctx.desc << (i ? ", " : "") << name_of(p, Tr::regressor) << "=" << value_param(v, p) << "(" << HOW[plan.how[i]] << ")";
    }
    ctx.desc << ")";

    Args args = build();
    auto a = Tab::at(k)(args);
    if (a.isLeft) PBT_CHECK(a.leftValue.first == S_BAD_JSON, "arguments refused with status " << a.leftValue.first);
    if (!expressible)
    {
        PBT_CHECK(a.isLeft, "parameter which is not a finite number was accepted");
        refuse = true;
    }
    else
    {
        auto j = Tr::from_json(doc.dump());
        PBT_CHECK(a.isLeft == j.isLeft, (a.isLeft ? "arguments refused: " + a.leftValue.second + ", but JSON accepted: " : "arguments accepted, but JSON refused: " + j.leftValue.second + " ") << doc.dump());
        refuse = a.isLeft;
        if (!refuse)
        {
            auto pa = meaningful(a.rightValue.read_params()), pj = meaningful(j.rightValue.read_params());
            for (int i = 0; i < plan.count; ++i)
            {
                auto const key = name_of(plan.order[i], Tr::regressor);
                PBT_CHECK(pa[key] == value_param(v, plan.order[i]), key << " is reported as " << pa[key] << ", was given as " << value_param(v, plan.order[i]));
            }
            // as JSON without any keys says about those not given
            auto d = Tr::from_json("{}");
            auto pd = meaningful(d.rightValue.read_params());
            for (int p = 0; p < N; ++p)
            {
                auto const key = name_of(p, Tr::regressor);
                if (p != SEED && std::find(plan.order, plan.order + plan.count, p) == plan.order + plan.count)
                    PBT_CHECK(pa[key] == pd[key], "default of " << key << " is " << pa[key] << " for arguments and " << pd[key] << " for JSON");
            }
            if (!seeded) { PBT_CHECK(pa["random_state"].substr(0, 2) == "1:", "no seed was drawn"); pa.erase("random_state"); pj.erase("random_state"); }
            PBT_CHECK(pa == pj, "parameters differ: " << params_str(pa) << " vs " << params_str(pj));
            ++ctx.sub_evaluations;

            auto const given = [&](int p){ return std::find(plan.order, plan.order + plan.count, p) != plan.order + plan.count; };
            bool const small = (!given(CLAUSES) || v.i[CLAUSES] < 100) && (!given(N_JOBS) || v.i[N_JOBS] < 9);
            bool const verbose = given(VERBOSE) && v.i[VERBOSE];
            if (seeded && small && !verbose)
            {
                Bulk b = t.bulk();
                int const F = t.pick({1, 3, 17, 64, 65});
                int const T = given(THRESHOLD) ? v.i[THRESHOLD] : 15;
                int const n = 4;
                auto const X = to_data<Tr>(gen_uniform_rows(b, n, F));
                Labels y;
                for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(std::min(T, 1000)) + 1 : 3)));
                bool const dflt = t.chance(1, 10); // number of epochs left out
                status_message_t sa, sj;
                if constexpr (Tr::regressor)
                {
                    sa = dflt ? a.rightValue.fit(X, y) : a.rightValue.fit(X, y, number_of_epochs_t{2});
                    sj = j.rightValue.fit(X, y, number_of_epochs_t{dflt ? 100u : 2u});
                }
                else
                {
                    // fit's own named arguments, in either order
                    int const L = t.range(2, 4);
                    number_of_epochs_t const epochs{2};
                    max_number_of_labels_t labels{L};
                    sa = dflt ? a.rightValue.fit(X, y, labels) : t.coin() ? a.rightValue.fit(X, y, epochs, labels) : a.rightValue.fit(X, y, labels, number_of_epochs_t{2});
                    sj = j.rightValue.fit(X, y, max_number_of_labels_t{L}, number_of_epochs_t{dflt ? 100u : 2u});
                }
                expect_ok(sa, "fit after arguments");
                expect_ok(sj, "fit after JSON");
                auto const df = diff(snap_of<Tr>(a.rightValue), snap_of<Tr>(j.rightValue));
                PBT_CHECK(df.empty(), "estimators made from arguments and from JSON train differently: " << df);
                if (plan.count > 1) ctx.label("trained");
                ctx.sub_evaluations += 1;
                if (dflt) ctx.label("default number of epochs");
            }

            // values of l-value arguments are still there for the next estimator
            bool lvalues_only = true;
            for (int i = 0; i < plan.count; ++i) if (plan.how[i] == 2) lvalues_only = false;
            if (plan.count > 0)
            {
                Args const fresh = build();
                auto check = [&](auto const & x, auto const & y, int p)
                {
                    for (int i = 0; i < plan.count; ++i)
                        if (plan.order[i] == p && plan.how[i] != 2)
                            PBT_CHECK(value_of(x) == value_of(y), "l-value argument " << name_of(p, Tr::regressor) << " was consumed");
                };
                check(std::get<COUNTING>(args), std::get<COUNTING>(fresh), COUNTING);
                if constexpr (Tr::regressor) check(std::get<LOSS>(args), std::get<LOSS>(fresh), LOSS);
            }
            if (lvalues_only && plan.count > 0)
            {
                auto again = Tab::at(k)(args);
                PBT_CHECK(!again.isLeft, "the same l-value arguments were refused the second time: " << again.leftValue.second);
                auto pb = meaningful(again.rightValue.read_params());
                if (!seeded) pb.erase("random_state");
                PBT_CHECK(pa == pb, "the same l-value arguments give other parameters the second time");
                ctx.label("l-values reused");
            }
        }
    }
    ctx.nontrivial = plan.count >= 1;
    ctx.label(Tr::name());
    ctx.label(refuse ? "refused" : "accepted");
    ctx.label(plan.count == 0 ? "no argument" : plan.count == 1 ? "one argument" : plan.count == N ? "all arguments" : "some arguments");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C09", run, 120000, 2500000, 8, 60,
        "distinct combinations of passed arguments (non-empty), their order, value categories and values",
        {"combinations of arguments are a fixed pool, as they are chosen at compile time: none, each alone, and 16 pseudo-random subsets and orders per factory; values are generated"}};
    return p;
}
