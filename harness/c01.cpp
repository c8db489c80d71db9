// C01: votes, decision values and predictions against an independent model.
#include "tsm.hpp"

using namespace tsm;

namespace {

template<typename Tr>
void check_answers(typename Tr::est const & e, Snap const & s, int labels, int T, Rows const & X, Ctx & ctx, char const * who)
{
    auto const data = to_data<Tr>(X);
    auto const pred = ok(e.predict(data), "predict");
    PBT_CHECK(pred.size() == X.size(), who << ": predict returned " << pred.size() << " values for " << X.size() << " rows");
    if constexpr (Tr::regressor)
    {
        for (std::size_t i = 0; i < X.size(); ++i)
        {
            int const want = ref_response(s, T, X[i]);
            PBT_CHECK(pred[i] == want, who << ": response " << pred[i] << ", clauses vote " << want << " for row " << row_str(X[i]));
            int const one = ok(e.predict(data[i]), "predict");
            PBT_CHECK(one == want, who << ": response to a single sample " << one << ", clauses vote " << want << " for row " << row_str(X[i]));
            ctx.sub_evaluations += 2;
        }
    }
    else
    {
        auto const dec = ok(e.decision_function(data), "decision_function");
        PBT_CHECK(dec.size() == X.size(), who << ": decision_function returned " << dec.size() << " rows");
        for (std::size_t i = 0; i < X.size(); ++i)
        {
            auto const want = ref_decision(s, labels, T, X[i]);
            std::vector<int> got(dec[i].begin(), dec[i].end());
            PBT_CHECK(got == want, who << ": decision values [" << list_str(got) << "], clauses vote [" << list_str(want) << "] for row " << row_str(X[i]));
            auto one = ok(e.decision_function(data[i]), "decision_function");
            std::vector<int> got1(one.begin(), one.end());
            PBT_CHECK(got1 == want, who << ": decision values of a single sample [" << list_str(got1) << "], clauses vote [" << list_str(want) << "] for row " << row_str(X[i]));
            PBT_CHECK(pred[i] == argmax(want), who << ": predicted label " << pred[i] << ", decision values [" << list_str(want) << "]");
            ctx.sub_evaluations += 3;
        }
    }
}

template<typename A, typename B>
void case_for(Tape & t, Ctx & ctx)
{
    static_assert(!A::bitwise && B::bitwise);
    constexpr bool reg = A::regressor;

    Cfg cfg;
    cfg.tile = gen_tile(t);
    bool const wide = t.chance(1, 4); // enough features for full tiles of the bitwise backend
    cfg.states = gen_states(t);
    cfg.counting = gen_counting(t);
    cfg.weighted = t.coin();
    cfg.max_weight = t.pick({INT_MAX, 1, 2, 1000, 1 << 30});
    cfg.n_jobs = t.pick({1, 1, 2, 3, 7, -1, 16});
    cfg.boost = t.coin();
    cfg.T = t.pick({15, 1, 2, 3, 5, 1000, INT_MAX, 1 << 30});
    Big const big = wide ? Big::None : gen_big(t, {Big::Labels, Big::Clauses, Big::Rows});
    bool const huge = wide ? t.chance(1, 400) : gen_huge(t, big, 60);
    int const labels = reg ? 1 : big == Big::Labels ? huge ? huge_size(t) : big_labels(t) : huge ? 2 : t.range(2, 5);
    int const unit = reg ? 2 : 4;
    cfg.clauses = unit * (big == Big::Clauses ? huge ? (huge_size(t) + 1) / 2 : big_units(t) : big == Big::Labels || huge ? 1 : t.range(1, wide ? 2 : 6));
    int const F = huge ? wide ? huge_size(t) : t.range(1, 3) : gen_features(t, wide ? 8400 : big == Big::None ? 400 : 70, cfg.tile, wide);
    int const mode = t.weighted({3, 1}); // crafted automata, or trained ones
    int const n_rows = big == Big::Rows ? big_rows(t) : t.range(1, huge ? 2 : 5);
    Bulk b = t.bulk();

    ctx.desc << (reg ? "regressor " : "classifier ") << cfg.str(reg) << " labels=" << labels << " features=" << F;

    Rows X = gen_rows(b, n_rows, F);
    auto a = blank<A>(cfg, labels, F);
    auto st = a.clone_state();
    unsigned const nclauses = snap(*st, false).rows / 2;

    if (mode == 0)
    {
        ctx.desc << " crafted clauses:";
        int fires = 0;
        for (unsigned j = 0; j < nclauses; ++j)
        {
            auto const kind = Craft(b.below(uint64_t(Craft::COUNT)));
            Row inc[2];
            craft_clause(b, kind, X[b.below(n_rows)], inc);
            write_clause(*st, j, inc, b, cfg.states);
            if (cfg.weighted) st->ta_state.weights.at(j) = craft_weight(b, cfg.max_weight);
            if (j < 12) ctx.desc << " " << craft_name(kind) << ";";
            ctx.label(std::string("clause: ") + craft_name(kind));
            (void)fires;
        }
    }
    else
    {
        // learned automata
        typename A::est e(*st);
        Labels y = reg ? Labels() : gen_labels(b, n_rows, labels);
        if (reg) for (int i = 0; i < n_rows; ++i) y.push_back(int(b.below(uint64_t(std::min(cfg.T, 50)) + 1)));
        partial_fit<A>(e, to_data<A>(X), y, 1 + unsigned(b.below(huge ? 3 : 30)));
        st = e.clone_state();
        ctx.desc << " trained";
        ctx.label("trained automata");
    }
    auto const s = snap(*st, false);

    // rows: as generated, single features flipped, all zero and all one
    Rows Q = X;
    for (int k = 0; k < 3; ++k)
    {
        Row r = X[b.below(n_rows)];
        auto p = b.below(4) == 0 ? std::size_t(F - 1) : b.below(F);
        r[p] = !r[p];
        Q.push_back(r);
    }
    Q.push_back(Row(F, 0));
    Q.push_back(Row(F, 1));

    bool fired = false, silent = false, limited = false;
    for (auto const & x : Q)
    {
        for (unsigned j = 0; j < nclauses; ++j) (votes(s, j, x, false) ? fired : silent) = true;
        if (reg) limited = limited || ref_response(s, cfg.T, x) == cfg.T;
        else for (auto v : ref_decision(s, labels, cfg.T, x)) limited = limited || std::abs(int64_t(v)) == cfg.T;
    }
    if (fired) ctx.label("some clause votes");
    if (limited) ctx.label("vote reaches the limit");
    if (F > cfg.tile) ctx.label("classic: more than one tile");
    if (F > cfg.tile * 64) ctx.label("bitwise: more than one tile");
    if (cfg.n_jobs != 1) ctx.label("parallel");
    if (big != Big::None) ctx.label("one large dimension");
    if (huge) ctx.label("one dimension about 32768 or 65536");
    ctx.nontrivial = fired && silent;

    check_answers<A>(typename A::est(*st), s, labels, cfg.T, Q, ctx, A::name());

    // same automata in the bitwise estimator
    auto eb = blank<B>(cfg, labels, F);
    auto sb = eb.clone_state();
    for (unsigned r = 0; r < s.rows; ++r) for (unsigned c = 0; c < s.cols; ++c) set_ta(*sb, r, c, s.at(r, c));
    if (cfg.weighted) std::copy(s.weights.begin(), s.weights.end(), sb->ta_state.weights.begin());
    check_answers<B>(typename B::est(*sb), s, labels, cfg.T, Q, ctx, B::name());
}

void run(Tape & t, Ctx & ctx)
{
    if (t.chance(2, 5)) case_for<RC, RB>(t, ctx);
    else case_for<CC, CB>(t, ctx);
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C01", run, 100000, 2000000, 8, 60,
        "distinct cases (hash of generated choices) in which at least one clause votes and at least one does not, over the queried rows",
        {"automata and weights are injected through clone_state() and the public state constructor; values outside [-N, N-1] are not generated"}};
    return p;
}
