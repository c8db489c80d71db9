// C19: estimators learn concepts a Tsetlin machine is known to learn.
#include "tsm.hpp"

#include <cmath>
#include <cstdlib>

using namespace tsm;

namespace {

struct Task
{
    std::string name;
    int relevant = 1;          // features the concept is about
    int labels = 2;
    bool linear = true;        // learned among many irrelevant features, too
    std::function<int(Row const &)> f; // of the relevant features, in order
};

Task gen_task(Tape & t)
{
    Task k;
    unsigned const neg = unsigned(t.draw(255));
    auto lit = [neg](Row const & r, int i) { return (r[i] != 0) != (((neg >> i) & 1) != 0); };
    switch (t.range(0, 5))
    {
        case 0:
            k.name = "literal";
            k.relevant = 1;
            k.f = [lit](Row const & r) { return int(lit(r, 0)); };
            break;
        case 1:
            k.relevant = t.range(2, 3);
            k.name = "conjunction of " + std::to_string(k.relevant);
            k.f = [lit, n = k.relevant](Row const & r) { for (int i = 0; i < n; ++i) if (!lit(r, i)) return 0; return 1; };
            break;
        case 2:
            k.relevant = t.range(2, 3);
            k.name = "disjunction of " + std::to_string(k.relevant);
            k.f = [lit, n = k.relevant](Row const & r) { for (int i = 0; i < n; ++i) if (lit(r, i)) return 1; return 0; };
            break;
        case 3:
            k.relevant = 2;
            k.name = "exclusive-or";
            k.linear = false;
            k.f = [lit](Row const & r) { return int(lit(r, 0) != lit(r, 1)); };
            break;
        case 4:
            k.relevant = 2;
            k.labels = t.range(3, 4);
            k.linear = false;
            k.name = "selector of " + std::to_string(k.labels);
            k.f = [lit, n = k.labels](Row const & r) { return (int(lit(r, 0)) * 2 + int(lit(r, 1))) % n; };
            break;
        default:
            k.relevant = 3;
            k.name = "majority of 3";
            k.f = [lit](Row const & r) { return int(int(lit(r, 0)) + int(lit(r, 1)) + int(lit(r, 2)) >= 2); };
            break;
    }
    return k;
}

template<typename Tr>
Cfg gen_cfg(Tape & t)
{
    Cfg c;
    c.states = t.pick({100, 64, 127, 128, 200, 1000});
    c.weighted = t.coin();
    c.boost = t.coin();
    c.counting = gen_counting(t);
    c.tile = gen_tile(t);
    c.n_jobs = 1;
    c.seed = unsigned(t.draw(UINT32_MAX));
    return c;
}

// Positions of the relevant features among all
std::vector<int> gen_places(Bulk & b, int F, int k)
{
    std::vector<int> all(F);
    for (int i = 0; i < F; ++i) all[i] = i;
    for (int i = 0; i < k; ++i) std::swap(all[i], all[i + int(b.below(uint64_t(F - i)))]);
    all.resize(k);
    return all;
}

Row relevant(Row const & r, std::vector<int> const & places)
{
    Row rv;
    for (int p : places) rv.push_back(r[p]);
    return rv;
}

// All inputs when there are few, many random ones otherwise
Rows test_inputs(Bulk & b, int F)
{
    if (F > 9) return gen_uniform_rows(b, 500, F);
    Rows X;
    for (unsigned v = 0; v < (1u << F); ++v) { Row r(F); for (int i = 0; i < F; ++i) r[i] = char((v >> i) & 1); X.push_back(r); }
    return X;
}

template<typename Tr>
void classify(Tape & t, Ctx & ctx)
{
    auto const k = gen_task(t);
    auto c = gen_cfg<Tr>(t);
    // enough clauses, which can reach the target together: half of them are for a label
    c.clauses = 4 * t.range(12, 25);
    c.T = t.range(4, c.clauses / 8);
    c.s = 2.5f + float(t.range(0, 20)) / 10.f;
    bool const noise = t.chance(1, 4);
    int const F = k.relevant + t.range(0, 8) + (k.linear && t.chance(1, 4) ? 58 : 0);
    int const n = (F > 50 ? 1000 : 400) + t.range(0, 200);
    Bulk b(1 + t.draw(0xffffffffull));
    auto const places = gen_places(b, F, k.relevant);
    auto target = [&](Row const & r) { return k.f(relevant(r, places)); };
    auto const X = gen_uniform_rows(b, n, F);
    Labels y;
    for (auto const & r : X) y.push_back(noise && b.below(10) == 0 ? int(b.below(uint64_t(k.labels))) : target(r));
    auto const Q = test_inputs(b, F);
    Labels q;
    for (auto const & r : Q) q.push_back(target(r));
    ctx.desc << Tr::name() << " " << c.str(false) << " learns " << k.name << (noise ? " from noisy labels" : "") <<  ", " << F << " features, " << n << " rows";

    auto const dX = to_data<Tr>(X), dQ = to_data<Tr>(Q);
    auto e = make<Tr>(c);
    bool const relearn = t.chance(1, 5);
    if (relearn)
    {
        // another concept was learned before
        Labels other;
        for (int v : y) other.push_back(k.labels - 1 - v);
        fit<Tr>(e, dX, other, 1 + unsigned(b.below(20)), k.labels);
        partial_fit<Tr>(e, dX, y, 20, k.labels);
    }
    else
    {
        fit<Tr>(e, dX, y, 20, k.labels);
    }
    double best = 0;
    int epochs = 20;
    double const goal = noise ? 0.95 : 1.0;
    for (;;)
    {
        double const acc = ok(e.evaluate(dQ, q), "evaluate");
        best = std::max(best, acc);
        if (best >= goal || epochs >= 400) break;
        partial_fit<Tr>(e, dX, y, 20, k.labels);
        epochs += 20;
    }
    double const need = noise ? 0.88 : F > 50 ? 0.95 : 0.97;
    PBT_CHECK(best >= need, "after " << epochs << " epochs only " << best << " of all inputs are classified correctly, at least " << need << " expected");
    ctx.nontrivial = true;
    ctx.label(Tr::name());
    ctx.label(k.name);
    if (noise) ctx.label("with label noise");
    if (relearn) ctx.label("after another concept");
    ctx.add("epochs trained", epochs);
    ctx.sub_evaluations = uint64_t(epochs / 20);
}

template<typename Tr>
void regress(Tape & t, Ctx & ctx)
{
    auto c = gen_cfg<Tr>(t);
    int const k = t.range(1, 4);
    c.weighted = t.coin();
    int const scale = c.weighted ? t.pick({20, 50, 100, 500}) : 10 + t.range(0, 10);
    // clauses without weights have to reach the target together
    c.clauses = c.weighted ? 2 * t.range(30, 150) : std::max(80, 6 * k * scale) + 2 * t.range(0, 50);
    c.T = k * scale + t.pick({0, 1, scale / 4});
    c.s = 2.0f + float(t.range(0, 20)) / 10.f;
    c.loss = t.pick({"MSE", "MAE", "L1+2", "berHu"});
    c.C1 = t.pick({0.5f, 0.1f, 0.9f});
    c.box_muller = t.coin();
    int const F = k + t.range(0, 5);
    int const n = 300 + t.range(0, 200);
    Bulk b(1 + t.draw(0xffffffffull));
    auto const places = gen_places(b, F, k);
    auto target = [&](Row const & r) { int v = 0; for (int p : places) v += r[p]; return v * scale; };
    auto const X = gen_uniform_rows(b, n, F);
    Labels y;
    for (auto const & r : X) y.push_back(target(r));
    auto const Q = test_inputs(b, F);
    double mean = 0;
    for (auto const & r : Q) mean += target(r);
    mean /= double(Q.size());
    double base = 0; // error of the best constant
    for (auto const & r : Q) base += std::fabs(target(r) - mean);
    base /= double(Q.size());
    ctx.desc << Tr::name() << " " << c.str(true) << " learns " << scale << " times the count of " << k << " among " << F << " features, " << n << " rows";

    auto const dX = to_data<Tr>(X), dQ = to_data<Tr>(Q);
    auto e = make<Tr>(c);
    fit<Tr>(e, dX, y, 20);
    double best = 1e9;
    int epochs = 20;
    for (;;)
    {
        auto const p = ok(e.predict(dQ), "predict");
        double mae = 0;
        for (std::size_t i = 0; i < Q.size(); ++i) mae += std::abs(p[i] - target(Q[i]));
        best = std::min(best, mae / double(Q.size()));
        if (best <= 0.2 * base || epochs >= 400) break;
        partial_fit<Tr>(e, dX, y, 20);
        epochs += 20;
    }
    PBT_CHECK(best <= 0.45 * base, "after " << epochs << " epochs the mean error is " << best << ", a constant has " << base);
    ctx.nontrivial = true;
    ctx.label(Tr::name());
    ctx.label("count of " + std::to_string(k));
    ctx.add("epochs trained", epochs);
    ctx.sub_evaluations = uint64_t(epochs / 20);
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr)
    {
        using Tr = decltype(tr);
        if constexpr (Tr::regressor) regress<Tr>(t, ctx);
        else classify<Tr>(t, ctx);
    });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C19", run, 6000, 400000, 8, 120,
        "distinct learning tasks, each trained until the concept is learned or 400 epochs have passed",
        {"a concept counts as learned when 97 of 100 inputs are right (95 among 58 and more irrelevant features, 88 with a tenth of the training labels replaced at random) at some moment of training",
         "a count counts as tracked when the mean error is at most 0.45 of that of the best constant"}};
    return p;
}
