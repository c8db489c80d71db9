// C11: each classifier training step gives only the prescribed feedback.
#include "feedback.hpp"

using namespace tsm;

namespace {

// Explanation why the clauses of a label were not trained as target (or as the other label); empty when they may have been
std::string explain(Step const & st, int label, int per, int vote, bool target, uint64_t & judged)
{
    int const T = st.c.T;
    bool const never = target ? vote == T : vote == -T;
    bool const always = target ? vote == -T : vote == T;
    for (int j = label * per; j < (label + 1) * per; ++j)
    {
        bool const same = st.unchanged(j);
        if (same && !always) continue;
        std::ostringstream os;
        os << "clause " << j << " of label " << label << " (vote " << vote << " of " << T << ", " << (target ? "label of the sample" : "other label") << ") ";
        if (never)
        {
            os << "got feedback although the label is at its voting target";
            return os.str();
        }
        bool const fired = all_true(st.before, j, st.x);
        bool const first = (j % 2 == 0) == target;
        auto const h = first ? st.type1(j, fired) : st.type2(j, fired);
        ++judged;
        if (h.none() || h.lo > 1 || h.hi < 1)
        {
            os << (first ? "Type I" : "Type II") << " feedback to a clause which " << (fired ? "fires" : "does not fire") << " does not explain the change";
            if (!h.why.empty()) os << ": " << h.why;
            else if (h.lo > 1) os << ": moved by " << h.lo << " steps";
            else os << ": nothing changed, feedback was certain";
            return os.str();
        }
    }
    return "";
}

template<typename Tr>
void check_step(Cfg const & c, Snap const & before, Snap const & after, Row const & x, int y, int labels, Ctx & ctx)
{
    PBT_CHECK(before.rows == after.rows && before.cols == after.cols && before.weights.size() == after.weights.size(), "a training step changed the shape of the state");
    int const per = clauses_of(before) / labels;
    auto const dec = ref_decision(before, labels, c.T, x, true);
    Step const st{c, before, after, x, Tr::bitwise};
    uint64_t judged = 0;

    auto const why = explain(st, y, per, dec[y], true, judged);
    PBT_CHECK(why.empty(), why);

    std::vector<int> moved;
    for (int l = 0; l < labels; ++l)
    {
        if (l == y) continue;
        for (int j = l * per; j < (l + 1) * per; ++j) if (!st.unchanged(j)) { moved.push_back(l); break; }
    }
    PBT_CHECK(moved.size() <= 1, "clauses of " << moved.size() << " labels other than that of the sample changed: " << list_str(moved));
    std::string whys;
    bool explained = false;
    for (int l = 0; l < labels && !explained; ++l)
    {
        if (l == y || (!moved.empty() && moved[0] != l)) continue;
        auto const w = explain(st, l, per, dec[l], false, judged);
        if (w.empty()) explained = true;
        else whys += (whys.empty() ? "" : "; ") + w;
    }
    PBT_CHECK(explained, "no label explains the changes as the other label: " << whys);

    ++ctx.sub_evaluations;
    if (judged) ctx.nontrivial = true;
    ctx.add("clauses whose change was judged", double(judged));
    if (dec[y] == c.T) ctx.label("label of the sample at its voting target");
    if (dec[y] == -c.T) ctx.label("label of the sample at the opposite extreme");
    if (labels == 2 && dec[1 - y] == c.T) ctx.label("other label at the opposite extreme");
    if (labels == 2 && dec[1 - y] == -c.T) ctx.label("other label at its voting target");
}

template<typename Tr>
void craft(typename Tr::state & st, Cfg const & c, int clauses, int per, Row const & x, Bulk & b, int style)
{
    // style 1, 2: pull labels to an extreme
    for (int j = 0; j < clauses; ++j)
    {
        Craft k = Craft(b.below(uint64_t(Craft::COUNT)));
        if (style && b.below(8))
        {
            bool const up = ((j / per) % 2 == 0) == (style == 1);
            bool const fire = (j % 2 == 0) == up;
            static Craft const firing[] = {Craft::Consistent, Craft::SingleTrue, Craft::AllTrue, Craft::Empty};
            static Craft const silent[] = {Craft::OneWrong, Craft::SingleFalse, Craft::Contradiction, Craft::OneWrong};
            k = fire ? firing[b.below(4)] : silent[b.below(4)];
        }
        Row inc[2];
        craft_clause(b, k, x, inc);
        write_clause(st, unsigned(j), inc, b, c.states);
        if (c.weighted) st.ta_state.weights[j] = craft_weight(b, c.max_weight);
    }
}

template<typename Tr>
void steps(Tape & t, Ctx & ctx)
{
    Cfg c;
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Features, Big::Features});
    bool const huge = (big == Big::Labels || big == Big::Clauses) && t.chance(1, 60);
    c.clauses = 4 * (huge ? big == Big::Labels ? 1 : t.coin() ? t.range(8200, 17000) : huge_size(t) / 2 : big == Big::Clauses ? big_units(t) : t.range(1, 5));
    c.states = t.pick({100, 1, 2, 3, 127, 128, 32767, 32768, INT_MAX});
    c.s = t.pick({1e30f, 1.0f, 2.0f, 3.9f, 1.3f, 50.f});
    c.T = t.weighted({3, 2, 1}) == 0 ? t.range(1, 4) : t.pick({1, 10, 100, 1000000, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, INT_MAX});
    c.weighted = t.coin();
    c.max_weight = gen_max_weight(t);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.seed = gen_seed(t);
    int const labels = big == Big::Labels ? huge ? t.coin() ? t.range(16500, 33000) : huge_size(t) : big_labels(t) : huge ? t.range(2, 3) : t.range(2, 5);
    int const F = huge ? t.range(1, 3) : big == Big::Features ? big_features(t, Tr::bitwise) : big != Big::None ? t.range(1, 9) : gen_features(t, t.chance(1, 8) ? 1200 : 140, c.tile, false);
    int const n = huge ? 1 : t.range(1, 6);
    if (huge) ctx.label("tens of thousands of labels or clauses");
    // the largest real number is about to be drawn
    bool const one = t.chance(1, 4);
    if (one && t.chance(3, 4)) c.T = t.pick({41, 47, 55, 61, 82, 94, 97, 107, 109});
    ctx.desc << Tr::name() << " " << c.str(false) << " labels=" << labels << " features=" << F;

    auto e = blank<Tr>(c, labels, F);
    int const per = c.clauses / 2;
    for (int k = 0; k < n; ++k)
    {
        Bulk b = t.bulk();
        int const style = t.range(0, 2);
        bool const recraft = k == 0 || t.chance(1, 2);
        Row const x = gen_row(b, F);
        int const y = int(b.below(uint64_t(labels)));
        if (recraft)
        {
            auto st = e.clone_state();
            craft<Tr>(*st, c, labels * per, per, x, b, style);
            if (one)
            {
                // of these seeds draws number 1047 and 471 are 1.0
                bool const second = b.below(2);
                st->fgen.init(second ? 31976 : 27641);
                for (int i = int(b.below(uint64_t(2 * per))); i < (second ? 470 : 1046); ++i) st->fgen();
            }
            e = typename Tr::est(*st);
        }
        auto const before = snap_of<Tr>(e, false);
        partial_fit<Tr>(e, to_data<Tr>({x}), {y}, 1);
        auto const after = snap_of<Tr>(e, false);
        if (k < 2) ctx.desc << (recraft ? "; crafted" : "") << "; sample " << row_str(x) << " label " << y;
        check_step<Tr>(c, before, after, x, y, labels, ctx);
    }
    ctx.label(Tr::name());
    ctx.label(c.s >= 1e20f ? "s: literals are never drawn" : c.s == 1.f ? "s: literals are always drawn" : "s: literals are drawn at random");
    if (one) ctx.label("largest real number drawn");
    if (c.weighted) ctx.label("weighted");
    if (c.boost) ctx.label("boost");
    if (labels == 2) ctx.label("two labels");
    if (big != Big::None) ctx.label("one large dimension");
}

// All samples are at the voting targets of their labels, and other labels at theirs: training changes nothing.
template<typename Tr>
void fixed_point(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 4 * t.range(1, 4);
    c.states = t.pick({100, 1, 3, 127, 128});
    c.s = t.pick({1.0f, 2.0f, 3.9f});
    c.boost = t.coin();
    c.weighted = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.seed = gen_seed(t);
    int const labels = t.range(2, 5);
    int const rows = labels + t.range(0, 6);
    int const extra = t.pick({0, 1, 60, 130});
    int const F = rows + extra;
    int const per = c.clauses / 2;
    unsigned const epochs = unsigned(t.range(1, 10));
    Bulk b = t.bulk();
    uint32_t const w = c.weighted ? uint32_t(b.below(3)) : 0;
    c.T = 1 + int(b.below(uint64_t(per / 2 * (int(w) + 1))));

    Rows X;
    Labels y;
    for (int i = 0; i < rows; ++i)
    {
        Row r = gen_row(b, F);
        for (int k = 0; k < rows; ++k) r[k] = char(i == k);
        X.push_back(r);
        y.push_back(i < labels ? i : int(b.below(uint64_t(labels))));
    }
    auto e = blank<Tr>(c, labels, F);
    auto st = e.clone_state();
    for (int j = 0; j < labels * per; ++j)
    {
        int const l = j / per;
        Row inc[2] = {Row(F, 0), Row(F, 0)};
        // even clauses fire for rows of the label, odd ones for the rest
        for (int k = 0; k < rows; ++k) inc[1][k] = char((y[k] == l) != (j % 2 == 0));
        write_clause(*st, unsigned(j), inc, b, c.states);
        if (c.weighted) st->ta_state.weights[j] = w;
    }
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    for (int i = 0; i < rows; ++i)
    {
        auto const d = ref_decision(before, labels, c.T, X[i], true);
        for (int l = 0; l < labels; ++l) PBT_CHECK(d[l] == (l == y[i] ? c.T : -c.T), "harness: state is not saturated");
    }
    partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    auto const d = diff(before, snap_of<Tr>(e, false));
    ctx.desc << Tr::name() << " " << c.str(false) << " labels=" << labels << " rows=" << rows << " features=" << F << ": saturated votes, " << epochs << " epochs";
    PBT_CHECK(d.empty(), "all labels are at their voting targets for all samples, but training changed the state: " << d);
    ctx.nontrivial = true;
    ctx.label("all samples at voting targets, many rows and epochs");
}

// Training on several rows and epochs ends in a state to which prescribed steps lead.
template<typename Tr>
void reachable(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = 4 * t.weighted({0, 6, 1});
    c.states = t.pick({100, 1, 2, 3, 5, 127, 128, 129, 32768});
    c.s = !Tr::bitwise && t.coin() ? 1.f : 1e30f;
    c.T = t.range(1, 4);
    c.weighted = t.coin();
    c.max_weight = gen_max_weight(t);
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.seed = gen_seed(t);
    int const labels = t.weighted({0, 0, 3, 2, 1});
    bool const big = t.chance(1, 20);
    int const F = big ? std::min(1100, big_features(t, Tr::bitwise)) : t.chance(1, 4) ? gen_features(t, 140, c.tile, false) : t.range(1, 5);
    int const n = t.weighted({0, 2, 4, 3, 1}), per = c.clauses / 2;
    unsigned const epochs = unsigned(t.range(1, n == 1 ? 4 : n <= 3 ? 2 : 1));
    int const style = t.range(0, 2);
    Bulk b = t.bulk();
    auto const X = gen_rows(b, n, F);
    auto const y = gen_labels(b, n, labels);
    auto e = blank<Tr>(c, labels, F);
    auto st = e.clone_state();
    craft<Tr>(*st, c, labels * per, per, X[0], b, style);
    e = typename Tr::est(*st);
    auto const before = snap_of<Tr>(e, false);
    partial_fit<Tr>(e, to_data<Tr>(X), y, epochs);
    auto const after = snap_of<Tr>(e, false);
    ctx.desc << Tr::name() << " " << c.str(false) << " labels=" << labels << " features=" << F << "; crafted; " << n << " rows";
    for (int i = 0; i < n; ++i) ctx.desc << " " << row_str(X[i]) << ":" << y[i];
    ctx.desc << ", " << epochs << " epochs";
    PBT_CHECK(before.rows == after.rows && before.cols == after.cols && before.weights.size() == after.weights.size(), "training changed the shape of the state");

    Reach r{c, false, labels, F, big || F > 40 ? 400u : 6000u, false, {}};
    std::set<Reach::State> now{r.pack(before)};
    for (unsigned k = 0; k < epochs && !r.overflow; ++k) now = r.epoch(now, X, y);
    ctx.label(r.overflow ? "several rows: too many outcomes" : "several rows: all outcomes known");
    if (r.overflow) return;
    auto const got = r.pack(after);
    ctx.add("outcomes of several rows", double(now.size()));
    PBT_CHECK(now.count(got), "training on " << n << " rows for " << epochs << " epochs ended in none of the " << now.size() << " states to which prescribed feedback leads, in any order of rows");
    ctx.nontrivial = got != r.pack(before) || now.size() == 1;
    ++ctx.sub_evaluations;
}

void run(Tape & t, Ctx & ctx)
{
    bool const several = t.chance(1, 4);
    bool const fixed = t.chance(1, 10);
    for_kind(t.range(0, 1), [&](auto tr)
    {
        using Tr = decltype(tr);
        if constexpr (!Tr::regressor)
        {
            if (several) reachable<Tr>(t, ctx);
            else if (fixed) fixed_point<Tr>(t, ctx);
            else steps<Tr>(t, ctx);
        }
    });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C11", run, 180000, 9000000, 8, 60,
        "distinct sequences of steps in which at least one clause changed or had to change, and its change was judged against the prescribed feedback",
        {"which clauses get feedback is random between the extremes of the vote: there both outcomes are accepted here, rates are the subject of C13",
         "with more than two labels the other label is not observable, any that explains the changes is accepted",
         "specificity 1e30 stands for literals never drawn (probability of a draw below 1e-26), 1 for always drawn"}};
    return p;
}
