// C20: no call sequence corrupts memory or triggers undefined behaviour.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer, and plainly to be run by valgrind.
#include "tsm.hpp"

#include "mt.hpp"

#include <cmath>
#include <memory>

using namespace tsm;

namespace {

std::string num(double v) { std::ostringstream os; os.precision(9); os << v; return os.str(); }

// Parameters, with values at and beyond all their limits. Resources stay bounded: few clauses.
std::string gen_params_text(Tape & t, bool regressor)
{
    std::vector<std::string> kv;
    auto add = [&](char const * k, std::string const & v) { kv.push_back(std::string("\"") + k + "\": " + v); };
    auto sometimes = [&]{ return t.chance(2, 3); };
    add(regressor ? "number_of_regressor_clauses" : "number_of_clauses_per_label",
        t.pick<std::string>({"8", "4", "12", "20", "2", "6", "0", "-4", "3", "44"}));
    if (sometimes()) add("number_of_states", t.pick<std::string>({"100", "1", "2", "127", "128", "32767", "32768", "2147483647", "0", "-1", "2147483648", "1e30"}));
    if (sometimes()) add("s", t.pick<std::string>({"2.0", "1.0", "1", "1e30", "3.4e38", "1e39", "1.0000001", "0.5", "1e6", "-1", "100", "7"}));
    if (sometimes()) add("threshold", t.pick<std::string>({"15", "1", "2", "2147483647", "1073741824", "1073741823", "0", "-5", "65536"}));
    if (sometimes()) add("weighted", t.pick<std::string>({"true", "false", "1"}));
    if (sometimes()) add("max_weight", t.pick<std::string>({"2147483647", "1", "2", "7", "0", "-1"}));
    if (sometimes()) add("boost_true_positive_feedback", t.pick<std::string>({"0", "1", "2", "-1", "true"}));
    add("n_jobs", t.pick<std::string>({"1", "1", "2", "3", "-1", "0", "8", "-2"}));
    if (sometimes()) add("counting_type", t.pick<std::string>({"\"auto\"", "\"int8\"", "\"int16\"", "\"int32\"", "\"int64\"", "\"\""}));
    if (sometimes()) add("clause_output_tile_size", t.pick<std::string>({"16", "32", "64", "128", "1", "0", "-16"}));
    if (sometimes()) add("random_state", t.pick<std::string>({"1", "0", "4294967295", "2147483648", "null", "-1", "77"}));
    if (t.chance(1, 8)) add("verbose", t.pick<std::string>({"false", "true"}));
    if (regressor)
    {
        if (sometimes()) add("loss_fn", t.pick<std::string>({"\"MSE\"", "\"MAE\"", "\"L1\"", "\"L2\"", "\"L1+2\"", "\"berHu\"", "\"huber\""}));
        if (sometimes()) add("loss_fn_C1", t.pick<std::string>({"0.0", "1.0", "0.5", "1e-30", "-1.0", "1e30", "2.0", "0"}));
        if (sometimes()) add("box_muller", t.pick<std::string>({"true", "false"}));
    }
    std::string s = "{";
    for (std::size_t i = 0; i < kv.size(); ++i) s += (i ? ", " : "") + kv[i];
    s += "}";
    // damaged text
    if (t.chance(1, 12) && !s.empty()) s[t.index(s.size())] = char(t.draw(255));
    if (t.chance(1, 20)) s.resize(t.index(s.size()));
    return s;
}

// Values which lean to being acceptable
std::string gen_good_params_text(Tape & t, bool regressor)
{
    std::ostringstream os;
    os << "{\"" << (regressor ? "number_of_regressor_clauses" : "number_of_clauses_per_label") << "\": " << 4 * (t.chance(1, 16) ? t.pick({16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300, 512, 513, 600, 1030}) : t.range(1, 8))
       << ", \"number_of_states\": " << t.pick({100, 1, 2, 127, 128, 32767, 32768, INT_MAX})
       << ", \"s\": " << t.pick<std::string>({"2.0", "1.0", "3.9", "1e30", "3.4e38", "1.0000001", "30.0"})
       << ", \"threshold\": " << t.pick({15, 1, 3, INT_MAX, 1 << 30, (1 << 30) - 1, 200})
       << ", \"weighted\": " << t.pick<std::string>({"true", "false"})
       << ", \"max_weight\": " << t.pick({INT_MAX, 1, 2, 9, INT_MAX - 1})
       << ", \"boost_true_positive_feedback\": " << t.range(0, 1)
       << ", \"n_jobs\": " << t.pick({1, 1, 2, 3, -1, 7})
       << ", \"counting_type\": \"" << gen_counting(t) << "\""
       << ", \"clause_output_tile_size\": " << gen_tile(t)
       << ", \"random_state\": " << t.draw(UINT32_MAX);
    if (regressor)
        os << ", \"loss_fn\": \"" << t.pick<std::string>({"MSE", "MAE", "L1", "L2", "L1+2", "berHu"}) << "\", \"loss_fn_C1\": "
           << t.pick<std::string>({"0.0", "1.0", "0.5", "1e-30", "1e30", "-1.0", "2.0", "6e9", "-1e30", "3.4e38", "-3.4e38"}) << ", \"box_muller\": " << t.pick<std::string>({"true", "false"});
    os << "}";
    return os.str();
}

unsigned sink = 0; // answers are used, or reading them would not matter

template<typename E>
bool use(E const & r)
{
    if (r.isLeft) { sink += unsigned(r.leftValue.second.size()) + unsigned(r.leftValue.first); return false; }
    using V = std::decay_t<decltype(r.rightValue)>;
    if constexpr (std::is_arithmetic_v<V>) { if (r.rightValue > 0) sink += unsigned(int64_t(double(r.rightValue) * 100)); }
    else if constexpr (std::is_arithmetic_v<std::decay_t<decltype(r.rightValue[0])>>) { for (auto v : r.rightValue) if (v > 0) sink += unsigned(v); }
    else for (auto const & row : r.rightValue) for (auto v : row) if (v > 0) sink += unsigned(v);
    return true;
}

template<typename Tr>
typename Tr::sample gen_sample(Bulk & b, int F, Row const & liked)
{
    auto const gen_row = [&](Bulk & b, int F)
    {
        // samples for which crafted clauses fire
        if (F == 0 || int(liked.size()) != F || b.below(3) == 0) return tsm::gen_row(b, F);
        Row r = liked;
        if (b.below(3) == 0) r[b.below(uint64_t(F))] ^= 1;
        return r;
    };

    if constexpr (Tr::bitwise)
    {
        auto s = to_bits(gen_row(b, F));
        switch (b.below(12))
        {
            case 0: if (F % 64) s.m_vector[F / 64] |= uint64_t{1} << (F % 64 + b.below(64 - F % 64)); break; // dirty padding
            case 1: { auto v = s.m_vector; v.resize(v.size() + 1 + b.below(3), b.below(2) ? 0 : 1); s = bit_vector_uint64(F, std::move(v)); break; } // spare blocks
            default: break;
        }
        return s;
    }
    else
    {
        auto r = gen_row(b, F);
        if (F && b.below(16) == 0) r[b.below(uint64_t(F))] = char(b.next());
        return aligned_vector_char(r.begin(), r.end());
    }
}

struct Any
{
    virtual ~Any() {}
    virtual void step(Tape & t, Ctx & ctx, std::vector<std::unique_ptr<Any>> & all) = 0;
    virtual char const * name() const = 0;
    virtual std::string exported() const = 0;
};

template<typename Tr>
struct Of : Any
{
    typename Tr::est e;
    int F = 4, T = 15, L = 3;
    int clauses = 0;
    bool fitted = false;
    Row liked; // sample clauses were crafted for
    explicit Of(typename Tr::est && x) : e(std::move(x))
    {
        auto const p = e.read_params();
        T = std::get<int>(p.at("threshold"));
        clauses = std::get<int>(p.at(Tr::regressor ? "number_of_regressor_clauses" : "number_of_clauses_per_label"));
    }
    char const * name() const override { return Tr::name(); }
    std::string exported() const override { return to_json_string(*e.clone_state()); }

    void step(Tape & t, Ctx & ctx, std::vector<std::unique_ptr<Any>> & all) override
    {
        int const op = t.weighted({5, 6, 3, 3, 2, 1, 1, 2, 1, 1, 1, 3, 1});
        int const width = t.weighted({6, 3, 1});
        int f = F;
        if (!fitted || width == 1) f = t.weighted({3, 1}) == 0 ? t.pick({1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130})
            : std::max(0, t.pick({16, 32, 64, 128, 256, 1024, 2048, Tr::bitwise ? 8192 : 512}) + t.range(-2, 2));
        if (width == 2) f = t.range(0, 3);
        if (clauses > 100 && f > 140) f = t.pick({16, 64, 130});
        Bulk b = t.bulk();
        bool const many = clauses <= 100 && t.chance(1, 20);
        int const n = int(b.below(f > 300 || clauses > 1000 ? 4 : many ? 300 : 12));
        data_t<Tr> X;
        bool const ragged = b.below(12) == 0;
        for (int i = 0; i < n; ++i) X.push_back(gen_sample<Tr>(b, ragged ? int(b.below(uint64_t(f) + 3)) : f, liked));
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(T) + 1 : uint64_t(L))));
        if (n && b.below(10) == 0)
        {
            static int const odd[] = {-1, INT_MIN, INT_MAX, INT_MAX - 1, 7, 40, 1 << 30};
            y[b.below(uint64_t(n))] = odd[b.below(7)];
        }
        if (b.below(25) == 0) y.resize(b.below(14), 1);
        int const maxl = t.chance(1, 30) && f < 70 && clauses <= 100 ? 120 + int(b.below(200)) : int(b.below(9)) - 1;
        unsigned const epochs = unsigned(b.below(f > 300 || many ? 3 : 6));
        switch (op)
        {
            case 0:
            case 1:
            {
                auto const r = op == 0 ? fit_raw<Tr>(e, X, y, epochs, maxl) : partial_fit_raw<Tr>(e, X, y, epochs, maxl);
                ctx.desc << (op == 0 ? " fit(" : " partial_fit(") << n << "x" << f << ")=" << r.first;
                if (r.first == S_OK)
                {
                    if (op == 0 || !fitted)
                    {
                        F = int(X[0].size());
                        if (!Tr::regressor) L = std::max(maxl, *std::max_element(y.begin(), y.end()) + 1);
                        fitted = true;
                    }
                    ctx.label("trained");
                    ctx.add("epochs trained", epochs);
                }
                else ctx.label("refused");
                break;
            }
            case 2: ctx.desc << " predict" << use(e.predict(X)); break;
            case 3: if (n) ctx.desc << " predict1" << use(e.predict(X[b.below(uint64_t(n))])); break;
            case 4:
                if constexpr (!Tr::regressor)
                {
                    ctx.desc << " decision" << use(e.decision_function(X));
                    if (n) use(e.decision_function(X[0]));
                }
                break;
            case 5: if constexpr (!Tr::regressor) ctx.desc << " evaluate" << use(e.evaluate(X, y)); break;
            case 6: ctx.desc << " params" << params_map(e.read_params()).size(); break;
            case 7:
            {
                ctx.desc << " clone";
                auto st = e.clone_state();
                sink += *st == *e.clone_state();
                auto other = std::make_unique<Of<Tr>>(typename Tr::est(*st));
                other->F = F; other->L = L; other->fitted = fitted;
                if (all.size() < 4) all.push_back(std::move(other));
                break;
            }
            case 8:
            {
                ctx.desc << " export+import";
                auto const js = to_json_string(*e.clone_state());
                // over the state of any estimator of the kind
                Of<Tr> * into = nullptr;
                for (auto & a : all) if (auto * p = dynamic_cast<Of<Tr> *>(a.get())) into = p;
                auto st = into->e.clone_state();
                from_json_string(*st, js);
                sink += unsigned(to_json_string(*st).size());
                e = typename Tr::est(*st);
                break;
            }
            case 9:
            {
                // text which was cut off: reported by an exception, nothing else happens
                auto js = to_json_string(*e.clone_state());
                js.resize(b.below(js.size()));
                auto st = e.clone_state();
                bool thrown = false;
                try { from_json_string(*st, js); }
                catch (std::exception const &) { thrown = true; }
                ctx.desc << " import of cut text" << thrown;
                e = typename Tr::est(*st);
                break;
            }
            case 10:
            {
                ctx.desc << " move";
                typename Tr::est tmp(std::move(e));
                e = std::move(tmp);
                break;
            }
            case 12:
            {
                // Text of an estimator of any kind, which may not be what the state is for: exceptions are fine, on import
                // and whenever the outcome is used
                Any const & from = *all[b.below(all.size())];
                ctx.desc << " import from " << from.name();
                if (std::string(from.name()) != name()) ctx.label("import of text of another kind");
                auto st = e.clone_state();
                try { from_json_string(*st, from.exported()); }
                catch (std::exception const &) { ctx.desc << " thrown"; }
                auto const attempt = [&](auto && what) { try { what(); } catch (std::exception const &) { ctx.desc << "!"; } };
                typename Tr::est other(*st);
                attempt([&]{ sink += unsigned(to_json_string(*st).size()); });
                attempt([&]{ sink += *st == *other.clone_state(); });
                attempt([&]{ use(other.predict(X)); });
                attempt([&]{ if (n) use(other.predict(X[0])); });
                if constexpr (!Tr::regressor)
                {
                    attempt([&]{ use(other.evaluate(X, y)); });
                    attempt([&]{ use(other.decision_function(X)); });
                }
                attempt([&]{ partial_fit_raw<Tr>(other, X, y, epochs, maxl); });
                attempt([&]{ use(other.predict(X)); });
                attempt([&]{ fit_raw<Tr>(other, X, y, epochs, maxl); });
                attempt([&]{ use(other.predict(X)); });
                break;
            }
            default:
            {
                // automata and weights at their limits
                if (!fitted || F == 0) break;
                ctx.desc << " craft";
                auto st = e.clone_state();
                auto const s = snap(*st, false);
                auto const p = e.read_params();
                liked = gen_row(b, F);
                int const N = std::get<int>(p.at("number_of_states")), W = std::get<int>(p.at("max_weight"));
                for (unsigned j = 0; j < s.rows / 2; ++j)
                {
                    Row inc[2];
                    craft_clause(b, Craft(b.below(uint64_t(Craft::COUNT))), b.below(4) ? liked : gen_row(b, F), inc);
                    write_clause(*st, j, inc, b, N);
                    if (j < st->ta_state.weights.size()) st->ta_state.weights[j] = craft_weight(b, W);
                }
                e = typename Tr::est(*st);
                break;
            }
        }
    }
};

void run(Tape & t, Ctx & ctx)
{
    std::vector<std::unique_ptr<Any>> all;
    int const steps = t.range(1, 14);
    for (int k = 0; k < steps; ++k)
    {
        if (all.empty() || (all.size() < 4 && t.chance(1, 6)))
        {
            for_kind(t.range(0, 3), [&](auto tr)
            {
                using Tr = decltype(tr);
                auto const js = t.chance(1, 3) ? gen_params_text(t, Tr::regressor) : gen_good_params_text(t, Tr::regressor);
                auto r = Tr::from_json(js);
                ctx.desc << (k ? " | " : "") << "make " << Tr::name() << " " << js << (r.isLeft ? " refused" : "");
                if (!r.isLeft) all.push_back(std::make_unique<Of<Tr>>(std::move(r.rightValue)));
                ctx.label(r.isLeft ? "parameters refused" : Tr::name());
            });
            continue;
        }
        std::size_t const i = t.index(all.size());
        ctx.desc << " #" << i;
        all[i]->step(t, ctx, all);
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = !all.empty();
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C20", run, 30000, 1000000, 8, 120,
        "distinct sequences of calls on at least one estimator which was created",
        {"sanitizers see what the executed calls do to memory; parallel regions run as serial code in this build (C14 runs them in parallel)",
         "calls which only exhaust memory or threads (hundreds of millions of clauses, thousands of jobs) are not generated",
         "state import is given exported text, possibly cut off, but not text with made-up contents"}};
    return p;
}
