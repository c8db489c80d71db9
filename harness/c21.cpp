// C21: comparing states tells exactly whether they are the same.
#include "tsm.hpp"

using namespace tsm;

namespace {

template<typename State>
bool both(State const & a, State const & b, std::string const & what)
{
    bool const ab = a == b, ba = b == a, fn = equal(a, b);
    PBT_CHECK(ab == ba, what << ": a == b is " << ab << " but b == a is " << ba);
    PBT_CHECK(ab == fn, what << ": a == b is " << ab << " but equal(a, b) is " << fn);
    return ab;
}

// A different value of a parameter, of the same or of another type
inline param_value_t other_value(Bulk & b, param_value_t const & v)
{
    if (b.below(4) == 0) // another type
    {
        if (auto const * p = std::get_if<int>(&v)) return real_type(*p);
        if (std::holds_alternative<none_type>(v)) return int(0);
        return none_type{std::nullopt};
    }
    return std::visit([&b](auto x) -> param_value_t
    {
        using T = decltype(x);
        if constexpr (std::is_same_v<T, none_type>) return int(1);
        else if constexpr (std::is_same_v<T, std::string>)
        {
            if (b.below(2) || x.empty()) return x + (b.below(2) ? " " : "8");
            x[b.below(x.size())] ^= 1;
            return x;
        }
        else if constexpr (std::is_same_v<T, bool>) return !x;
        else if constexpr (std::is_same_v<T, real_type>) return std::nextafter(x, b.below(2) ? real_type(1e38) : real_type(-1));
        else return T(x ^ (T(1) << b.below(31)));
    }, v);
}

template<typename State>
int ta_at(State const & st, unsigned r, unsigned c)
{
    return std::visit([&](auto const & m){ return int(m.row_data(r)[c]); }, st.ta_state.matrix);
}

// Changes one thing in a state; returns what, empty when not applicable.
template<typename Tr>
std::string alter(Bulk & b, typename Tr::state & st, Cfg const & cfg)
{
    std::ostringstream os;
    unsigned rows = 0, cols = 0;
    std::visit([&](auto const & m){ rows = m.rows(); cols = m.cols(); }, st.ta_state.matrix);
    auto any = [&b](unsigned n) { auto const k = b.below(6); return unsigned(k == 0 ? 0 : k == 1 ? n - 1 : b.below(n)); };
    auto & w = st.ta_state.weights;
    switch (b.below(8))
    {
        case 0: case 1:
        {
            if (rows == 0 || cols == 0) return "";
            unsigned const r = any(rows), c = any(cols);
            int const v = ta_at(st, r, c);
            int nv = v;
            switch (b.below(3))
            {
                case 0: nv = v < cfg.states - 1 ? v + 1 : v - 1; break;
                case 1: nv = v > -cfg.states ? v - 1 : v + 1; break;
                default: nv = int(int64_t(b.below(2 * uint64_t(cfg.states))) - cfg.states);
            }
            if (nv < -cfg.states || nv >= cfg.states || nv == v) return "";
            set_ta(st, r, c, nv);
            os << "automaton " << r << "," << c << " from " << v << " to " << nv;
            return os.str();
        }
        case 2:
        {
            if (w.empty()) return "";
            unsigned const j = any(unsigned(w.size()));
            w[j] ^= 1u << b.below(31);
            os << "weight " << j;
            return os.str();
        }
        case 3:
        {
            auto it = st.m_params.begin();
            std::advance(it, b.below(st.m_params.size()));
            auto const was = param_str(it->second);
            auto const v = other_value(b, it->second);
            if (param_str(v) == was && v.index() == it->second.index()) return "";
            it->second = v;
            os << "parameter " << it->first << " from " << was << " to " << param_str(v);
            return os.str();
        }
        case 4:
        {
            unsigned const n = unsigned(b.below(2) ? 1 + b.below(3) : 1 + b.below(2000));
            for (unsigned i = 0; i < n; ++i) st.igen.next();
            os << "integer generator advanced by " << n;
            return os.str();
        }
        case 5:
        {
            unsigned const n = unsigned(b.below(2) ? 1 + b.below(3) : 1 + b.below(2000));
            for (unsigned i = 0; i < n; ++i) st.fgen.next();
            os << "real generator advanced by " << n;
            return os.str();
        }
        case 6:
        {
            // generators of an estimator which was not fitted are those of seed 1, its own seed does not matter yet
            unsigned const seed = cfg.seed <= 1 ? cfg.seed ^ 2 : cfg.seed ^ 1;
            if (b.below(2)) { st.igen.init(seed); return "integer generator of another seed"; }
            st.fgen.init(seed);
            return "real generator of another seed";
        }
        default:
        {
            // other shapes
            if (rows == 0 || cols == 0) return "";
            switch (b.below(3))
            {
                case 0:
                    if (w.empty()) w.push_back(0); else w.pop_back();
                    return "number of weights";
                case 1:
                {
                    // same values, wider or narrower storage
                    numeric_matrix_int32 wide(rows, cols);
                    bool const is_wide = st.ta_state.matrix.index() == 0;
                    if (is_wide) return "";
                    for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) wide.row_data(r)[c] = ta_at(st, r, c);
                    st.ta_state.matrix = wide;
                    return "storage width";
                }
                default:
                {
                    // transposed or longer
                    bool const more = b.below(2) || rows == cols;
                    std::visit([&](auto & m)
                    {
                        using M = std::decay_t<decltype(m)>;
                        M n(more ? rows + 1 : cols, more ? cols : rows);
                        if (more) for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) n.row_data(r)[c] = m.row_data(r)[c];
                        m = n;
                    }, st.ta_state.matrix);
                    return more ? "one more row" : "transposed shape";
                }
            }
        }
    }
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg c;
    Big const big = gen_big(t, {Big::Labels, Big::Clauses, Big::Features});
    c.clauses = (Tr::regressor ? 2 : 4) * (big == Big::Clauses ? big_units(t) : t.range(1, 4));
    c.states = gen_states(t);
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f, 1e6f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 3});
    c.boost = t.coin();
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.seed = gen_seed(t);
    if (Tr::regressor) { c.box_muller = t.coin(); c.C1 = 0.25f; }
    int const L = Tr::regressor ? 1 : big == Big::Labels ? big_labels(t) : t.range(2, 4);
    int const F = big == Big::Features ? std::min(2100, big_features(t, Tr::bitwise)) : big != Big::None ? t.range(1, 9) : t.pick({1, 2, 8, 33, 63, 64, 65, 130, 300});
    int const mode = t.weighted({4, 4, 1});
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << " labels=" << L << " features=" << F;
    ctx.label(Tr::name());
    if (big != Big::None) ctx.label("one large dimension");
    Bulk b = t.bulk();

    auto gen_data = [&](int n, Rows & X, Labels & y)
    {
        X = gen_rows(b, n, F);
        y.clear();
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(c.T) + 1 : uint64_t(L))));
    };

    if (mode == 1)
    {
        // histories of two estimators: equal exactly when everything observable is
        auto e1 = make<Tr>(c), e2 = make<Tr>(c);
        ctx.desc << " histories";
        int const ops = t.range(1, 5);
        Rows X; Labels y;
        bool same_so_far = true;
        for (int k = 0; k < ops; ++k)
        {
            unsigned const epochs = unsigned(t.range(0, 3));
            gen_data(1 + int(b.below(5)), X, y);
            auto data = to_data<Tr>(X);
            bool const refit = k == 0 || t.chance(1, 5);
            if (refit) fit<Tr>(e1, data, y, epochs, L); else partial_fit<Tr>(e1, data, y, epochs, L);
            int const how = t.weighted({3, 1, 1});
            if (how == 1 && k) ctx.desc << " (missed)"; // second one skips the call
            else
            {
                if (how == 2)
                {
                    ctx.desc << " (differing)";
                    auto & x = X[b.below(X.size())];
                    x[b.below(uint64_t(F))] ^= 1;
                    data = to_data<Tr>(X);
                }
                if (refit) fit<Tr>(e2, data, y, epochs, L); else partial_fit<Tr>(e2, data, y, epochs, L);
            }
            ctx.desc << (refit ? " fit " : " partial_fit ") << epochs;
            auto const s1 = e1.clone_state();
            auto const s2 = e2.clone_state();
            auto const d = diff(snap(*s1), snap(*s2));
            bool const eq = both(*s1, *s2, "after call " + std::to_string(k));
            PBT_CHECK(eq == d.empty(), "states compare " << (eq ? "equal" : "different") << ", " << (d.empty() ? "nothing differs" : d));
            same_so_far = same_so_far && eq;
            ++ctx.sub_evaluations;
        }
        ctx.label(same_so_far ? "histories: always equal" : "histories: differing");
        ctx.nontrivial = true;
        return;
    }

    // one thing altered at a time
    auto e = mode == 2 ? make<Tr>(c) : blank<Tr>(c, L, F);
    if (mode == 0 && t.coin())
    {
        Rows X; Labels y;
        gen_data(1 + int(b.below(8)), X, y);
        partial_fit<Tr>(e, to_data<Tr>(X), y, 1 + unsigned(b.below(4)), L);
    }
    ctx.desc << (mode == 2 ? " not fitted;" : ";");
    auto const st = e.clone_state();
    PBT_CHECK(both(*st, *st, "itself"), "a state is different from itself");
    unsigned altered = 0;
    int const n = t.range(1, 12);
    for (int k = 0; k < n; ++k)
    {
        auto const copy = e.clone_state();
        PBT_CHECK(both(*st, *copy, "clone"), "a clone is different from the original");
        auto const what = alter<Tr>(b, *copy, c);
        if (what.empty()) continue;
        ++altered;
        ctx.desc << " " << what << ",";
        PBT_CHECK(!both(*st, *copy, what), "states compare equal although they differ: " << what);
        PBT_CHECK(both(*st, *e.clone_state(), "clone"), "the original changed");
        ctx.label(what.substr(0, what.find(' ')));
    }
    ctx.sub_evaluations += altered;
    ctx.nontrivial = altered > 0;
    ctx.label("altered copies");
}

void run(Tape & t, Ctx & ctx)
{
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C21", run, 300000, 6000000, 8, 60,
        "distinct cases which either alter at least one component of a copied state or compare two histories",
        {"states are altered through their members; inclusion bits always follow the automata, being derived from them"}};
    return p;
}
