// Common vocabulary of the checks: the four estimators behind one interface,
// generated configurations and data, crafted automata, an independent reference
// model of clause evaluation, and snapshots of estimator states.
#pragma once

#include "engine.hpp"

#include "tsetlini.hpp"
#include "tsetlini_state_json.hpp"
#include "estimator_state.hpp"
#include "basic_bit_vector_companion.hpp"

#include <algorithm>
#include <climits>
#include <map>
#include <string>
#include <variant>
#include <vector>

namespace tsm {

using namespace Tsetlini;
using pbt::Bulk;
using pbt::Ctx;
using pbt::Tape;

using Row = std::vector<char>;      // logical features, 0/1
using Rows = std::vector<Row>;
using Labels = std::vector<int>;

struct Cfg
{
    int clauses = 12;               // per label for a classifier, in total for a regressor
    int states = 100;
    float s = 2.0f;
    int T = 15;
    bool weighted = false;
    int max_weight = INT_MAX;
    bool boost = false;
    int n_jobs = 1;
    bool verbose = false;
    std::string counting = "auto";
    int tile = 16;
    std::string loss = "MSE";
    float C1 = 0.f;
    bool box_muller = false;
    seed_type seed = 1;

    std::string str(bool regressor) const
    {
        std::ostringstream os;
        os << "clauses=" << clauses << " states=" << states << " s=" << s << " T=" << T << " weighted=" << weighted
           << " max_weight=" << max_weight << " boost=" << boost << " n_jobs=" << n_jobs << " counting=" << counting
           << " tile=" << tile << " seed=" << seed;
        if (regressor) os << " loss=" << loss << " C1=" << C1 << " box_muller=" << box_muller;
        return os.str();
    }
};

inline std::vector<aligned_vector_char> to_bytes(Rows const & X)
{
    std::vector<aligned_vector_char> rv;
    for (auto const & r : X) rv.emplace_back(r.begin(), r.end());
    return rv;
}

// Built block by block, not by the library's helper, which is itself under test.
inline bit_vector_uint64 to_bits(Row const & r)
{
    bit_vector_uint64 v(r.size());
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        if (r[i]) v.m_vector[i / 64] |= uint64_t{1} << (i % 64);
    }
    return v;
}

inline std::vector<bit_vector_uint64> to_bits(Rows const & X)
{
    std::vector<bit_vector_uint64> rv;
    for (auto const & r : X) rv.push_back(to_bits(r));
    return rv;
}

template<typename Est>
Est unwrap(Either<status_message_t, Est> && e, char const * what)
{
    if (e.isLeft) pbt::fail(std::string(what) + " refused: " + e.leftValue.second);
    return std::move(e.rightValue);
}

struct CC
{
    using est = ClassifierClassic;
    using state = ClassifierStateClassic;
    using sample = aligned_vector_char;
    static constexpr bool regressor = false, bitwise = false;
    static char const * name() { return "ClassifierClassic"; }
    static auto from_json(std::string const & js) { return make_classifier_classic_from_json(js); }
    template<typename ...A> static auto from_args(A && ...a) { return make_classifier_classic(std::forward<A>(a)...); }
};
struct CB
{
    using est = ClassifierBitwise;
    using state = ClassifierStateBitwise;
    using sample = bit_vector_uint64;
    static constexpr bool regressor = false, bitwise = true;
    static char const * name() { return "ClassifierBitwise"; }
    static auto from_json(std::string const & js) { return make_classifier_bitwise_from_json(js); }
    template<typename ...A> static auto from_args(A && ...a) { return make_classifier_bitwise(std::forward<A>(a)...); }
};
struct RC
{
    using est = RegressorClassic;
    using state = RegressorStateClassic;
    using sample = aligned_vector_char;
    static constexpr bool regressor = true, bitwise = false;
    static char const * name() { return "RegressorClassic"; }
    static auto from_json(std::string const & js) { return make_regressor_classic_from_json(js); }
    template<typename ...A> static auto from_args(A && ...a) { return make_regressor_classic(std::forward<A>(a)...); }
};
struct RB
{
    using est = RegressorBitwise;
    using state = RegressorStateBitwise;
    using sample = bit_vector_uint64;
    static constexpr bool regressor = true, bitwise = true;
    static char const * name() { return "RegressorBitwise"; }
    static auto from_json(std::string const & js) { return make_regressor_bitwise_from_json(js); }
    template<typename ...A> static auto from_args(A && ...a) { return make_regressor_bitwise(std::forward<A>(a)...); }
};

template<typename F>
void for_kind(int k, F && f)
{
    switch (k)
    {
        case 0: f(CC{}); break;
        case 1: f(CB{}); break;
        case 2: f(RC{}); break;
        default: f(RB{}); break;
    }
}

template<typename Tr>
using sample_t = typename Tr::sample;
template<typename Tr>
using data_t = std::vector<typename Tr::sample>;

template<typename Tr>
sample_t<Tr> to_sample(Row const & r)
{
    if constexpr (Tr::bitwise) return to_bits(r);
    else return aligned_vector_char(r.begin(), r.end());
}

template<typename Tr>
data_t<Tr> to_data(Rows const & X)
{
    if constexpr (Tr::bitwise) return to_bits(X);
    else return to_bytes(X);
}

inline bool same_data(aligned_vector_char const & a, aligned_vector_char const & b) { return a == b; }
inline bool same_data(bit_vector_uint64 const & a, bit_vector_uint64 const & b)
{
    return a.m_bit_length == b.m_bit_length && a.m_vector == b.m_vector;
}
template<typename S>
bool same_data(std::vector<S> const & a, std::vector<S> const & b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!same_data(a[i], b[i])) return false;
    return true;
}

template<typename Tr>
typename Tr::est make(Cfg const & c)
{
    if constexpr (Tr::regressor)
    {
        return unwrap(Tr::from_args(
            number_of_physical_regressor_clauses_t{c.clauses}, number_of_states_t{c.states}, specificity_t{c.s},
            threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.max_weight}, boost_tpf_t{c.boost},
            number_of_jobs_t{c.n_jobs}, verbosity_t{c.verbose}, counting_type_t{c.counting},
            clause_output_tile_size_t{c.tile}, loss_fn_name_t{c.loss}, loss_fn_C1_t{c.C1},
            box_muller_flag_t{c.box_muller}, random_seed_t{c.seed}), Tr::name());
    }
    else
    {
        return unwrap(Tr::from_args(
            number_of_physical_classifier_clauses_per_label_t{c.clauses}, number_of_states_t{c.states}, specificity_t{c.s},
            threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.max_weight}, boost_tpf_t{c.boost},
            number_of_jobs_t{c.n_jobs}, verbosity_t{c.verbose}, counting_type_t{c.counting},
            clause_output_tile_size_t{c.tile}, random_seed_t{c.seed}), Tr::name());
    }
}

// max_labels is ignored for regressors, 0: as many as there are in y
template<typename Tr>
status_message_t fit_raw(typename Tr::est & e, data_t<Tr> const & X, Labels const & y, unsigned epochs, int max_labels = 0)
{
    if constexpr (Tr::regressor) return e.fit(X, y, number_of_epochs_t{epochs});
    else return e.fit(X, y, max_number_of_labels_t{max_labels}, number_of_epochs_t{epochs});
}
template<typename Tr>
status_message_t partial_fit_raw(typename Tr::est & e, data_t<Tr> const & X, Labels const & y, unsigned epochs, int max_labels = 0)
{
    if constexpr (Tr::regressor) return e.partial_fit(X, y, number_of_epochs_t{epochs});
    else return e.partial_fit(X, y, max_number_of_labels_t{max_labels}, number_of_epochs_t{epochs});
}

inline void expect_ok(status_message_t const & s, char const * what)
{
    if (s.first != S_OK) pbt::fail(std::string(what) + " refused with status " + std::to_string(s.first) + ": " + s.second);
}

template<typename Tr>
void fit(typename Tr::est & e, data_t<Tr> const & X, Labels const & y, unsigned epochs, int max_labels = 0)
{
    expect_ok(fit_raw<Tr>(e, X, y, epochs, max_labels), "fit");
}
template<typename Tr>
void partial_fit(typename Tr::est & e, data_t<Tr> const & X, Labels const & y, unsigned epochs, int max_labels = 0)
{
    expect_ok(partial_fit_raw<Tr>(e, X, y, epochs, max_labels), "partial_fit");
}

template<typename T>
T ok(Either<status_message_t, T> && e, char const * what)
{
    if (e.isLeft) pbt::fail(std::string(what) + " refused with status " + std::to_string(e.leftValue.first) + ": " + e.leftValue.second);
    return std::move(e.rightValue);
}

// Everything an estimator answers for the given data, as integers.
template<typename Tr>
std::vector<int> answers(typename Tr::est const & e, data_t<Tr> const & X)
{
    std::vector<int> rv;
    auto p = ok(e.predict(X), "predict");
    rv.insert(rv.end(), p.begin(), p.end());
    if constexpr (!Tr::regressor)
    {
        auto d = ok(e.decision_function(X), "decision_function");
        for (auto const & r : d) rv.insert(rv.end(), r.begin(), r.end());
    }
    return rv;
}

////////////////////////////////////////////////////////////////////////////////
// Parameters as text

inline std::string param_str(param_value_t const & v)
{
    std::ostringstream os;
    os << v.index() << ":";
    std::visit([&os](auto const & x)
    {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, none_type>) os << "none";
        else if constexpr (std::is_same_v<T, real_type>) { os.precision(17); os << double(x); }
        else os << x;
    }, v);
    return os.str();
}

inline std::map<std::string, std::string> params_map(params_t const & p)
{
    std::map<std::string, std::string> rv;
    for (auto const & kv : p) rv[kv.first] = param_str(kv.second);
    return rv;
}

inline std::string params_str(std::map<std::string, std::string> const & m)
{
    std::string rv;
    for (auto const & kv : m) rv += kv.first + "=" + kv.second + " ";
    return rv;
}

////////////////////////////////////////////////////////////////////////////////
// Snapshot of the learned state

struct Snap
{
    unsigned rows = 0, cols = 0;
    int width = 0;                     // bits of the storage type
    std::vector<int> ta;               // rows * cols
    std::vector<uint32_t> weights;     // as stored, effective weight is one more
    std::vector<char> polarity;        // rows * cols, bitwise only
    std::vector<uint64_t> pad;         // padding of the polarity matrix, non-zero blocks only
    std::map<std::string, std::string> params;
    std::vector<uint32_t> igen;        // next draws
    std::vector<uint32_t> fgen;

    int at(unsigned r, unsigned c) const { return ta[std::size_t(r) * cols + c]; }
};

template<typename State>
constexpr bool has_polarity_v = std::is_same_v<State, ClassifierStateBitwise> || std::is_same_v<State, RegressorStateBitwise>;

template<typename State>
Snap snap(State const & st, bool generators = true)
{
    Snap s;
    std::visit([&s](auto const & m)
    {
        s.rows = m.rows();
        s.cols = m.cols();
        s.width = 8 * int(sizeof (*m.data()));
        s.ta.reserve(std::size_t(s.rows) * s.cols);
        for (unsigned r = 0; r < s.rows; ++r)
        {
            auto const * p = m.row_data(r);
            for (unsigned c = 0; c < s.cols; ++c) s.ta.push_back(p[c]);
        }
    }, st.ta_state.matrix);
    s.weights.assign(st.ta_state.weights.begin(), st.ta_state.weights.end());
    if constexpr (has_polarity_v<State>)
    {
        auto const & pol = st.ta_state.polarity;
        if (pol.rows() == s.rows && pol.cols() == s.cols)
        {
            s.polarity.reserve(std::size_t(s.rows) * s.cols);
            for (unsigned r = 0; r < s.rows; ++r)
            {
                auto const * p = pol.row_data(r);
                for (unsigned c = 0; c < s.cols; ++c) s.polarity.push_back(char((p[c / 64] >> (c % 64)) & 1));
                for (unsigned b = 0; b < pol.row_blocks(); ++b)
                {
                    uint64_t mask = b * 64 >= s.cols ? ~uint64_t{0} : (s.cols - b * 64 >= 64 ? 0 : ~uint64_t{0} << (s.cols - b * 64));
                    if (p[b] & mask) s.pad.push_back(p[b] & mask);
                }
            }
        }
    }
    s.params = params_map(st.m_params);
    if (generators)
    {
        auto ig = st.igen;
        auto fg = st.fgen;
        for (int i = 0; i < 24; ++i)
        {
            s.igen.push_back(ig());
            float f = fg();
            uint32_t u;
            static_assert(sizeof u == sizeof f);
            memcpy(&u, &f, sizeof u);
            s.fgen.push_back(u);
        }
    }
    return s;
}

template<typename Tr>
Snap snap_of(typename Tr::est const & e, bool generators = true) { return snap(*e.clone_state(), generators); }

// First difference, empty when equal.
inline std::string diff(Snap const & a, Snap const & b, bool compare_params = true, bool compare_width = true)
{
    std::ostringstream os;
    if (a.rows != b.rows || a.cols != b.cols)
    {
        os << "automata shape " << a.rows << "x" << a.cols << " vs " << b.rows << "x" << b.cols;
        return os.str();
    }
    if (compare_width && a.width != b.width)
    {
        os << "storage width " << a.width << " vs " << b.width;
        return os.str();
    }
    for (std::size_t i = 0; i < a.ta.size(); ++i)
    {
        if (a.ta[i] != b.ta[i])
        {
            os << "automaton row " << i / a.cols << " feature " << i % a.cols << ": " << a.ta[i] << " vs " << b.ta[i];
            return os.str();
        }
    }
    if (a.weights != b.weights)
    {
        if (a.weights.size() != b.weights.size()) { os << "number of weights " << a.weights.size() << " vs " << b.weights.size(); return os.str(); }
        for (std::size_t i = 0; i < a.weights.size(); ++i)
            if (a.weights[i] != b.weights[i]) { os << "weight " << i << ": " << a.weights[i] << " vs " << b.weights[i]; return os.str(); }
    }
    if (a.polarity != b.polarity) return "inclusion bits differ";
    if (a.pad != b.pad) return "padding bits differ";
    if (a.igen != b.igen) return "integer generators differ";
    if (a.fgen != b.fgen) return "real generators differ";
    if (compare_params && a.params != b.params) return "parameters differ: " + params_str(a.params) + " vs " + params_str(b.params);
    return "";
}

////////////////////////////////////////////////////////////////////////////////
// Writing into states

template<typename State>
void set_ta(State & st, unsigned r, unsigned c, int v)
{
    std::visit([&](auto & m)
    {
        using T = std::decay_t<decltype(*m.data())>;
        m.row_data(r)[c] = T(v);
    }, st.ta_state.matrix);
    if constexpr (has_polarity_v<State>)
    {
        auto & pol = st.ta_state.polarity;
        auto & block = pol.m_v[pol.row_offset(r) + c / 64];
        uint64_t const bit = uint64_t{1} << (c % 64);
        if (v >= 0) block |= bit;
        else block &= ~bit;
    }
}

// State of a fitted but untrained estimator with given number of labels and features.
template<typename Tr>
typename Tr::est blank(Cfg const & cfg, int labels, int features)
{
    auto e = make<Tr>(cfg);
    Rows X(Tr::regressor ? 1 : labels, Row(features, 0));
    Labels y;
    if constexpr (Tr::regressor) y = {0};
    else for (int i = 0; i < labels; ++i) y.push_back(i);
    fit<Tr>(e, to_data<Tr>(X), y, 0);
    return e;
}

////////////////////////////////////////////////////////////////////////////////
// Reference model

// Number of clause votes: each vote is a clause of two rows, 2j and 2j + 1.
inline bool has_literals(Snap const & s, unsigned clause)
{
    for (unsigned c = 0; c < s.cols; ++c)
        if (s.at(2 * clause, c) >= 0 || s.at(2 * clause + 1, c) >= 0) return true;
    return false;
}

inline bool all_true(Snap const & s, unsigned clause, Row const & x)
{
    for (unsigned c = 0; c < s.cols; ++c)
    {
        if (s.at(2 * clause, c) >= 0 && !x[c]) return false;
        if (s.at(2 * clause + 1, c) >= 0 && x[c]) return false;
    }
    return true;
}

inline bool votes(Snap const & s, unsigned clause, Row const & x, bool training)
{
    return all_true(s, clause, x) && (training || has_literals(s, clause));
}

inline int64_t weight(Snap const & s, unsigned clause)
{
    return s.weights.empty() ? 1 : int64_t(s.weights[clause]) + 1;
}

inline int clamp64(int64_t v, int64_t lo, int64_t hi) { return int(v < lo ? lo : (v > hi ? hi : v)); }

inline int clauses_of(Snap const & s) { return int(s.rows / 2); }

// Decision values of all labels
inline std::vector<int> ref_decision(Snap const & s, int labels, int T, Row const & x, bool training = false)
{
    int const per = clauses_of(s) / labels;
    std::vector<int> rv;
    for (int l = 0; l < labels; ++l)
    {
        int64_t sum = 0;
        for (int j = l * per; j < (l + 1) * per; ++j)
        {
            if (votes(s, j, x, training)) sum += (j % 2 == 0 ? 1 : -1) * weight(s, j);
        }
        rv.push_back(clamp64(sum, -int64_t(T), T));
    }
    return rv;
}

inline int ref_response(Snap const & s, int T, Row const & x, bool training = false)
{
    int64_t sum = 0;
    for (int j = 0; j < clauses_of(s); ++j)
    {
        if (votes(s, j, x, training)) sum += weight(s, j);
    }
    return clamp64(sum, 0, T);
}

inline int argmax(std::vector<int> const & v)
{
    int best = 0;
    for (int i = 1; i < int(v.size()); ++i) if (v[i] > v[best]) best = i;
    return best;
}

////////////////////////////////////////////////////////////////////////////////
// Generators

// Feature counts, leaning to boundaries of tiles (classic: features, bitwise:
// 64-bit blocks) and of storage blocks.
inline int gen_features(Tape & t, int limit, int tile, bool bitwise)
{
    int f = 1;
    switch (t.weighted({4, 3, 3, 3}))
    {
        case 0: f = t.range(1, 12); break;
        case 1: f = t.range(1, 130); break;
        case 2: f = 64 * t.range(1, std::max(1, std::min(5, limit / 64))) + t.range(-1, 1); break;
        default:
        {
            int const unit = bitwise ? tile * 64 : tile;
            int const k = std::max(1, std::min(3, limit / unit));
            f = unit * t.range(1, k) + t.range(-1, 1) * (bitwise ? t.pick({1, 64}) : 1);
            break;
        }
    }
    return std::max(1, std::min(f, limit));
}

// Now and then one dimension of a case is far larger than usual
enum class Big { None, Features, Labels, Clauses, Rows, Epochs };

inline Big gen_big(Tape & t, std::initializer_list<Big> kinds, unsigned one_in = 16)
{
    return t.chance(1, one_in) ? t.pick(kinds) : Big::None;
}
inline int big_features(Tape & t, bool bitwise)
{
    return bitwise ? t.pick({257, 511, 513, 960, 961, 1000, 1023, 1024, 1025, 1100, 2049, 4160, 8190, 8300}) + t.range(0, 2)
                   : t.pick({129, 200, 255, 257, 511, 513, 1000, 1024, 1025, 2050, 4200}) + t.range(0, 2);
}
inline int big_labels(Tape & t) { return t.pick({9, 17, 33, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300}); }
inline int big_units(Tape & t) { return t.pick({16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}); } // of clauses
inline int big_rows(Tape & t) { return t.pick({63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025}); }
// Rarely, sizes about the limits of 16-bit numbers
// Any seed, sometimes an extreme one
inline unsigned gen_seed(Tape & t)
{
    return t.chance(1, 12) ? t.pick({0u, 1u, UINT32_MAX, 0x80000000u, 0x7fffffffu}) : unsigned(t.draw(UINT32_MAX));
}

inline bool gen_huge(Tape & t, Big big, unsigned one_in) { return big != Big::None && t.chance(1, one_in); }
inline int huge_size(Tape & t) { return t.pick({65537, 32767, 32768, 32769, 65535, 65536, 66001}); }
inline unsigned big_epochs(Tape & t) { return t.pick({17u, 32u, 33u, 64u, 65u, 99u, 100u, 101u, 130u, 257u}); }

inline Row gen_row(Bulk & b, int features)
{
    Row r(features);
    int const style = int(b.below(6));
    for (int i = 0; i < features; ++i)
    {
        switch (style)
        {
            case 0: r[i] = char(b.below(2)); break;
            case 1: r[i] = char(b.below(2)); break;
            case 2: r[i] = 0; break;
            case 3: r[i] = 1; break;
            case 4: r[i] = char(b.below(8) == 0); break;
            default: r[i] = char(b.below(8) != 0); break;
        }
    }
    return r;
}

inline Rows gen_rows(Bulk & b, int n, int features)
{
    Rows X;
    for (int i = 0; i < n; ++i) X.push_back(gen_row(b, features));
    return X;
}

// Plain coin-toss rows
inline Rows gen_uniform_rows(Bulk & b, int n, int features)
{
    Rows X(n, Row(features));
    for (auto & r : X) for (auto & v : r) v = char(b.below(2));
    return X;
}

inline std::string row_str(Row const & r)
{
    std::string s;
    for (std::size_t i = 0; i < r.size() && i < 200; ++i) s += r[i] ? '1' : '0';
    if (r.size() > 200) s += "... (" + std::to_string(r.size()) + ")";
    return s;
}

template<typename V>
std::string list_str(V const & v)
{
    std::ostringstream os;
    std::size_t k = 0;
    for (auto const & x : v)
    {
        if (k == 60) { os << "..."; break; }
        os << (k++ ? " " : "") << int64_t(x);
    }
    return os.str();
}

inline Labels gen_labels(Bulk & b, int n, int labels)
{
    Labels y;
    for (int i = 0; i < n; ++i) y.push_back(int(b.below(labels)));
    return y;
}

// Narrowest storage which holds the states and is not narrower than requested
inline int expected_width(Cfg const & c)
{
    int const req = c.counting == "int32" ? 32 : c.counting == "int16" ? 16 : 8;
    int const need = c.states <= 127 ? 8 : c.states <= 32767 ? 16 : 32;
    return std::max(req, need);
}

inline int gen_states(Tape & t)
{
    switch (t.weighted({3, 3, 1, 1, 1, 1}))
    {
        case 0: return t.range(1, 8);
        case 1: return t.range(1, 200);
        case 2: return 127 + t.range(-1, 2);
        case 3: return 32767 + t.range(-1, 2);
        case 4: return INT_MAX - t.range(0, 1);
        default: return t.range(1, 100000);
    }
}

// Mostly few, now and then more than there are clauses
inline int gen_jobs(Tape & t) { return t.chance(9, 10) ? t.pick({1, 1, 1, 1, 1, 1, 1, 2, 2}) : t.pick({3, 4, 5, 7, 8, 16}); }

inline std::string gen_counting(Tape & t) { return t.pick({"auto", "int8", "int16", "int32"}); }
inline int gen_tile(Tape & t) { return t.pick({16, 32, 64, 128}); }

enum class Craft { Empty, SingleTrue, SingleFalse, Consistent, OneWrong, AllTrue, Contradiction, Random, Sparse, COUNT };

inline char const * craft_name(Craft k)
{
    static char const * const n[] = {"no literal", "single true literal", "single false literal", "consistent", "one wrong literal",
        "all true literals", "contradiction", "random", "sparse"};
    return n[int(k)];
}

// Decides which literals of a clause are included. inc[0]: positive, inc[1]: negated.
inline void craft_clause(Bulk & b, Craft kind, Row const & x, Row inc[2])
{
    int const F = int(x.size());
    inc[0].assign(F, 0);
    inc[1].assign(F, 0);
    auto true_side = [&](int f) { return x[f] ? 0 : 1; };
    // positions lean to the ends
    auto pos = [&]() -> int
    {
        switch (b.below(6))
        {
            case 0: return 0;
            case 1: return F - 1;
            case 2: return std::min<int>(F - 1, int(b.below(F / 64 + 1)) * 64);
            case 3: return std::max(0, std::min<int>(F - 1, int(b.below(F / 64 + 1)) * 64 - 1));
            case 4: return std::max(0, F - 1 - int(b.below(16)));
            default: return int(b.below(F));
        }
    };
    switch (kind)
    {
        case Craft::Empty: break;
        case Craft::SingleTrue: { int f = pos(); inc[true_side(f)][f] = 1; break; }
        case Craft::SingleFalse: { int f = pos(); inc[1 - true_side(f)][f] = 1; break; }
        case Craft::Consistent:
        case Craft::OneWrong:
        {
            auto const den = 1 + b.below(8);
            for (int f = 0; f < F; ++f) if (b.below(den) == 0) inc[true_side(f)][f] = 1;
            if (kind == Craft::OneWrong) { int f = pos(); inc[1 - true_side(f)][f] = 1; }
            break;
        }
        case Craft::AllTrue: for (int f = 0; f < F; ++f) inc[true_side(f)][f] = 1; break;
        case Craft::Contradiction: { int f = pos(); inc[0][f] = inc[1][f] = 1; break; }
        case Craft::Random: for (int f = 0; f < F; ++f) { inc[0][f] = char(b.below(2)); inc[1][f] = char(b.below(2)); } break;
        default: for (int k = 0; k < 3; ++k) inc[b.below(2)][pos()] = 1; break;
    }
}

// Automaton state for a decision, leaning to the extremes
inline int craft_value(Bulk & b, bool include, int N)
{
    if (include)
    {
        switch (b.below(4))
        {
            case 0: return 0;
            case 1: return N - 1;
            default: return int(b.below(uint64_t(N)));
        }
    }
    switch (b.below(4))
    {
        case 0: return -1;
        case 1: return -N;
        default: return -1 - int(b.below(uint64_t(N)));
    }
}

// Overwrites a clause of a state
template<typename State>
void write_clause(State & st, unsigned clause, Row const inc[2], Bulk & b, int N)
{
    for (unsigned side = 0; side < 2; ++side)
        for (unsigned f = 0; f < inc[side].size(); ++f)
            set_ta(st, 2 * clause + side, f, craft_value(b, inc[side][f], N));
}

// Limits of weights about those of types
inline int gen_max_weight(Tape & t)
{
    return t.weighted({4, 1}) == 0 ? t.pick({INT_MAX, 1, 2, 5, 1000}) : t.pick({127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 16777216, 16777217, 16777300, 100000001, (1 << 30) + 1, INT_MAX - 1});
}

inline uint32_t craft_weight(Bulk & b, int max_weight)
{
    uint64_t const top = uint64_t(max_weight) - 1; // stored value
    switch (b.below(6))
    {
        case 0: return 0;
        case 1: return uint32_t(top);
        case 5: return uint32_t(top - std::min<uint64_t>(top, b.below(70)));
        case 2: return uint32_t(std::min<uint64_t>(top, b.below(4)));
        case 3: return uint32_t(b.below(top + 1));
        default: return uint32_t(std::min<uint64_t>(top, b.below(100)));
    }
}

} // namespace tsm
