// What one training step may do to one clause; used by C11 and C12.
#pragma once

#include "tsm.hpp"

#include <functional>
#include <set>

namespace tsm {

enum class Toss { Never, Always, Random }; // of literals which Type I draws for exclusion

inline Toss toss_of(float s) { return s >= 1e20f ? Toss::Never : s == 1.0f ? Toss::Always : Toss::Random; }

struct Step
{
    Cfg const & c;
    Snap const & before;
    Snap const & after;
    Row const & x;
    bool bitwise;
    int64_t max_steps = 1;      // bound on number of updates of a clause

    bool unchanged(int j) const
    {
        for (int r = 2 * j; r <= 2 * j + 1; ++r)
            for (unsigned f = 0; f < before.cols; ++f) if (before.at(r, f) != after.at(r, f)) return false;
        return before.weights.empty() || before.weights[j] == after.weights[j];
    }

    // Range of number of times the clause may have got feedback of given type, empty if none explains the change.
    // With random draws of literals the range is what can be concluded, not tight.
    struct Hits { int64_t lo = 0, hi = INT64_MAX; std::string why; bool none() const { return lo > hi; } };

    void need(Hits & h, int64_t lo, int64_t hi, char const * what, int64_t from, int64_t to, int side, unsigned f) const
    {
        h.lo = std::max(h.lo, lo);
        h.hi = std::min(h.hi, hi);
        if (h.none() && h.why.empty())
        {
            std::ostringstream os;
            os << what << " went from " << from << " to " << to;
            if (side >= 0) os << " (" << (side ? "negated" : "positive") << " literal of feature " << f << ", which is " << int(x[f]) << ")";
            h.why = os.str();
        }
    }

    // value v moves up by one per hit, stopping at top
    void rises(Hits & h, int64_t v, int64_t w, int64_t top, char const * what, int side, unsigned f) const
    {
        if (w == std::max(v, top) && v < top) need(h, w - v, INT64_MAX, what, v, w, side, f);
        else if (v >= top) need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, what, v, w, side, f);
        else need(h, w - v, w >= v ? w - v : -1, what, v, w, side, f);
    }

    Hits type1(int j, bool fired) const
    {
        Hits h;
        int64_t const N = c.states;
        auto const toss = toss_of(c.s);
        for (int side = 0; side < 2; ++side)
            for (unsigned f = 0; f < before.cols; ++f)
            {
                int64_t const v = before.at(2 * j + side, f), w = after.at(2 * j + side, f);
                bool const truth = side == 0 ? x[f] != 0 : x[f] == 0;
                if (fired && truth)
                {
                    if (c.boost || toss == Toss::Never) rises(h, v, w, N - 1, "true literal of a firing clause", side, f);
                    else if (toss == Toss::Always) need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, "true literal of a firing clause", v, w, side, f);
                    else need(h, w - v, w >= v ? INT64_MAX : -1, "true literal of a firing clause", v, w, side, f);
                }
                else
                {
                    char const * what = fired ? "false literal of a firing clause" : "literal of a clause which does not fire";
                    if (toss == Toss::Never) need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, what, v, w, side, f);
                    else if (toss == Toss::Always && (fired || !bitwise)) rises(h, -v, -w, N, what, side, f);
                    // the bitwise backend draws literals of clauses which do not fire with replacement
                    else need(h, fired || !bitwise ? v - w : w < v ? 1 : 0, w <= v ? INT64_MAX : -1, what, v, w, side, f);
                }
            }
        if (!before.weights.empty())
        {
            int64_t const v = before.weights[j], w = after.weights[j];
            if (fired) rises(h, v, w, int64_t(c.max_weight) - 1, "weight of a firing clause", -1, 0);
            else need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, "weight of a clause which does not fire", v, w, -1, 0);
        }
        return h;
    }

    Hits type2(int j, bool fired) const
    {
        Hits h;
        for (int side = 0; side < 2; ++side)
            for (unsigned f = 0; f < before.cols; ++f)
            {
                int64_t const v = before.at(2 * j + side, f), w = after.at(2 * j + side, f);
                bool const truth = side == 0 ? x[f] != 0 : x[f] == 0;
                if (fired && !truth && v < 0) rises(h, v, w, 0, "excluded false literal of a firing clause", side, f);
                else need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, fired ? "literal of a firing clause which is true or included" : "literal of a clause which does not fire", v, w, side, f);
            }
        if (!before.weights.empty())
        {
            int64_t const v = before.weights[j], w = after.weights[j];
            if (fired) rises(h, -v, -w, 0, "weight of a firing clause", -1, 0);
            else need(h, w == v ? 0 : 1, w == v ? INT64_MAX : 0, "weight of a clause which does not fire", v, w, -1, 0);
        }
        return h;
    }
};

// Training on several rows over several epochs, simulated by the rules alone. What chance decides - order of rows, clauses
// which get feedback, the other label - is branched on: the states an estimator may be in after training form a set.
// Literals have to be drawn never, or always (classic backend only, the bitwise one draws with replacement).
struct Reach
{
    // automata row by row, followed by stored weights
    using State = std::vector<int>;

    Cfg const & c;
    bool regressor;
    int labels;         // 1 for regressors
    int features;
    std::size_t limit;  // of set size
    bool overflow = false;

    int clauses() const { return c.clauses / 2 * labels; }

    State pack(Snap const & s) const
    {
        State rv(s.ta.begin(), s.ta.end());
        for (auto w : s.weights) rv.push_back(int(w));
        return rv;
    }

    int ta(State const & s, int j, int side, int f) const { return s[std::size_t(2 * j + side) * features + f]; }
    int & ta(State & s, int j, int side, int f) const { return s[std::size_t(2 * j + side) * features + f]; }
    int weight_at(int j) const { return 2 * clauses() * features + j; }

    bool fires(State const & s, int j, Row const & x) const
    {
        for (int f = 0; f < features; ++f) if (ta(s, j, x[f] ? 1 : 0, f) >= 0) return false;
        return true;
    }

    int vote(State const & s, int label, Row const & x) const
    {
        int const per = c.clauses / 2;
        int64_t sum = 0;
        for (int j = label * per; j < (label + 1) * per; ++j)
            if (fires(s, j, x)) sum += (regressor || j % 2 == 0 ? 1 : -1) * (c.weighted ? int64_t(s[weight_at(j)]) + 1 : 1);
        return clamp64(sum, regressor ? 0 : -int64_t(c.T), c.T);
    }

    void hit(State & s, int j, bool first, bool fired, Row const & x) const
    {
        auto const toss = toss_of(c.s);
        for (int side = 0; side < 2; ++side)
            for (int f = 0; f < features; ++f)
            {
                bool const truth = (x[f] != 0) == (side == 0);
                int & v = ta(s, j, side, f);
                if (!first) { if (fired && !truth && v < 0) ++v; }
                else if (fired && truth) { if ((c.boost || toss == Toss::Never) && v < c.states - 1) ++v; }
                else if (toss == Toss::Always && v > -c.states) --v;
            }
        if (c.weighted && fired)
        {
            int & w = s[weight_at(j)];
            if (first) { if (w < c.max_weight - 1) ++w; }
            else if (w > 0) --w;
        }
    }

    // States after presenting one sample
    void step(State const & s, Row const & x, int y, std::function<void(State const &)> const & out) const
    {
        if (regressor)
        {
            int const n = clauses(), v = vote(s, 0, x);
            auto const k = updates(v, y);
            std::vector<bool> fired;
            for (int j = 0; j < n; ++j) fired.push_back(fires(s, j, x));
            // any number of hits of each clause, in total between lo and hi
            std::function<void(State, int, int)> rec = [&](State st, int j, int left)
            {
                if (j == n) { if (left <= k.second - k.first) out(st); return; }
                for (;; --left)
                {
                    rec(st, j + 1, left);
                    if (left == 0) return;
                    hit(st, j, v < y, fired[j], x);
                }
            };
            rec(s, 0, k.second);
            return;
        }
        int const per = c.clauses / 2;
        for (int other = 0; other < labels; ++other)
        {
            if (other == y) continue;
            std::vector<State> now{s};
            for (int l : {y, other})
            {
                int const v = vote(s, l, x);
                bool const never = l == y ? v == c.T : v == -c.T, always = l == y ? v == -c.T : v == c.T;
                if (never) continue;
                for (int j = l * per; j < (l + 1) * per; ++j)
                {
                    bool const fired = fires(s, j, x);
                    std::size_t const n = now.size();
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        State h = now[i];
                        hit(h, j, (j % 2 == 0) == (l == y), fired, x);
                        if (always) now[i] = h;
                        else if (h != now[i]) now.push_back(h);
                    }
                }
            }
            for (auto const & r : now) out(r);
        }
    }

    std::function<std::pair<int, int>(int, int)> updates; // regressor: bounds on number of updates for vote and response

    std::set<State> epoch(std::set<State> const & from, Rows const & X, Labels const & y)
    {
        unsigned const n = unsigned(X.size());
        std::vector<std::set<State>> level(1u << n); // by rows presented
        level[0] = from;
        std::size_t total = 0;
        for (unsigned mask = 0; mask + 1 < (1u << n); ++mask)
            for (auto const & s : level[mask])
                for (unsigned i = 0; i < n && !overflow; ++i)
                    if (!(mask >> i & 1))
                        step(s, X[i], y[i], [&](State const & r)
                        {
                            if (level[mask | 1u << i].insert(r).second && ++total > limit) overflow = true;
                        });
        return level.back();
    }
};

} // namespace tsm
