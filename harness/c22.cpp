// C22: result values (Either) hold exactly what was put in and apply continuations to the held side only.
#include "engine.hpp"

#include "either.hpp"
#include "tsetlini.hpp"
#include "neither/maybe.hpp"
#include "neither/lift.hpp"
#include "neither/try.hpp"

#include <memory>
#include <set>
#include <stdexcept>
#include <vector>

using pbt::Ctx;
using pbt::Tape;

namespace {

// Payload which knows whether it is alive and whether it was moved from
template<int Side, bool Copyable>
struct Value
{
    static std::set<void const *> & alive() { static std::set<void const *> s; return s; }
    static uint64_t copies, bad;
    int v;
    bool moved = false;
    std::string tail; // on the heap

    explicit Value(int v) : v(v), tail(40, char('a' + (v & 15))) { alive().insert(this); }
    Value(Value const & o) : v(o.use()), tail(o.tail)
    {
        static_assert(Copyable || Side >= 0, "");
        ++copies;
        alive().insert(this);
    }
    Value(Value && o) : v(o.use()), tail(std::move(o.tail)) { o.moved = true; alive().insert(this); }
    ~Value() { if (alive().erase(this) != 1) ++bad; }
    Value & operator=(Value const &) = delete;
    int use() const
    {
        if (!alive().count(this) || moved || tail != std::string(40, char('a' + (v & 15)))) { ++bad; return -1; }
        return v;
    }
    bool operator==(Value const & o) const { return use() == o.use(); }
};
template<int Side, bool Copyable> uint64_t Value<Side, Copyable>::copies = 0;
template<int Side, bool Copyable> uint64_t Value<Side, Copyable>::bad = 0;

using VL = Value<0, true>;
using VR = Value<1, true>;
using E = Tsetlini::Either<VL, VR>;

struct Model { bool left; int v; };

void expect(E const & e, Model const & m, char const * after)
{
    PBT_CHECK(e.isLeft == m.left, after << ": holds the " << (e.isLeft ? "left" : "right") << " side, expected the other one");
    PBT_CHECK(bool(e) == !m.left, after << ": converts to " << bool(e));
    int const v = m.left ? e.leftValue.use() : e.rightValue.use();
    PBT_CHECK(v == m.v, after << ": holds " << v << ", expected " << m.v);
    auto const l = e.left();
    auto const r = e.right();
    PBT_CHECK(l.hasValue == m.left && r.hasValue == !m.left, after << ": left() and right() are " << l.hasValue << ", " << r.hasValue);
    PBT_CHECK((m.left ? l.value.use() : r.value.use()) == m.v, after << ": left() or right() hold another value");
    PBT_CHECK(VL::bad == 0 && VR::bad == 0, after << ": a value was used after its end or after it was moved away");
}

// Owner of the current value, and how it was reached
struct Box
{
    std::unique_ptr<E> p;
    void put(E && e) { p.reset(new E(std::move(e))); }
};

void laws(Tape & t, Ctx & ctx)
{
    VL::alive().clear(); VR::alive().clear();
    VL::copies = VR::copies = VL::bad = VR::bad = 0;
    {
        Model m{t.coin(), t.range(0, 1000)};
        Box b;
        switch (t.range(0, 3))
        {
            case 3: { auto const l = neither::left(VL(m.v)); auto const r = neither::right(VR(m.v)); if (m.left) b.p.reset(new E(l)); else b.p.reset(new E(r)); break; }
            case 0: if (m.left) b.put(E::leftOf(VL(m.v))); else b.put(E::rightOf(VR(m.v))); break;
            case 1: { VL const l(m.v); VR const r(m.v); if (m.left) b.put(E::leftOf(l)); else b.put(E::rightOf(r)); break; }
            default: if (m.left) b.put(E(neither::left(VL(m.v)))); else b.put(E(neither::right(VR(m.v)))); break;
        }
        ctx.desc << (m.left ? "left " : "right ") << m.v << ":";
        expect(*b.p, m, "construction");
        int const n = t.range(1, 10);
        for (int i = 0; i < n; ++i)
        {
            int const op = t.range(0, 10);
            bool const lvalue = t.coin();
            int const d = t.range(-50, 50);
            bool const to_left = t.coin();
            unsigned calls_l = 0, calls_r = 0;
            E & e = *b.p;
            uint64_t const copies = VL::copies + VR::copies;
            static char const * const names[] = {"copy", "move", "leftMap", "rightMap", "leftFlatMap", "rightFlatMap", "join", "maps", "compare", "right().map", "lift"};
            ctx.desc << " " << names[op] << (lvalue ? "&" : "&&");
            std::string const when = std::string(names[op]) + (lvalue ? " of an l-value" : " of an r-value");
            auto fl = [&](auto && x) { ++calls_l; return VL(x.use() + d); };
            auto fr = [&](auto && x) { ++calls_r; return VR(x.use() + d); };
            auto gl = [&](auto && x) { ++calls_l; return to_left ? E::leftOf(VL(x.use() + d)) : E::rightOf(VR(x.use() + d)); };
            auto gr = [&](auto && x) { ++calls_r; return to_left ? E::leftOf(VL(x.use() + d)) : E::rightOf(VR(x.use() + d)); };
            Model next = m;
            bool want_l = false, want_r = false, moves = !lvalue;
            switch (op)
            {
                case 0: { E c(e); expect(c, m, when.c_str()); expect(e, m, "source of a copy"); if (lvalue) b.put(E(c)); moves = false; break; }
                case 1: { E c(std::move(e)); b.put(std::move(c)); moves = true; break; }
                case 2: if (lvalue) { E c = static_cast<E const &>(e).leftMap(fl); expect(e, m, "source of leftMap"); b.put(std::move(c)); } else b.put(std::move(e).leftMap(fl));
                    want_l = m.left; if (m.left) next.v += d; break;
                case 3: if (lvalue) { E c = static_cast<E const &>(e).rightMap(fr); expect(e, m, "source of rightMap"); b.put(std::move(c)); } else b.put(std::move(e).rightMap(fr));
                    want_r = !m.left; if (!m.left) next.v += d; break;
                case 4: if (lvalue) { E c = static_cast<E const &>(e).leftFlatMap(gl); expect(e, m, "source of leftFlatMap"); b.put(std::move(c)); } else b.put(std::move(e).leftFlatMap(gl));
                    want_l = m.left; if (m.left) { next.v += d; next.left = to_left; } break;
                case 5: if (lvalue) { E c = static_cast<E const &>(e).rightFlatMap(gr); expect(e, m, "source of rightFlatMap"); b.put(std::move(c)); } else b.put(std::move(e).rightFlatMap(gr));
                    want_r = !m.left; if (!m.left) { next.v += d; next.left = to_left; } break;
                case 6:
                {
                    auto const jl = [&](VL const & x) { ++calls_l; return std::make_pair('l', x.use()); };
                    auto const jr = [&](VR const & x) { ++calls_r; return std::make_pair('r', x.use()); };
                    auto const got = e.join(jl, jr);
                    PBT_CHECK(got == std::make_pair(m.left ? 'l' : 'r', m.v), when << " gave " << got.first << " " << got.second);
                    want_l = m.left; want_r = !m.left; moves = false;
                    break;
                }
                case 7:
                    // both at once; composition
                    b.put(std::move(e).leftMap(fl).rightMap(fr).leftMap(fl).rightMap(fr));
                    next.v += 2 * d;
                    PBT_CHECK(calls_l == (m.left ? 2u : 0u) && calls_r == (m.left ? 0u : 2u), when << ": continuations ran " << calls_l << " and " << calls_r << " times");
                    calls_l = calls_r = 0;
                    moves = true;
                    break;
                case 8:
                {
                    E same(e), other = m.left != to_left ? E::leftOf(VL(m.v)) : E::rightOf(VR(m.v));
                    bool const eq = other.isLeft == m.left;
                    PBT_CHECK(same == e && !(same != e), "a copy compares different");
                    PBT_CHECK((other == e) == eq && (e == other) == eq && (other != e) == !eq, "comparison with " << (eq ? "the same" : "the other") << " side is wrong");
                    E more = m.left ? E::leftOf(VL(m.v + 1)) : E::rightOf(VR(m.v + 1));
                    PBT_CHECK(!(more == e) && more != e, "different values compare equal");
                    moves = false;
                    break;
                }
                case 9:
                {
                    auto const r = e.right();
                    auto const mapped = r.map([&](VR const & x){ ++calls_r; return x.use() + d; });
                    PBT_CHECK(mapped.hasValue == !m.left && (m.left || mapped.value == m.v + d), "right().map() is wrong");
                    auto const flat = e.left().flatMap([&](VL const & x){ ++calls_l; return to_left ? neither::Maybe<int>(x.use()) : neither::Maybe<int>(); });
                    PBT_CHECK(flat.hasValue == (m.left && to_left) && (!flat.hasValue || flat.value == m.v), "left().flatMap() is wrong");
                    PBT_CHECK(e.right().size() == (m.left ? 0u : 1u) && e.right().empty() == m.left, "right().size() is wrong");
                    want_l = m.left; want_r = !m.left; moves = false;
                    break;
                }
                default:
                {
                    auto const sum = neither::lift([](VR const & a, VR const & c){ return a.use() + c.use(); });
                    E const one = E::rightOf(VR(d));
                    auto const got = sum(static_cast<E const &>(e), one);
                    PBT_CHECK(got.hasValue == !m.left && (m.left || got.value == m.v + d), "lift() is wrong");
                    auto const tried = neither::Try<std::runtime_error>([&](int x){ if (to_left) throw std::runtime_error("no"); return x + 1; }, d);
                    PBT_CHECK(tried.isLeft == to_left && (to_left || tried.rightValue == d + 1), "Try() is wrong");
                    PBT_CHECK(!to_left || std::string(tried.leftValue.what()) == "no", "Try() lost the error");
                    moves = false;
                    break;
                }
            }
            m = next;
            PBT_CHECK(calls_l == (want_l ? 1u : 0u) && calls_r == (want_r ? 1u : 0u), when << ": continuations ran " << calls_l << " (left) and " << calls_r << " (right) times");
            if (moves && op != 9) PBT_CHECK(VL::copies + VR::copies == copies, when << " copied the value");
            expect(*b.p, m, when.c_str());
            ++ctx.sub_evaluations;
            ctx.label(names[op]);
        }
    }
    PBT_CHECK(VL::bad == 0 && VR::bad == 0, "a value was destroyed twice or used after its end");
    PBT_CHECK(VL::alive().empty() && VR::alive().empty(), VL::alive().size() + VR::alive().size() << " values were never destroyed");
    ctx.nontrivial = true;
}

// Values which can only be moved
void move_only(Tape & t, Ctx & ctx)
{
#ifndef PBT_NO_MOVE_ONLY
    using P = std::unique_ptr<int>;
    using M = Tsetlini::Either<P, P>;
    bool left = t.coin();
    int v = t.range(0, 1000);
    std::unique_ptr<M> e(new M(left ? M::leftOf(P(new int(v))) : M::rightOf(P(new int(v)))));
    ctx.desc << "move-only " << (left ? "left " : "right ") << v << ":";
    int const n = t.range(1, 8);
    for (int i = 0; i < n; ++i)
    {
        int const op = t.range(0, 4), d = t.range(-9, 9);
        bool const to_left = t.coin(), lvalue = t.coin();
        unsigned calls = 0;
        auto f = [&](P && p){ ++calls; *p += d; return std::move(p); };
        auto g = [&](P && p){ ++calls; *p += d; return to_left ? M::leftOf(std::move(p)) : M::rightOf(std::move(p)); };
        ctx.desc << " " << op << (lvalue ? "&" : "&&");
        unsigned want = 0;
        switch (op)
        {
            case 0: e.reset(new M(lvalue ? e->leftMap(f) : std::move(*e).leftMap(f))); want = left; if (left) v += d; break;
            case 1: e.reset(new M(lvalue ? e->rightMap(f) : std::move(*e).rightMap(f))); want = !left; if (!left) v += d; break;
            case 2: e.reset(new M(lvalue ? e->leftFlatMap(g) : std::move(*e).leftFlatMap(g))); want = left; if (left) { v += d; left = to_left; } break;
            case 3: e.reset(new M(lvalue ? e->rightFlatMap(g) : std::move(*e).rightFlatMap(g))); want = !left; if (!left) { v += d; left = to_left; } break;
            default: { M c(std::move(*e)); e.reset(new M(std::move(c))); break; }
        }
        PBT_CHECK(calls == want, "operation " << op << " ran the continuation " << calls << " times");
        PBT_CHECK(e->isLeft == left, "operation " << op << " ended on the wrong side");
        auto const & p = left ? e->leftValue : e->rightValue;
        PBT_CHECK(p && *p == v, "operation " << op << " lost the value");
        ++ctx.sub_evaluations;
    }
    P got = std::move(*e).join();
    PBT_CHECK(got && *got == v, "join() lost the value");
    ctx.nontrivial = true;
    ctx.label("move-only");
#else
    (void)t;
    (void)ctx;
#endif
}

using MV = neither::Maybe<VL>;

// Optional values: what left() and right() of a result are
void optional(Tape & t, Ctx & ctx)
{
    VL::alive().clear(); VR::alive().clear();
    VL::copies = VR::copies = VL::bad = VR::bad = 0;
    {
        bool held = t.coin();
        int v = t.range(0, 1000);
        auto const expect_maybe = [](MV const & m, bool h, int x, char const * after)
        {
            PBT_CHECK(m.hasValue == h && bool(m) == h && m.empty() == !h && m.size() == (h ? 1u : 0u), after << ": optional value should be " << (h ? "held" : "missing"));
            PBT_CHECK(!h || m.value.use() == x, after << ": optional value holds " << m.value.use() << ", expected " << x);
            PBT_CHECK(VL::bad == 0, after << ": a value was used after its end or after it was moved away");
        };
        std::unique_ptr<MV> p;
        switch (t.range(0, 3))
        {
            case 0: { VL const x(v); if (held) p.reset(new MV(x)); else p.reset(new MV()); break; }
            case 1: if (held) p.reset(new MV(VL(v))); else p.reset(new MV(neither::none)); break;
            case 2: if (held) p.reset(new MV(neither::maybe(VL(v)))); else p.reset(new MV(neither::maybe<VL>())); break;
            default: { E const e = held ? E::leftOf(VL(v)) : E::rightOf(VR(v)); p.reset(new MV(e.left())); break; }
        }
        ctx.desc << "optional value " << (held ? std::to_string(v) : std::string("none")) << ":";
        expect_maybe(*p, held, v, "construction");
        int const n = t.range(1, 8);
        for (int i = 0; i < n; ++i)
        {
            int const op = t.range(0, 5), d = t.range(-50, 50);
            bool const lvalue = t.coin(), keep = t.coin();
            unsigned calls = 0;
            bool called = true;
            static char const * const names[] = {"copy", "map", "flatMap", "get", "compare", "lift"};
            ctx.desc << " " << names[op] << (lvalue ? "&" : "&&");
            std::string const when = std::string("optional ") + names[op] + (lvalue ? " of an l-value" : " of an r-value");
            MV & m = *p;
            auto f = [&](auto && x) { ++calls; return VL(x.use() + d); };
            auto g = [&](auto && x) { ++calls; return keep ? MV(VL(x.use() + d)) : MV(); };
            switch (op)
            {
                case 0: { MV c(m); expect_maybe(c, held, v, when.c_str()); expect_maybe(m, held, v, "source of a copy"); p.reset(new MV(c)); called = false; break; }
                case 1:
                    if (lvalue) { MV c = static_cast<MV const &>(m).map(f); expect_maybe(m, held, v, "source of map"); p.reset(new MV(c)); }
                    else p.reset(new MV(std::move(m).map(f)));
                    if (held) v += d;
                    break;
                case 2:
                {
                    bool const was = held;
                    if (lvalue) { MV c = static_cast<MV const &>(m).flatMap(g); expect_maybe(m, held, v, "source of flatMap"); p.reset(new MV(c)); }
                    else p.reset(new MV(std::move(m).flatMap(g)));
                    PBT_CHECK(calls == (was ? 1u : 0u), when << ": continuation ran " << calls << " times");
                    if (held) { held = keep; v += d; }
                    called = false;
                    break;
                }
                case 3:
                    PBT_CHECK(m.get(VL(-7)).use() == (held ? v : -7), when << ": another value");
                    if (held) PBT_CHECK(m.unsafeGet().use() == v, when << ": unsafeGet gives another value");
                    called = false;
                    break;
                case 4:
                {
                    bool const other_held = keep;
                    int const ov = lvalue ? v : v + 1 + (d & 7);
                    MV const o = other_held ? MV(VL(ov)) : MV();
                    bool const eq = held == other_held && (!held || ov == v);
                    PBT_CHECK((m == o) == eq && (o == m) == eq, when << ": == of " << (held ? "a held" : "a missing") << " and " << (other_held ? "a held" : "a missing") << " value");
                    PBT_CHECK((m != o) == !eq && (o != m) == !eq, when << ": != of " << (held ? "a held" : "a missing") << " and " << (other_held ? "a held" : "a missing") << " value");
                    PBT_CHECK(m == m && !(m != m), when << ": optional value differs from itself");
                    called = false;
                    break;
                }
                default:
                {
                    auto const sum = neither::lift([](VL const & a, int b, VL const & c){ return a.use() + 2 * b + 3 * c.use(); });
                    MV const o = keep ? MV(VL(d)) : MV();
                    auto const got = sum(m, 5, o), back = sum(o, 6, m);
                    PBT_CHECK(got.hasValue == (held && keep) && (!got.hasValue || got.value == v + 10 + 3 * d), when << ": another value");
                    PBT_CHECK(back.hasValue == (held && keep) && (!back.hasValue || back.value == d + 12 + 3 * v), when << ": another value");
                    called = false;
                    break;
                }
            }
            if (called) PBT_CHECK(calls == (held ? 1u : 0u), when << ": continuation ran " << calls << " times");
            expect_maybe(*p, held, v, when.c_str());
            ++ctx.sub_evaluations;
        }
    }
    PBT_CHECK(VL::bad == 0 && VL::alive().empty() && VR::alive().empty(), VL::alive().size() + VR::alive().size() << " values were never destroyed, or used after their end");
    ctx.nontrivial = true;
    ctx.label("optional values");
}

// Both sides of one type, whose value is returned by join()
void one_type(Tape & t, Ctx & ctx)
{
    using S = Tsetlini::Either<std::string, std::string>;
    bool left = t.coin();
    std::string v(t.pick({0, 1, 15, 16, 40}), 'x');
    v += std::to_string(t.range(0, 99));
    auto const put = [](bool l, std::string const & x) { return l ? S::leftOf(x) : S::rightOf(x); };
    ctx.desc << "one type " << (left ? "left " : "right ") << v << ":";
    std::unique_ptr<S> e(new S(put(left, v)));
    int const n = t.range(1, 8);
    for (int i = 0; i < n; ++i)
    {
        int const op = t.range(0, 4), other = t.range(0, 9);
        bool const lvalue = t.coin(), to_left = t.coin();
        S const & c = *e;
        ctx.desc << " " << op << (lvalue ? "&" : "&&");
        std::string const add = std::to_string(other);
        auto f = [&](std::string const & x) { return x + add; };
        auto g = [&](std::string const & x) { return put(to_left, x + add); };
        switch (op)
        {
            case 0: { auto const got = S(c).join(); PBT_CHECK(got == v, "join() of both sides of one type gives '" << got << "', expected '" << v << "'"); break; }
            case 1: e.reset(new S(lvalue ? c.leftMap(f).leftMap(f) : std::move(*e).leftMap(f).leftMap(f))); if (left) v += add + add; break;
            case 2: e.reset(new S(lvalue ? c.rightMap(f).rightMap(f) : std::move(*e).rightMap(f).rightMap(f))); if (!left) v += add + add; break;
            case 3: e.reset(new S(lvalue ? c.leftFlatMap(g) : std::move(*e).leftFlatMap(g))); if (left) { v += add; left = to_left; } break;
            default: e.reset(new S(lvalue ? c.rightFlatMap(g) : std::move(*e).rightFlatMap(g))); if (!left) { v += add; left = to_left; } break;
        }
        PBT_CHECK(e->isLeft == left && bool(*e) == !left, "operation " << op << " ended on the wrong side");
        PBT_CHECK((left ? e->leftValue : e->rightValue) == v, "operation " << op << " holds another value");
        S const mirrored = put(!left, v), same = put(left, v);
        PBT_CHECK(*e != mirrored && mirrored != *e && !(*e == mirrored), "equal values on opposite sides compare equal");
        PBT_CHECK(*e == same && same == *e && !(*e != same), "equal results compare different");
        PBT_CHECK((left ? e->left() : e->right()) != neither::Maybe<std::string>() && (left ? e->left() : e->right()) == neither::Maybe<std::string>(v), "left() or right() compare wrong");
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = true;
    ctx.label("both sides of one type");
}

// The library's own results
void results(Tape & t, Ctx & ctx)
{
    bool const good = t.coin();
    int const labels = t.range(2, 4), F = t.range(1, 20);
    auto const js = std::string("{\"random_state\": 1, \"n_jobs\": 1, \"threshold\": ") + (good ? "15" : "0") + "}";
    unsigned left = 0, right = 0;
    auto made = Tsetlini::make_classifier_classic_from_json(js);
    ctx.desc << "results of " << (good ? "accepted" : "refused") << " parameters, " << labels << " labels, " << F << " features";
    PBT_CHECK(made.isLeft == !good && bool(made) == good, "factory result holds the wrong side");
    auto const answer = std::move(made)
        .leftMap([&](Tsetlini::status_message_t && m){ ++left; return std::move(m); })
        .rightMap([&](Tsetlini::ClassifierClassic && c)
        {
            ++right;
            std::vector<Tsetlini::aligned_vector_char> X(labels, Tsetlini::aligned_vector_char(F, 0));
            Tsetlini::label_vector_type y;
            for (int i = 0; i < labels; ++i) y.push_back(i);
            auto const s = c.fit(X, y, Tsetlini::max_number_of_labels_t{labels}, Tsetlini::number_of_epochs_t{1});
            PBT_CHECK(s.first == Tsetlini::S_OK, "fit of a moved estimator: " << s.second);
            auto const direct = c.predict(X);
            PBT_CHECK(direct && !direct.isLeft && direct.rightValue.size() == X.size(), "predict gave no result");
            auto const one = c.predict(X[0]);
            PBT_CHECK(one && one.rightValue == direct.rightValue[0], "results differ");
            auto const text = c.predict(X).leftMap([](Tsetlini::status_message_t && m){ return m.second; }).rightMap([](auto && v){ return std::to_string(v.size()); }).join();
            PBT_CHECK(text == std::to_string(X.size()), "joined result is " << text);
            auto const bad = c.predict(Tsetlini::aligned_vector_char(F + 1, 0));
            PBT_CHECK(!bad && bad.isLeft && bad.leftValue.first == Tsetlini::S_VALUE_ERROR && !bad.leftValue.second.empty(), "refusal holds no status or message");
            return 7;
        });
    PBT_CHECK(left == (good ? 0u : 1u) && right == (good ? 1u : 0u), "continuations ran " << left << " and " << right << " times");
    PBT_CHECK(answer.isLeft == !good, "mapped result holds the wrong side");
    if (good) PBT_CHECK(answer.rightValue == 7, "mapped result is " << answer.rightValue);
    else PBT_CHECK(answer.leftValue.first == Tsetlini::S_BAD_JSON && !answer.leftValue.second.empty(), "refusal lost status or message");
    ctx.nontrivial = true;
    ctx.label(good ? "results: accepted" : "results: refused");
}

void run(Tape & t, Ctx & ctx)
{
    switch (t.weighted({8, 3, 1, 4, 2}))
    {
        case 3: optional(t, ctx); break;
        case 4: one_type(t, ctx); break;
        case 0: laws(t, ctx); break;
        case 1: move_only(t, ctx); break;
        default: results(t, ctx); break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C22", run, 8000000, 60000000, 8, 30,
        "distinct chains of at least one operation on a result holding a tracked, move-only or library value",
        {}};
    return p;
}
