// C14: estimators and copies of their state are independent of each other.
#include "tsm.hpp"

#include <cstdlib>
#include <memory>
#include <thread>

#include <sys/wait.h>
#include <unistd.h>

using namespace tsm;

namespace {

// One call on an estimator, with everything needed to repeat it
struct Call
{
    int kind;           // 0 fit, 1 partial_fit, 2 answers, 3 clone, 4 move around, 5 JSON, 6 decide on one sample, 7 refused
    uint64_t seed;
    unsigned epochs;
};

struct Machine
{
    virtual ~Machine() {}
    virtual void apply(Call const & call) = 0;
    virtual std::string state() = 0;            // digest of everything learned and of the generators
    virtual std::string name() const = 0;
    std::vector<uint64_t> trace;                // what the calls answered
};

uint64_t digest(Snap const & s)
{
    uint64_t h = 1;
    auto add = [&h](uint64_t v) { h = pbt::mix64(h ^ v); };
    add(s.rows); add(s.cols); add(uint64_t(s.width));
    for (auto v : s.ta) add(uint64_t(int64_t(v)));
    for (auto v : s.weights) add(v);
    for (auto v : s.polarity) add(uint64_t(v));
    for (auto v : s.pad) add(v);
    for (auto v : s.igen) add(v);
    for (auto v : s.fgen) add(v);
    for (auto const & kv : s.params) { add(std::hash<std::string>{}(kv.first)); add(std::hash<std::string>{}(kv.second)); }
    return h;
}

template<typename Tr>
struct MachineOf : Machine
{
    Cfg cfg;
    int F, L;
    std::unique_ptr<typename Tr::est> e;
    MachineOf(Cfg const & c, int f, int l) : cfg(c), F(f), L(l), e(new typename Tr::est(make<Tr>(c))) {}

    std::string name() const override { return Tr::name(); }
    std::string state() override
    {
        auto const s = snap_of<Tr>(*e);
        std::ostringstream os;
        os << s.rows << "x" << s.cols << " " << digest(s);
        return os.str();
    }
    data_t<Tr> data(Bulk & b, int n) { return to_data<Tr>(gen_rows(b, n, F)); }
    Labels labels(Bulk & b, int n)
    {
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(cfg.T) + 1 : uint64_t(L))));
        return y;
    }
    void note(uint64_t v) { trace.push_back(v); }
    void apply(Call const & c) override
    {
        Bulk b(c.seed | 1);
        int const n = 1 + int(b.below(10));
        switch (c.kind)
        {
            case 0: { auto X = data(b, n); auto y = labels(b, n); note(uint64_t(fit_raw<Tr>(*e, X, y, c.epochs, L).first)); break; }
            case 1: { auto X = data(b, n); auto y = labels(b, n); note(uint64_t(partial_fit_raw<Tr>(*e, X, y, c.epochs, L).first)); break; }
            case 2:
            {
                auto X = data(b, n);
                auto p = e->predict(X);
                note(p.isLeft ? uint64_t(p.leftValue.first) : 1000);
                if (!p.isLeft) for (int v : answers<Tr>(*e, X)) note(uint64_t(int64_t(v)));
                break;
            }
            case 3: { auto st = e->clone_state(); e.reset(new typename Tr::est(*st)); break; }
            case 4:
            {
                std::unique_ptr<typename Tr::est> other(new typename Tr::est(std::move(*e)));
                e = std::move(other);
                break;
            }
            case 5:
            {
                auto const st = e->clone_state();
                auto into = make<Tr>(cfg).clone_state();
                from_json_string(*into, to_json_string(*st));
                e.reset(new typename Tr::est(*into));
                break;
            }
            case 6:
            {
                auto X = data(b, 1);
                auto p = e->predict(X[0]);
                note(p.isLeft ? uint64_t(p.leftValue.first) : uint64_t(int64_t(p.rightValue)) + 1000);
                break;
            }
            default:
            {
                auto X = data(b, n);
                auto y = labels(b, n);
                y.back() = -1;
                note(uint64_t(partial_fit_raw<Tr>(*e, X, y, c.epochs, L).first));
                break;
            }
        }
    }
};

Cfg gen_cfg(Tape & t, bool regressor)
{
    Cfg c;
    c.clauses = (regressor ? 2 : 4) * t.range(1, 4);
    c.states = t.pick({100, 1, 3, 127, 128, 40000});
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 3});
    c.boost = t.coin();
    c.counting = gen_counting(t);
    c.n_jobs = gen_jobs(t);
    c.tile = gen_tile(t);
    c.seed = gen_seed(t);
    if (regressor) { c.box_muller = t.coin(); c.loss = t.pick({"MSE", "MAE", "L1+2", "berHu"}); c.C1 = t.pick({0.5f, 0.f, 1.f, 0.1f, 0.9f}); }
    return c;
}

struct Spec
{
    int kind;
    Cfg cfg;
    int F, L;
};

Spec gen_spec(Tape & t)
{
    Spec s;
    s.kind = t.range(0, 3);
    for_kind(s.kind, [&](auto tr)
    {
        using Tr = decltype(tr);
        s.cfg = gen_cfg(t, Tr::regressor);
        bool const big = t.chance(1, 16);
        s.F = big ? std::min(2100, big_features(t, Tr::bitwise)) : t.pick({3, 1, 8, 17, 64, 65, 130});
        s.L = t.range(2, 4);
    });
    return s;
}

std::unique_ptr<Machine> build(Spec const & s)
{
    std::unique_ptr<Machine> rv;
    for_kind(s.kind, [&](auto tr) { rv.reset(new MachineOf<decltype(tr)>(s.cfg, s.F, s.L)); });
    return rv;
}

Call gen_call(Tape & t)
{
    Call c;
    c.kind = t.weighted({3, 5, 3, 1, 1, 1, 2, 1});
    c.seed = gen_seed(t);
    c.epochs = unsigned(t.range(0, 6));
    return c;
}

// Estimators and the calls they get, made without touching the library
struct Plan
{
    std::vector<Spec> specs;
    std::vector<std::vector<Call>> calls;
    std::vector<int> order;             // which estimator is called next; empty when concurrent
};

Plan gen_plan(Tape & t, bool threads)
{
    Plan p;
    int const n = t.range(2, threads ? 6 : 4);
    bool const alike = t.chance(1, 4);  // estimators differ in few parameters
    for (int i = 0; i < n; ++i)
    {
        if (!alike || i == 0) p.specs.push_back(gen_spec(t));
        else
        {
            Spec s = p.specs[0];
            for_kind(s.kind, [&](auto tr)
            {
                auto const c = gen_cfg(t, decltype(tr)::regressor);
                switch (t.range(0, 9))
                {
                    case 0: s.cfg.C1 = c.C1; break;
                    case 1: s.cfg.loss = c.loss; break;
                    case 2: s.cfg.s = c.s; break;
                    case 3: s.cfg.T = c.T; break;
                    case 4: s.cfg.clauses = c.clauses; break;
                    case 5: s.cfg.states = c.states; break;
                    case 6: s.cfg.max_weight = c.max_weight; break;
                    case 7: s.cfg.boost = c.boost; break;
                    case 8: s.cfg.seed = c.seed; break;
                    default: s.L = t.range(2, 4); break;
                }
            });
            p.specs.push_back(s);
        }
    }
    p.calls.resize(std::size_t(n));
    if (threads)
        for (auto & calls : p.calls)
            for (int k = t.range(1, 8); k > 0; --k) { calls.push_back(gen_call(t)); calls.back().epochs *= 4; }
    else
        for (int k = t.range(2, 16); k > 0; --k)
        {
            int const i = int(t.index(std::size_t(n)));
            p.order.push_back(i);
            p.calls[std::size_t(i)].push_back(gen_call(t));
        }
    return p;
}

// What an estimator answers and becomes, alone
std::string alone(Spec const & s, std::vector<Call> const & calls)
{
    auto m = build(s);
    for (auto const & c : calls) m->apply(c);
    return list_str(m->trace) + " | " + m->state();
}

// A process which has never used the library and forks one for each question, so that the answer is not
// affected by anything that happened before in this one.
class Pristine
{
    int m_to = -1, m_from = -1;
    static bool all(int fd, void * p, std::size_t n, bool write)
    {
        for (char * c = static_cast<char *>(p); n > 0;)
        {
            auto const r = write ? ::write(fd, c, n) : ::read(fd, c, n);
            if (r <= 0) return false;
            c += r;
            n -= std::size_t(r);
        }
        return true;
    }
    [[noreturn]] static void serve(int in, int out)
    {
        for (;;)
        {
            uint64_t head[3];
            if (!all(in, head, sizeof head, false)) _exit(0);
            std::vector<uint64_t> choices(head[2]);
            if (!all(in, choices.data(), 8 * choices.size(), false)) _exit(0);
            pid_t const pid = fork();
            if (pid == 0)
            {
                alarm(100);
                Tape t;
                t.src = &choices;
                auto const p = gen_plan(t, head[0] != 0);
                std::string r;
                try { r = alone(p.specs.at(head[1]), p.calls.at(head[1])); }
                catch (std::exception const & e) { r = std::string("exception ") + e.what(); }
                catch (pbt::Failure const & f) { r = f.msg; }
                uint64_t n = r.size();
                all(out, &n, sizeof n, true);
                all(out, &r[0], r.size(), true);
                _exit(0);
            }
            int st = 0;
            if (pid < 0 || waitpid(pid, &st, 0) != pid || !WIFEXITED(st) || WEXITSTATUS(st))
            {
                std::string r = "process died";
                uint64_t n = r.size();
                all(out, &n, sizeof n, true);
                all(out, &r[0], r.size(), true);
            }
        }
    }
public:
    Pristine()
    {
        int to[2], from[2];
        if (pipe(to) || pipe(from)) { perror("pipe"); _exit(2); }
        pid_t const pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0)
        {
            close(to[1]);
            close(from[0]);
            serve(to[0], from[1]);
        }
        close(to[0]);
        close(from[1]);
        m_to = to[1];
        m_from = from[0];
    }
    std::string ask(bool threads, std::size_t i, std::vector<uint64_t> choices)
    {
        uint64_t head[3] = {threads, i, choices.size()}, n = 0;
        if (!all(m_to, head, sizeof head, true) || !all(m_to, choices.data(), 8 * choices.size(), true) || !all(m_from, &n, sizeof n, false)) return "no answer";
        std::string r(n, 0);
        if (!all(m_from, &r[0], n, false)) return "no answer";
        return r;
    }
};

Pristine * pristine = nullptr;

void compare_with_alone(Plan const & p, std::vector<std::unique_ptr<Machine>> & ms, std::vector<uint64_t> const & choices, bool threads, bool elsewhere, Ctx & ctx)
{
    for (std::size_t i = 0; i < ms.size(); ++i)
    {
        auto const together = list_str(ms[i]->trace) + " | " + ms[i]->state();
        auto const by_itself = elsewhere ? pristine->ask(threads, i, choices) : alone(p.specs[i], p.calls[i]);
        PBT_CHECK(together == by_itself, ms[i]->name() << " number " << i << (threads ? " used concurrently with" : " interleaved with") << " others answered or became something else than alone"
            << (elsewhere ? " in a new process" : "") << ": " << together << " vs " << by_itself);
        ++ctx.sub_evaluations;
        for (auto const & c : p.calls[i]) if (c.kind <= 1 && c.epochs > 0) ctx.nontrivial = true;
    }
    if (elsewhere) ctx.label("compared with new processes");
}

void interleaved(Tape & t, Ctx & ctx)
{
    bool const elsewhere = pristine && t.chance(1, 4);
    auto const begin = t.rec.size();
    auto const p = gen_plan(t, false);
    std::vector<uint64_t> const choices(t.rec.begin() + std::ptrdiff_t(begin), t.rec.end());
    ctx.desc << "interleaved:";
    std::vector<std::unique_ptr<Machine>> ms;
    for (auto const & s : p.specs) { ms.push_back(build(s)); ctx.desc << " " << ms.back()->name(); }
    ctx.desc << "; calls";
    std::vector<std::size_t> next(ms.size());
    for (int i : p.order)
    {
        auto const & c = p.calls[std::size_t(i)][next[std::size_t(i)]++];
        ctx.desc << " " << i << ":" << c.kind;
        ms[std::size_t(i)]->apply(c);
    }
    compare_with_alone(p, ms, choices, false, elsewhere, ctx);
    ctx.label("interleaved on one thread");
}

void threads(Tape & t, Ctx & ctx)
{
    bool const elsewhere = pristine && t.chance(1, 4);
    auto const begin = t.rec.size();
    auto const p = gen_plan(t, true);
    std::vector<uint64_t> const choices(t.rec.begin() + std::ptrdiff_t(begin), t.rec.end());
    std::vector<std::unique_ptr<Machine>> ms;
    ctx.desc << "threads:";
    for (std::size_t i = 0; i < p.specs.size(); ++i)
    {
        ms.push_back(build(p.specs[i]));
        ctx.desc << " " << ms[i]->name() << "(" << p.calls[i].size() << " calls)";
    }
    std::vector<std::thread> ts;
    std::vector<std::string> errors(ms.size());
    for (std::size_t i = 0; i < ms.size(); ++i)
        ts.emplace_back([&, i]
        {
            try { for (auto const & c : p.calls[i]) ms[i]->apply(c); }
            catch (pbt::Failure const & f) { errors[i] = f.msg; }
            catch (std::exception const & f) { errors[i] = f.what(); }
        });
    for (auto & th : ts) th.join();
    for (auto const & s : errors) PBT_CHECK(s.empty(), "in a thread: " << s);
    compare_with_alone(p, ms, choices, true, elsewhere, ctx);
    ctx.label("concurrent threads");
}

template<typename Tr>
void copies(Tape & t, Ctx & ctx)
{
    auto const c = gen_cfg(t, Tr::regressor);
    bool const big = t.chance(1, 16);
    int const F = big ? std::min(2100, big_features(t, Tr::bitwise)) : t.pick({3, 1, 8, 17, 64, 65, 130}), L = t.range(2, 4);
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << " features=" << F << " labels=" << L << ": ";
    MachineOf<Tr> m(c, F, L);
    int const before = t.range(0, 4);
    for (int k = 0; k < before; ++k) { auto call = gen_call(t); ctx.desc << call.kind << " "; m.apply(call); }

    // copies are made: states, estimators made from them, and a copy of a copy
    auto const s0 = snap_of<Tr>(*m.e);
    auto const st1 = m.e->clone_state();
    auto const st2 = m.e->clone_state();
    std::unique_ptr<typename Tr::est> e1(new typename Tr::est(*st1));
    auto const st3 = e1->clone_state();
    PBT_CHECK(diff(snap(*st1), s0).empty() && diff(snap(*st3), s0).empty() && diff(snap_of<Tr>(*e1), s0).empty(), "a copy differs from the original: " << diff(snap_of<Tr>(*e1), s0));
    PBT_CHECK(equal(*st1, *st2) && equal(*st3, *st1) && equal(*e1->clone_state(), *m.e->clone_state()), "a copy does not compare equal to the original");

    // two lines of calls
    MachineOf<Tr> a(c, F, L), b(c, F, L);
    a.e.reset(new typename Tr::est(*st1));
    b.e = std::move(e1);
    int const ops = t.range(1, 6);
    std::vector<Call> calls_m, calls_b;
    bool trained = false;
    for (int k = 0; k < ops; ++k)
    {
        if (t.coin()) { calls_m.push_back(gen_call(t)); m.apply(calls_m.back()); trained = trained || (calls_m.back().kind <= 1 && calls_m.back().epochs); }
        else { calls_b.push_back(gen_call(t)); b.apply(calls_b.back()); trained = trained || (calls_b.back().kind <= 1 && calls_b.back().epochs); }
        // clones made earlier are not affected by either
        PBT_CHECK(diff(snap(*st1), s0).empty(), "a cloned state changed when its original or another copy was used: " << diff(snap(*st1), s0));
        PBT_CHECK(equal(*st1, *st2) && equal(*st1, *st3), "cloned states no longer compare equal");
        ++ctx.sub_evaluations;
    }
    // a and another start from the untouched copies and follow each line
    m.trace.clear();
    MachineOf<Tr> m2(c, F, L), b2(c, F, L);
    m2.e.reset(new typename Tr::est(*st2));
    b2.e.reset(new typename Tr::est(*st3));
    for (auto const & call : calls_m) m2.apply(call);
    for (auto const & call : calls_b) b2.apply(call);
    PBT_CHECK(m2.state() == m.state(), "a copy trained like the original is in another state");
    PBT_CHECK(b2.state() == b.state() && b2.trace == b.trace, "two copies trained alike differ");
    PBT_CHECK(diff(snap_of<Tr>(*a.e), s0).empty(), "an unused copy changed");

    // destroying the original does not affect a copy
    m.e.reset();
    auto const d = snap(*st1);
    PBT_CHECK(diff(d, s0).empty(), "destroying the original changed a copy");

    // moving carries the behaviour along
    auto const sb = snap_of<Tr>(*b.e);
    typename Tr::est moved(std::move(*b.e));
    PBT_CHECK(diff(snap_of<Tr>(moved), sb).empty(), "a moved estimator differs");
    auto target = make<Tr>(t.coin() ? c : gen_cfg(t, Tr::regressor));
    if (t.coin()) { Bulk bb = t.bulk(); auto X = to_data<Tr>(gen_rows(bb, 3, F)); Labels y(3, 1); y[0] = 0; (void)fit_raw<Tr>(target, X, y, 2, L); }
    target = std::move(moved);
    PBT_CHECK(diff(snap_of<Tr>(target), sb).empty(), "a move-assigned estimator differs");
    std::vector<typename Tr::est> vec;
    vec.push_back(std::move(target));
    for (int k = 0; k < 3; ++k) vec.push_back(make<Tr>(c));
    PBT_CHECK(diff(snap_of<Tr>(vec[0]), sb).empty(), "an estimator moved within a vector differs");
    auto const call = gen_call(t);
    b.e.reset(new typename Tr::est(std::move(vec[0])));
    b.apply(call);
    b2.apply(call);
    PBT_CHECK(b.state() == b2.state() && b.trace == b2.trace, "a moved estimator goes on differently");
    ctx.nontrivial = trained;
    ctx.label("copies and moves");
}

void run(Tape & t, Ctx & ctx)
{
    // the build with ThreadSanitizer looks at threads only
    static bool const only_threads = getenv("PBT_MODE") && std::string(getenv("PBT_MODE")) == "threads";
    // first of all, before this process uses the library
    if (!pristine && !only_threads) pristine = new Pristine;
    switch (only_threads ? 2 : t.weighted({4, 3, 1}))
    {
        case 0: for_kind(t.range(0, 3), [&](auto tr){ copies<decltype(tr)>(t, ctx); }); break;
        case 1: interleaved(t, ctx); break;
        default: threads(t, ctx); break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C14", run, 16000, 300000, 8, 120,
        "distinct histories on several estimators or copies, at least one of which was trained",
        {"thread schedules are those which the machine produces; the harness does not control them; ThreadSanitizer reports unsynchronised accesses in them (stage tsan, parallel regions of one estimator compiled as serial code)"}};
    return p;
}
