// C24: calls which run out of memory, and imports of broken text, do no harm.
#include "tsm.hpp"

#include <atomic>
#include <malloc.h>
#include <new>

#ifdef _OPENMP
#include <omp.h>
#endif

// Allocations of the code under test go through here: operator new, and posix_memalign of aligned storage.
namespace oom {

bool armed = false;
bool again = false;          // all further allocations fail, too
uint64_t fail_at = 0;        // this one of the allocations fails, counted from one
std::size_t fail_size = 0;   // ones of this size fail, and larger ones
uint64_t seen = 0, failed = 0;
int64_t held = 0;            // blocks made while armed which are not released

// aligned blocks made while armed, for free() to know
constexpr unsigned SLOTS = 1 << 14;
void * blocks[SLOTS];
unsigned used = 0;

// Within a parallel region an exception has nowhere to go: memory does not run out there
bool serial()
{
#ifdef _OPENMP
    return omp_get_level() == 0;
#else
    return true;
#endif
}

bool fails(std::size_t n)
{
    if (!armed || !serial()) return false;
    ++seen;
    if (seen == fail_at || (again && fail_at && seen > fail_at) || (fail_size && n >= fail_size)) { ++failed; return true; }
    return false;
}

std::atomic_flag busy = ATOMIC_FLAG_INIT;
struct Lock
{
    Lock() { while (busy.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { busy.clear(std::memory_order_release); }
};

void note(void * p)
{
    if (!armed || !p) return;
    Lock const lock;
    if (used == SLOTS) return;
    blocks[used++] = p;
    ++held;
}
void forget(void * p)
{
    if (!armed || !p) return;
    Lock const lock;
    for (unsigned i = used; i-- > 0; ) if (blocks[i] == p) { blocks[i] = blocks[--used]; --held; return; }
}

// Nothing but the code under test runs while one of these lives
struct Armed
{
    Armed(uint64_t at, bool all, std::size_t size)
    {
        fail_at = at;
        again = all;
        fail_size = size;
        seen = failed = 0;
        held = 0;
        used = 0;
        armed = true;
    }
    ~Armed() { armed = false; used = 0; }
};

} // namespace oom

#if defined(__GNUC__) && !defined(__clang__)
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
#endif

static void * make_block(std::size_t n)
{
    if (oom::fails(n)) throw std::bad_alloc();
    void * p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    oom::note(p);
    return p;
}
static void drop_block(void * p) { oom::forget(p); std::free(p); }

void * operator new(std::size_t n) { return make_block(n); }
void * operator new[](std::size_t n) { return make_block(n); }
void operator delete(void * p) noexcept { drop_block(p); }
void operator delete[](void * p) noexcept { drop_block(p); }
void operator delete(void * p, std::size_t) noexcept { drop_block(p); }
void operator delete[](void * p, std::size_t) noexcept { drop_block(p); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return make_block(n); } catch (...) { return nullptr; } }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { try { return make_block(n); } catch (...) { return nullptr; } }

// over-aligned types
static void * make_block(std::size_t n, std::align_val_t a)
{
    if (oom::fails(n)) throw std::bad_alloc();
    void * p = memalign(std::size_t(a), n ? n : 1);
    if (!p) throw std::bad_alloc();
    oom::note(p);
    return p;
}
void * operator new(std::size_t n, std::align_val_t a) { return make_block(n, a); }
void * operator new[](std::size_t n, std::align_val_t a) { return make_block(n, a); }
void operator delete(void * p, std::align_val_t) noexcept { drop_block(p); }
void operator delete[](void * p, std::align_val_t) noexcept { drop_block(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { drop_block(p); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { drop_block(p); }

extern "C" int posix_memalign(void ** out, std::size_t a, std::size_t n) noexcept
{
    if (oom::fails(n)) return ENOMEM;
    void * p = memalign(a, n ? n : 1);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

using namespace tsm;

namespace {

struct Outcome
{
    bool thrown = false;
    std::string what;          // of the exception, or the result
    uint64_t allocations = 0, failed = 0;
    int64_t held = 0;
};

struct Fault
{
    uint64_t at = 0;
    bool again = false;
    std::size_t size = 0;
};

// Runs the call and has its result destroyed while allocations are still watched
template<typename F>
Outcome watch(Fault const & fault, F && f)
{
    Outcome o;
    bool ended = false, other = false;
    {
        oom::Armed const armed(fault.at, fault.again, fault.size);
        try { f(); ended = true; }
        catch (std::bad_alloc const &) {}
        catch (std::exception const &) { other = true; }
    }
    o.allocations = oom::seen;
    o.failed = oom::failed;
    o.held = oom::held;
    o.thrown = !ended;
    o.what = ended ? "ended" : other ? "another exception" : "bad_alloc";
    return o;
}

// What can fail: nothing, one allocation, all of them from some moment on, or large ones
Fault gen_fault(Tape & t, uint64_t allocations)
{
    Fault f;
    switch (t.weighted({4, 3, 3}))
    {
        case 0: f.at = 1 + t.draw(allocations ? allocations - 1 : 0); break;
        case 1: f.at = 1 + t.draw(allocations ? allocations - 1 : 0); f.again = true; break;
        default: f.size = t.pick({64u, 128u, 256u, 512u, 1024u, 4096u, 16384u, 40000u, 32u, 1u}); break;
    }
    return f;
}

std::string str(Fault const & f)
{
    if (f.size) return "blocks of " + std::to_string(f.size) + " bytes and more";
    return "block " + std::to_string(f.at) + (f.again ? " and all which follow" : "");
}

// Dimensions and ranges match the parameters
template<typename Tr>
void well_formed(typename Tr::est const & e, Cfg const & c, std::string const & when)
{
    auto const s = snap_of<Tr>(e);
    for (int v : s.ta) PBT_CHECK(v >= -c.states && v < c.states, when << ": automaton at " << v << " with " << c.states << " states");
    for (auto w : s.weights) PBT_CHECK(w < uint32_t(c.max_weight), when << ": weight " << w + 1 << " above " << c.max_weight);
    if (Tr::bitwise)
    {
        PBT_CHECK(s.polarity.size() == s.ta.size() && s.pad.empty(), when << ": inclusion bits do not match the automata");
        for (std::size_t i = 0; i < s.ta.size(); ++i) PBT_CHECK(bool(s.polarity[i]) == (s.ta[i] >= 0), when << ": inclusion bit differs from the sign of its automaton");
    }
}

template<typename Tr>
std::string params_of(typename Tr::est const & e) { return params_str(params_map(e.read_params())); }

template<typename Tr>
struct Data
{
    data_t<Tr> X;
    Labels y;
    int labels;
};

template<typename Tr>
Data<Tr> gen_data(Tape & t, Cfg const & c, int F, int L)
{
    Data<Tr> d;
    int const n = t.pick({3, 1, 2, 7, 20});
    Bulk b = t.bulk();
    d.X = to_data<Tr>(gen_rows(b, n, F));
    for (int i = 0; i < n; ++i) d.y.push_back(int(b.below(uint64_t(Tr::regressor ? c.T + 1 : L))));
    d.labels = L;
    return d;
}

uint64_t digest(uint64_t h, uint64_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); }
uint64_t digest(status_message_t const & s) { uint64_t h = uint64_t(s.first); for (char ch : s.second) h = digest(h, uint64_t(ch)); return h; }
uint64_t digest(int v) { return digest(uint64_t(v), 3); }
uint64_t digest(float v) { uint32_t bits; std::memcpy(&bits, &v, 4); return bits; }
template<typename V, typename = typename V::value_type>
uint64_t digest(V const & v) { uint64_t h = v.size(); for (auto const & x : v) h = digest(h, digest(x)); return h; }
template<typename R>
uint64_t digest(neither::Either<status_message_t, R> const & r) { return r.isLeft ? digest(1, digest(r.leftValue)) : digest(2, digest(r.rightValue)); }

// Alters one number or other token of an exported state. Tells whether that belongs to the parameters.
bool damage(Tape & t, std::string & js, std::ostringstream & desc)
{
    // from a key on, or anywhere
    std::size_t from = 0, to = js.size();
    if (char const * key = t.pick({"\"matrix\"", "\"weights\"", "\"polarity\"", "\"params\"", "\"igen\"", "\"fgen\"", "\"index\"", "\"rows\"", "\"cols\"", "\"width\"",
        "\"number_of_labels\"", "\"number_of_features\"", "\"RES\"", "\"MT\"", ""}); *key)
    {
        auto const at = js.find(key);
        if (at != std::string::npos) { from = at; to = std::min(js.size(), at + 400); }
    }
    auto const token = [](char x) { return std::isalnum((unsigned char)x) || x == '-' || x == '.' || x == '+'; };
    std::size_t at = from + t.index(to - from);
    while (at < js.size() && !(token(js[at]) && (at == 0 || !token(js[at - 1])) && js[at - 1] != '"' && js[at - 1] != '_')) ++at;
    if (at >= js.size()) return false;
    std::size_t end = at;
    while (end < js.size() && token(js[end])) ++end;
    bool const params = js.rfind("\"params\"", at) != std::string::npos && (js.rfind("\"ta_state\"", at) == std::string::npos || js.rfind("\"params\"", at) > js.rfind("\"ta_state\"", at));
    std::string const was = js.substr(at, end - at);
    switch (t.weighted({3, 3, 4, 1}))
    {
        case 0:     // one less
            if (end < js.size() && js[end] == ',') ++end;
            js.erase(at, end - at);
            break;
        case 1:     // some more
        {
            std::string more;
            for (int i = t.pick({1, 2, 5, 64, 3000}); i-- > 0; ) more += was + ",";
            js.insert(at, more);
            break;
        }
        case 2:
            js.replace(at, end - at, t.pick({"0", "-1", "1", "7", "100", "4992", "1000000", "4294967295", "2147483647", "1.5", "\"x\"", "null", "[]", "{}", "[1,2]", "true"}));
            break;
        default:
            js[at] = t.pick({'0', '9', '-', 'x', '"', '[', '{'});
            break;
    }
    desc << " {at " << at << ": " << was << "}";
    return params;
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx)
{
    Cfg c;
    c.clauses = (Tr::regressor ? 2 : 4) * t.range(1, 6);
    c.states = t.pick({100, 1, 128, 129, 40000});
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.max_weight = t.pick({INT_MAX, 3});
    c.boost = t.coin();
    c.n_jobs = t.pick({1, 2});
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.seed = gen_seed(t);
    if (Tr::regressor) { c.loss = t.pick({"MSE", "MAE", "berHu", "L1+2"}); c.C1 = 0.5f; c.box_muller = t.coin(); }
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << ":";
    using state = typename Tr::state;
    auto e = make<Tr>(c);
    auto twin_p = std::make_unique<typename Tr::est>(make<Tr>(c));
    int F = 0, L = 0;
    if (t.chance(4, 5))
    {
        F = t.pick({3, 1, 8, 64, 65, 130, 300});
        L = t.range(2, 5);
        auto const d = gen_data<Tr>(t, c, F, L);
        fit<Tr>(e, d.X, d.y, 2, L);
        fit<Tr>(*twin_p, d.X, d.y, 2, L);
    }
    int const ops = t.range(1, 5);
    for (int k = 0; k < ops; ++k)
    {
        static char const * const names[] = {"fit", "partial_fit", "predict", "predict(sample)", "decision_function", "evaluate", "read_params", "clone_state",
            "estimator from a state", "", "", "from broken JSON", "", "make from arguments", "compare", "fit, refused", "predict, refused"};
        // the JSON library which comes along asserts when memory runs out: only broken text is read here
        int const op = t.pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 14, 15, 16});
        bool const fresh = F == 0;
        int const f2 = fresh || op == 0 ? t.pick({3, 1, 8, 64, 65, 130, 300}) : F;
        int const l2 = fresh || op == 0 ? t.range(2, 5) : L;
        bool const many = !Tr::regressor && op == 0 && t.chance(1, 4);
        int const maxl = many ? t.pick({100, 1000}) : l2;
        unsigned const epochs = unsigned(t.range(0, 3));
        auto const d = gen_data<Tr>(t, c, f2, l2);
        auto const d_before = d;
        std::string const when = names[op];
        ctx.desc << " " << when;
        ctx.label(when);
        auto const before = snap_of<Tr>(e);
        auto const before_state = e.clone_state();

        // the call, its result kept no longer than it is watched
        Fault bounded;
        bounded.size = std::size_t(1) << 28;
        auto js = to_json_string(*before_state);
        auto target = blank<Tr>(c, 2, 5).clone_state();
        auto const target_before = std::make_unique<state>(*target);
        // text which is surely not that of an estimator, or which only may not be
        bool malformed = true, params_touched = false;
        if (op == 11)
        {
            switch (t.weighted({2, 2, 2, 6}))
            {
                case 0: js.resize(t.index(js.size())); break;
                case 1:
                {
                    auto const key = t.pick({"\"params\"", "\"ta_state\"", "\"igen\"", "\"fgen\""});
                    auto const at = js.find(key);
                    if (at != std::string::npos) js[at + 1] = 'x';
                    break;
                }
                case 2: js += t.pick({'}', '{', ',', '0', 'x'}); break;
                default: malformed = false; params_touched = damage(t, js, ctx.desc); break;
            }
        }
        // what the call gave, told without memory
        uint64_t result = 0;
        auto call = [&](typename Tr::est & on, state & into)
        {
            result = 1;
            switch (op)
            {
                case 0: result = digest(fit_raw<Tr>(on, d.X, d.y, epochs, maxl)); break;
                case 1: result = digest(partial_fit_raw<Tr>(on, d.X, d.y, epochs, l2)); break;
                case 2: result = digest(on.predict(d.X)); break;
                case 3: result = digest(on.predict(d.X[0])); break;
                case 4: if constexpr (!Tr::regressor) result = digest(on.decision_function(d.X)); break;
                case 5: if constexpr (!Tr::regressor) result = digest(on.evaluate(d.X, d.y)); break;
                case 6: result = on.read_params().size(); break;
                case 7: { auto const copied = on.clone_state(); result = copied && *copied == *before_state; break; }
                case 8: { typename Tr::est const copy(*before_state); (void)copy; break; }
                case 11: from_json_string(into, js); break;
                case 13: result = Tr::from_args(threshold_t{c.T}, counting_type_t{"int16"}, specificity_t{3.5f}, random_seed_t{7u}, number_of_jobs_t{1}).isLeft; break;
                case 14: result = *before_state == into; break;
                case 15: { Labels const wrong(1, -3); data_t<Tr> const one(1, d.X[0]); result = digest(fit_raw<Tr>(on, one, wrong, epochs, maxl)); break; }
                default: { data_t<Tr> const none; result = digest(on.predict(none)); break; }
            }
        };
        bool const trains = op == 0 || op == 1;
        // how many blocks the call needs: on a copy
        uint64_t needs, wanted;
        {
            typename Tr::est copy(*before_state);
            auto into = std::make_unique<state>(*target);
            auto const o = watch(op == 11 ? bounded : Fault{}, [&]{ call(copy, *into); });
            PBT_CHECK(!o.thrown || op == 11, when << " threw " << o.what << " though there is memory");
            PBT_CHECK(!(op == 11 && malformed && !o.thrown), "malformed text was imported");
            needs = o.allocations;
            wanted = result;
            if (op == 11 && !o.thrown)
            {
                // well, then it has to be of use
                ctx.label("altered text imported");
                PBT_CHECK(to_json_string(*into).size() > 0, "an imported state cannot be exported");
                if (!params_touched && F)
                {
                    typename Tr::est const other(*into);
                    (void)answers<Tr>(other, gen_data<Tr>(t, c, F, 2).X);
                }
                ctx.nontrivial = true;
                continue;
            }
            if (op == 11) ctx.nontrivial = true;
            if (op == 11) PBT_CHECK(*into == *target_before, when << ": a failed import changed the state it was to replace");
            // done once more there is nothing that grows
            if (!trains && op != 11)
            {
                auto const p = watch(Fault{}, [&]{ call(copy, *into); });
                PBT_CHECK(p.held == 0, when << " keeps " << p.held << " blocks of memory");
            }
        }
        // several faults of the same call
        int const faults = t.range(1, 4);
        for (int r = 0; r < faults; ++r)
        {
            auto const fault = op == 11 ? bounded : gen_fault(t, needs);
            ctx.desc << (r ? ", " : " [") << (op == 11 ? std::string("text") : str(fault));
            Outcome const o = watch(fault, [&]{ call(e, *target); });
            ++ctx.sub_evaluations;
            std::string const note = when + " without " + str(fault) + " (" + o.what + ")";
            PBT_CHECK(same_data(d.X, d_before.X) && d.y == d_before.y, note << ": data passed in was modified");
            if (o.failed) { ctx.nontrivial = true; ctx.label(op == 11 ? "vast text" : "memory ran out"); }
            if (!o.thrown && op != 11) PBT_CHECK(result == wanted, note << ": the result differs from the one there is with memory");
            if (!o.failed) PBT_CHECK(!o.thrown || op == 11, note << ": threw though no allocation failed");
            if (!trains || o.thrown)
            {
                if (op == 1 && o.failed)
                {
                    // training may have begun
                    PBT_CHECK(params_of<Tr>(e) == params_str(before.params), note << ": parameters changed to " << params_of<Tr>(e));
                    auto const s = snap_of<Tr>(e);
                    PBT_CHECK(s.rows == before.rows && s.cols == before.cols && s.width == before.width && s.weights.size() == before.weights.size(), note << ": dimensions changed");
                    well_formed<Tr>(e, c, note);
                    if (!(*e.clone_state() == *before_state))
                    {
                        // from now on, both follow this one
                        twin_p = std::make_unique<typename Tr::est>(*e.clone_state());
                        ctx.label("interrupted partial_fit");
                        break;
                    }
                }
                else
                {
                    auto const df = diff(before, snap_of<Tr>(e));
                    PBT_CHECK(df.empty(), note << ": the estimator changed: " << df);
                    PBT_CHECK(*e.clone_state() == *before_state, note << ": the estimator is no longer equal to what it was");
                }
                if (o.thrown && !trains && op != 13) PBT_CHECK(o.held == 0, note << ": " << o.held << " blocks of memory were never released");
            }
            else
            {
                // it worked all the same
                call(*twin_p, *target);
                auto const df = diff(snap_of<Tr>(*twin_p), snap_of<Tr>(e));
                PBT_CHECK(df.empty(), note << ": succeeded, but otherwise than with memory: " << df);
                F = f2;
                L = op == 0 || fresh ? std::max(maxl, 1 + *std::max_element(d.y.begin(), d.y.end())) : L;
                break;
            }
            if (op == 11)
            {
                PBT_CHECK(o.thrown, note << ": malformed text was imported");
                PBT_CHECK(*target == *target_before, note << ": a failed import changed the state it was to replace");
            }
        }
        ctx.desc << "]";
        if (F)
        {
            auto const q = gen_data<Tr>(t, c, F, 2);
            PBT_CHECK(answers<Tr>(e, q.X) == answers<Tr>(*twin_p, q.X), when << ": answers after it differ from those of an estimator whose call did not fail");
        }
    }
    // as if nothing had happened
    auto const d = gen_data<Tr>(t, c, F ? F : 5, F ? L : 2);
    if (F) { partial_fit<Tr>(e, d.X, d.y, 2, L); partial_fit<Tr>(*twin_p, d.X, d.y, 2, L); }
    else { fit<Tr>(e, d.X, d.y, 2, 2); fit<Tr>(*twin_p, d.X, d.y, 2, 2); }
    auto const df = diff(snap_of<Tr>(e), snap_of<Tr>(*twin_p));
    PBT_CHECK(df.empty(), "training after failed calls differs: " << df);
    PBT_CHECK(answers<Tr>(e, d.X) == answers<Tr>(*twin_p, d.X), "answers after failed calls differ");
    auto const d2 = gen_data<Tr>(t, c, 7, 3);
    auto clean = make<Tr>(c);
    fit<Tr>(e, d2.X, d2.y, 2, 3);
    fit<Tr>(clean, d2.X, d2.y, 2, 3);
    auto const dc = diff(snap_of<Tr>(e), snap_of<Tr>(clean));
    PBT_CHECK(dc.empty(), "fit after failed calls is not like a first one: " << dc);
}

// Containers: a copy or an assignment which fails leaves both sides with what they held
template<typename M, typename Make, typename Equal>
void container(Tape & t, Ctx & ctx, char const * what, Make make_one, Equal equal)
{
    M a = make_one(t), b = make_one(t);
    M const a0(a), b0(b);
    int const op = t.range(0, 2);
    static char const * const names[] = {"copy", "copy assignment", "construction"};
    ctx.desc << what << " " << names[op];
    auto call = [&](M & x)
    {
        switch (op)
        {
            case 0: { M const c(b); (void)c; break; }
            case 1: x = b; break;
            default: (void)make_one(t); break;
        }
    };
    if (op == 2) { ctx.label("container"); return; }
    Fault fault;
    fault.at = 1;
    Outcome const o = watch(fault, [&]{ call(a); });
    if (o.failed) { ctx.nontrivial = true; ctx.label("memory ran out"); }
    PBT_CHECK(!o.failed || o.thrown, what << ": " << names[op] << " succeeded without memory");
    PBT_CHECK(equal(b, b0), what << ": " << names[op] << " changed what was copied");
    PBT_CHECK(equal(a, o.thrown || op == 0 ? a0 : b0), what << ": " << names[op] << " without memory left something else");
    M const again(b);
    PBT_CHECK(equal(again, b0), what << ": later copy differs");
    a = b;
    PBT_CHECK(equal(a, b0), what << ": later assignment differs");
    ctx.label("container");
}

template<typename M>
M some_matrix(Tape & t)
{
    M m(unsigned(t.range(0, 20)), unsigned(t.pick({1, 7, 64, 65, 200, 600})));
    Bulk b = t.bulk();
    for (unsigned r = 0; r < m.rows(); ++r) m.m_v[m.row_offset(r)] = b.next() & 1;
    return m;
}

void containers(Tape & t, Ctx & ctx)
{
    auto const same = [](auto const & x, auto const & y)
    {
        if (!(x.rows() == y.rows() && x.cols() == y.cols() && x.m_v.size() == y.m_v.size())) return false;
        return x == y;
    };
    switch (t.range(0, 4))
    {
        case 0: container<numeric_matrix_int8>(t, ctx, "matrix of int8", some_matrix<numeric_matrix_int8>, same); break;
        case 1: container<numeric_matrix_int16>(t, ctx, "matrix of int16", some_matrix<numeric_matrix_int16>, same); break;
        case 2: container<numeric_matrix_int32>(t, ctx, "matrix of int32", some_matrix<numeric_matrix_int32>, same); break;
        case 3: container<bit_matrix_uint64>(t, ctx, "bit matrix", some_matrix<bit_matrix_uint64>, same); break;
        default:
            container<bit_vector_uint64>(t, ctx, "bit vector", [](Tape & u) { Bulk b = u.bulk(); return to_bits(gen_row(b, u.pick({0, 1, 63, 64, 65, 500, 3000}))); },
                [](auto const & x, auto const & y) { return same_data(x, y); });
            break;
    }
}

void run(Tape & t, Ctx & ctx)
{
    if (t.chance(1, 12)) return containers(t, ctx);
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C24", run, 30000, 600000, 8, 60,
        "distinct histories in which at least one allocation was made to fail or a damaged text was imported",
        {"memory runs out by failing operator new and posix_memalign, as numbered or by size; allocations of the OpenMP runtime and those within parallel regions do not fail",
         "blocks are counted as leaked only if operator new made them"}};
    return p;
}
