// C18: loss functions are valid feedback intensities.
#include "engine.hpp"

#include "loss_fn.hpp"
#include "tsetlini_strong_params.hpp"

#include <cfloat>
#include <cmath>

using namespace Tsetlini;
using pbt::Bulk;
using pbt::Ctx;
using pbt::Tape;

namespace {

char const * const names[] = {"MAE", "L1", "MSE", "L2", "L1+2", "berHu"};

// What the loss is documented to be, in double precision
double reference(std::string const & name, double C1, double x)
{
    double const a = std::fabs(x);
    if (name == "MAE" || name == "L1") return a;
    if (name == "MSE" || name == "L2") return a * a;
    if (name == "L1+2") return C1 * a + (1 - C1) * a * a;
    return a <= C1 ? a : a * a - C1 * C1 + C1;
}

float gen_unit(Tape & t)
{
    switch (t.weighted({2, 3, 2, 1}))
    {
        case 0: return float(t.range(0, 100)) / 100.f;
        case 1: return float(double(t.draw(1u << 30)) / double(1u << 30));
        case 2: return t.pick({0.f, 1.f, 0.5f, FLT_MIN, 1e-6f, 1.f - FLT_EPSILON, FLT_EPSILON});
        default: return std::ldexp(1.f, -t.range(0, 140));
    }
}

float gen_error(Tape & t, float C1)
{
    switch (t.weighted({3, 3, 1, 1, 1}))
    {
        case 0: return gen_unit(t);
        // about C1
        case 1:
        {
            float e = C1;
            int const k = t.range(-3, 3);
            for (int i = 0; i < std::abs(k); ++i) e = std::nextafter(e, k > 0 ? 2.f : 0.f);
            return e;
        }
        case 2: return C1 * (1.f + float(t.range(-1000, 1000)) / 1000.f);
        case 3: return 1.f + float(t.range(0, 3000)) / 100.f;
        default: return float(t.draw(1u << 30)) / float(1u << 28);
    }
}

void run(Tape & t, Ctx & ctx)
{
    std::string const name = names[t.range(0, 5)];
    float const C1 = gen_unit(t);
    auto const f = make_loss_fn(loss_fn_name_t{name}, loss_fn_C1_t{C1});
    auto const g = make_loss_fn(loss_fn_name_t{name}, loss_fn_C1_t{C1});
    ctx.desc.precision(9);
    ctx.desc << name << " C1=" << C1 << " errors";
    auto show = [&](float e) { std::ostringstream os; os.precision(9); os << name << " with C1=" << C1 << " at " << e; return os.str(); };
    // rounding of a few single precision operations
    auto tol = [](double v) { return 2e-6 * (std::fabs(v) + 1e-3) + 1e-7; };

    PBT_CHECK(f(0.f) == 0.f && f(-0.f) == 0.f, show(0.f) << " is " << f(0.f));
    int const n = t.range(1, 12);
    for (int i = 0; i < n; ++i)
    {
        float const e = gen_error(t, C1);
        ctx.desc << " " << e;
        double const v = f(e);
        double const r = reference(name, C1, e);
        PBT_CHECK(std::isfinite(v), show(e) << " is not finite");
        PBT_CHECK(v >= 0, show(e) << " is negative: " << v);
        PBT_CHECK(std::fabs(v - r) <= tol(r), show(e) << " is " << v << ", expected " << r);
        PBT_CHECK(f(-e) == f(e), show(e) << " is " << v << " but " << f(-e) << " at the opposite error");
        PBT_CHECK(f(e) == v && g(e) == v, show(e) << " depends on earlier calls");

        // larger errors do not lose less
        float const e2 = t.coin() ? gen_error(t, C1) : std::nextafter(e, 100.f);
        float const lo = std::min(e, e2), hi = std::max(e, e2);
        PBT_CHECK(double(f(hi)) >= double(f(lo)) - tol(f(lo)), show(lo) << " is " << f(lo) << " but " << f(hi) << " at larger error " << hi);
        // close errors lose close to the same: no loss is steeper than max(1, 2e)
        double const slope = std::max(1.0, 2.0 * hi);
        PBT_CHECK(double(f(hi)) - double(f(lo)) <= slope * (double(hi) - double(lo)) + tol(f(hi)),
            show(lo) << " is " << f(lo) << " but jumps to " << f(hi) << " at " << hi);
        if (name == "berHu" && lo > C1)
        {
            // grows like the square
            double const d = double(f(hi)) - double(f(lo)), q = double(hi) * hi - double(lo) * lo;
            PBT_CHECK(std::fabs(d - q) <= 2 * tol(f(hi)), show(lo) << " grows by " << d << " up to " << hi << ", the square by " << q);
        }
        ctx.sub_evaluations += 2;
    }
    ctx.nontrivial = true;
    ctx.label(name);
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C18", run, 5000000, 60000000, 8, 30,
        "distinct sets of errors and C1, of which every one is evaluated: laws are judged at pairs of errors, next to C1 and across it",
        {"values are compared within 2e-6 relative, the rounding of single precision", "errors above 40 in magnitude are not generated"}};
    return p;
}
