// C23: calls touch nothing but the estimator: no output unless asked for, no process-wide settings changed.
#include "tsm.hpp"

#include <omp.h>

#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <sys/mman.h>
#include <unistd.h>

extern char ** environ;

using namespace tsm;

namespace {

int make_memfd()
{
    int const fd = memfd_create("pbt", MFD_CLOEXEC);
    if (fd < 0) pbt::fail("memfd_create failed");
    return fd;
}

// Catches what is written to the standard output and error streams
struct Capture
{
    int keep[2] = {-1, -1}, mem[2] = {-1, -1};
    Capture()
    {
        flush();
        for (int i = 0; i < 2; ++i)
        {
            keep[i] = dup(1 + i);
            mem[i] = make_memfd();
            dup2(mem[i], 1 + i);
        }
    }
    static void flush()
    {
        std::cout.flush(); std::cerr.flush(); std::clog.flush();
        fflush(stdout); fflush(stderr);
    }
    std::string text(int i)
    {
        flush();
        off_t const n = lseek(mem[i], 0, SEEK_END);
        std::string s(std::size_t(n), 0);
        if (pread(mem[i], &s[0], s.size(), 0) != ssize_t(n)) s = "?";
        if (ftruncate(mem[i], 0) == 0) lseek(mem[i], 0, SEEK_SET);
        return s;
    }
    ~Capture()
    {
        flush();
        for (int i = 0; i < 2; ++i)
        {
            dup2(keep[i], 1 + i);
            close(keep[i]);
            close(mem[i]);
        }
    }
};

std::string files()
{
    // open descriptors
    std::string s;
    DIR * d = opendir("/proc/self/fd");
    if (!d) return s;
    std::vector<int> v;
    while (auto const * e = readdir(d)) if (e->d_name[0] != '.') v.push_back(atoi(e->d_name));
    int const own = dirfd(d);
    closedir(d);
    std::sort(v.begin(), v.end());
    for (int f : v) if (f != own) s += std::to_string(f) + " ";
    return s;
}

// Everything process-wide which a well-behaved library leaves alone
std::map<std::string, std::string> process_settings()
{
    std::map<std::string, std::string> m;
    m["floating-point rounding"] = std::to_string(fegetround());
#ifdef __x86_64__
    m["floating-point control"] = std::to_string(__builtin_ia32_stmxcsr() & 0xffc0);
#endif
    m["C locale"] = setlocale(LC_ALL, nullptr);
    m["C++ locale"] = std::locale().name();
    m["number of OpenMP threads"] = std::to_string(omp_get_max_threads());
    m["nested OpenMP parallelism"] = std::to_string(omp_get_max_active_levels());
    m["dynamic OpenMP teams"] = std::to_string(omp_get_dynamic());
    auto stream = [&m](char const * name, std::ostream const & s)
    {
        std::ostringstream os;
        os << s.flags() << " " << s.precision() << " " << s.width() << " " << int(s.fill()) << " " << s.rdstate() << " " << s.exceptions() << " "
           << static_cast<void const *>(s.rdbuf()) << " " << static_cast<void const *>(s.tie()) << " " << s.getloc().name();
        m[name] = os.str();
    };
    stream("std::cout", std::cout);
    stream("std::cerr", std::cerr);
    stream("std::clog", std::clog);
    {
        char b[4096];
        m["working directory"] = getcwd(b, sizeof b) ? b : "?";
    }
    m["open files"] = files();
    {
        std::string e;
        for (char ** p = environ; p && *p; ++p) e += std::string(*p) + "\n";
        m["environment"] = e;
    }
    for (int s : {SIGINT, SIGTERM, SIGFPE, SIGSEGV, SIGABRT, SIGPIPE, SIGALRM, SIGUSR1})
    {
        struct sigaction a;
        sigaction(s, nullptr, &a);
        m["handler of signal " + std::to_string(s)] = std::to_string(reinterpret_cast<uintptr_t>(a.sa_handler));
    }
    sigset_t mask;
    sigprocmask(SIG_BLOCK, nullptr, &mask);
    std::string bits;
    for (int s = 1; s < 65; ++s) bits += char('0' + sigismember(&mask, s));
    m["signal mask"] = bits;
    return m;
}

std::string last_line(std::string const & s) { return s.substr(0, 200); }

// Numbers of the epochs announced in a log
std::vector<long> announced(std::string const & log)
{
    std::vector<long> v;
    std::istringstream is(log);
    std::string line;
    while (std::getline(is, line))
    {
        auto const p = line.find("Epoch ");
        if (p != std::string::npos) v.push_back(std::strtol(line.c_str() + p + 6, nullptr, 10));
    }
    return v;
}

template<typename Tr>
void run_for(Tape & t, Ctx & ctx, Capture & cap)
{
    Cfg c;
    c.clauses = (Tr::regressor ? 2 : 4) * t.range(1, 5);
    c.states = t.pick({100, 1, 3, 127, 128, 40000});
    c.s = t.pick({2.0f, 1.0f, 3.9f, 50.f, 1e6f});
    c.T = t.pick({15, 1, 4, 40});
    c.weighted = t.coin();
    c.boost = t.coin();
    c.n_jobs = gen_jobs(t);
    c.tile = gen_tile(t);
    c.counting = gen_counting(t);
    c.verbose = t.chance(1, 3);
    c.seed = gen_seed(t);
    if (Tr::regressor) { c.loss = t.pick({"MSE", "MAE", "L1", "L2", "L1+2", "berHu"}); c.C1 = 0.5f; c.box_muller = t.coin(); }
    // settings of the caller, to be found as they were
    int const precision = t.range(1, 9);
    int const rounding = t.pick({FE_TONEAREST, FE_TONEAREST, FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD});
    unsigned const rand_seed = 1 + unsigned(t.draw(1000));
    bool const lengthy = t.chance(1, 150);
    unsigned const many = lengthy ? t.weighted({8, 1}) == 0 ? t.range(200, 5000) : t.range(60000, 70000) : 0;
    if (lengthy) { c.n_jobs = 1; c.clauses = Tr::regressor ? 2 : 4; c.verbose = t.chance(3, 4); ctx.label("hundreds of epochs and more"); }
    int const ops = lengthy ? 3 : t.range(1, 8);
    Bulk b = t.bulk();
    ctx.desc << Tr::name() << " " << c.str(Tr::regressor) << (c.verbose ? " verbose" : "") << ":";
    ctx.label(Tr::name());
    ctx.label(c.verbose ? "verbose" : "quiet");

    for (auto * s : {&std::cout, &std::cerr, &std::clog}) { s->precision(precision); s->setf(std::ios::hex, std::ios::basefield); s->fill('*'); }
    omp_set_num_threads(1 + precision % 5);
    srand(rand_seed);
    unsigned want_rand[4];
    for (auto & r : want_rand) r = unsigned(rand());
    srand(rand_seed);
    fesetround(rounding);
    struct Restore { ~Restore() { fesetround(FE_TONEAREST); for (auto * s : {&std::cout, &std::cerr, &std::clog}) { s->precision(6); s->setf(std::ios::dec, std::ios::basefield); s->fill(' '); } } } restore;
    auto const before = process_settings();

    auto check = [&](std::string const & what, bool quiet, long epochs)
    {
        auto const after = process_settings();
        for (auto const & kv : before)
        {
            auto const & v = after.at(kv.first);
            PBT_CHECK(v == kv.second, what << " changed " << kv.first << " of the process: " << kv.second << " to " << v);
        }
        auto const out = cap.text(0), err = cap.text(1);
        PBT_CHECK(out.empty(), what << " wrote to the standard output: " << last_line(out));
        if (quiet) PBT_CHECK(err.empty(), what << " wrote to the standard error although it was not asked to: " << last_line(err));
        if (epochs >= 0)
        {
            std::vector<long> want;
            for (long i = 1; i <= epochs; ++i) want.push_back(i);
            // numbers follow the base the user has set for the stream
            auto const v = announced(err);
            PBT_CHECK(v.size() == want.size(), what << " for " << epochs << " epochs announced " << v.size() << " of them");
        }
        ++ctx.sub_evaluations;
    };

    auto e = make<Tr>(c);
    check("creation", !c.verbose, -1);
    int F = 0, L = 3;
    for (int k = 0; k < ops; ++k)
    {
        int const op = lengthy && k < 2 ? k : int(b.below(9));
        bool const bad = b.below(4) == 0 && !lengthy;
        int const n = 1 + int(b.below(lengthy ? 2 : 6));
        int const f = F && b.below(8) ? F : 1 + int(b.below(lengthy ? 3 : 80));
        auto X = to_data<Tr>(gen_rows(b, n, f));
        Labels y;
        for (int i = 0; i < n; ++i) y.push_back(int(b.below(Tr::regressor ? uint64_t(c.T) + 1 : uint64_t(L))));
        if (bad) { if (b.below(2)) y[0] = -1; else X[0] = to_sample<Tr>(Row(f + 3, 1)); }
        unsigned const epochs = lengthy && k < 2 ? many / (1 + unsigned(k)) : unsigned(b.below(5));
        char const * what = "";
        long told = -1;
        switch (op)
        {
            case 0: case 1: case 2:
            {
                bool const fresh = op == 0 || F == 0;
                what = op == 0 ? "fit" : "partial_fit";
                auto const r = op == 0 ? fit_raw<Tr>(e, X, y, epochs, L) : partial_fit_raw<Tr>(e, X, y, epochs, L);
                if (r.first == S_OK && fresh) F = f;
                if (r.first == S_OK && c.verbose) told = long(epochs);
                break;
            }
            case 3: what = "predict"; (void)e.predict(X); (void)e.predict(X[0]); break;
            case 4: what = "evaluate"; if constexpr (!Tr::regressor) { (void)e.evaluate(X, y); (void)e.decision_function(X); } break;
            case 5: what = "JSON export and import"; { auto st = e.clone_state(); from_json_string(*st, to_json_string(*st)); typename Tr::est o(*st); } break;
            case 6: what = "clone and compare"; { auto st = e.clone_state(); (void)(*st == *e.clone_state()); } break;
            case 7: what = "creation from text"; (void)Tr::from_json(bad ? "{\"s\": 0.1}" : "{\"s\": 2.5, \"n_jobs\": 1}"); break;
            default: what = "read_params"; (void)e.read_params(); break;
        }
        ctx.desc << " " << what;
        ctx.label(what);
        check(what, !c.verbose, told);
    }
    for (unsigned r : want_rand) PBT_CHECK(unsigned(rand()) == r, "the sequence of rand() was disturbed");
    ctx.nontrivial = true;
}

void run(Tape & t, Ctx & ctx)
{
    Capture cap;
    for_kind(t.range(0, 3), [&](auto tr){ run_for<decltype(tr)>(t, ctx, cap); });
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C23", run, 60000, 1000000, 8, 60,
        "distinct call sequences on an estimator, with the process inspected after every call",
        {"process-wide settings inspected: floating-point environment, locales, stream formats and buffers, OpenMP settings, rand(), working directory, "
         "environment, open files, signal handlers and mask"}};
    return p;
}
