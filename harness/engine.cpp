#include "engine.hpp"

#ifdef PBT_MEMCHECK
#include <valgrind/valgrind.h>
#endif
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

namespace {

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

constexpr std::size_t TAPE_CAP = 1u << 18;
constexpr std::size_t MSG_CAP = 1u << 16;

struct Shared
{
    volatile uint64_t idx;
    volatile double started;      // start time of the current case, 0: idle
    volatile uint64_t done;
    volatile int failed;          // 1: property failure, 2: escaped exception
    char msg[MSG_CAP];
    char desc[MSG_CAP];
    uint64_t tape[TAPE_CAP];
};

template<typename T>
T * shared_alloc()
{
    void * p = mmap(nullptr, sizeof (T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<T *>(p);
}

void put(char * dst, std::string const & s)
{
    auto n = std::min(s.size(), MSG_CAP - 1);
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

std::string json_escape(std::string const & s)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += c;
    }
    return r;
}

uint64_t hash_str(std::string const & s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = mix64(h ^ c);
    return h;
}

uint64_t hash_tape(std::vector<uint64_t> const & t)
{
    uint64_t h = 0x1234567;
    for (auto v : t) h = mix64(h ^ v);
    return h;
}

uint64_t case_seed(uint64_t seed, uint64_t idx)
{
    return mix64(mix64(seed ^ hash_str(property().id)) + 0x9e3779b97f4a7c15ull * (idx + 1));
}

void quiet_fds(char const * errfile)
{
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); if (!errfile) dup2(fd, 2); close(fd); }
    if (errfile)
    {
        int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0) { dup2(e, 2); close(e); }
    }
}

#ifdef PBT_MEMCHECK
unsigned memcheck_errors() { return unsigned(VALGRIND_COUNT_ERRORS); }
#else
unsigned memcheck_errors() { return 0; }
#endif

// Runs one case in this process. Returns 0 if held, otherwise fills the message.
int run_case(Tape & t, Ctx & c, std::string & msg)
{
    try
    {
        auto const errors = memcheck_errors();
        property().run(t, c);
        if (memcheck_errors() != errors)
        {
            msg = "valgrind memcheck reports a use of memory which is not initialised or not owned";
            return 3;
        }
        return 0;
    }
    catch (Failure const & f)
    {
        msg = f.msg;
        return 1;
    }
    catch (std::exception const & e)
    {
        msg = std::string("exception escaped: ") + e.what();
        return 2;
    }
    catch (...)
    {
        msg = "unknown exception escaped";
        return 2;
    }
}

struct Outcome
{
    bool failed = false;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> tape; // as consumed
};

std::string g_tmpdir;

// Runs a case in a fresh process from given choices (or from a seed).
Outcome run_isolated(Shared * sh, std::vector<uint64_t> const * choices, uint64_t seed, double timeout, bool keep_err = false)
{
    sh->failed = 0;
    sh->msg[0] = 0;
    sh->desc[0] = 0;
    sh->tape[0] = 0;
    std::string errfile = g_tmpdir + "/stderr.txt";

    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        quiet_fds(errfile.c_str());
        Tape t;
        t.state = seed;
        t.src = choices;
        t.shm = sh->tape;
        t.shm_cap = TAPE_CAP;
        Ctx c;
        std::string msg;
        int rc = run_case(t, c, msg);
        put(sh->desc, c.desc.str());
        if (rc)
        {
            put(sh->msg, msg);
            sh->failed = rc;
        }
        _exit(rc ? 77 : 0);
    }

    double t0 = now();
    int st = 0;
    bool timed_out = false;
    useconds_t nap = 200;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeout)
        {
            timed_out = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 5000);
    }

    Outcome o;
    uint64_t n = sh->tape[0];
    o.tape.assign(sh->tape + 1, sh->tape + 1 + n);
    o.desc = sh->desc;
    if (timed_out)
    {
        o.failed = true;
        o.msg = "case did not terminate within " + std::to_string(int(timeout)) + " s";
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    {
        o.failed = false;
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    {
        o.failed = true;
        o.msg = sh->msg;
    }
    else
    {
        o.failed = true;
        std::ostringstream os;
        if (WIFSIGNALED(st)) os << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
        else os << "process exited with status " << WEXITSTATUS(st);
        std::ifstream f(errfile);
        std::string line;
        int k = 0;
        while (std::getline(f, line) && k < 12)
        {
            if (line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos
                || line.find("what()") != std::string::npos || line.find("    #") == 0)
            {
                os << "\n" << line;
                ++k;
            }
        }
        o.msg = os.str();
    }
    return o;
}

void write_replay(std::string const & path, std::vector<uint64_t> const & tape, std::string const & msg, std::string const & desc)
{
    std::ofstream f(path);
    f << "property " << property().id << "\n";
    if (char const * stage = getenv("PBT_STAGE")) f << "stage " << stage << "\n";
    f << "kind tape\n";
    f << "tape " << tape.size();
    for (auto v : tape) f << ' ' << v;
    f << "\n";
    f << "# what failed:\n";
    std::istringstream is(msg + "\n--- case ---\n" + desc);
    std::string l;
    while (std::getline(is, l)) f << "# " << l << "\n";
}

std::vector<uint64_t> shrink(Shared * sh, Outcome & best, double budget_s)
{
    double const t_end = now() + budget_s;
    double const timeout = std::min(property().case_timeout_s, 20.);
    unsigned evals = 0;
    std::vector<uint64_t> cur = best.tape;

    auto better = [](std::vector<uint64_t> const & a, std::vector<uint64_t> const & b)
    {
        if (a.size() != b.size()) return a.size() < b.size();
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    };

    auto attempt = [&](std::vector<uint64_t> const & cand)
    {
        if (now() > t_end || evals > 4000) return false;
        ++evals;
        auto o = run_isolated(sh, &cand, 0, timeout);
        if (!o.failed || o.tape.empty()) return false;
        if (!better(o.tape, cur)) return false;
        cur = o.tape;
        best = o;
        return true;
    };

    bool progress = true;
    while (progress && now() < t_end && evals <= 4000)
    {
        progress = false;
        for (std::size_t chunk : {64, 16, 8, 4, 2, 1})
        {
            for (std::size_t i = 0; i + chunk <= cur.size();)
            {
                auto cand = cur;
                cand.erase(cand.begin() + i, cand.begin() + i + chunk);
                if (attempt(cand)) progress = true;
                else i += chunk;
                if (now() > t_end) break;
            }
        }
        for (std::size_t chunk : {8, 2, 1})
        {
            for (std::size_t i = 0; i + chunk <= cur.size(); i += chunk)
            {
                if (std::all_of(cur.begin() + i, cur.begin() + i + chunk, [](uint64_t v){ return v == 0; })) continue;
                auto cand = cur;
                std::fill(cand.begin() + i, cand.begin() + i + chunk, 0);
                if (attempt(cand)) progress = true;
                if (now() > t_end) break;
            }
        }
        for (std::size_t i = 0; i < cur.size(); ++i)
        {
            if (i >= cur.size() || cur[i] == 0) continue;
            uint64_t lo = 0, hi = cur[i]; // hi fails
            while (hi - lo > 1 && i < cur.size() && now() < t_end)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                auto cand = cur;
                cand[i] = mid;
                if (attempt(cand)) { progress = true; if (i >= cur.size()) break; hi = std::min(mid, cur[i]); }
                else lo = mid;
            }
            if (now() > t_end) break;
        }
    }
    return cur;
}

int do_replay(std::string const & file, int times)
{
    std::ifstream f(file);
    std::string line, kind;
    std::vector<uint64_t> tape;
    uint64_t seed = 0, worker = 0, stride = 1, upto = 0;
    while (std::getline(f, line))
    {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "kind") is >> kind;
        else if (k == "tape")
        {
            std::size_t n;
            is >> n;
            uint64_t v;
            while (is >> v) tape.push_back(v);
        }
        else if (k == "sequence") is >> seed >> worker >> stride >> upto;
    }
    int nfail = 0;
    std::string msg, desc;
    auto sh = shared_alloc<Shared>();
    for (int i = 0; i < times; ++i)
    {
        Outcome o;
        if (kind == "sequence")
        {
            sh->failed = 0;
            pid_t pid = fork();
            if (pid == 0)
            {
                quiet_fds(nullptr);
                for (uint64_t ix = worker; ix <= upto; ix += stride)
                {
                    Tape t;
                    t.state = case_seed(seed, ix);
                    Ctx c;
                    std::string m;
                    if (run_case(t, c, m)) { put(sh->msg, m); put(sh->desc, c.desc.str()); _exit(77); }
                }
                _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            o.msg = sh->msg;
            o.desc = sh->desc;
        }
        else
        {
            o = run_isolated(sh, &tape, 0, property().case_timeout_s);
        }
        if (o.failed) { ++nfail; msg = o.msg; desc = o.desc; }
    }
    printf("replay %s: failed %d of %d\n", file.c_str(), nfail, times);
    if (nfail) printf("%s\n--- case ---\n%s\n", msg.c_str(), desc.c_str());
    return nfail;
}

} // namespace


int main_impl(int argc, char ** argv)
{
    if (!getenv("PBT_ENV"))
    {
        // libgomp reads these when it is loaded
        setenv("PBT_ENV", "1", 1);
        setenv("OMP_WAIT_POLICY", "passive", 1);
        setenv("GOMP_SPINCOUNT", "0", 1);
        setenv("OMP_DYNAMIC", "false", 1);
        execv("/proc/self/exe", argv);
    }

    auto const & prop = property();
    std::string tier = "quick", evidence, replaydir = ".", replay;
    uint64_t seed = 1, cases = 0;
    int workers = 0;
    double deadline = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]{ if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return std::string(argv[++i]); };
        if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replaydir") replaydir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--deadline") deadline = atof(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }

    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_tmpdir = tmpl;
    struct Cleanup { ~Cleanup() {
        unlink((g_tmpdir + "/stderr.txt").c_str());
        for (int w = 0; w < 64; ++w) { unlink((g_tmpdir + "/stats" + std::to_string(w)).c_str()); unlink((g_tmpdir + "/distinct" + std::to_string(w)).c_str()); }
        rmdir(g_tmpdir.c_str()); } } cleanup;

    if (!replay.empty())
    {
        return do_replay(replay, 3) ? 1 : 0;
    }

    double const t_start = now();
    if (cases == 0)
    {
        cases = tier == "thorough" ? prop.thorough_cases : prop.quick_cases;
        if (char const * share = getenv("PBT_SHARE")) cases = std::max<uint64_t>(1, uint64_t(double(cases) * atof(share)));
    }
    if (workers == 0) workers = prop.workers;
    if (deadline == 0) deadline = tier == "thorough" ? 5400 : 300;

    std::vector<Shared *> sh(workers);
    std::vector<pid_t> pids(workers);
    std::vector<int> starts(workers, 0);
    fflush(nullptr);
    auto spawn = [&](int w, uint64_t first)
    {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0)
        {
            quiet_fds(nullptr);
            std::map<std::string, uint64_t> labels;
            std::map<std::string, double> sums;
            std::vector<uint64_t> distinct;
            uint64_t subs = 0;
            std::vector<std::string> samples;
            for (uint64_t idx = first; idx < cases; idx += workers)
            {
                sh[w]->idx = idx;
                sh[w]->started = now();
                Tape t;
                t.state = case_seed(seed, idx);
                Ctx c;
                std::string msg;
                int rc = run_case(t, c, msg);
                if (rc)
                {
                    put(sh[w]->msg, msg);
                    sh[w]->failed = rc;
                    _exit(77);
                }
                for (auto & kv : c.labels) labels[kv.first] += kv.second;
                for (auto & kv : c.sums) sums[kv.first] += kv.second;
                subs += c.sub_evaluations;
                if (c.nontrivial)
                {
                    distinct.push_back(c.key ? c.key : hash_tape(t.rec));
                    if (samples.size() < 2) samples.push_back(c.desc.str());
                }
                sh[w]->done = sh[w]->done + 1;
                sh[w]->started = 0;
                if (now() - t_start > deadline) break;
            }
            std::ofstream f(g_tmpdir + "/stats" + std::to_string(w), std::ios::app);
            f << "subs " << subs << "\n";
            for (auto & kv : labels) f << "label " << kv.second << " " << kv.first << "\n";
            for (auto & kv : sums) { f.precision(17); f << "sum " << kv.second << " " << kv.first << "\n"; }
            std::sort(distinct.begin(), distinct.end());
            distinct.erase(std::unique(distinct.begin(), distinct.end()), distinct.end());
            std::ofstream fd(g_tmpdir + "/distinct" + std::to_string(w), std::ios::app | std::ios::binary);
            fd.write(reinterpret_cast<char const *>(distinct.data()), std::streamsize(distinct.size() * sizeof (uint64_t)));
            fd.close();
            for (auto & s : samples) { std::string e = s; std::replace(e.begin(), e.end(), '\n', '\x01'); f << "sample " << e << "\n"; }
            f.close();
            _exit(0);
        }
        pids[w] = pid;
    };
    for (int w = 0; w < workers; ++w)
    {
        sh[w] = shared_alloc<Shared>();
        spawn(w, w);
    }

    // supervise
    int inconclusive = 0;
    bool failed = false;
    uint64_t fail_idx = UINT64_MAX;
    std::string fail_msg;
    int alive = workers;
    std::vector<bool> dead(workers, false);
    while (alive > 0)
    {
        for (int w = 0; w < workers; ++w)
        {
            if (dead[w]) continue;
            int st = 0;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            double const started = sh[w]->started;
            bool hung = r == 0 && started != 0 && now() - started > prop.case_timeout_s;
            if (hung)
            {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &st, 0);
            }
            if (r == pids[w] || hung)
            {
                dead[w] = true;
                --alive;
                bool ok = !hung && WIFEXITED(st) && WEXITSTATUS(st) == 0;
                if (!ok && !failed && starts[w] < 3 && (hung || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)))
                {
                    // may be the machine's fault: confirm before believing
                    auto s1 = shared_alloc<Shared>();
                    auto o = run_isolated(s1, nullptr, case_seed(seed, sh[w]->idx), 2 * prop.case_timeout_s);
                    munmap(s1, sizeof *s1);
                    if (!o.failed)
                    {
                        ++inconclusive;
                        ++starts[w];
                        fprintf(stderr, "case %llu was ended or too slow once, not confirmed\n", (unsigned long long)sh[w]->idx);
                        sh[w]->started = 0;
                        dead[w] = false;
                        ++alive;
                        spawn(w, sh[w]->idx + workers);
                        continue;
                    }
                }
                if (!ok)
                {
                    std::string m;
                    if (hung) m = "case did not terminate";
                    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) m = sh[w]->msg;
                    else if (WIFSIGNALED(st)) m = std::string("killed by signal ") + strsignal(WTERMSIG(st));
                    else m = "exit status " + std::to_string(WEXITSTATUS(st));
                    failed = true;
                    if (sh[w]->idx < fail_idx) { fail_idx = sh[w]->idx; fail_msg = m; }
                }
            }
        }
        if (failed)
        {
            // one failure is enough; stop the rest
            for (int w = 0; w < workers; ++w)
            {
                if (!dead[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); dead[w] = true; --alive; }
            }
        }
        usleep(3000);
    }

    uint64_t done = 0;
    for (int w = 0; w < workers; ++w) done += sh[w]->done;
    double const search_s = now() - t_start;

    // gather statistics
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> sums;
    std::vector<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t subs = 0;
    for (int w = 0; w < workers; ++w)
    {
        std::ifstream f(g_tmpdir + "/stats" + std::to_string(w));
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "subs") { uint64_t v; is >> v; subs += v; }
            else if (k == "label") { uint64_t v; is >> v; std::string l; std::getline(is, l); labels[l.substr(1)] += v; }
            else if (k == "sum") { double v; is >> v; std::string l; std::getline(is, l); sums[l.substr(1)] += v; }
            else if (k == "sample") { std::string s = line.substr(7); std::replace(s.begin(), s.end(), '\x01', '\n'); samples.push_back(s); }
        }
    }

    for (int w = 0; w < workers; ++w)
    {
        std::ifstream f(g_tmpdir + "/distinct" + std::to_string(w), std::ios::binary | std::ios::ate);
        if (!f) continue;
        auto const old = distinct.size(), more = std::size_t(f.tellg()) / sizeof (uint64_t);
        distinct.resize(old + more);
        f.seekg(0);
        f.read(reinterpret_cast<char *>(distinct.data() + old), std::streamsize(more * sizeof (uint64_t)));
    }
    std::sort(distinct.begin(), distinct.end());
    distinct.erase(std::unique(distinct.begin(), distinct.end()), distinct.end());

    int rc = 0;
    int violations = 0;
    if (failed)
    {
        uint64_t const cs = case_seed(seed, fail_idx);
        auto s0 = shared_alloc<Shared>();
        fprintf(stderr, "case %llu failed: %s\n", (unsigned long long)fail_idx, fail_msg.c_str());
        auto o = run_isolated(s0, nullptr, cs, prop.case_timeout_s);
        if (!o.failed)
        {
            // retry a few times, it may depend on timing
            for (int i = 0; i < 10 && !o.failed; ++i) o = run_isolated(s0, nullptr, cs, prop.case_timeout_s);
        }
        mkdir(replaydir.c_str(), 0755);
        char name[64];
        snprintf(name, sizeof name, "%s-%016llx.replay", prop.id, (unsigned long long)mix64(cs));
        std::string path = replaydir + "/" + name;
        if (o.failed)
        {
            auto orig = o;
            shrink(s0, o, tier == "thorough" ? 120 : 45);
            write_replay(path, o.tape, o.msg, o.desc);
            int n = do_replay(path, 3);
            if (n == 0)
            {
                write_replay(path, orig.tape, orig.msg, orig.desc);
                n = do_replay(path, 3);
            }
            if (n == 0) n = do_replay(path, 20);
            violations = n > 0;
        }
        if (!violations)
        {
            // depends on preceding cases of the same worker
            std::ofstream f(path);
            f << "property " << prop.id << "\nstage " << (getenv("PBT_STAGE") ? getenv("PBT_STAGE") : "main") << "\nkind sequence\nsequence " << seed << " " << fail_idx % workers << " " << workers << " " << fail_idx << "\n# " << fail_msg << "\n";
            f.close();
            violations = do_replay(path, 3) > 0;
            for (double const t0 = now(); !violations && now() - t0 < 30;) violations = do_replay(path, 5) > 0;
            if (!violations)
            {
                printf("failure of case %llu is intermittent: %s\n", (unsigned long long)fail_idx, fail_msg.c_str());
                violations = 1;
            }
        }
        if (violations)
        {
            printf("VIOLATION property=%s replay=%s\n", prop.id, path.c_str());
            rc = 1;
        }
    }

    if (!evidence.empty())
    {
        std::ofstream f(evidence);
        f << "{\n  \"property\": \"" << prop.id << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": " << seed
          << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << done
          << ",\n    \"oracle_comparisons\": " << subs
          << ",\n    \"cases_inconclusive\": " << inconclusive
          << ",\n    \"distinct_nontrivial\": " << distinct.size()
          << ",\n    \"rule\": \"" << json_escape(prop.rule) << "\",\n    \"cases_requested\": " << cases
          << ",\n    \"classes\": {";
        bool first = true;
        for (auto & kv : labels) { f << (first ? "" : ",") << "\n      \"" << json_escape(kv.first) << "\": " << kv.second; first = false; }
        f << "\n    },\n    \"totals\": {";
        first = true;
        for (auto & kv : sums) { f << (first ? "" : ",") << "\n      \"" << json_escape(kv.first) << "\": " << (std::isfinite(kv.second) ? kv.second : 0); first = false; }
        f << "\n    },\n    \"samples\": [";
        first = true;
        for (auto & s : samples) { f << (first ? "" : ",") << "\n      \"" << json_escape(s.substr(0, 1500)) << "\""; first = false; }
        f << "\n    ]\n  },\n  \"assumptions\": [";
        first = true;
        for (auto & s : prop.assumptions) { f << (first ? "" : ",") << "\n    \"" << json_escape(s) << "\""; first = false; }
        f << "\n  ],\n  \"wall_s\": " << now() - t_start << ",\n  \"violations\": " << violations << "\n}\n";
    }
    fprintf(stderr, "%s: %llu of %llu cases, %zu distinct non-trivial, %.1f s search, %.1f s total\n", prop.id,
        (unsigned long long)done, (unsigned long long)cases, distinct.size(), search_s, now() - t_start);
    for (auto & kv : labels) fprintf(stderr, "   %8llu  %s\n", (unsigned long long)kv.second, kv.first.c_str());
    for (auto & kv : sums) fprintf(stderr, "   %g  %s\n", kv.second, kv.first.c_str());
    return rc;
}

} // namespace pbt

int main(int argc, char ** argv) { return pbt::main_impl(argc, argv); }
