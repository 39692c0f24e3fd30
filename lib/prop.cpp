#include "prop.h"
#include <chrono>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=6000:"
           "detect_stack_use_after_return=0:handle_abort=1:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4";
}

namespace vp
{
using Clock = std::chrono::steady_clock;
static double now()
{
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}
std::string str(uint64_t v) { return std::to_string(v); }
std::string hex(std::string_view v, size_t max)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < v.size() && i < max; ++i)
    {
        snprintf(b, 4, "%02x", (unsigned char)v[i]);
        r += b;
    }
    if (v.size() > max)
        r += "...(" + str(v.size()) + " bytes)";
    return r;
}
std::string q(std::string_view v)
{
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i >= 48)
        {
            r += "...(" + str(v.size()) + " bytes)";
            break;
        }
        unsigned char c = v[i];
        if (c < 32 || c == '"' || c == '\\' || c >= 127)
        {
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}
std::string make_dir(const std::string& d)
{
    mkdir(d.c_str(), 0755);
    return d;
}
void remove_tree(const std::string& d)
{
    if (d.compare(0, 9, "/dev/shm/") != 0 && d.compare(0, 5, "/tmp/") != 0)
        return;    // never outside the scratch areas
    DIR* p = opendir(d.c_str());
    if (p)
    {
        while (auto e = readdir(p))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string f = d + "/" + n;
            struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                remove_tree(f);
            else
                unlink(f.c_str());
        }
        closedir(p);
    }
    if (rmdir(d.c_str()) && errno == EACCES)
        chmod(d.c_str(), 0700);
}
bool try_read_file(const std::string& p, std::string& out)
{
    std::ifstream f(p, std::ios::binary);
    if (!f)
        return false;
    std::ostringstream o;
    o << f.rdbuf();
    out = o.str();
    return true;
}
std::string read_file(const std::string& p)
{
    std::string r;
    if (!try_read_file(p, r))
        throw std::runtime_error("harness: cannot read " + p);
    return r;
}
void write_file(const std::string& p, std::string_view v)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(v.data(), (std::streamsize)v.size());
    f.flush();
    if (!f)
        throw std::runtime_error("harness: cannot write " + p);
}
static void list_into(const std::string& d, const std::string& rel, std::vector<std::string>& r)
{
    DIR* p = opendir(d.c_str());
    if (!p)
        return;
    std::vector<std::string> names;
    while (auto e = readdir(p))
        names.emplace_back(e->d_name);
    closedir(p);
    std::sort(names.begin(), names.end());
    for (auto& n : names)
    {
        if (n == "." || n == "..")
            continue;
        r.push_back(rel + n);
        struct stat st;
        if (lstat((d + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            list_into(d + "/" + n, rel + n + "/", r);
    }
}
std::vector<std::string> list_tree(const std::string& d)
{
    std::vector<std::string> r;
    list_into(d, "", r);
    return r;
}

namespace
{
    constexpr size_t kMsg = 1 << 16, kRec = 1 << 19;
    struct Shm
    {
        volatile uint64_t index, evals;
        volatile double case_start;
        volatile uint64_t known_hits;
        char msg[kMsg];
        volatile uint64_t nrec;
        uint64_t rec[kRec];
    };
    Shm* new_shm()
    {
        void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
            abort();
        return static_cast<Shm*>(p);
    }
    void set_msg(Shm* s, const std::string& m)
    {
        size_t n = std::min(m.size(), kMsg - 1);
        memcpy(s->msg, m.data(), n);
        s->msg[n] = 0;
    }
    std::string g_base;
    const Prop* g_prop;
    std::vector<size_t> g_sched;
    std::vector<std::string> g_known;

    std::string json_s(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += (char)c;
            }
            else if (c < 32 || c >= 127)
            {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                r += b;
            }
            else
                r += (char)c;
        }
        return r + "\"";
    }
    size_t test_of(uint64_t idx) { return g_sched[idx % g_sched.size()]; }
    uint64_t seed_of(uint64_t seed, uint64_t idx) { return mix(seed * 1000003 + idx); }

    enum Out
    {
        PASS,
        VIOL,
        DISC,
        CRASH,
        TIMEOUT
    };
    bool is_known(const std::string& m)
    {
        for (auto& k : g_known)
            if (m.find("[KF:" + k + "]") != std::string::npos)
                return true;
        return false;
    }
    Out run_case(const Test& t, Src& s, Ctx& c, std::string& msg)
    {
        Out o = PASS;
        try
        {
            t.fn(c);
        }
        catch (const Violation& v)
        {
            msg = v.msg;
            o = VIOL;
        }
        catch (const Discard&)
        {
            o = DISC;
        }
        catch (const Abort&)
        {
            o = DISC;
        }
        catch (const std::exception& e)
        {
            msg = std::string("unexpected exception reached the caller: ") + e.what();
            o = VIOL;
        }
        return o;
    }
    struct Attempt
    {
        Out out;
        std::string msg;
        std::vector<uint64_t> rec;
    };
    Shm* g_rshm;
    void drop_privileges()
    {
        if (!g_prop->unprivileged || getuid())
            return;
        if (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))
            _exit(44);
        prctl(PR_SET_DUMPABLE, 1);
    }
    // One case in a forked child. seed_mode: generate from seed; otherwise replay `choices`.
    Attempt attempt(size_t ti, bool seed_mode, uint64_t seed, const std::vector<uint64_t>& choices, bool verbose)
    {
        static int n = 0;
        std::string dir = g_base + "/a" + str(n++);
        std::string err = g_base + "/err" + str(n);
        const Test& t = g_prop->tests[ti];
        g_rshm->msg[0] = 0;
        g_rshm->nrec = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            if (!verbose)
            {
                int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                dup2(fd, 1);
            }
            else
                dup2(2, 1);
            drop_privileges();
            make_dir(dir);
            if (g_prop->init)
                g_prop->init();
            Src s = seed_mode ? Src(seed) : Src(choices);
            Ctx c(s, dir);
            c.verbose = verbose;
            std::string msg;
            Out o = run_case(t, s, c, msg);
            size_t k = std::min(s.record().size(), kRec);
            memcpy(g_rshm->rec, s.record().data(), k * 8);
            g_rshm->nrec = k;
            set_msg(g_rshm, msg);
            fflush(nullptr);
            _exit(o == PASS ? 0 : o == VIOL ? 42 : 43);
        }
        double t0 = now();
        int st = 0;
        bool to = false;
        while (true)
        {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid)
                break;
            if (now() - t0 > t.timeout_s)
            {
                to = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            usleep(300);
        }
        kill(-pid, SIGKILL);
        Attempt a;
        a.msg = g_rshm->msg;
        a.rec.assign(g_rshm->rec, g_rshm->rec + g_rshm->nrec);
        if (to)
        {
            a.out = TIMEOUT;
            a.msg = "no result after " + str(t.timeout_s) + " s";
        }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            a.out = PASS;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
            a.out = VIOL;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 43)
            a.out = DISC;
        else
        {
            a.out = CRASH;
            std::string e;
            try_read_file(err, e);
            a.msg = WIFSIGNALED(st) ? "killed by signal " + str(WTERMSIG(st)) : "exit code " + str(WEXITSTATUS(st));
            a.msg += "\n" + e.substr(0, 6000);
        }
        unlink(err.c_str());
        remove_tree(dir);
        if (a.out == VIOL && is_known(a.msg))
            a.out = DISC;
        return a;
    }
    bool bad(const Attempt& a) { return a.out == VIOL || a.out == CRASH || a.out == TIMEOUT; }

    std::vector<uint64_t> shrink(size_t ti, std::vector<uint64_t> best, std::string& msg, double budget)
    {
        double end = now() + budget;
        unsigned tries = g_prop->tests[ti].schedule ? 2 : 1;
        std::set<uint64_t> seen;
        auto test = [&](const std::vector<uint64_t>& c) -> bool
        {
            uint64_t h = 1469598103934665603ull;
            for (auto x : c)
                h = mix(h ^ x);
            if (!seen.insert(h).second)
                return false;
            for (unsigned i = 0; i < tries; ++i)
            {
                if (now() > end)
                    return false;
                Attempt a = attempt(ti, false, 0, c, false);
                if (bad(a))
                {
                    msg = a.msg;
                    if (a.out == VIOL && a.rec.size() < c.size())
                    {
                        best = a.rec;    // unused tail dropped
                        return true;
                    }
                    best = c;
                    return true;
                }
            }
            return false;
        };
        bool improved = true;
        while (improved && now() < end)
        {
            improved = false;
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2)
            {
                for (size_t i = best.size(); i-- > 0 && now() < end;)
                {
                    if (i + k > best.size())
                        continue;
                    std::vector<uint64_t> c(best);
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (test(c))
                        improved = true;
                    if (i >= k && k > 1)
                        i -= k - 1;
                }
                if (k == 1)
                    break;
            }
            for (size_t k = 8; k >= 1; k /= 2)
                for (size_t i = 0; i + k <= best.size() && now() < end; i += k)
                {
                    bool z = true;
                    for (size_t j = i; j < i + k; ++j)
                        z = z && best[j] == 0;
                    if (z)
                        continue;
                    std::vector<uint64_t> c(best);
                    std::fill(c.begin() + i, c.begin() + i + k, 0);
                    if (test(c))
                        improved = true;
                }
            for (size_t i = 0; i < best.size() && now() < end; ++i)
            {
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo && now() < end)
                {
                    uint64_t midv = lo + (best[i] - lo) / 2;
                    std::vector<uint64_t> c(best);
                    c[i] = midv;
                    if (test(c))
                        improved = true;
                    else
                        lo = midv + 1;
                }
            }
        }
        return best;
    }
    void write_replay(const std::string& path, size_t ti, const std::vector<uint64_t>& c, const std::string& msg)
    {
        std::ofstream f(path);
        f << "property " << g_prop->id << "\ntest " << g_prop->tests[ti].name << "\nchoices";
        for (auto x : c)
            f << " " << x;
        f << "\nend\n";
        std::istringstream is(msg);
        std::string l;
        while (std::getline(is, l))
            f << "# " << l << "\n";
    }
    void pick_base(const std::string& id)
    {
        for (const char* d : {"/dev/shm", "/tmp"})
        {
            std::string b = std::string(d) + "/vp-" + id + "-" + str(getpid());
            if (mkdir(b.c_str(), 0755))
                continue;
            if (setxattr(b.c_str(), "user.t", "1", 1, 0) && std::string(d) != "/tmp")
            {
                rmdir(b.c_str());
                continue;
            }
            g_base = b;
            if (g_prop->unprivileged && chown(b.c_str(), 65534, 65534))
                fprintf(stderr, "chown of the scratch directory failed\n");
            return;
        }
        fprintf(stderr, "no scratch directory\n");
        exit(2);
    }
    pid_t g_owner;
    void cleanup()
    {
        if (getpid() == g_owner && !g_base.empty())
            remove_tree(g_base);
    }
    void on_term(int)
    {
        cleanup();
        _exit(2);
    }
}    // namespace

int run_main(int argc, char** argv, const Prop& p)
{
    g_prop = &p;
    std::string tier = "quick", summary, replay, replay_dir = "/tmp", only;
    uint64_t seed = 1, cases = 0;
    double limit = 0, factor = 1;
    bool showcase = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier")
            tier = nx();
        else if (a == "--seed")
            seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cases")
            cases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--time")
            limit = strtod(nx().c_str(), nullptr);
        else if (a == "--summary")
            summary = nx();
        else if (a == "--replay")
            replay = nx();
        else if (a == "--replay-dir")
            replay_dir = nx();
        else if (a == "--only")
            only = nx();
        else if (a == "--known")
            g_known.push_back(nx());
        else if (a == "--factor")
            factor = strtod(nx().c_str(), nullptr);
        else if (a == "--show")
            showcase = true;
    }
    umask(022);
    struct rlimit rl;
    getrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096);
    setrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    pick_base(p.id);
    g_owner = getpid();
    atexit(cleanup);
    signal(SIGTERM, on_term);
    signal(SIGINT, on_term);
    g_rshm = new_shm();
    for (size_t i = 0; i < p.tests.size(); ++i)
        if (only.empty() || p.tests[i].name == only)
            for (unsigned k = 0; k < p.tests[i].weight; ++k)
                g_sched.push_back(i);
    // Spread the tests evenly.
    {
        Rng r{7};
        for (size_t i = g_sched.size(); i > 1; --i)
            std::swap(g_sched[i - 1], g_sched[r.next() % i]);
    }
    if (g_sched.empty())
        return 2;

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string w, name;
        std::vector<uint64_t> c;
        while (f >> w)
        {
            if (w == "property")
                f >> w;
            else if (w == "test")
                f >> name;
            else if (w == "choices")
            {
                while (f >> w && w != "end")
                    c.push_back(strtoull(w.c_str(), nullptr, 10));
                break;
            }
        }
        for (size_t i = 0; i < p.tests.size(); ++i)
            if (p.tests[i].name == name)
            {
                unsigned tries = p.tests[i].schedule ? 30 : 10;
                for (unsigned k = 0; k < tries; ++k)
                {
                    Attempt a = attempt(i, false, 0, c, true);
                    if (bad(a))
                    {
                        printf("%s\nVIOLATION property=%s replay=%s\n", a.msg.c_str(), p.id.c_str(), replay.c_str());
                        return 1;
                    }
                }
                printf("replay: property held\n");
                return 0;
            }
        fprintf(stderr, "replay: no test %s\n", name.c_str());
        return 2;
    }

    bool thorough = tier == "thorough";
    if (!cases)
        cases = (uint64_t)((thorough ? p.thorough_cases : p.quick_cases) * factor);
    if (limit <= 0)
        limit = thorough ? p.thorough_s : p.quick_s;
    double t0 = now();
    unsigned W = std::min<unsigned>(p.workers, (unsigned)std::max<uint64_t>(1, cases));
    std::vector<Shm*> shm(W);
    std::vector<pid_t> pids(W);
    for (unsigned w = 0; w < W; ++w)
    {
        shm[w] = new_shm();
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w])
            continue;
        setpgid(0, 0);
        std::string err = g_base + "/w" + str(w) + ".err";
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if (!showcase)
        {
            dup2(fd, 2);
            dup2(fd, 1);
        }
        drop_privileges();
        if (p.init)
            p.init();
        std::map<std::string, uint64_t> labels;
        std::vector<uint64_t> hashes;
        std::string samples;
        unsigned nsamp = 0;
        std::string dir = g_base + "/w" + str(w);
        for (uint64_t idx = w; idx < cases; idx += W)
        {
            if (now() - t0 > limit)
                break;
            if (!showcase && ftruncate(fd, 0)) {}
            size_t ti = test_of(idx);
            shm[w]->index = idx;
            shm[w]->case_start = now();
            make_dir(dir);
            Src s(seed_of(seed, idx));
            Ctx c(s, dir);
            c.labels = &labels;
            std::string msg;
            Out o = run_case(p.tests[ti], s, c, msg);
            if (getenv("VP_SLOW") && now() - shm[w]->case_start > atof(getenv("VP_SLOW")))
                fprintf(fopen("/tmp/slow.log", "a"), "slow %s %llu %.2f %d: %s\n", p.tests[ti].name.c_str(), (unsigned long long)idx, now() - shm[w]->case_start, (int)o, c.sample.c_str());
            if (o == VIOL)
            {
                if (is_known(msg))
                {
                    shm[w]->known_hits = shm[w]->known_hits + 1;
                    labels["known-finding"]++;
                    std::string k = msg.substr(msg.find("[KF:"));
                    labels[k.substr(0, k.find(']') + 1)]++;
                }
                else
                {
                    set_msg(shm[w], msg);
                    _exit(42);
                }
            }
            labels[o == DISC ? "discarded" : "test:" + p.tests[ti].name]++;
            if (o != DISC)
                shm[w]->evals = shm[w]->evals + 1;
            if (c.nontrivial && o == PASS)
            {
                uint64_t h = mix(ti + 1);
                for (auto x : s.record())
                    h = mix(h ^ x);
                hashes.push_back(h);
                if (nsamp < 2)
                {
                    ++nsamp;
                    samples += p.tests[ti].name + ": " + c.sample.substr(0, 700) + "\x01";
                }
            }
            remove_tree(dir);
        }
        std::ofstream f(g_base + "/w" + str(w) + ".sum", std::ios::binary);
        for (auto& l : labels)
            f << "L " << l.second << " " << l.first << "\n";
        for (auto h : hashes)
            f << "H " << h << "\n";
        std::istringstream is(samples);
        std::string l;
        while (std::getline(is, l, '\x01'))
        {
            std::replace(l.begin(), l.end(), '\n', ' ');
            f << "S " << l << "\n";
        }
        f.close();
        fflush(nullptr);
        _exit(0);
    }
    // Watch the workers.
    std::vector<bool> done(W, false);
    int failed = -1;
    std::string why;
    while (failed < 0)
    {
        bool all = true;
        for (unsigned w = 0; w < W && failed < 0; ++w)
        {
            if (done[w])
                continue;
            all = false;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w])
            {
                done[w] = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                    continue;
                failed = (int)w;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
                    why = shm[w]->msg;
                else
                {
                    std::string e;
                    try_read_file(g_base + "/w" + str(w) + ".err", e);
                    why = (WIFSIGNALED(st) ? "killed by signal " + str(WTERMSIG(st)) : "exit code " + str(WEXITSTATUS(st))) + "\n"
                        + e.substr(0, 6000);
                }
            }
            else if (shm[w]->case_start > 0 && now() - shm[w]->case_start > p.tests[test_of(shm[w]->index)].timeout_s)
            {
                failed = (int)w;
                why = "no result in time";
            }
        }
        if (all)
            break;
        usleep(2000);
    }
    uint64_t evals = 0;
    int rc = 0;
    unsigned violations = 0;
    std::string note;
    if (failed >= 0)
    {
        for (unsigned w = 0; w < W; ++w)
        {
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            if (!done[w])
                waitpid(pids[w], nullptr, 0);
        }
        uint64_t idx = shm[failed]->index;
        size_t ti = test_of(idx);
        fprintf(stderr, "case %llu (test %s) failed: %s\n", (unsigned long long)idx, p.tests[ti].name.c_str(), why.c_str());
        unsigned tries = p.tests[ti].schedule ? 40 : 20, hits = 0;
        double rt0 = now();
        Attempt got;
        for (unsigned k = 0; k < tries && !hits && now() - rt0 < 90; ++k)
        {
            Attempt a = attempt(ti, true, seed_of(seed, idx), {}, false);
            if (bad(a))
            {
                ++hits;
                got = a;
            }
        }
        bool definite = why.find("WARNING: ThreadSanitizer") != std::string::npos
            || why.find("ERROR: AddressSanitizer") != std::string::npos
            || why.find("runtime error:") != std::string::npos;
        if (!hits && !definite)
        {
            // Not reproducible: not reported as a violation.
            note = "a failure of case " + str(idx) + " did not reproduce in " + str(tries) + " replays: " + why.substr(0, 500);
            fprintf(stderr, "%s\n", note.c_str());
            rc = 3;
        }
        else
        {
            std::vector<uint64_t> choices = got.rec;
            std::string msg = hits ? got.msg : why;
            if (hits && (got.out == CRASH || got.out == TIMEOUT || choices.empty()))
            {
                // The child died before handing over its choices: draw them again.
                Src s(seed_of(seed, idx));
                choices.clear();
                Rng r{mix(seed_of(seed, idx))};
                choices.resize(20000);
                // Values are reduced modulo the bound at each draw, so raw generator output replays
                // the same case.
                for (auto& x : choices)
                    x = r.next();
            }
            if (!hits)
            {
                Rng r{mix(seed_of(seed, idx))};
                choices.resize(20000);
                for (auto& x : choices)
                    x = r.next();
            }
            if (hits)
            {
                // Drop the unused tail of raw choices by bisection, then shrink.
                if (choices.size() >= 20000)
                {
                    size_t lo = 0, hi = choices.size();
                    double e = now() + 10;
                    while (lo < hi && now() < e)
                    {
                        size_t m = (lo + hi) / 2;
                        std::vector<uint64_t> c(choices.begin(), choices.begin() + m);
                        Attempt a = attempt(ti, false, 0, c, false);
                        if (bad(a))
                            hi = m;
                        else
                            lo = m + 1;
                    }
                    choices.resize(hi);
                }
                choices = shrink(ti, choices, msg, thorough ? 90 : 25);
            }
            std::string path = replay_dir + "/" + p.id + "." + p.tests[ti].name + "." + str(mix(idx + seed) % 1000000) + ".replay";
            write_replay(path, ti, choices, msg);
            fprintf(stderr, "minimal case (%zu choices):\n", choices.size());
            if (hits)
                attempt(ti, false, 0, choices, true);
            printf("%s\n", msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
            fflush(stdout);
            violations = 1;
            rc = 1;
        }
    }
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hs;
    std::vector<std::string> samples;
    uint64_t known = 0;
    for (unsigned w = 0; w < W; ++w)
    {
        evals += shm[w]->evals;
        known += shm[w]->known_hits;
        std::ifstream f(g_base + "/w" + str(w) + ".sum");
        std::string l;
        while (std::getline(f, l))
        {
            if (l.size() < 2)
                continue;
            if (l[0] == 'L')
            {
                size_t sp = l.find(' ', 2);
                labels[l.substr(sp + 1)] += strtoull(l.c_str() + 2, nullptr, 10);
            }
            else if (l[0] == 'H')
                hs.insert(strtoull(l.c_str() + 2, nullptr, 10));
            else if (l[0] == 'S' && samples.size() < 8)
                samples.push_back(l.substr(2));
        }
    }
    double wall = now() - t0;
    std::ostringstream o;
    o << "{\"property\":" << json_s(p.id) << ",\"tier\":" << json_s(tier) << ",\"seed\":" << seed << ",\"level\":" << json_s(p.level)
      << ",\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << hs.size() << ",\"rule\":" << json_s(p.rule)
      << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels)
    {
        o << (first ? "" : ",") << json_s(l.first) << ":" << l.second;
        first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : samples)
    {
        o << (first ? "" : ",") << json_s(s);
        first = false;
    }
    o << "],\"case_budget\":" << cases << ",\"time_limit_s\":" << limit;
    if (!note.empty())
        o << ",\"unreproduced\":" << json_s(note);
    o << "},\"assumptions\":[";
    first = true;
    for (auto& s : p.assumptions)
    {
        o << (first ? "" : ",") << json_s(s);
        first = false;
    }
    o << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}";
    if (!summary.empty())
        write_file(summary, o.str());
    fprintf(stderr, "%s: %llu cases, %zu distinct non-trivial, %.1f s%s\n", p.id.c_str(), (unsigned long long)evals, hs.size(), wall,
            known ? (", known findings hit: " + str(known)).c_str() : "");
    return rc;
}
}    // namespace vp
