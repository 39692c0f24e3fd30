// S28: the idle shutdown fires after the idle time, never earlier, and every call counts as activity.
#include "fsdrv.h"
#include "fuse_hook.h"
#include "resettable_timer.h"
#include <absl/time/clock.h>
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <thread>
using namespace vp;
using namespace securefs;
using Clock = std::chrono::steady_clock;
static std::mutex g_mu;
static std::vector<double> g_fired;
static double now_s() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }
static void nap(double s)
{
    if (s > 0)
        std::this_thread::sleep_for(std::chrono::duration<double>(s));
}
// Linked with -Wl,--wrap: the shutdown request is only recorded.
extern "C" void __wrap__ZN8securefs15clean_exit_fuseEv()
{
    double t = now_s();
    std::lock_guard<std::mutex> l(g_mu);
    g_fired.push_back(t);
}
static std::vector<double> fired()
{
    std::lock_guard<std::mutex> l(g_mu);
    return g_fired;
}
static const double SLACK = 4;    // how late a firing may be on a loaded machine
static std::string ms(double s) { return std::to_string((int)(s * 1000 + 0.5)) + " ms"; }
// Timing violations must show three times in a row, so that a stalled machine is not blamed on the code.
template <class F>
static void thrice(F run)
{
    std::string bad;
    for (int i = 0; i < 3; ++i)
    {
        bad = run();
        if (bad.empty())
            return;
    }
    fail(bad);
}
// --- The timer alone: many in parallel, each with its own pattern.
struct Set
{
    double wait;             // before this step
    std::vector<double> at;  // time points (from then) set in a row
};
struct Script
{
    std::vector<Set> sets;
    double tail;    // how long to wait before destruction
};
static std::string text(const Script& s)
{
    std::string t;
    for (auto& x : s.sets)
    {
        t += "after " + ms(x.wait) + " set to";
        for (double a : x.at)
            t += " +" + ms(a);
        t += ", ";
    }
    return t + "destroyed after " + ms(s.tail);
}
static std::string run_script(const Script& sc, bool& fires)
{
    struct Shared
    {
        std::mutex mu;
        std::vector<double> fired;
    };
    auto sh = std::make_shared<Shared>();
    auto got = [&]
    {
        std::lock_guard<std::mutex> l(sh->mu);
        return sh->fired;
    };
    double armed = -1, lo = -1;    // armed: latest possible due time; lo: earliest
    double start_destroy, end_destroy;
    {
        ResettableTimer t([sh] { double n = now_s(); std::lock_guard<std::mutex> l(sh->mu); sh->fired.push_back(n); });
        for (auto& s : sc.sets)
        {
            nap(s.wait);
            for (double a : s.at)
            {
                double b = now_s();
                t.setTimePoint(absl::Now() + absl::Seconds(a));
                if (!got().empty())
                    continue;
                // Still unfired after the call: unless it was already due, the new point counts.
                if (armed >= 0 && now_s() > lo - 0.02)
                    return "";    // too close to tell
                lo = b + a;
                armed = now_s() + a;
            }
        }
        double until = now_s() + sc.tail;
        if (armed <= until - 0.05)
            until = std::max(until, armed + SLACK);
        bool must = armed >= 0 && armed + SLACK <= until + 1e-9;
        while (now_s() < until && got().empty())
            nap(0.005);
        start_destroy = now_s();
        fires = !got().empty();
        if (must && !fires)
            return "[" + text(sc) + "] the timer did not fire within " + ms(SLACK) + " after its time";
    }
    end_destroy = now_s();
    auto f = got();
    if (end_destroy - start_destroy > SLACK)
        return "[" + text(sc) + "] destroying the timer took " + ms(end_destroy - start_destroy);
    if (f.size() > 1)
        return "[" + text(sc) + "] the timer fired " + str(f.size()) + " times";
    if (f.size() == 1 && f[0] < lo - 0.001)
        return "[" + text(sc) + "] the timer fired " + ms(lo - f[0]) + " early";
    return "";
}
static void timer(Ctx& c)
{
    Src& s = c.s;
    std::vector<Script> v(1 + s.below(40));
    for (auto& sc : v)
    {
        for (size_t k = 1 + s.below(4); k > 0; --k)
        {
            Set x;
            x.wait = s.pick({0, 1, 5, 20, 60}) / 1000.0;
            for (size_t j = 1 + s.below(3); j > 0; --j)
                x.at.push_back(s.pick({100, 150, 30, 250, 400, 3600000, 1000, 80, 200}) / 1000.0);
            sc.sets.push_back(x);
        }
        sc.tail = s.pick({300, 10, 50, 0, 450}) / 1000.0;
        c.step(text(sc));
    }
    std::atomic<size_t> n{0};
    std::vector<std::string> bad(v.size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < v.size(); ++i)
        th.emplace_back(
            [&, i]
            {
                for (int k = 0; k < 3; ++k)
                {
                    bool f = false;
                    bad[i] = run_script(v[i], f);
                    if (f)
                        ++n;
                    if (bad[i].empty())
                        break;
                }
            });
    for (auto& t : th)
        t.join();
    for (auto& b : bad)
        if (!b.empty())
            fail(b);
    c.label("timers", v.size());
    c.label("timers that fired", n);
    c.nontrivial = n > 0;
}
// --- Mounts with an idle limit: one kind of call, or a mix, keeps the mount alive.
static const char* const kinds[] = {"statfs", "getattr", "fgetattr", "opendir", "readdir", "create", "open", "read", "write", "flush", "ftruncate",
    "unlink", "mkdir", "rmdir", "chmod", "chown", "symlink", "link", "readlink", "rename", "fsync", "truncate", "utimens", "listxattr", "getxattr", "setxattr",
    "removexattr", "failing getattr", "failing open", "failing unlink", "release", "releasedir", "ioctl"};
static const size_t NK = sizeof kinds / sizeof *kinds;
struct Files
{
    fuse_file_info file{}, dir{}, ro{};
    int n = 0;
    std::vector<fuse_file_info> files, dirs;    // further handles, of /file and /dir
};
static void prepare(Mount& m, Files& f)
{
    f.file.flags = O_RDWR | O_CREAT | O_EXCL;
    m.create("/file", 0644, f.file);
    m.write("/file", "some content", 0, f.file);
    m.mkdir("/dir", 0755);
    m.symlink("target", "/link");
    m.opendir("/", f.dir);
    m.setxattr("/file", "user.x", "value");
    for (int i = 0; i < 40; ++i)
    {
        m.put("/u" + std::to_string(i), "");
        m.mkdir("/r" + std::to_string(i), 0755);
    }
}
static void open_more(Mount& m, Files& f)
{
    for (int i = 0; i < 14; ++i)
    {
        fuse_file_info x{}, y{};
        if (m.open("/file", O_RDONLY, x) == 0)
            f.files.push_back(x);
        if (m.opendir("/dir", y) == 0)
            f.dirs.push_back(y);
    }
}
static void release_all(Mount& m, Files& f)
{
    m.release("/file", f.file);
    m.releasedir("/", f.dir);
    for (auto& x : f.files)
        m.release("/file", x);
    for (auto& x : f.dirs)
        m.releasedir("/dir", x);
}
// Result, with whatever the call returned, as text.
static std::string do_call(Mount& m, Files& f, size_t k)
{
    std::string n = std::to_string(f.n++), d;
    std::vector<DirEnt> es;
    std::vector<std::string> l;
    struct stat st{};
    struct statvfs sv{};
    int r = 0;
    switch (k)
    {
    case 0:
        r = m.statfs("/", sv);
        d = std::to_string(sv.f_namemax);
        break;
    case 1:
        r = m.getattr("/file", st);
        d = std::to_string(st.st_mode) + " " + std::to_string(st.st_size);
        break;
    case 2:
        r = m.fgetattr("/file", st, f.file);
        d = std::to_string(st.st_mode) + " " + std::to_string(st.st_size);
        break;
    case 3:
    {
        fuse_file_info x{};
        r = m.opendir("/dir", x);
        if (r == 0)
            f.dirs.push_back(x);
        break;
    }
    case 4:
    {
        r = m.readdir("/", es, f.dir);
        std::set<std::string> names;
        for (auto& e : es)
            names.insert(e.name);
        for (auto& x : names)
            d += x + " ";
        break;
    }
    case 5:
    {
        fuse_file_info x{};
        x.flags = O_RDWR | O_CREAT | O_EXCL;
        r = m.create("/c" + n, 0644, x);
        if (r == 0)
            f.files.push_back(x);
        break;
    }
    case 6:
    {
        fuse_file_info x{};
        r = m.open("/file", O_RDONLY, x);
        if (r == 0)
            f.files.push_back(x);
        break;
    }
    case 7:
        r = m.read("/file", d, 5, 2, f.file);
        break;
    case 8:
        r = m.write("/file", "w" + n, (off_t)f.n, f.file);
        break;
    case 9:
        r = m.flush("/file", f.file);
        break;
    case 10:
        r = m.ftruncate("/file", 20 + f.n, f.file);
        break;
    case 11:
        r = m.unlink("/u" + n);
        break;
    case 12:
        r = m.mkdir("/d" + n, 0755);
        break;
    case 13:
        r = m.rmdir("/r" + n);
        break;
    case 14:
        r = m.chmod("/file", 0600 + (f.n & 7));
        break;
    case 15:
        r = m.chown("/file", getuid(), getgid());
        break;
    case 16:
        r = m.symlink("t" + n, "/s" + n);
        break;
    case 17:
        r = m.link("/file", "/l" + n);
        break;
    case 18:
        r = m.readlink("/link", d);
        break;
    case 19:
        r = m.rename("/u" + n, "/m" + n);
        break;
    case 20:
        r = m.fsync("/file", false, f.file);
        break;
    case 21:
        r = m.truncate("/file", 30 + f.n);
        break;
    case 22:
    {
        timespec ts[2] = {{1000 + f.n, 0}, {2000 + f.n, 0}};
        r = m.utimens("/file", ts);
        break;
    }
    case 23:
        r = m.listxattr("/file", l);
        for (auto& x : l)
            d += x + " ";
        break;
    case 24:
        r = m.getxattr("/file", "user.x", d);
        break;
    case 25:
        r = m.setxattr("/file", "user.x", "v" + n);
        break;
    case 26:
        r = m.removexattr("/file", "user.nothing");
        break;
    case 27:
        r = m.getattr("/nothing", st);
        break;
    case 28:
    {
        fuse_file_info x{};
        r = m.open("/nothing", O_RDONLY, x);
        break;
    }
    case 29:
        r = m.unlink("/nothing");
        break;
    case 30:
        if (f.files.empty())
            break;
        r = m.release("/file", f.files.back());
        f.files.pop_back();
        break;
    case 31:
        if (f.dirs.empty())
            break;
        r = m.releasedir("/dir", f.dirs.back());
        f.dirs.pop_back();
        break;
    default:
        if (m.f.ioctl)
        {
            m.enter();
            unsigned arg = 0;
            r = m.f.ioctl("/file", 0x1234, nullptr, &f.file, 0, &arg);
        }
    }
    return std::to_string(r) + " " + d;
}
struct Call
{
    double b, e;
};
static void idle(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, s.coin());
    bool short_limit = !s.chance(1, 4);
    double T = short_limit ? s.pick({250, 300, 400}) / 1000.0 : 1.0;
    size_t mode = s.weighted({5, 2, 2});    // 0: one kind of call, 1: a mix, 2: ends before the limit
    size_t kind = s.below(NK);
    size_t steps = 5 + s.below(8);
    std::vector<size_t> ks;
    std::vector<double> gaps;
    for (size_t i = 0; i < steps; ++i)
    {
        ks.push_back(mode == 1 ? s.below(NK) : kind);
        gaps.push_back(T * s.pick({25, 20, 5, 1, 30}) / 100.0);
    }
    size_t threads = s.chance(1, 5) ? 2 + s.below(3) : 1;
    c.step(cf.text() + " limit " + ms(T) + (short_limit ? " (hook)" : " (mount option)") + " mode " + str(mode));
    for (size_t i = 0; i < steps; ++i)
        c.step(std::string(kinds[ks[i]]) + " after " + ms(gaps[i]));
    int attempt = 0;
    bool done = false;
    thrice(
        [&]() -> std::string
        {
            std::string store = make_dir(c.dir + "/s" + std::to_string(attempt)), plain = make_dir(c.dir + "/p" + std::to_string(attempt));
            ++attempt;
            {
                std::lock_guard<std::mutex> l(g_mu);
                g_fired.clear();
            }
            std::string what = "[" + cf.text() + ", limit " + ms(T) + "] ";
            double d0, d1, last = 0;
            std::vector<Call> calls;
            auto early = [&](const std::vector<double>& f) -> std::string
            {
                if (f.size() > 1)
                    return what + "the shutdown was triggered " + str(f.size()) + " times";
                if (f.empty())
                    return "";
                for (auto& x : calls)
                    if (x.e < f[0] - T / 2 && x.b + T > f[0] + 0.001)
                        return what + "the shutdown was triggered " + ms(f[0] - x.b) + " after a call of kind " + kinds[ks[0]]
                            + (mode == 1 ? " (or another of the mix)" : "");
                return "";
            };
            {
                Mount ref(plain, cf), m;
                Files fr, fm;
                prepare(ref, fr);
                open_more(ref, fr);
                if (short_limit)
                {
                    {
                        // What needs preparing is done first, without the limit.
                        Mount pre(store, cf);
                        Files x;
                        prepare(pre, x);
                        pre.release("/file", x.file);
                        pre.releasedir("/", x.dir);
                    }
                    double b = now_s();
                    m.open(store, cf);
                    m.ops = std::make_shared<HookedFuseHighLevelOps>(m.ops, std::make_shared<IdleShutdownHook>(absl::Seconds(T)));
                    m.f = FuseHighLevelOpsBase::build_ops(m.ops.get());
                    calls.push_back({b, now_s()});
                }
                else
                {
                    auto mo = make_mount_options(cf);
                    mo.set_max_idle_seconds((int)T);
                    {
                        Mount pre(store, cf);
                        Files x;
                        prepare(pre, x);
                        pre.release("/file", x.file);
                        pre.releasedir("/", x.dir);
                    }
                    double b = now_s();
                    m.open(store, make_params(cf), mo);
                    calls.push_back({b, now_s()});
                }
                fm.file.flags = 0;
                double b = now_s();
                m.open("/file", O_RDWR, fm.file);
                m.opendir("/", fm.dir);
                open_more(m, fm);
                calls.push_back({b, now_s()});
                std::mutex mu;
                std::atomic<bool> stop{false};
                std::vector<std::thread> extra;
                // Other threads make calls in the meantime; none of them alone keeps the mount alive for sure.
                for (size_t t = 1; t < threads; ++t)
                    extra.emplace_back(
                        [&, t]
                        {
                            while (!stop)
                            {
                                struct stat st;
                                double b = now_s();
                                m.getattr("/dir", st);
                                double e = now_s();
                                {
                                    std::lock_guard<std::mutex> l(mu);
                                    calls.push_back({b, e});
                                }
                                nap(0.01 * t);
                            }
                        });
                std::string diff;
                double t0 = now_s();
                size_t n = mode == 2 ? steps / 2 : steps;
                for (size_t i = 0; i < n; ++i)
                {
                    nap(gaps[i]);
                    double b = now_s();
                    std::string r = do_call(m, fm, ks[i]);
                    double e = now_s();
                    {
                        std::lock_guard<std::mutex> l(mu);
                        calls.push_back({b, e});
                    }
                    std::string w = do_call(ref, fr, ks[i]);
                    if (r != w && diff.empty())
                        diff = what + kinds[ks[i]] + " gave " + q(r) + " with the idle limit and " + q(w) + " without";
                }
                stop = true;
                for (auto& t : extra)
                    t.join();
                if (!diff.empty())
                    fail(diff);
                for (auto& x : calls)
                    last = std::max(last, x.e);
                auto f = fired();
                auto bad = early(f);
                if (!bad.empty())
                    return bad;
                if (!f.empty())
                {
                    // The machine stalled: nothing to be learnt.
                    c.label("stalled");
                    return "";
                }
                (void)t0;
                if (mode != 2)
                {
                    while (fired().empty() && now_s() < last + T + SLACK)
                        nap(0.01);
                    if (fired().empty())
                        return what + "no shutdown was triggered within " + ms(T + SLACK) + " after the last call (" + kinds[ks[0]] + ")";
                    bad = early(fired());
                    if (!bad.empty())
                        return bad;
                    done = true;
                    // Calls afterwards, and no second trigger.
                    nap(T * 0.2);
                    do_call(m, fm, 1);
                    nap(T * 1.3);
                }
                else
                    done = true;
                release_all(m, fm);
                double r1 = now_s();
                calls.push_back({r1, r1});
                d0 = now_s();
                m.close();
                d1 = now_s();
                release_all(ref, fr);
            }
            if (d1 - d0 > SLACK)
                return what + "unmounting took " + ms(d1 - d0);
            auto f = fired();
            if (f.size() > 1)
                return what + "the shutdown was triggered " + str(f.size()) + " times";
            if (mode == 2)
            {
                if (!f.empty() && d1 - last < T * 0.8)
                    return what + "the shutdown was triggered although the mount was closed before the limit";
                nap(T * 1.2);
                auto g = fired();
                if (g.size() > f.size())
                    return what + "the shutdown was triggered after the mount was closed";
            }
            return "";
        });
    c.label(mode == 0 ? std::string("kept alive by ") + kinds[kind] : mode == 1 ? "kept alive by a mix" : "closed before the limit");
    c.nontrivial = done;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S28";
    p.rule = "A case runs up to 40 timers in parallel with generated patterns of settings (earlier and later ones, in a row, destruction at any time), or keeps a "
             "real mount with an idle limit of 250 ms to 1 s busy with one kind of call (each of 33 kinds, failing ones included) or a mix, from one to four threads, "
             "compares each result with an unlimited mount, then lets it idle or closes it. The recorded shutdown request must come at least the limit after every "
             "completed call, exactly once, and within seconds; timing violations must show three times in a row. Non-trivial: a timer fired, or the mount was "
             "kept alive until the end of the pattern; distinct by choice sequence.";
    p.assumptions = {"the request to exit is recorded instead of being carried out", "the real-time clock is not changed during a case"};
    p.quick_cases = 2400;
    p.thorough_cases = 40000;
    p.quick_s = 45;
    p.workers = 40;
    p.init = []
    {
        global_logger.reset();
        umask(0);
    };
    Test t1{"timer", timer, 1}, t2{"idle", idle, 4};
    t1.schedule = t2.schedule = true;
    p.tests = {t1, t2};
    return run_main(argc, argv, p);
}
