// S16: a failing operation on the store makes the call fail or is made up for later, and spoils nothing else.
#include "fault.h"
#include "script.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <optional>
#include <sys/stat.h>
using namespace vp;

static int count_fds()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
static void faults_case(Ctx& c)
{
    Src& s = c.s;
    bool full = s.coin();
    FsConfig cf = gen_config(s, full);
    if (cf.plain && s.coin())
        cf.plain = false;
    SOpts o;
    o.xattr = cf.xattr;
    script_pool(s, cf, o);
    c.step(cf.text());
    std::string store = c.dir + "/store";
    make_dir(store);
    int fds = count_fds();
    std::vector<std::string> log;
    int fired_calls = 0, failed_calls = 0;
    {
        Mount m(store, cf);
        SHandles hs;
        SState st;
        st.n[0].type = 'd';
        auto none = [](const std::string&) { return false; };
        std::optional<STouched> half;
        auto check = [&](const SState& x)
        {
            if (half)
                return verify(m, x, cf, [&](int id) { return x.n.at(id).tainted || half->nodes.count(id); }, [&](const std::string& p) { return half->paths.count(p) > 0; });
            return verify(m, x, cf, [&](int id) { return x.n.at(id).tainted; }, none);
        };
        auto remount = [&](bool faulty, const fault::Hook& hook)
        {
            auto old = hs;
            for (auto& [k, fi] : old)
                if (st.h.at(k).dir)
                    m.releasedir(st.h.at(k).path, fi);
                else
                    m.release(st.h.at(k).path, fi);
            hs.clear();
            m.close();
            if (faulty)
                try
                {
                    fault::Armed a(store, hook);
                    m.open(store, cf);
                }
                catch (const std::exception&)
                {
                    m.close();
                }
            if (!m.is_open())
                m.open(store, cf);
        };
        // A crowded directory, whose tree of names has several levels.
        if (s.chance(1, 3))
        {
            size_t count = s.pick({12, 13, 26, 40, 100});
            SOp op{};
            for (size_t i = 0; i < count; ++i)
            {
                char name[16];
                snprintf(name, sizeof name, "n%03d", (int)(i * 37 % count));
                op.kind = S_CREATE;
                op.a = std::string("/") + name;
                op.h = st.next_handle++;
                std::string wrong;
                if (exec(m, hs, op, st, wrong))
                    fail("creating " + op.a + " fails");
                apply(st, op);
                op.kind = S_RELEASE;
                if (exec(m, hs, op, st, wrong))
                    fail("closing " + op.a + " fails");
                apply(st, op);
            }
            for (size_t i = 0, k = 2 + s.below(10); i < k; ++i)
            {
                char name[16];
                snprintf(name, sizeof name, "n%03d", (int)s.below(count));
                o.pool.push_back(name + std::string(s.coin() ? "" : "x"));
            }
            c.step("crowd " + std::to_string(count));
            c.label("crowd");
        }
        size_t n = 3 + s.below(s.pick({10, 30, 60}));
        for (size_t i = 0; i < n && !half; ++i)
        {
            SOp op = gen_op(s, st, o);
            bool faulty = s.chance(2, 3);
            size_t from = s.chance(1, 3) ? 0 : s.below(s.pick({3, 8, 30, 100}));
            bool lasting = s.coin();
            bool writes_only = s.chance(1, 2);
            int err = s.pick({ENOSPC, EIO, EMFILE, EDQUOT, ENOMEM});
            size_t cut = s.below(40);
            bool shorten = s.chance(1, 4);
            size_t seen = 0;
            int fired = 0;
            bool sync_failed = false, only_table_eio = true;
            std::string what;
            fault::Hook hook = [&](const fault::Op& f)
            {
                fault::Verdict v;
                if (getenv("VP_OPS"))
                    printf("    %s: %s %s %zu\n", op.text().c_str(), fault::kind_name(f.kind), f.path.c_str(), f.size);
                if (!faulty || (writes_only && !f.mutates))
                    return v;
                // Nothing can be undone when removing fails as well.
                if (lasting && seen && (f.kind == fault::UNLINK || f.kind == fault::RMDIR))
                    return v;
                size_t k = seen++;
                if (lasting ? k < from : k != from)
                    return v;
                ++fired;
                if (fired == 1)
                    what = std::string(fault::kind_name(f.kind)) + " of " + q(f.path);
                if (f.kind == fault::SYNC)
                    sync_failed = true;
                if (f.kind != fault::READ || f.path.find(".long_names.db") == f.path.npos)
                    only_table_eio = false;
                if (f.kind == fault::WRITE && shorten && f.size > 1 && !lasting)
                    v.cut = (ssize_t)(cut % (f.size - 1) + 1);
                else
                    v.err = f.kind == fault::READ || f.kind == fault::SYNC ? EIO : err;
                return v;
            };
            std::string t = op.text();
            if (faulty)
                t += std::string(" [") + (lasting ? "all from " : "only ") + (writes_only ? "change " : "operation ") + std::to_string(from) + (shorten ? " short" : "") + " errno " + std::to_string(err) + "]";
            c.step(t);
            if (op.kind == S_REMOUNT)
            {
                remount(faulty, hook);
                apply(st, op);
                std::string bad = check(st);
                if (!bad.empty())
                    fail("after mounting again" + (fired ? " when " + what + " had failed" : std::string()) + ": " + bad);
                continue;
            }
            std::string wrong;
            int r;
            {
                fault::Armed a(store, hook);
                r = exec(m, hs, op, st, wrong);
            }
            std::string when = op.text() + " gives " + std::to_string(r) + (fired ? " as " + what + " failed" + (fired > 1 ? " and " + std::to_string(fired - 1) + " more" : "") : "");
            if (r < 0 && !fired)
                fail(when + " although nothing failed");
            if (r == 0 && !wrong.empty())
                fail(when + ", but " + wrong + (op.kind == S_LS && fired && !full && only_table_eio && wrong.find("adds") == wrong.npos ? " [KF:listing-eio]" : ""));
            if (fired)
            {
                ++fired_calls;
                c.label(r < 0 ? "call failed" : "fault made up for");
                c.label("fault in " + op.text().substr(0, op.text().find(' ')));
            }
            if (r == 0 && op.kind == S_FSYNC && sync_failed)
                fail(when + ": fsync succeeds although the store could not be synced");
            if (r == 0)
                apply(st, op);
            else
            {
                ++failed_calls;
                bool content = op.kind == S_WRITE || op.kind == S_FTRUNC || op.kind == S_TRUNC || op.kind == S_OPEN;
                if (op.kind == S_RELEASE || op.kind == S_RELEASEDIR)
                    apply(st, op);
                else if (content)
                {
                    int id = op.h >= 0 && st.h.count(op.h) ? st.h.at(op.h).node : st.lookup(op.a);
                    if (mutates(op) && id >= 0)
                        st.n.at(id).tainted = true;
                }
                else if (mutates(op))
                {
                    // Done or not done, but nothing between.
                    SState y = st;
                    apply(y, op);
                    if (op.kind == S_CREATE)
                    {
                        SOp rel{};
                        rel.kind = S_RELEASE;
                        rel.h = op.h;
                        rel.a = op.a;
                        apply(y, rel);
                    }
                    std::string b1 = check(st);
                    if (!b1.empty())
                    {
                        std::string b2 = check(y);
                        if (!b2.empty() && !full)
                            fail(when + ", and then it is neither undone (" + b1 + ") nor done (" + b2 + ")");
                        if (b2.empty())
                            st = y;
                        else
                        {
                            // The full format may leave the objects of the call half-way, but only those.
                            half = touched(st, op);
                            c.label("left half-way");
                        }
                    }
                }
            }
            if (fired)
            {
                std::string bad = check(st);
                if (!bad.empty())
                    fail(when + ", and then " + bad);
                // What a failed write has left is taken as it is.
                for (auto& p : st.paths('f'))
                {
                    auto& x = st.n.at(st.lookup(p));
                    std::string v;
                    if (x.tainted && m.get(p, v) == 0)
                    {
                        x.data = v;
                        x.tainted = false;
                    }
                }
            }
        }
        remount(false, {});
        SOp rm{};
        rm.kind = S_REMOUNT;
        apply(st, rm);
        std::string bad = check(st);
        if (!bad.empty())
            fail("after the last mount: " + bad);
        // Everything can still be removed.
        auto all = half ? std::vector<std::string>() : st.paths('*');
        std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.size() > b.size(); });
        for (auto& p : all)
        {
            bool d = st.n.at(st.lookup(p)).type == 'd';
            int r = d ? m.rmdir(p) : m.unlink(p);
            if (r)
            {
                if (getenv("VP_OPS"))
                    (void)!system(("ls -laR " + store).c_str());
                fail("in the end " + q(p) + " cannot be removed: " + std::to_string(r));
            }
        }
        m.close();
    }
    int now = count_fds();
    if (now != fds)
        fail(std::to_string(now - fds) + " descriptors remain open");
    c.nontrivial = fired_calls >= 2 && failed_calls >= 1;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S16";
    p.rule = "operations on the store fail within at least two calls, and at least one call fails for that reason; distinct by the generator's choices";
    p.assumptions = {"removing files does not fail together with the change that it is to undo",
                     "unmounting is done without faults", "a call of the full format that fails may leave its own objects and names half-way: the history ends there and only all "
                     "others are judged, also after mounting again",
                     "after a failed change of the content of a file, the content of that file is taken as found"};
    p.quick_cases = 100000;
    p.thorough_cases = 2000000;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
    };
    p.tests = {{"faults", faults_case, 1, 60}};
    return run_main(argc, argv, p);
}
