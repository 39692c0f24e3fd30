// S17: what was closed or synced survives the death of the process between any two operations on the store.
#include "fault.h"
#include "script.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace vp;
namespace
{
struct Shared
{
    volatile int begun, done;    // calls
    volatile long ops;           // changes of the store so far
    volatile long at[400];       // before each call
    char text[600];
};
Shared* g_sh;
}    // namespace
static void crash_case(Ctx& c)
{
    Src& s = c.s;
    bool full = s.chance(1, 2);
    FsConfig cf = gen_config(s, full);
    if (cf.plain && s.coin())
        cf.plain = false;
    SOpts o;
    o.xattr = cf.xattr;
    script_pool(s, cf, o);
    std::vector<SOp> ops;
    std::vector<SState> st(1);
    st[0].n[0].type = 'd';
    size_t n = 3 + s.below(s.pick({12, 40, 90}));
    for (size_t i = 0; i < n; ++i)
    {
        SOp op = gen_op(s, st.back(), o);
        ops.push_back(op);
        st.push_back(st.back());
        apply(st.back(), op);
    }
    c.step(cf.text());
    for (size_t i = 0; i < n; ++i)
        c.step(ops[i].text());
    std::string store = c.dir + "/store";
    // Runs the script in a process of its own, which dies before the `last`th change of the store within its `call`th
    // call, or when that call is over. Random choices within securefs make the number of changes vary a little.
    auto run = [&](long call, long last)
    {
        remove_tree(store);
        make_dir(store);
        memset((void*)g_sh, 0, sizeof *g_sh);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            alarm(60);
            // The repository is made before; dying in its very first mount is not judged.
            {
                Mount m0(store, cf);
                struct stat sb;
                m0.getattr("/", sb);
            }
            fault::Armed armed(store,
                               [&](const fault::Op& op)
                               {
                                   if (op.mutates)
                                   {
                                       if (call >= 0 && g_sh->begun == call + 1 && g_sh->ops - g_sh->at[call] == last)
                                           _exit(7);
                                       g_sh->ops = g_sh->ops + 1;
                                   }
                                   return fault::Verdict{};
                               });
            Mount m(store, cf);
            SHandles hs;
            for (size_t i = 0; i < n; ++i)
            {
                g_sh->at[i] = g_sh->ops;
                g_sh->begun = (int)i + 1;
                std::string wrong;
                if (ops[i].kind == S_REMOUNT)
                {
                    auto x = hs;
                    for (auto& [k, fi] : x)
                        if (st[i].h.at(k).dir)
                            m.releasedir(st[i].h.at(k).path, fi);
                        else
                            m.release(st[i].h.at(k).path, fi);
                    hs.clear();
                    m.close();
                    m.open(store, cf);
                }
                int r = exec(m, hs, ops[i], st[i], wrong);
                if (r || !wrong.empty())
                {
                    snprintf(g_sh->text, sizeof g_sh->text, "%s: %d %s", ops[i].text().c_str(), r, wrong.c_str());
                    _exit(8);
                }
                g_sh->done = (int)i + 1;
                if ((long)i == call)
                    _exit(7);
            }
            g_sh->at[n] = g_sh->ops;
            _exit(7);
        }
        int stt;
        waitpid(pid, &stt, 0);
        if (WIFSIGNALED(stt))
            fail("the process dies by signal " + std::to_string(WTERMSIG(stt)) + " in call " + std::to_string((int)g_sh->begun));
        if (WEXITSTATUS(stt) == 8)
            fail(std::string(g_sh->text));
        if (WEXITSTATUS(stt) != 7)
            fail("the process ends with " + std::to_string(WEXITSTATUS(stt)) + " in call " + std::to_string((int)g_sh->begun));
    };
    run(-1, 0);
    std::vector<long> at(g_sh->at, g_sh->at + n + 1);
    std::vector<std::pair<long, long>> points;
    // Between calls, and within them.
    size_t want = s.pick({3, 5, 8});
    for (size_t i = 0; i < want; ++i)
    {
        long k, in;
        if (s.chance(1, 4))
        {
            k = (long)s.below(n);
            in = at[k + 1] - at[k];
        }
        else
        {
            long x = (long)s.below((size_t)(at[n] - at[0]) + 1) + at[0];
            k = (long)(std::upper_bound(at.begin(), at.end(), x) - at.begin()) - 1;
            k = std::min(k, (long)n - 1);
            in = x - at[k];
        }
        points.push_back({k, in});
    }
    int judged = 0;
    for (auto& pt : points)
    {
        run(pt.first, pt.second);
        size_t begun = (size_t)g_sh->begun, done = (size_t)g_sh->done;
        bool in = begun != done;
        SState x = st[done];
        for (auto& [id, nd] : x.n)
            if (nd.opens)
                nd.nlink = -1;    // kept with the object in memory until it is closed or flushed
        std::set<int> skip;
        std::set<std::string> open;
        std::string when = in ? "death before change " + std::to_string(pt.second + 1) + " in call " + std::to_string(begun) + " (" + ops[done].text() + ")" : "death after call " + std::to_string(done);
        if (in)
        {
            STouched t = touched(x, ops[done]);
            bool rd = !mutates(ops[done]) && !full;    // these change nothing in the lite format
            if (!rd)
            {
                skip = t.nodes;
                open = t.paths;
            }
            if (full)
            {
                // Objects that the call writes, with all that is reached through them.
                auto up = [&](const std::string& p, bool all)
                {
                    std::string d = p;
                    do
                    {
                        size_t k = d.rfind('/');
                        d = k == 0 ? "/" : d.substr(0, k);
                        int id = x.lookup(d);
                        if (id >= 0)
                            skip.insert(id);
                    } while (all && d != "/");
                };
                for (auto& p : t.paths)
                    up(p, false);
                if (cf.store_time)
                {
                    skip.insert(0);
                    for (auto& p : {ops[done].a, ops[done].b})
                        if (!p.empty() && p[0] == '/')
                            up(p, true);
                }
            }
            if (!full && ops[done].kind == S_RENAME)
                skip.erase(x.lookup(ops[done].a));    // see below
        }
        for (auto& [id, nd] : x.n)
            if (nd.dirty)
                skip.insert(id);
        Mount m;
        try
        {
            m.open(store, cf);
        }
        catch (const std::exception& e)
        {
            if (full && skip.count(0))
                continue;
            fail(when + ": it cannot be mounted again: " + e.what());
        }
        auto sk = [&](int id) { return skip.count(id) > 0; };
        auto op = [&](const std::string& p) { return open.count(p) > 0; };
        std::string bad = verify(m, x, cf, sk, op);
        if (bad.empty() && in && !full && ops[done].kind == S_RENAME)
        {
            // A renamed object is there under the old or the new name.
            SState y = x;
            apply(y, ops[done]);
            auto none = [&](const std::string& p) { return open.count(p) && p != ops[done].b; };
            auto none2 = [&](const std::string& p) { return open.count(p) && p != ops[done].a; };
            skip.erase(x.lookup(ops[done].a));
            std::string b1 = verify(m, x, cf, sk, none2), b2 = verify(m, y, cf, sk, none);
            if (!b1.empty() && !b2.empty())
                bad = b1 + "; and " + b2;
        }
        if (!bad.empty())
            fail(when + ": " + bad);
        if (in && skip.count(0))
        {
            c.label("only that it does not crash");
            continue;
        }
        ++judged;
        c.label(in ? full ? "in a call, full" : "in a call, lite" : "between calls");
    }
    c.nontrivial = judged > 0 && st.back().n.size() > 2;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S17";
    p.rule = "a history of calls is run in a process that dies before a chosen change of the store, the repository is mounted again and compared with the model for "
             "at least one such point, and the history leaves at least two objects";
    p.assumptions = {"the process dies, not the machine: what it handed to the kernel stays",
                     "the repository has been mounted once before",
                     "within a call of the full format, what is reached through the directories that the call writes is not judged, and with stored times what is "
                     "reached through any directory that it passes"};
    p.quick_cases = 6000;
    p.thorough_cases = 200000;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
        g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    };
    p.tests = {{"crash", crash_case, 1, 120}};
    return run_main(argc, argv, p);
}
