// S18: several threads on one mount. The calls of each thread are generated in advance, run with generated delays at the
// operations on the store, and judged afterwards by searching for a sequential order that explains every result and the
// final tree (Wing and Gong's search over the recorded intervals). Built with ThreadSanitizer, which watches for races;
// what the harness itself uses to coordinate is kept invisible to it.
#include "fault.h"
#include "fsdrv.h"
#include "script.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

using namespace vp;
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))
namespace
{
// ---- coordination that orders nothing for the race detector
uint64_t g_clock;
UNSEEN uint64_t tick() { return __atomic_add_fetch(&g_clock, 1, __ATOMIC_SEQ_CST); }
int g_waiting;
UNSEEN void arrive(int n)
{
    __atomic_add_fetch(&g_waiting, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n(&g_waiting, __ATOMIC_SEQ_CST) < n)
        sched_yield();
}
UNSEEN void reset_sync()
{
    g_waiting = 0;
    g_clock = 0;
}
thread_local uint64_t t_rng = 0;    // 0: no delays in this thread
thread_local unsigned t_mode = 0;
UNSEEN void delay()
{
    if (!t_rng)
        return;
    t_rng = mix(t_rng);
    if (!t_rng)
        t_rng = 1;
    unsigned r = (unsigned)(t_rng >> 20) % 64;
    int e = errno;
    if (t_mode == 1 ? r < 2 : t_mode == 2 ? r < 20 : r < 8)
        usleep((unsigned)(t_rng >> 40) % (t_mode == 1 ? 2000 : 150));
    else if (r < 40)
        sched_yield();
    errno = e;
}
extern "C" void vp_mutex_delay() { delay(); }
// Locks on numbered things, all at once: the exclusion libfuse and the kernel provide.
constexpr int kLocks = 96;
int g_spin;
int g_locks[kLocks];    // readers, or -1
UNSEEN bool try_locks(const std::vector<int>* rd, const std::vector<int>* wr)
{
    while (__atomic_exchange_n(&g_spin, 1, __ATOMIC_SEQ_CST))
        sched_yield();
    bool ok = true;
    const int *r = rd->data(), *w = wr->data();
    size_t nr = rd->size(), nw = wr->size();
    for (size_t i = 0; i < nr; ++i)
        ok = ok && g_locks[r[i]] >= 0;
    for (size_t i = 0; i < nw; ++i)
        ok = ok && g_locks[w[i]] == 0;
    if (ok)
    {
        for (size_t i = 0; i < nr; ++i)
            ++g_locks[r[i]];
        for (size_t i = 0; i < nw; ++i)
            g_locks[w[i]] = -1;
    }
    __atomic_store_n(&g_spin, 0, __ATOMIC_SEQ_CST);
    return ok;
}
UNSEEN void drop_locks(const std::vector<int>* rd, const std::vector<int>* wr)
{
    while (__atomic_exchange_n(&g_spin, 1, __ATOMIC_SEQ_CST))
        sched_yield();
    const int *r = rd->data(), *w = wr->data();
    for (size_t i = 0, n = rd->size(); i < n; ++i)
        --g_locks[r[i]];
    for (size_t i = 0, n = wr->size(); i < n; ++i)
        g_locks[w[i]] = 0;
    __atomic_store_n(&g_spin, 0, __ATOMIC_SEQ_CST);
}

// ---- the search for a sequential order
struct Ev
{
    uint64_t start, end;
    int object;    // -1: any
    std::string text;
};
// `apply(i, state)`: the outcome of event i is possible in the state, which becomes the one after it.
template <class State, class Apply>
int linearize(const std::vector<Ev>& ev, const State& init, Apply apply, size_t budget = 400000)
{
    size_t n = ev.size();
    std::vector<size_t> ord(n);
    for (size_t i = 0; i < n; ++i)
        ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return ev[a].start < ev[b].start; });
    std::unordered_set<std::string> seen;
    std::string mask(n, '0');
    size_t nodes = 0;
    std::function<int(const State&, size_t)> go = [&](const State& st, size_t done) -> int
    {
        if (done == n)
            return 1;
        if (++nodes > budget)
            return -1;
        if (!seen.insert(mask + st.key()).second)
            return 0;
        uint64_t first_end = UINT64_MAX;
        for (size_t k = 0; k < n; ++k)
            if (mask[k] == '0')
                first_end = std::min(first_end, ev[ord[k]].end);
        for (size_t k = 0; k < n; ++k)
        {
            if (mask[k] != '0')
                continue;
            if (ev[ord[k]].start > first_end)
                break;
            State next = st;
            if (!apply(ord[k], next))
                continue;
            mask[k] = '1';
            int r = go(next, done + 1);
            mask[k] = '0';
            if (r)
                return r;
        }
        return 0;
    };
    return go(init, 0);
}
std::string history(const std::vector<Ev>& ev, int object)
{
    std::vector<const Ev*> v;
    for (auto& e : ev)
        if (object < 0 || e.object == object || e.object < 0)
            v.push_back(&e);
    std::stable_sort(v.begin(), v.end(), [](auto a, auto b) { return a->start < b->start; });
    std::string r;
    for (auto e : v)
        if (r.size() < 3000)
            r += "\n    [" + std::to_string(e->start) + "," + std::to_string(e->end) + "] " + e->text;
    return r;
}
std::string err(int rc) { return rc >= 0 ? std::to_string(rc) : strerror(-rc); }
std::string brief(const std::string& d)    // runs of equal characters
{
    std::string r;
    for (size_t i = 0; i < d.size();)
    {
        size_t j = i;
        while (j < d.size() && d[j] == d[i])
            ++j;
        r += (d[i] ? std::string(1, d[i]) : "0") + "*" + std::to_string(j - i) + " ";
        i = j;
    }
    return r.empty() ? "nothing" : r;
}

// ================================================================ contents of shared files
enum FKind
{
    F_READ,
    F_WRITE,
    F_FTRUNC,
    F_FSTAT,
    F_FLUSH,
    F_FSYNC,
    F_TRUNC,
    F_STAT,
    F_CHMOD,
    F_SETX,
    F_GETX,
    F_DELX,
    F_OPEN,       // own handle of the thread, with or without truncation
    F_RELEASE,
    F_READ_OWN,
    F_WRITE_OWN,
};
struct FOp
{
    FKind k;
    int file, path, handle;    // path: which of the names
    off_t off = 0;
    size_t len = 0;
    std::string data;
    // outcome
    int rc = 0;
    std::string out;
    struct stat st
    {
    };
};
struct FState
{
    std::string data;
    unsigned mode = 0;
    std::string x[2];
    bool has[2] = {false, false};
    std::string key() const { return data + "|" + std::to_string(mode) + "|" + (has[0] ? x[0] : "-") + "|" + (has[1] ? x[1] : "-"); }
};
const char* const kX[2] = {"user.one", "user.two"};
std::string fop_text(const FOp& o)
{
    static const char* n[] = {"read", "write", "ftruncate", "fgetattr", "flush", "fsync", "truncate", "getattr", "chmod", "setxattr", "getxattr", "removexattr", "open", "release", "read", "write"};
    std::string r = std::string(n[o.k]) + " file" + std::to_string(o.file);
    switch (o.k)
    {
    case F_READ:
    case F_READ_OWN:
        return r + (o.k == F_READ ? " shared" : "") + " " + std::to_string(o.len) + " at " + std::to_string(o.off) + " -> " + err(o.rc) + ": " + brief(o.out);
    case F_WRITE:
    case F_WRITE_OWN:
        return r + (o.k == F_WRITE ? " shared" : "") + " " + brief(o.data) + "at " + std::to_string(o.off) + " -> " + err(o.rc);
    case F_FTRUNC:
    case F_TRUNC:
        return r + " to " + std::to_string(o.off) + " -> " + err(o.rc);
    case F_FSTAT:
    case F_STAT:
        return r + " -> " + err(o.rc) + " size " + std::to_string(o.st.st_size) + " mode " + std::to_string(o.st.st_mode & 07777);
    case F_CHMOD:
        return r + " " + std::to_string(o.len) + " -> " + err(o.rc);
    case F_SETX:
    case F_GETX:
    case F_DELX:
        return r + " " + kX[o.len] + " " + brief(o.k == F_SETX ? o.data : o.out) + " -> " + err(o.rc);
    case F_OPEN:
        return r + (o.len ? " trunc" : "") + " -> " + err(o.rc);
    default:
        return r + " -> " + err(o.rc);
    }
}
bool fop_apply(const FOp& o, FState& s, bool full)
{
    auto put = [&](size_t off, const std::string& d)
    {
        if (d.empty())
            return;
        if (s.data.size() < off + d.size())
            s.data.resize(off + d.size(), '\0');
        s.data.replace(off, d.size(), d);
    };
    switch (o.k)
    {
    case F_READ:
    case F_READ_OWN:
        return o.out == (o.off >= (off_t)s.data.size() ? "" : s.data.substr(o.off, o.len));
    case F_WRITE:
    case F_WRITE_OWN:
        put(o.off, o.data);
        return true;
    case F_FTRUNC:
    case F_TRUNC:
        s.data.resize(o.off, '\0');
        return true;
    case F_OPEN:
        if (o.len)
            s.data.clear();
        return true;
    case F_STAT:
    case F_FSTAT:
        // The size by path in the lite format is that of the stored file, which grows in steps within a write.
        return (o.st.st_mode & 07777) == s.mode && ((o.k == F_STAT && !full) || o.st.st_size == (off_t)s.data.size());
    case F_CHMOD:
        s.mode = (unsigned)o.len;
        return true;
    case F_SETX:
        s.has[o.len] = true;
        s.x[o.len] = o.data;
        return true;
    case F_GETX:
        return o.rc == -ENODATA ? !s.has[o.len] : s.has[o.len] && s.x[o.len] == o.out;
    case F_DELX:
        if (o.rc == -ENODATA)
            return !s.has[o.len];
        if (!s.has[o.len])
            return false;
        s.has[o.len] = false;
        return true;
    default:
        return true;
    }
}
void files_test(Ctx& c)
{
    Src& s = c.s;
    reset_sync();
    FsConfig cf = gen_config(s, s.coin());
    if (cf.block > 512)
        cf.block = 64;
    unsigned nfiles = 1 + (unsigned)s.below(2), nthreads = 2 + (unsigned)s.below(3);
    unsigned nops = 3 + (unsigned)s.below(nthreads > 3 ? 4 : 6);
    bool attrs = s.chance(1, 3);
    size_t max = s.coin() ? cf.block * 4 : 40;
    c.step(cf.text() + " files=" + std::to_string(nfiles) + " threads=" + std::to_string(nthreads));
    std::string dir = make_dir(c.dir + "/r");
    Mount m(dir, cf);
    std::vector<FState> init(nfiles);
    std::vector<std::vector<std::string>> names(nfiles);
    std::vector<fuse_file_info> shared;
    std::vector<int> shared_of;
    for (unsigned i = 0; i < nfiles; ++i)
    {
        std::string p = "/f" + std::to_string(i);
        names[i].push_back(p);
        fuse_file_info fi{};
        VREQ(m.create(p, S_IFREG | 0640, fi) == 0, "create failed");
        init[i].mode = 0640;
        size_t n = s.below(max);
        init[i].data = std::string(n, 'o');
        if (n)
            VREQ(m.write(p, init[i].data, 0, fi) == (int)n, "write failed");
        if (s.coin())
        {
            shared.push_back(fi);
            shared_of.push_back((int)i);
        }
        else
            m.release(p, fi);
        if (s.coin())
        {
            names[i].push_back("/link" + std::to_string(i));
            VREQ(m.link(p, names[i].back()) == 0, "link failed");
        }
        if (s.coin())
        {
            fuse_file_info f2{};
            f2.flags = O_RDWR;
            VREQ(m.open(p, O_RDWR, f2) == 0, "open failed");
            shared.push_back(f2);
            shared_of.push_back((int)i);
        }
    }
    std::vector<std::vector<FOp>> plan(nthreads);
    char letter = 'A';
    for (auto& th : plan)
    {
        bool own = false;
        int own_file = 0;
        for (unsigned k = 0; k < nops; ++k)
        {
            FOp o{};
            o.file = (int)s.below(nfiles);
            o.path = (int)s.below(names[o.file].size());
            o.handle = -1;
            unsigned w = (unsigned)s.below(20);
            if (attrs && s.coin())
                o.k = s.pick({F_CHMOD, F_SETX, F_GETX, F_DELX, F_STAT});
            else if (!own && w < 5)
                o.k = F_OPEN;
            else if (own && w < 3)
                o.k = F_RELEASE;
            else if (own && w < 12)
                o.k = s.pick({F_READ_OWN, F_WRITE_OWN, F_WRITE_OWN});
            else if (!shared.empty() && w < 18)
                o.k = s.pick({F_READ, F_WRITE, F_WRITE, F_READ, F_FTRUNC, F_FSTAT, F_FLUSH, F_FSYNC});
            else
                o.k = s.pick({F_TRUNC, F_STAT});
            switch (o.k)
            {
            case F_OPEN:
                o.len = s.chance(1, 4);
                own = true;
                own_file = o.file;
                break;
            case F_RELEASE:
            case F_READ_OWN:
            case F_WRITE_OWN:
                o.file = own_file;
                o.path = 0;
                own = o.k != F_RELEASE;
                break;
            case F_READ:
            case F_WRITE:
            case F_FTRUNC:
            case F_FSTAT:
            case F_FLUSH:
            case F_FSYNC:
                o.handle = (int)s.below(shared.size());
                o.file = shared_of[o.handle];
                o.path = 0;
                break;
            case F_CHMOD:
                o.len = 0600 + s.below(64);
                break;
            case F_SETX:
            case F_GETX:
            case F_DELX:
                o.len = s.below(2);
                break;
            default:
                break;
            }
            if (o.k == F_READ || o.k == F_READ_OWN)
            {
                o.off = s.coin() ? 0 : (off_t)s.below(max);
                o.len = s.coin() ? 4096 : 1 + s.below(max);
            }
            if (o.k == F_WRITE || o.k == F_WRITE_OWN)
            {
                o.off = s.coin() ? 0 : (off_t)s.below(max);
                o.data = std::string(1 + s.below(max * 2), letter);
            }
            if (o.k == F_SETX)
                o.data = std::string(1 + s.below(40), letter);
            if (o.k == F_FTRUNC || o.k == F_TRUNC)
                o.off = (off_t)s.below(max * 2);
            letter = letter == 'Z' ? 'a' : letter == 'z' ? '0' : letter + 1;
            th.push_back(o);
        }
    }
    std::vector<std::vector<Ev>> evs(nthreads);
    for (auto& v : evs)
        v.resize(nops + 1);
    uint64_t seed = 1 + s.below(1u << 30);
    unsigned mode = (unsigned)s.below(3);
    fault::g_delay = delay;
    {
        std::vector<std::thread> ths;
        for (unsigned t = 0; t < nthreads; ++t)
            ths.emplace_back(
                [&, t]
                {
                    t_rng = mix(seed + t) | 1;
                    t_mode = mode;
                    fuse_file_info own{};
                    bool is_open = false;
                    std::string own_path;
                    arrive((int)nthreads);
                    for (unsigned k = 0; k < nops; ++k)
                    {
                        FOp& o = plan[t][k];
                        const std::string& p = names[o.file][o.path];
                        fuse_file_info fi{};
                        if (o.handle >= 0)
                            fi = shared[o.handle];
                        delay();
                        evs[t][k].start = tick();
                        switch (o.k)
                        {
                        case F_READ:
                            o.rc = m.read(p, o.out, o.len, o.off, fi);
                            break;
                        case F_READ_OWN:
                            if (is_open)
                                o.rc = m.read(own_path, o.out, o.len, o.off, own);
                            break;
                        case F_WRITE:
                            o.rc = m.write(p, o.data, o.off, fi);
                            break;
                        case F_WRITE_OWN:
                            if (is_open)
                                o.rc = m.write(own_path, o.data, o.off, own);
                            break;
                        case F_FTRUNC:
                            o.rc = m.ftruncate(p, o.off, fi);
                            break;
                        case F_FSTAT:
                            o.rc = m.fgetattr(p, o.st, fi);
                            break;
                        case F_FLUSH:
                            o.rc = m.flush(p, fi);
                            break;
                        case F_FSYNC:
                            o.rc = m.fsync(p, false, fi);
                            break;
                        case F_TRUNC:
                            o.rc = m.truncate(p, o.off);
                            break;
                        case F_STAT:
                            o.rc = m.getattr(p, o.st);
                            break;
                        case F_CHMOD:
                            o.rc = m.chmod(p, S_IFREG | (mode_t)o.len);
                            break;
                        case F_SETX:
                            o.rc = m.setxattr(p, kX[o.len], o.data);
                            break;
                        case F_GETX:
                            o.rc = m.getxattr(p, kX[o.len], o.out);
                            break;
                        case F_DELX:
                            o.rc = m.removexattr(p, kX[o.len]);
                            break;
                        case F_OPEN:
                            own = {};
                            o.rc = m.open(p, O_RDWR | (o.len ? O_TRUNC : 0), own);
                            is_open = o.rc == 0;
                            own_path = p;
                            break;
                        case F_RELEASE:
                            if (is_open)
                            {
                                m.flush(own_path, own);
                                o.rc = m.release(own_path, own);
                            }
                            is_open = false;
                            break;
                        }
                        evs[t][k].end = tick();
                    }
                    if (is_open)
                        m.release(own_path, own);
                });
        for (auto& t : ths)
            t.join();
    }
    fault::g_delay = nullptr;
    for (size_t i = 0; i < shared.size(); ++i)
        m.release(names[shared_of[i]][0], shared[i]);
    std::vector<FOp> ops;
    std::vector<Ev> ev;
    size_t overlaps = 0;
    for (unsigned t = 0; t < nthreads; ++t)
        for (unsigned k = 0; k < nops; ++k)
        {
            FOp& o = plan[t][k];
            Ev e = evs[t][k];
            e.object = o.file;
            e.text = "thread " + std::to_string(t) + ": " + fop_text(o);
            if (c.verbose)
                fprintf(stderr, "    [%lu,%lu] %s\n", (unsigned long)e.start, (unsigned long)e.end, e.text.c_str());
            bool ok = o.rc >= 0 || ((o.k == F_GETX || o.k == F_DELX) && o.rc == -ENODATA);
            if ((o.k == F_WRITE || o.k == F_WRITE_OWN) && o.rc >= 0)
                ok = o.rc == (int)o.data.size();
            ev.push_back(e);
            ops.push_back(o);
            VREQ(ok, "a call failed: " + e.text + history(ev, -1));
        }
    for (size_t i = 0; i < ev.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            overlaps += ev[i].object == ev[j].object && ev[i].start < ev[j].end && ev[j].start < ev[i].end;
    c.nontrivial = overlaps >= 2;
    c.label("overlapping pairs on one file", overlaps);
    c.label(cf.full ? "files full" : "files lite");
    for (int round = 0; round < 2; ++round)
    {
        if (round)
            m.open(dir, cf);
        for (unsigned i = 0; i < nfiles; ++i)
            for (auto& p : names[i])
            {
                FOp o{};
                o.file = (int)i;
                o.k = F_READ;
                o.len = 1 << 16;
                o.rc = m.get(p, o.out);
                Ev e{tick(), 0, (int)i, ""};
                e.end = tick();
                e.text = std::string(round ? "after remounting: " : "at the end: ") + fop_text(o);
                VREQ(o.rc >= 0, "the file is unreadable: " + e.text + history(ev, (int)i));
                ops.push_back(o);
                ev.push_back(e);
                FOp g{};
                g.file = (int)i;
                g.k = F_STAT;
                g.rc = m.getattr(p, g.st);
                e.start = tick();
                e.end = tick();
                e.text = std::string(round ? "after remounting: " : "at the end: ") + fop_text(g);
                VREQ(g.rc == 0, "getattr fails: " + e.text + history(ev, (int)i));
                VREQ(g.st.st_size == (off_t)o.out.size(), "getattr shows another size than the file has: " + e.text + history(ev, (int)i));
                ops.push_back(g);
                ev.push_back(e);
                if (attrs)
                    for (int x = 0; x < 2; ++x)
                    {
                        FOp a{};
                        a.file = (int)i;
                        a.k = F_GETX;
                        a.len = (size_t)x;
                        a.rc = m.getxattr(p, kX[x], a.out);
                        e.start = tick();
                        e.end = tick();
                        e.text = std::string(round ? "after remounting: " : "at the end: ") + fop_text(a);
                        VREQ(a.rc >= 0 || a.rc == -ENODATA, "getxattr fails: " + e.text + history(ev, (int)i));
                        ops.push_back(a);
                        ev.push_back(e);
                    }
            }
    }
    for (unsigned i = 0; i < nfiles; ++i)
    {
        std::vector<Ev> mine;
        std::vector<const FOp*> mo;
        for (size_t k = 0; k < ev.size(); ++k)
            if (ev[k].object == (int)i)
            {
                mine.push_back(ev[k]);
                mo.push_back(&ops[k]);
            }
        int r = linearize(mine, init[i], [&](size_t k, FState& st) { return fop_apply(*mo[k], st, cf.full); });
        if (r < 0)
            c.label("undecided");
        VREQ(r != 0, "no order of the calls on file" + std::to_string(i) + " (" + brief(init[i].data) + " before) explains the results:" + history(mine, -1));
    }
}

// ================================================================ the tree
enum NKind
{
    N_CREATE,      // and write its tag and release
    N_GET,
    N_UNLINK,
    N_RENAME,
    N_LINK,
    N_SYMLINK,
    N_MKDIR,
    N_RMDIR,
    N_STAT,
    N_LS,
    N_PATH,    // the stored spelling, asked for in capitals
};
struct NOp
{
    NKind k;
    int a, b = -1;    // paths
    int rc = 0;
    std::string out;
    char type = 0;
    std::set<std::string> seen;
    uint64_t t[4] = {};    // steps of composites
    int rcs[3] = {};
};
struct NState
{
    std::map<int, std::pair<char, int>> e;    // path -> type, object
    std::map<int, std::string> data;
    std::map<int, int> handle;    // of call number
    std::string key() const
    {
        std::string r;
        auto num = [&](int v) { r += std::to_string(v) + ","; };
        for (auto& [p, x] : e)
        {
            num(p);
            num(x.second);
        }
        r += '|';
        for (auto& [p, x] : data)
            r += std::to_string(p) + "=" + x + ",";
        r += '|';
        for (auto& [p, x] : handle)
        {
            num(p);
            num(x);
        }
        return r;
    }
};
void names_test(Ctx& c)
{
    Src& s = c.s;
    reset_sync();
    FsConfig cf = gen_config(s, s.coin());
    if (cf.block > 512)
        cf.block = 64;
    if (cf.full)
        cf.ci = s.coin();
    bool klocks = s.coin();
    unsigned nthreads = 2 + (unsigned)s.below(3), nops = 2 + (unsigned)s.below(nthreads > 3 ? 3 : 5);
    c.step(cf.text() + " threads=" + std::to_string(nthreads) + (klocks ? " kernel locks" : ""));
    // Paths: directories first; every path has a type for good, so that no call is one the kernel would refuse.
    struct P
    {
        std::string path, name;
        int parent;
        char type;
    };
    std::vector<P> ps = {{"/", "", -1, 'd'}};
    auto add = [&](int parent, std::string name, char type)
    {
        bool lng = s.chance(1, 4);
        if (lng)
            name += std::string((cf.threshold ? *cf.threshold : 100) + 2, 'z');
        if (name.size() > 140)
            name.resize(140);
        ps.push_back({ps[parent].path == "/" ? "/" + name : ps[parent].path + "/" + name, name, parent, type});
        return (int)ps.size() - 1;
    };
    int fixed = (int)s.below(3);
    for (int i = 0; i < fixed; ++i)
        add(0, "d" + std::to_string(i), 'd');
    int nfixed = (int)ps.size();
    std::vector<int> F, D, L;
    for (int i = 0; i < nfixed; ++i)
    {
        for (unsigned k = 0, n = 1 + (unsigned)s.below(3); k < n; ++k)
            F.push_back(add(i, "f" + std::to_string(k), 'f'));
        if (s.coin())
            L.push_back(add(i, "l", 'l'));
        if (s.coin())
        {
            int d = add(i, "D", 'd');
            D.push_back(d);
            if (s.coin())
                F.push_back(add(d, "in", 'f'));
        }
    }
    std::string dir = make_dir(c.dir + "/r");
    Mount m(dir, cf);
    NState init;
    int next_obj = 1;
    std::map<int, std::string> paths;
    for (int i = 1; i < (int)ps.size(); ++i)
    {
        bool there = i < nfixed || (s.coin() && (ps[i].parent < nfixed || init.e.count(ps[i].parent)));
        if (!there)
            continue;
        int rc;
        if (ps[i].type == 'd')
            rc = m.mkdir(ps[i].path, 0755);
        else if (ps[i].type == 'l')
            rc = m.symlink("target", ps[i].path);
        else
        {
            std::string d = "init" + std::to_string(i);
            rc = m.put(ps[i].path, d);
            init.data[next_obj] = d;
        }
        VREQ(rc >= 0, "cannot set up " + q(ps[i].path) + ": " + err(rc));
        if (i >= nfixed)
            init.e[i] = {ps[i].type, next_obj};
        ++next_obj;
    }
    std::vector<std::vector<NOp>> plan(nthreads);
    // Often everything happens around one name.
    bool hot = s.chance(1, 3);
    std::vector<int> hot_files(F.begin(), F.begin() + std::min<size_t>(F.size(), 1 + s.below(2)));
    for (auto& th : plan)
        for (unsigned k = 0; k < nops; ++k)
        {
            NOp o{};
            for (;;)
            {
                if (hot && s.chance(4, 5))
                {
                    o.k = s.pick({N_CREATE, N_UNLINK, N_GET, N_STAT, N_GET, N_UNLINK});
                    if (cf.full && cf.ci && o.k == N_STAT)
                        o.k = N_PATH;
                    o.a = hot_files[s.below(hot_files.size())];
                    o.b = -1;
                    break;
                }
                o.k = s.pick({N_CREATE, N_UNLINK, N_RENAME, N_LINK, N_CREATE, N_RENAME, N_GET, N_STAT, N_LS, N_MKDIR, N_RMDIR, N_SYMLINK});
                if (cf.full && cf.ci && (o.k == N_STAT || o.k == N_LS) && s.coin())
                    o.k = N_PATH;
                o.b = -1;
                auto from = [&](const std::vector<int>& v) { return v[s.below(v.size())]; };
                if (o.k == N_CREATE || o.k == N_GET)
                    o.a = from(F);
                else if (o.k == N_LINK)
                {
                    o.a = from(F);
                    o.b = from(F);
                    if (o.a == o.b)
                        continue;
                }
                else if (o.k == N_SYMLINK)
                {
                    if (L.empty())
                        continue;
                    o.a = from(L);
                }
                else if (o.k == N_MKDIR || o.k == N_RMDIR)
                {
                    if (D.empty())
                        continue;
                    o.a = from(D);
                }
                else if (o.k == N_UNLINK || o.k == N_RENAME)
                {
                    auto& v = !L.empty() && s.chance(1, 4) ? L : o.k == N_RENAME && !D.empty() && s.chance(1, 4) ? D : F;
                    o.a = from(v);
                    if (o.k == N_RENAME)
                    {
                        o.b = from(v);
                        if (o.a == o.b)
                            continue;
                        // Names below a moved directory have no paths of their own here.
                        if (ps[o.a].type == 'd')
                        {
                            bool kids = false;
                            for (auto& p : ps)
                                kids = kids || p.parent == o.a || p.parent == o.b;
                            if (kids)
                                continue;
                        }
                    }
                }
                else if (o.k == N_STAT || o.k == N_PATH)
                    o.a = nfixed + (int)s.below(ps.size() - nfixed);
                else
                    o.a = (int)s.below(nfixed);
                break;
            }
            th.push_back(o);
        }
    uint64_t seed = 1 + s.below(1u << 30);
    unsigned mode = (unsigned)s.below(3);
    // Locks: i for the path in libfuse's tree, 32+i for the kernel's lock of the directory, 64+i for the creation of a name.
    VREQ(ps.size() < 32, "too many paths");
    auto path_locks = [&](int p, std::vector<int>& r)
    {
        for (p = ps[p].parent; p >= 0; p = ps[p].parent)
            if (std::find(r.begin(), r.end(), p) == r.end())
                r.push_back(p);
    };
    auto once = [](std::vector<int>& r, int v)
    {
        if (std::find(r.begin(), r.end(), v) == r.end())
            r.push_back(v);
    };
    fault::g_delay = delay;
    {
        std::vector<std::thread> ths;
        for (unsigned t = 0; t < nthreads; ++t)
            ths.emplace_back(
                [&, t]
                {
                    t_rng = mix(seed + t) | 1;
                    t_mode = mode;
                    arrive((int)nthreads);
                    for (unsigned k = 0; k < nops; ++k)
                    {
                        NOp& o = plan[t][k];
                        const std::string& p = ps[o.a].path;
                        std::vector<int> rd, wr;
                        path_locks(o.a, rd);
                        if (o.b >= 0)
                            path_locks(o.b, rd);
                        bool changes = o.k != N_STAT && o.k != N_LS && o.k != N_GET && o.k != N_PATH;
                        if (o.k == N_UNLINK || o.k == N_RMDIR || o.k == N_RENAME)
                            wr.push_back(o.a);
                        else if (!changes || o.k == N_LINK)
                            rd.push_back(o.a);
                        if (o.k == N_RENAME)
                            wr.push_back(o.b);
                        // Nothing opens a name while its creation is under way.
                        if (o.k == N_CREATE)
                            rd.push_back(64 + o.a);
                        if (o.k == N_GET)
                            wr.push_back(64 + o.a);
                        if (klocks && changes)
                        {
                            once(wr, 32 + (o.k == N_LINK ? ps[o.b].parent : ps[o.a].parent));
                            if (o.k == N_RENAME)
                                once(wr, 32 + ps[o.b].parent);
                            if (o.k == N_RMDIR || (o.k == N_RENAME && ps[o.a].type == 'd'))
                                once(wr, 32 + o.a);
                            if (o.k == N_RENAME && ps[o.a].type == 'd')
                                once(wr, 32 + o.b);
                        }
                        else if (klocks && o.k == N_LS)
                            rd.push_back(32 + o.a);
                        delay();
                        while (!try_locks(&rd, &wr))
                            usleep(10);
                        o.t[0] = tick();
                        fuse_file_info fi{};
                        switch (o.k)
                        {
                        case N_CREATE: {
                            o.rc = m.create(p, S_IFREG | 0644, fi);
                            break;
                        }
                        case N_GET:
                            o.rc = m.open(p, O_RDONLY, fi);
                            break;
                        case N_UNLINK:
                            o.rc = m.unlink(p);
                            break;
                        case N_RENAME:
                            o.rc = m.rename(p, ps[o.b].path);
                            break;
                        case N_LINK:
                            o.rc = m.link(p, ps[o.b].path);
                            break;
                        case N_SYMLINK:
                            o.rc = m.symlink("target", p);
                            break;
                        case N_MKDIR:
                            o.rc = m.mkdir(p, 0755);
                            break;
                        case N_RMDIR:
                            o.rc = m.rmdir(p);
                            break;
                        case N_STAT: {
                            struct stat st;
                            o.rc = m.getattr(p, st);
                            if (!o.rc)
                                o.type = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
                            break;
                        }
                        case N_PATH: {
                            std::string asked = p;
                            for (char& ch : asked)
                                ch = (char)toupper(ch);
                            o.rc = m.getpath(asked, o.out);
                            break;
                        }
                        case N_LS: {
                            std::vector<DirEnt> v;
                            o.rc = m.ls(p, v);
                            for (auto& x : v)
                                o.out += o.seen.insert(x.name).second ? "" : x.name;
                            break;
                        }
                        }
                        o.t[1] = tick();
                        drop_locks(&rd, &wr);
                        if (o.rc == 0 && (o.k == N_CREATE || o.k == N_GET))
                        {
                            delay();
                            o.t[2] = tick();
                            if (o.k == N_CREATE)
                            {
                                o.out = "t" + std::to_string(t) + "." + std::to_string(k);
                                o.rcs[0] = m.write(p, o.out, 0, fi);
                            }
                            else
                                o.rcs[0] = m.read(p, o.out, 100, 0, fi);
                            o.t[3] = tick();
                            delay();
                            o.rcs[1] = m.flush(p, fi);
                            o.rcs[2] = m.release(p, fi);
                        }
                    }
                });
        for (auto& t : ths)
            t.join();
    }
    fault::g_delay = nullptr;
    // Each event: a function of the state.
    std::vector<Ev> ev;
    std::vector<std::function<bool(NState&)>> fn;
    static const char* kn[] = {"create", "open", "unlink", "rename", "link", "symlink", "mkdir", "rmdir", "getattr", "readdir", "getpath"};
    auto exists = [nfixed](NState& x, int p) { return p < nfixed || x.e.count(p); };
    auto short_path = [&](int p) { return ps[p].path.size() > 30 ? ps[p].path.substr(0, 20) + ".." + std::to_string(p) : ps[p].path; };
    for (unsigned t = 0; t < nthreads; ++t)
        for (unsigned k = 0; k < nops; ++k)
        {
            NOp& o = plan[t][k];
            int id = 1000 + (int)(t * 100 + k);
            Ev e{o.t[0], o.t[1], -1, ""};
            e.text = "thread " + std::to_string(t) + ": " + kn[o.k] + " " + short_path(o.a) + (o.b >= 0 ? " " + short_path(o.b) : "") + " -> " + err(o.rc);
            if (o.k == N_LS)
            {
                e.text += ":";
                for (auto& x : o.seen)
                    e.text += " " + (x.size() > 20 ? x.substr(0, 10) + ".." : x);
                VREQ(o.rc == 0, "a listing failed: " + e.text);
                VREQ(o.out.empty(), "a listing shows a name twice: " + q(o.out));
                size_t known = 0;
                for (int p = 1; p < (int)ps.size(); ++p)
                    if (ps[p].parent == o.a)
                    {
                        bool there = o.seen.count(ps[p].name);
                        known += there;
                        Ev x = e;
                        x.text += std::string(there ? " (shows " : " (lacks ") + short_path(p) + ")";
                        ev.push_back(x);
                        fn.push_back([=](NState& st) { return exists(st, p) == there; });
                    }
                VREQ(known == o.seen.size(), "a listing shows a name that never was: " + e.text);
                continue;
            }
            ev.push_back(e);
            int a = o.a, b = o.b, rc = o.rc, pa = ps[a].parent, pb = b >= 0 ? ps[b].parent : -1;
            char type = ps[a].type;
            switch (o.k)
            {
            case N_CREATE:
            case N_SYMLINK:
            case N_MKDIR:
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, pa) ? -ENOENT : exists(st, a) ? -EEXIST : 0;
                        if (want == 0)
                        {
                            st.e[a] = {type, id};
                            if (type == 'f')
                            {
                                st.data[id] = "";
                                st.handle[id] = id;
                            }
                        }
                        return want == rc;
                    });
                break;
            case N_GET:
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, pa) || !exists(st, a) ? -ENOENT : 0;
                        if (want == 0)
                            st.handle[id] = st.e.at(a).second;
                        return want == rc;
                    });
                break;
            case N_PATH:
                VREQ(o.rc || o.out == ps[a].path, "getpath gives " + q(o.out) + " for " + q(ps[a].path));
                fn.push_back([=](NState& st) { return rc == (exists(st, pa) && exists(st, a) ? 0 : -ENOENT); });
                break;
            case N_STAT: {
                char got = o.type;
                fn.push_back([=](NState& st) { return rc == (exists(st, pa) && exists(st, a) ? 0 : -ENOENT) && (rc || got == type); });
                break;
            }
            case N_UNLINK:
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, pa) || !exists(st, a) ? -ENOENT : 0;
                        if (want == 0)
                            st.e.erase(a);
                        return want == rc;
                    });
                break;
            case N_RMDIR: {
                std::vector<int> kids;
                for (int p = 0; p < (int)ps.size(); ++p)
                    if (ps[p].parent == a)
                        kids.push_back(p);
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, a) ? -ENOENT : 0;
                        for (int p : kids)
                            if (want == 0 && exists(st, p))
                                want = -ENOTEMPTY;
                        if (want == 0)
                            st.e.erase(a);
                        return want == rc;
                    });
                break;
            }
            case N_LINK:
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, pa) || !exists(st, a) || !exists(st, pb) ? -ENOENT : exists(st, b) ? -EEXIST : 0;
                        // Which of two reasons is named first is open.
                        if (want == -ENOENT && rc == -EEXIST && exists(st, b))
                            want = rc;
                        if (want == 0)
                            st.e[b] = st.e.at(a);
                        return want == rc;
                    });
                break;
            case N_RENAME:
                fn.push_back(
                    [=](NState& st)
                    {
                        int want = !exists(st, pa) || !exists(st, a) || !exists(st, pb) ? -ENOENT : 0;
                        if (want == 0)
                        {
                            auto x = st.e.at(a);
                            if (!st.e.count(b) || st.e.at(b) != x)
                            {
                                st.e.erase(a);
                                st.e[b] = x;
                            }
                        }
                        return want == rc;
                    });
                break;
            default:
                break;
            }
            if (rc == 0 && (o.k == N_CREATE || o.k == N_GET))
            {
                std::string out = o.out;
                bool w = o.k == N_CREATE;
                Ev x{o.t[2], o.t[3], -1, ""};
                x.text = "thread " + std::to_string(t) + ": " + (w ? "write to " : "read from ") + short_path(a) + " " + q(out) + " -> " + err(o.rcs[0]);
                VREQ(o.rcs[0] == (int)out.size() && o.rcs[1] == 0 && o.rcs[2] == 0, "a call on an open file failed: " + x.text + ", flush " + err(o.rcs[1]) + ", release " + err(o.rcs[2]));
                ev.push_back(x);
                fn.push_back(
                    [=](NState& st)
                    {
                        int obj = st.handle.at(id);
                        st.handle.erase(id);
                        if (!w)
                            return st.data.at(obj) == out;
                        st.data[obj] = out;
                        return true;
                    });
            }
        }
    size_t overlaps = 0;
    for (size_t i = 0; i < ev.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            overlaps += ev[i].start < ev[j].end && ev[j].start < ev[i].end && ev[i].start != ev[j].start;
    c.nontrivial = overlaps >= 2;
    c.label("overlapping pairs of tree calls", overlaps);
    for (auto& th : plan)
        for (auto& o : th)
            if (o.k == N_PATH)
                c.label("spellings asked for");
    c.label(cf.full ? "names full" : "names lite");
    if (c.verbose)
        fprintf(stderr, "%s\n", history(ev, -1).c_str());
    // Everything as it is at the end, before and after remounting.
    std::string first, dump;
    for (int round = 0; round < 2; ++round)
    {
        if (round)
            m.open(dir, cf);
        std::string when = round ? "after remounting: " : "at the end: ";
        std::set<std::string> links;
        for (int p = nfixed; p < (int)ps.size(); ++p)
        {
            struct stat st;
            int rc = m.getattr(ps[p].path, st);
            VREQ(rc == 0 || rc == -ENOENT, when + q(ps[p].path) + " cannot be looked at: " + err(rc) + history(ev, -1));
            bool there = rc == 0;
            std::string d;
            char type = ps[p].type;
            if (there && type == 'f')
                VREQ((rc = m.get(ps[p].path, d)) >= 0, when + q(ps[p].path) + " cannot be read: " + err(rc) + history(ev, -1));
            if (there && type == 'l')
                VREQ((rc = m.readlink(ps[p].path, d)) == 0 && d == "target", when + "a link has another target " + q(d) + history(ev, -1));
            Ev e{tick(), 0, -1, ""};
            e.end = tick();
            e.text = when + short_path(p) + (there ? " exists " + d : " does not exist");
            ev.push_back(e);
            fn.push_back([=](NState& st)
                         { return (exists(st, ps[p].parent) && exists(st, p)) == there && (!there || type != 'f' || st.data.at(st.e.at(p).second) == d); });
        }
        dump = dump_tree(m);
        if (round)
            VREQ(dump == first, "the tree differs after remounting:\n" + first + "\nnow\n" + dump + history(ev, -1));
        first = dump;
        size_t shown = (size_t)std::count(dump.begin(), dump.end(), '\n'), there = 0;
        for (int p = 1; p < (int)ps.size(); ++p)
        {
            struct stat st;
            there += m.getattr(ps[p].path, st) == 0;
        }
        if (c.verbose)
            fprintf(stderr, "%s(%zu lines, %zu paths)\n", dump.c_str(), shown, there);
    }
    int r = linearize(ev, init, [&](size_t k, NState& st) { return fn[k](st); });
    if (r < 0)
        c.label("undecided");
    VREQ(r != 0, "no order of the calls explains the results:" + history(ev, -1));
    if (cf.full)
    {
        // Two files in the store for each object.
        std::set<ino_t> inos;
        size_t objects = 1;
        std::function<void(const std::string&)> walk = [&](const std::string& d)
        {
            std::vector<DirEnt> v;
            VREQ(m.ls(d, v) == 0, "listing failed");
            for (auto& x : v)
            {
                std::string p = d == "/" ? "/" + x.name : d + "/" + x.name;
                struct stat st;
                VREQ(m.getattr(p, st) == 0, "getattr failed");
                objects += inos.insert(st.st_ino).second;
                if (S_ISDIR(st.st_mode))
                    walk(p);
            }
        };
        walk("/");
        m.close();
        size_t files = 0;
        for (auto& f : list_tree(dir))
        {
            struct stat st;
            if (lstat((dir + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode) && f[0] != '.')
                ++files;
        }
        VREQ(files == 2 * objects, std::to_string(files) + " files in the store for " + std::to_string(objects) + " objects" + history(ev, -1));
    }
}

// ================================================================ many separate objects at once
void apart_test(Ctx& c)
{
    Src& s = c.s;
    reset_sync();
    FsConfig cf = gen_config(s, s.coin());
    if (cf.block > 512)
        cf.block = 64;
    unsigned nthreads = 2 + (unsigned)s.below(5), nops = 10 + (unsigned)s.below(30);
    c.step(cf.text() + " threads=" + std::to_string(nthreads) + " calls=" + std::to_string(nops));
    SOpts so;
    so.remount = false;
    so.max_file = 300;
    script_pool(s, cf, so);
    if (so.max_path)
        so.max_path -= 60;
    struct Th
    {
        std::string base;
        std::vector<SOp> ops;
        std::vector<SState> before;
        SState st;
        SHandles hs;
        std::string wrong;
        int bad = -1, rc = 0;
    };
    std::vector<Th> th(nthreads);
    std::string dir = make_dir(c.dir + "/r");
    Mount m(dir, cf);
    for (unsigned t = 0; t < nthreads; ++t)
    {
        auto& x = th[t];
        x.base = "/t" + std::to_string(t);
        VREQ(m.mkdir(x.base, 0755) == 0, "mkdir failed");
        x.st.n[0].type = 'd';
        x.st.n[0].nlink = 2;
        for (unsigned k = 0; k < nops; ++k)
        {
            SOp op = gen_op(s, x.st, so);
            x.before.push_back(x.st);
            apply(x.st, op);
            auto under = [&](std::string p) { return p == "/" ? x.base : x.base + p; };
            if (!op.a.empty() && op.kind != S_SYMLINK)
                op.a = under(op.a);
            if ((op.kind == S_RENAME || op.kind == S_LINK || op.kind == S_SYMLINK) && !op.b.empty())
                op.b = under(op.b);
            x.ops.push_back(op);
        }
    }
    uint64_t seed = 1 + s.below(1u << 30);
    unsigned mode = (unsigned)s.below(3);
    fault::g_delay = delay;
    {
        std::vector<std::thread> ths;
        for (unsigned t = 0; t < nthreads; ++t)
            ths.emplace_back(
                [&, t]
                {
                    t_rng = mix(seed + t) | 1;
                    t_mode = mode;
                    arrive((int)nthreads);
                    auto& x = th[t];
                    for (unsigned k = 0; k < nops && x.bad < 0; ++k)
                    {
                        delay();
                        SState b = x.before[k];
                        SOp op = x.ops[k];
                        // exec looks paths up in the state
                        std::string wrong;
                        SState at;
                        at.n[-1];
                        x.rc = 0;
                        SState shifted = b;
                        // the state as seen from the root of the mount
                        {
                            SNode root;
                            root.type = 'd';
                            root.kids[x.base.substr(1)] = 1 << 20;
                            shifted.n[1 << 20] = shifted.n.at(0);
                            shifted.n[0] = root;
                        }
                        x.rc = exec(m, x.hs, op, shifted, wrong);
                        if (x.rc < 0 || !wrong.empty())
                        {
                            x.bad = (int)k;
                            x.wrong = wrong;
                        }
                    }
                    for (auto& [h, fi] : x.hs)
                    {
                        auto it = x.st.h.find(h);
                        if (it != x.st.h.end() && it->second.dir)
                            m.releasedir(x.base, fi);
                        else
                            m.release(x.base, fi);
                    }
                });
        for (auto& t : ths)
            t.join();
    }
    fault::g_delay = nullptr;
    c.nontrivial = true;
    c.label(cf.full ? "apart full" : "apart lite");
    SState all;
    all.n[0].type = 'd';
    int next = 1;
    for (auto& x : th)
    {
        if (x.bad >= 0)
        {
            std::string h;
            for (int k = 0; k <= x.bad; ++k)
                h += "\n    " + x.ops[k].text();
            fail("a call on objects no other thread uses went wrong: " + x.ops[x.bad].text() + " -> " + err(x.rc) + " " + x.wrong + "; this thread before:" + h);
        }
        std::map<int, int> re;
        for (auto& [id, n] : x.st.n)
            if (n.nlink > 0 || id == 0)
                re[id] = next++;
        for (auto& [id, n] : x.st.n)
        {
            if (!re.count(id))
                continue;
            SNode y = n;
            y.opens = 0;
            y.kids.clear();
            for (auto& [k, v] : n.kids)
                y.kids[k] = re.at(v);
            all.n[re.at(id)] = y;
        }
        all.n[0].kids[x.base.substr(1)] = re.at(0);
    }
    for (int round = 0; round < 2; ++round)
    {
        if (round)
            m.open(dir, cf);
        std::string w = verify(m, all, cf, [](int) { return false; }, [](const std::string&) { return false; });
        VREQ(w.empty(), std::string(round ? "after remounting: " : "at the end: ") + w);
    }
}
}    // namespace

int main(int argc, char** argv)
{
    Prop p;
    p.id = "S18";
    p.rule = "at least two pairs of calls of different threads overlapped in time (on the same file, for calls on files); all runs of threads apart";
    p.assumptions = {
        "Calls on the same path exclude each other as libfuse's path locks do (unlink, rmdir and rename against everything on that path or below); the kernel's locks of directories are there in half of the cases. A name is not opened while it is being created, as no kernel does.",
        "A listing is judged name by name: each name shown or missing must have been so at some time during the call.",
        "The size that getattr by path shows in the lite format while another thread is writing is not judged.",
        "Schedules come from the operating system and generated delays at operations on the store; ThreadSanitizer judges by happens-before, so a race is found when both accesses run without ordering, whatever their distance.",
    };
    p.quick_cases = 20000;
    p.thorough_cases = 200000;
    p.quick_s = 35;
    p.thorough_s = 600;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
        absl::SetMutexDeadlockDetectionMode(absl::OnDeadlockCycle::kAbort);
    };
    p.tests = {{"files", files_test, 5, 40, true}, {"names", names_test, 5, 40, true}, {"apart", apart_test, 2, 60, true}};
    return run_main(argc, argv, p);
}
