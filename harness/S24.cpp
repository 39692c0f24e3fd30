// S24: file attributes are kept and reported faithfully.
#include "fsmodel.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
using namespace vp;
static void tree(Ctx& c)
{
    FsConfig cf = gen_config(c.s, c.s.coin());
    HistOpts o;
    o.attrs = true;
    o.w_chmod = 12;
    o.w_utimens = 10;
    o.w_chown = 10;
    o.w_remount = 2;
    Hist h(c, cf, o);
    h.run();
}
namespace
{
using T = long double;
T secs(const timespec& t) { return (T)t.tv_sec + (T)t.tv_nsec / 1e9L; }
T now()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return secs(t);
}
constexpr T kSlack = 0.05L;    // the kernel stamps backing files with a coarse clock
struct Obj
{
    char type;
    std::vector<std::string> names;
    unsigned mode, uid, gid;
    std::string data;
    // Allowed times: exactly `fix`, or within [lo, now].
    struct Tm
    {
        bool exact = false;
        timespec v{};
        T lo = 0;
        bool both = false;    // exact value or a time since lo
    } at, mt, ct;
    ino_t ino = 0;
};
std::string show(const timespec& t) { return std::to_string((long long)t.tv_sec) + "." + std::to_string((long)t.tv_nsec); }
}    // namespace
// A few objects, many attribute changes, every attribute of every object compared after each one.
static void dense(Ctx& c)
{
    Src& s = c.s;
    bool full = s.coin();
    FsConfig cf = gen_config(s, full);
    if (s.chance(1, 4))
        cf.uid = (int)s.pick({0, 77, 65534, 1000});
    if (s.chance(1, 4))
        cf.gid = (int)s.pick({0, 78, 65534, 1000});
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    c.step(cf.text() + (cf.uid ? " uid=" + std::to_string(*cf.uid) : "") + (cf.gid ? " gid=" + std::to_string(*cf.gid) : ""));
    std::vector<Obj> os;
    struct Hd
    {
        size_t obj;
        fuse_file_info fi;
    };
    std::vector<Hd> hs;
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    auto need = [&](int r, int w, const std::string& what)
    {
        if (r != w)
            bad(what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    };
    auto touch = [&](Obj::Tm& t, T from)
    {
        t.exact = t.both = false;
        t.lo = from;
    };
    auto maybe = [&](Obj::Tm& t, T from)
    {
        if (t.exact && !t.both)
        {
            t.both = true;
            t.lo = from;
        }
    };
    T slack = full && cf.store_time ? 0 : kSlack;
    auto okt = [&](const Obj::Tm& t, const timespec& v)
    {
        if (t.exact && v.tv_sec == t.v.tv_sec && v.tv_nsec == t.v.tv_nsec)
            return true;
        if (t.exact && !t.both)
            return false;
        return secs(v) >= t.lo - slack && secs(v) <= now() + slack && v.tv_nsec >= 0 && v.tv_nsec < 1000000000;
    };
    int cnt = 0, changes = 0;
    auto check_st = [&](Obj& o, const struct stat& st, const std::string& n, const std::string& when)
    {
        std::string w = when + ": " + n + " ";
        unsigned ft = o.type == 'd' ? S_IFDIR : o.type == 'l' ? S_IFLNK : S_IFREG;
        if ((st.st_mode & S_IFMT) != ft)
            bad(w + "has the wrong type");
        if (o.type != 'l' && (st.st_mode & 0777) != o.mode)
            bad(w + "has permission bits " + str(st.st_mode & 0777) + ", expected " + str(o.mode) + " (decimal)");
        unsigned eu = cf.uid ? (unsigned)*cf.uid : o.uid, eg = cf.gid ? (unsigned)*cf.gid : o.gid;
        if (st.st_uid != eu || st.st_gid != eg)
            bad(w + "is owned by " + str(st.st_uid) + ":" + str(st.st_gid) + ", expected " + str(eu) + ":" + str(eg));
        if (o.type != 'd')
        {
            if ((uint64_t)st.st_size != o.data.size())
                bad(w + "has size " + str((uint64_t)st.st_size) + ", expected " + str(o.data.size()));
            if ((size_t)st.st_nlink != o.names.size())
                bad(w + "has " + str(st.st_nlink) + " links, expected " + str(o.names.size()));
        }
        if (o.ino && st.st_ino != o.ino)
            bad(w + "changed its inode number");
        o.ino = st.st_ino;
        if (!okt(o.mt, st.st_mtim))
            bad(w + "has modification time " + show(st.st_mtim) + ", expected " + (o.mt.exact ? show(o.mt.v) : "a recent time"));
        if (!okt(o.at, st.st_atim))
            bad(w + "has access time " + show(st.st_atim) + ", expected " + (o.at.exact ? show(o.at.v) : "a recent time"));
        if (!okt(o.ct, st.st_ctim))
            bad(w + "has change time " + show(st.st_ctim) + ", expected a time since its last change");
        if (o.type != 'd' && st.st_blksize <= 0)
            bad(w + "has block size " + std::to_string((long)st.st_blksize));
    };
    auto check = [&](const std::string& when)
    {
        for (auto& o : os)
        {
            T t0 = now();
            for (auto& n : o.names)
            {
                struct stat st;
                need(m.getattr(n, st), 0, when + ": getattr " + n);
                check_st(o, st, n, when);
                // Looking at an object may count as an access to it (its header or entries are read).
                maybe(o.at, t0);
            }
        }
        for (auto& h : hs)
        {
            Obj& o = os[h.obj];
            struct stat st;
            need(m.fgetattr(o.names[0], st, h.fi), 0, when + ": fgetattr");
            check_st(o, st, o.names[0] + " (handle)", when);
        }
    };
    auto fresh = [&](char t)
    {
        Obj o;
        o.type = t;
        std::string n = (s.chance(1, 3) && !os.empty() && os[0].type == 'd' ? os[0].names[0] : std::string()) + "/" + std::string(1, t) + str((uint64_t)cnt++);
        o.names = {n};
        m.uid = full ? (unsigned)s.pick({0u, 1000u, 500u, 99999u}) : 0;
        m.gid = full ? (unsigned)s.pick({0u, 1000u, 7u}) : 0;
        o.uid = m.uid;
        o.gid = m.gid;
        T t0 = now();
        o.mode = (unsigned)s.below(01000);
        if (t == 'f' && !full)
            o.mode |= 0400;
        if (t == 'd')
        {
            if (!full)
                o.mode |= 0700;
            need(m.mkdir(n, o.mode), 0, "mkdir " + n);
        }
        else if (t == 'l')
        {
            o.data = "target" + std::string(s.below(60), 'x');
            need(m.symlink(o.data, n), 0, "symlink " + n);
        }
        else
        {
            fuse_file_info fi;
            need(m.create(n, o.mode, fi), 0, "create " + n);
            o.data = s.bytes(s.below(200));
            if (!o.data.empty())
                need(m.write(n, o.data, 0, fi), (int)o.data.size(), "write");
            need(m.release(n, fi), 0, "release");
        }
        for (auto* x : {&o.at, &o.mt, &o.ct})
            touch(*x, t0);
        c.step("new " + n + " mode " + str(o.mode) + " by " + str(o.uid) + ":" + str(o.gid));
        if (n.find('/', 1) != std::string::npos)
        {
            touch(os[0].mt, t0);
            touch(os[0].ct, t0);
            maybe(os[0].at, t0);
        }
        os.push_back(o);
    };
    auto parent_touched = [&](const std::string& n, T t0)
    {
        if (n.find('/', 1) != std::string::npos)
        {
            touch(os[0].mt, t0);
            touch(os[0].ct, t0);
            maybe(os[0].at, t0);
        }
    };
    fresh('d');
    fresh('f');
    fresh('f');
    if (s.coin())
        fresh('l');
    check("at first");
    for (int k = 1 + (int)s.below(30); k > 0; --k)
    {
        size_t i = s.below(os.size());
        Obj& o = os[i];
        std::string n = o.names[s.below(o.names.size())];
        T t0 = now();
        std::string what;
        switch (s.weighted({5, 5, 6, 4, 2, 2, 2, 2, 2, 2, 1}))
        {
        case 0:
        {
            if (o.type == 'l')
                break;
            unsigned md = (unsigned)s.below(01000);
            if (!full)
                md |= o.type == 'd' ? 0700 : 0400;
            what = "chmod " + n + " " + str(md);
            need(m.chmod(n, (o.type == 'd' ? S_IFDIR : S_IFREG) | md), 0, what);
            if (o.mode != md || !full)
                touch(o.ct, full && !cf.store_time ? o.ct.lo : t0);
            o.mode = md;
            break;
        }
        case 1:
        {
            unsigned u = (unsigned)s.pick({0u, 1u, 1000u, 65534u, 4294967295u, 70000u}), g = (unsigned)s.pick({0u, 5u, 100u, 65534u, 4294967295u});
            what = "chown " + n + " " + str(u) + ":" + str(g);
            need(m.chown(n, u, g), 0, what);
            if (u != 4294967295u)
                o.uid = u;
            if (g != 4294967295u)
                o.gid = g;
            break;
        }
        case 2:
        {
            timespec ts[2];
            for (auto& t : ts)
            {
                t.tv_sec = (time_t)s.pick({0ull, 1ull, 1234567890ull, 4294967296ull, 8589934591ull, 2147483648ull, 1700000000ull});
                t.tv_nsec = (long)s.pick({0u, 1u, 999999999u, 123456789u});
            }
            what = "utimens " + n + " " + show(ts[0]) + " " + show(ts[1]);
            need(m.utimens(n, ts), 0, what);
            o.at.exact = o.mt.exact = true;
            o.at.both = o.mt.both = false;
            o.at.v = ts[0];
            o.mt.v = ts[1];
            touch(o.ct, t0);
            break;
        }
        case 3:
        {
            if (o.type != 'f')
                break;
            what = "write " + n;
            fuse_file_info fi;
            need(m.open(n, O_RDWR, fi), 0, "open " + n);
            size_t off = s.below(300);
            std::string d = s.bytes(1 + s.below(200));
            need(m.write(n, d, (off_t)off, fi), (int)d.size(), what);
            if (s.coin())
                hs.push_back({i, fi});
            else
                need(m.release(n, fi), 0, "release");
            if (o.data.size() < off + d.size())
                o.data.resize(off + d.size(), '\0');
            o.data.replace(off, d.size(), d);
            touch(o.mt, t0);
            touch(o.ct, t0);
            maybe(o.at, t0);
            break;
        }
        case 4:
        {
            if (o.type != 'f')
                break;
            size_t l = s.below(400);
            what = "truncate " + n + " " + str(l);
            bool same = l == o.data.size();
            need(m.truncate(n, (off_t)l), 0, what);
            o.data.resize(l, '\0');
            if (same)
            {
                maybe(o.mt, t0);
            }
            else
                touch(o.mt, t0);
            maybe(o.at, t0);
            if (!same)
                touch(o.ct, t0);
            break;
        }
        case 5:
        {
            if (o.type != 'f')
                break;
            what = "read " + n;
            std::string d;
            need(m.get(n, d), 0, what);
            if (d != o.data)
                bad(what + " gave wrong data");
            maybe(o.at, t0);
            break;
        }
        case 6:
        {
            if (o.type != 'f' || o.names.size() > 3)
                break;
            std::string to = (s.coin() ? os[0].names[0] : std::string()) + "/h" + str((uint64_t)cnt++);
            what = "link " + n + " " + to;
            need(m.link(n, to), 0, what);
            o.names.push_back(to);
            parent_touched(to, t0);
            if (!full || cf.store_time)
                touch(o.ct, t0);
            break;
        }
        case 7:
        {
            if (o.type != 'f' || o.names.size() < 2)
                break;
            what = "unlink " + n;
            need(m.unlink(n), 0, what);
            o.names.erase(std::find(o.names.begin(), o.names.end(), n));
            parent_touched(n, t0);
            break;
        }
        case 8:
        {
            what = "remount";
            for (auto& h : hs)
                need(m.release(os[h.obj].names[0], h.fi), 0, "release");
            hs.clear();
            if (full && s.chance(1, 3))
            {
                // The override is a matter of the mount, not of what is stored.
                if (s.coin())
                    cf.uid.reset();
                else
                    cf.uid = 4242;
                if (s.coin())
                    cf.gid.reset();
                else
                    cf.gid = 4343;
            }
            m.open(store, cf);
            break;
        }
        case 9:
        {
            if (o.type == 'd')
                break;
            std::string to = (s.coin() ? os[0].names[0] : std::string()) + "/r" + str((uint64_t)cnt++);
            what = "rename " + n + " " + to;
            need(m.rename(n, to), 0, what);
            *std::find(o.names.begin(), o.names.end(), n) = to;
            parent_touched(n, t0);
            parent_touched(to, t0);
            if (!full)
                touch(o.ct, std::min(t0, o.ct.lo ? o.ct.lo : t0));
            break;
        }
        default:
            if (os.size() < 8)
            {
                fresh(s.pick({'f', 'l', 'd'}));
                what = "create";
            }
        }
        if (what.empty())
            continue;
        c.step(what);
        ++changes;
        check("after " + what);
    }
    for (auto& h : hs)
        need(m.release(os[h.obj].names[0], h.fi), 0, "release");
    hs.clear();
    check("at the end");
    m.open(store, cf);
    check("after remounting");
    c.nontrivial = changes >= 5;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S24";
    p.rule = "A case draws either format with random settings and either a history of tree calls with chmod, chown and utimens, or up to 30 "
             "attribute-changing calls on a few objects (dense) after each of which type, permission bits, owner, link count, size, inode number "
             "and times of every object are compared, by path, by every hard link and by handle, also after remounting with other overrides. "
             "Set times must be reported exactly until a call that changes them; changed ones must lie between that call and now. "
             "Non-trivial: at least 8 (dense: 5) changes; distinct by choice sequence.";
    p.assumptions = {"reading attributes or contents may update the access time", "lite-format files keep the owner-read bit, which the format needs"};
    p.quick_cases = 55000;
    p.thorough_cases = 400000;
    p.tests = {{"tree", tree, 1}, {"dense", dense, 3}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
