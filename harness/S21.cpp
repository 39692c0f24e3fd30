// S21: every call returns a defined result, whatever its arguments.
#include "fsdrv.h"
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
using namespace vp;
namespace
{
const std::string SENTINEL = "/keep/sentinel", SENTINEL_DATA = std::string(500, 'S') + "the end";
struct Handle
{
    bool dir;
    fuse_file_info fi;
    std::string path;
};
struct Caller
{
    Ctx& c;
    Src& s;
    FsConfig cf;
    Mount m;
    std::string store;
    std::vector<Handle> hs;
    std::vector<std::string> pool, xpool;
    FILE* logfp = nullptr;
    int calls = 0, good = 0;
    std::string last;
    // The table of long names cannot be opened since its backing path exceeds the 512 bytes of SQLite (a known
    // finding of S08); the call then fails with an unspecific error.
    bool no_table = false, eperm_ok = false;
    bool table_trouble(const std::string& p)
    {
        if (cf.full || cf.plain || !cf.threshold || (p.size() - p.rfind('/') - 1) * (cf.fold || cf.nfc ? 3 : 1) <= *cf.threshold)
            return false;
        std::string d = parent(p);
        size_t n = 0;
        for (char ch : d)
            n += ch == '/';
        return store.size() + n * 50 + d.size() * 2 > 380;
    }
    Caller(Ctx& c_, FsConfig f) : c(c_), s(c_.s), cf(f) {}
    [[noreturn]] void bad(const std::string& t) { fail("[" + cf.text() + "] " + t); }
    // Heap copies of exact size, so that the sanitizer sees any overrun.
    static std::unique_ptr<char[]> cstr(const std::string& v)
    {
        std::unique_ptr<char[]> r(new char[v.size() + 1]);
        memcpy(r.get(), v.c_str(), v.size() + 1);
        return r;
    }
    std::string comp()
    {
        size_t n;
        switch (s.weighted({8, 3, 1}))
        {
        case 0:
            return s.pick({"a", "b", "c", "dd", "A", "\xC3\xA9", "e\xCC\x81", "a b", "...", ".x", "%s%n", "\xFF\xFE", "-", "*?", "a\\b", "\n"});
        case 1:
            n = (size_t)std::max<int64_t>(1, (int64_t)s.pick({20, 128, 143, 255, 8, 100}) + s.range(-2, 2));
            break;
        default:
            n = 1 + s.below(1024);
        }
        std::string r(n, 'n');
        if (s.coin())
        {
            Rng g{s.below(1000)};
            for (auto& ch : r)
                do
                    ch = (char)g.next();
                while (!ch || ch == '/');
        }
        return r == "." || r == ".." ? "xx" : r;
    }
    std::string path()
    {
        std::string p;
        switch (s.weighted({10, 8, 1, 1}))
        {
        case 0:
            if (!pool.empty())
            {
                p = s.pick(pool);
                break;
            }
            // fall through
        case 1:
        {
            if (!pool.empty() && s.chance(2, 3))
                p = s.pick(pool);
            for (int n = 1 + (int)s.below(2); n > 0; --n)
                p += "/" + comp();
            break;
        }
        case 2:
            return "/";
        default:    // very deep or very long
            if (s.coin())
                for (int n = (int)s.below(900); n > 0; --n)
                    p += "/d";
            else
                while (p.size() < 3000)
                    p += "/" + std::string(1 + s.below(1000), 'q');
            p += "/e";
        }
        if (p.size() >= PATH_MAX)
            p.resize(PATH_MAX - 1);
        while (p.size() > 1 && p.back() == '/')
            p.pop_back();
        return p.compare(0, 5, "/keep") == 0 ? "/a" : p;
    }
    static std::string parent(const std::string& p) { return p.rfind('/') ? p.substr(0, p.rfind('/')) : "/"; }
    // Type as the mount reports it: 0 when missing.
    int type(const std::string& p)
    {
        struct stat st;
        return m.getattr(p, st) ? 0 : (int)(st.st_mode & S_IFMT);
    }
    // Whether some proper prefix of the path is a link; the kernel would have resolved it.
    bool through_link(const std::string& p)
    {
        for (size_t i = p.find('/', 1); i != std::string::npos; i = p.find('/', i + 1))
        {
            int t = type(p.substr(0, i));
            if (!t)
                return false;
            if (t == S_IFLNK)
                return true;
        }
        return false;
    }
    void defined(const std::string& what, int r, long most = 0)
    {
        last = what;
        ++calls;
        good += r >= 0;
        c.label(what.substr(0, what.find(' ')) + (r >= 0 ? " ok" : " " + std::to_string(r)));
        if (r > most)
            bad(what + " returned " + std::to_string(r) + ", at most " + std::to_string(most) + " is proper");
        if (r < 0 && (r < -133 || r == -41 || r == -58))
            bad(what + " returned " + std::to_string(r) + ", which is no error number");
        if (r == -EPERM && !no_table && !eperm_ok)
            bad(what + " returned the unspecific error -EPERM");
    }
    void one_of(const std::string& what, int r, std::initializer_list<int> ok)
    {
        if (r < 0 && no_table)
            return;
        for (int x : ok)
            if (r == x)
                return;
        bad(what + " returned " + std::to_string(r) + ", which is not proper to the condition");
    }
    static int filler(void* b, const char* name, const struct stat* st, off_t)
    {
        auto v = (std::pair<long, std::vector<std::string>>*)b;
        volatile size_t l = strlen(name);
        (void)l;
        if (st)
        {
            volatile mode_t md = st->st_mode;
            (void)md;
        }
        v->second.push_back(name);
        return v->first-- <= 0;
    }
    const char* hp(const Handle& h, std::unique_ptr<char[]>& keep)
    {
        if (s.coin())
            return nullptr;    // flag_nullpath_ok and flag_nopath are set
        keep = cstr(h.path);
        return keep.get();
    }
    // The cases run as an ordinary user, who keeps his access.
    mode_t mode() { return (mode_t)s.below(010000) | (cf.full ? 0 : 0700); }
    off_t offset()
    {
        switch (s.weighted({6, 2, 1, 1}))
        {
        case 0:
            return (off_t)s.size_near(2000, cf.block);
        case 1:
            return (off_t)(s.pick({1ull << 20, 1ull << 31, 1ull << 32}) + s.below(3) - 1);
        case 2:
            return (off_t)(INT64_MAX - (int64_t)s.pick({0ull, 1ull, 4095ull, 1ull << 20}));
        default:
            return (off_t)s.below(1ull << 33);
        }
    }
    // libfuse hands these on to the file system unchanged.
    int open_flags()
    {
        int f = s.pick({(int)O_RDONLY, (int)O_WRONLY, (int)O_RDWR});
        for (int b : {O_APPEND, O_NONBLOCK, O_SYNC, O_DSYNC, O_NOFOLLOW, O_LARGEFILE, O_CLOEXEC, O_NOATIME, 0x20 /* FMODE_EXEC */})
            if (s.chance(1, 8))
                f |= b;
        if (s.chance(1, 4) && (f & O_ACCMODE) != O_RDONLY)
            f |= O_TRUNC;
        return f;
    }
    std::string xname()
    {
        switch (s.weighted({6, 2, 2}))
        {
        case 0:
            return s.pick({"user.a", "user.b", "security.capability", "system.posix_acl_access", "trusted.q", "user.", "com.apple.quarantine"});
        case 1:
            return "user." + std::string(1 + s.below(250), 'n');
        default:
        {
            std::string r;
            Rng g{s.below(1000)};
            for (size_t n = 1 + s.below(255); n > 0; --n)
                r.push_back((char)(1 + g.next() % 255));
            return r;
        }
        }
    }
    void call()
    {
        m.enter();
        auto& f = m.f;
        size_t op = s.weighted({4, 5, 4, 4, 4, 3, 2, 4, 4, 4, 3, 3, 3, 3, 4, 6, 6, 3, 2, 2, 4, 2, 3, 4, 3, 3, 2, 1, 2});
        std::string p = path();
        auto P = cstr(p);
        int t = type(p);
        // The kernel resolves links itself and never sends a path leading through one.
        if (through_link(p))
            return;
        bool lnk = false;
        no_table = table_trouble(p);
        eperm_ok = false;
        m.enter();
        std::string qp = q(p) + (p.size() > 60 ? "(" + str(p.size()) + ")" : "");
        auto S = [&](const std::string& x)
        {
            c.step(x);
            return x;
        };
        auto missing = [&](const std::string& w, int r)
        {
            if (!t && !lnk)
                one_of(w, r, {-ENOENT, -ENOTDIR, -ENAMETOOLONG});
        };
        switch (op)
        {
        case 0:
        {
            std::string w = S("getattr " + qp);
            auto st = std::make_unique<struct stat>();
            memset(st.get(), 0, sizeof *st);
            int r = f.getattr(P.get(), st.get());
            defined(w, r);
            missing(w, r);
            if (!r && !(S_ISREG(st->st_mode) || S_ISDIR(st->st_mode) || S_ISLNK(st->st_mode)))
                bad(w + ": the mode is " + str(st->st_mode));
            break;
        }
        case 1:
        {
            if (p == "/")
                break;
            Handle h{};
            h.path = p;
            h.fi.flags = open_flags() | O_CREAT | (s.coin() ? O_EXCL : 0);
            h.fi.flags &= ~O_TRUNC;
            std::string w = S("create " + qp + " flags " + str((uint64_t)h.fi.flags));
            int r = f.create(P.get(), S_IFREG | mode(), &h.fi);
            defined(w, r);
            if (t && !lnk)
                one_of(w, r, {-EEXIST});
            if (!r)
            {
                hs.push_back(h);
                pool.push_back(p);
            }
            break;
        }
        case 2:
        {
            // The kernel opens only what it knows to be a regular file, or what is gone meanwhile.
            if (t && t != S_IFREG)
                break;
            Handle h{};
            h.path = p;
            h.fi.flags = open_flags();
            std::string w = S("open " + qp + " flags " + str((uint64_t)h.fi.flags));
            int r = f.open(P.get(), &h.fi);
            defined(w, r);
            missing(w, r);
            if (t && !lnk && r && !cf.readonly)
                bad(w + " of an existing file returned " + std::to_string(r));
            if (!r)
                hs.push_back(h);
            break;
        }
        case 3:
        {
            if (p == "/")
                break;
            std::string w = S("mkdir " + qp);
            int r = f.mkdir(P.get(), mode());
            defined(w, r);
            if (t && !lnk)
                one_of(w, r, {-EEXIST});
            if (!r)
                pool.push_back(p);
            break;
        }
        case 4:
        {
            if (p == "/")
                break;
            std::string to = s.coin() ? s.pick({"a", "b/c", "..", "/", "//", "a/../b", ".", "dd", "x/y/z", "\xFF"}) : std::string(1 + s.below(4095), s.coin() ? 't' : '/');
            auto T = cstr(to);
            std::string w = S("symlink " + qp + " to " + str(to.size()) + " bytes");
            int r = f.symlink(T.get(), P.get());
            defined(w, r);
            if (t && !lnk)
                one_of(w, r, {-EEXIST, -ENAMETOOLONG});
            if (!r)
                pool.push_back(p);
            break;
        }
        case 5:
        {
            std::string to = path();
            auto T = cstr(to);
            // The kernel refuses links to directories.
            if (t == S_IFDIR || lnk || to == "/" || p == "/" || through_link(to))
                break;
            int tt = type(to);
            no_table |= table_trouble(to);
            m.enter();
            std::string w = S("link " + qp + " " + q(to));
            int r = f.link(P.get(), T.get());
            defined(w, r);
            if (!t)
                one_of(w, r, {-ENOENT, -ENOTDIR, -ENAMETOOLONG, -EEXIST});
            else if (tt)
                one_of(w, r, {-EEXIST});
            if (!r)
                pool.push_back(to);
            break;
        }
        case 6:
        {
            size_t n = s.pick({(size_t)4097, (size_t)1, (size_t)2, (size_t)1 + s.below(300)});
            std::string w = S("readlink " + qp + " size " + str(n));
            std::unique_ptr<char[]> b(new char[n]);
            memset(b.get(), 0x5A, n);
            eperm_ok = n < 4097;    // libfuse itself passes PATH_MAX + 1
            int r = f.readlink(P.get(), b.get(), n);
            defined(w, r);
            missing(w, n > 1 ? r : r ? r : -ENOENT);
            if (!r && !memchr(b.get(), 0, n))
                bad(w + " left its buffer unterminated");
            if (t && t != S_IFLNK && !r && n > 1)
                bad(w + " of something that is no link succeeded");
            break;
        }
        case 7:
        {
            if (t == S_IFDIR || p == "/")
                break;
            std::string w = S("unlink " + qp);
            int r = f.unlink(P.get());
            defined(w, r);
            missing(w, r);
            if (t && !lnk)
                one_of(w, r, {0});
            break;
        }
        case 8:
        {
            if (p == "/" || t == S_IFLNK)
                break;
            std::string w = S("rmdir " + qp);
            int r = f.rmdir(P.get());
            defined(w, r);
            missing(w, r);
            if (t == S_IFDIR && !lnk)
                one_of(w, r, {0, -ENOTEMPTY});
            if (t && t != S_IFDIR && !lnk)
                one_of(w, r, {-ENOTDIR});
            break;
        }
        case 9:
        {
            std::string to = path();
            int tt = type(to);
            no_table |= table_trouble(to);
            // What the kernel refuses by itself.
            if (p == "/" || to == "/" || lnk || through_link(to) || to.compare(0, p.size() + 1, p + "/") == 0 || p.compare(0, to.size() + 1, to + "/") == 0)
                break;
            if (t && tt && (t == S_IFDIR) != (tt == S_IFDIR))
                break;
            m.enter();
            auto T = cstr(to);
            std::string w = S("rename " + qp + " " + q(to));
            int r = f.rename(P.get(), T.get());
            defined(w, r);
            missing(w, r);
            if (t && tt == S_IFDIR)
                one_of(w, r, {0, -ENOTEMPTY, -EEXIST});
            if (!r)
                pool.push_back(to);
            break;
        }
        case 10:
        {
            if (t == S_IFLNK)
                break;    // impossible on Linux
            std::string w = S("chmod " + qp);
            int r = f.chmod(P.get(), mode() | (t ? (mode_t)t : S_IFREG));
            defined(w, r);
            missing(w, r);
            break;
        }
        case 11:
        {
            auto id = [&] { return (uid_t)s.pick({0u, 1u, 1000u, 65534u, (unsigned)-1, (unsigned)-2, 0x7FFFFFFFu}); };
            uid_t u = id(), g = id();
            std::string w = S("chown " + qp + " " + str(u) + " " + str(g));
            eperm_ok = !cf.full;    // only root may do that
            int r = f.chown(P.get(), u, g);
            defined(w, r);
            missing(w, r);
            break;
        }
        case 12:
        {
            auto ts = std::make_unique<timespec[]>(2);
            for (int i = 0; i < 2; ++i)
            {
                ts[i].tv_sec = s.pick({0l, 1l, -1l, 1700000000l, (long)INT32_MAX, (long)INT32_MIN, 1l << 33, LONG_MAX, LONG_MIN, LONG_MAX / 2});
                ts[i].tv_nsec = s.pick({0l, 1l, 999999999l});
            }
            std::string w = S("utimens " + qp);
            int r = f.utimens(P.get(), ts.get());
            defined(w, r);
            missing(w, r);
            break;
        }
        case 13:
        {
            if (t == S_IFDIR || t == S_IFLNK)
                break;    // refused by the kernel
            off_t n = offset();
            std::string w = S("truncate " + qp + " " + str((uint64_t)n));
            int r = f.truncate(P.get(), n);
            defined(w, r);
            missing(w, r);
            break;
        }
        case 14:
        {
            // Directories, and races with something else taking their place.
            Handle h{};
            h.dir = true;
            h.path = p;
            h.fi.flags = O_RDONLY | O_DIRECTORY | (s.coin() ? O_NONBLOCK : 0);
            std::string w = S("opendir " + qp);
            int r = f.opendir(P.get(), &h.fi);
            defined(w, r);
            missing(w, r);
            if (t == S_IFREG && !lnk)
                one_of(w, r, {-ENOTDIR});
            if (t == S_IFDIR && !lnk)
                one_of(w, r, {0});
            if (!r)
                hs.push_back(h);
            break;
        }
        case 15:
        case 16:
        case 17:
        case 18:
        case 19:
        case 20:
        {
            std::vector<size_t> fhs, dhs;
            for (size_t i = 0; i < hs.size(); ++i)
                (hs[i].dir ? dhs : fhs).push_back(i);
            if (op == 20)
            {
                if (dhs.empty())
                    break;
                Handle& h = hs[s.pick(dhs)];
                std::unique_ptr<char[]> keep;
                const char* hpp = hp(h, keep);
                if (s.chance(1, 3))
                {
                    std::string w = S("releasedir " + q(h.path));
                    defined(w, f.releasedir(hpp, &h.fi));
                    hs.erase(hs.begin() + (&h - hs.data()));
                    break;
                }
                std::pair<long, std::vector<std::string>> out{s.coin() ? 1000000 : (long)s.below(4), {}};
                long cap = out.first;
                std::string w = S("readdir " + q(h.path) + " room for " + str((uint64_t)cap));
                int r = f.readdir(hpp, &out, filler, s.coin() ? 0 : offset(), &h.fi);
                ++calls;
                if (r > 0)
                    bad(w + " returned " + std::to_string(r));
                if ((long)out.second.size() <= cap)
                    defined(w, r);
                break;
            }
            if (fhs.empty())
                break;
            Handle& h = hs[s.pick(fhs)];
            std::unique_ptr<char[]> keep;
            const char* hpp = hp(h, keep);
            if (op == 15)
            {
                size_t n = s.pick({(size_t)0, (size_t)1, (size_t)s.size_near(3000, cf.block), (size_t)131072});
                off_t o = offset();
                std::unique_ptr<char[]> b(new char[n]);
                std::string w = S("read " + q(h.path) + " " + str(n) + " at " + str((uint64_t)o));
                int r = f.read(hpp, b.get(), n, o, &h.fi);
                defined(w, r, (long)n);
                if (r < 0 && (uint64_t)o + n < (1ull << 34))
                    bad(w + " failed with " + std::to_string(r));
            }
            else if (op == 16)
            {
                if ((h.fi.flags & O_ACCMODE) == O_RDONLY)
                    break;    // the kernel refuses
                size_t n = s.pick({(size_t)1, (size_t)0, (size_t)s.size_near(3000, cf.block), (size_t)20000});
                off_t o = offset();
                if ((uint64_t)o + n > (uint64_t)INT64_MAX)
                    o = (off_t)(INT64_MAX - (int64_t)n);
                std::string d(n, 'w');
                auto D = cstr(d);
                std::string w = S("write " + q(h.path) + " " + str(n) + " at " + str((uint64_t)o));
                int r = f.write(hpp, D.get(), n, o, &h.fi);
                defined(w, r, (long)n);
                if (r >= 0 && (size_t)r != n)
                    bad(w + " wrote only " + std::to_string(r));
            }
            else if (op == 17)
            {
                if ((h.fi.flags & O_ACCMODE) == O_RDONLY)
                    break;
                off_t n = offset();
                std::string w = S("ftruncate " + q(h.path) + " " + str((uint64_t)n));
                defined(w, f.ftruncate(hpp, n, &h.fi));
            }
            else if (op == 18)
            {
                if (s.coin())
                {
                    std::string w = S("flush " + q(h.path));
                    defined(w, f.flush(hpp, &h.fi));
                }
                else
                {
                    std::string w = S("fsync " + q(h.path));
                    defined(w, f.fsync(hpp, (int)s.below(2), &h.fi));
                }
            }
            else if (s.coin())
            {
                auto st = std::make_unique<struct stat>();
                std::string w = S("fgetattr " + q(h.path));
                int r = f.fgetattr(hpp, st.get(), &h.fi);
                defined(w, r);
                one_of(w, r, {0});
            }
            else
            {
                std::string w = S("release " + q(h.path));
                defined(w, f.release(hpp, &h.fi));
                hs.erase(hs.begin() + (&h - hs.data()));
            }
            break;
        }
        case 21:
        {
            auto sv = std::make_unique<struct statvfs>();
            std::string w = S("statfs " + qp);
            int r = f.statfs(P.get(), sv.get());
            defined(w, r);
            one_of(w, r, {0});
            if (!sv->f_namemax || !sv->f_bsize)
                bad(w + " reports nothing");
            break;
        }
        case 22:
        case 23:
        case 24:
        case 25:
        {
            if (!f.getxattr)
                break;
            std::string n = !xpool.empty() && s.coin() ? s.pick(xpool) : xname();
            auto N = cstr(n);
            eperm_ok = t == S_IFLNK;    // links take no user attributes
            size_t z = s.pick({(size_t)0, (size_t)1, (size_t)s.below(300), (size_t)65536, (size_t)28, (size_t)16});
            if ((op == 22 || op == 24) && s.chance(1, 2))
            {
                // Around the true size.
                int r = op == 22 ? f.listxattr(P.get(), nullptr, 0) : f.getxattr(P.get(), N.get(), nullptr, 0);
                if (r > 0)
                    z = (size_t)std::max<int64_t>(1, r + s.range(-2, 2));
            }
            std::unique_ptr<char[]> b(z ? new char[z] : nullptr);
            int r;
            std::string w;
            if (op == 22)
            {
                w = S("listxattr " + qp + " size " + str(z));
                r = f.listxattr(P.get(), b.get(), z);
                defined(w, r, z ? (long)z : 65536);
                if (t && !lnk && z > 0 && r == 0)
                    one_of(w, r, {0});
            }
            else if (op == 23)
            {
                if (z)
                    memset(b.get(), 'v', z);
                if (!b)
                    b.reset(new char[0]);    // the kernel passes a valid pointer for empty values
                w = S("setxattr " + qp + " " + q(n) + " size " + str(z));
                r = f.setxattr(P.get(), N.get(), b.get(), z, s.pick({0, 0, (int)XATTR_CREATE, (int)XATTR_REPLACE}));
                defined(w, r);
                if (!r)
                    xpool.push_back(n);
            }
            else if (op == 24)
            {
                w = S("getxattr " + qp + " " + q(n) + " size " + str(z));
                r = f.getxattr(P.get(), N.get(), b.get(), z);
                defined(w, r, z ? (long)z : 65536);
            }
            else
            {
                w = S("removexattr " + qp + " " + q(n));
                r = f.removexattr(P.get(), N.get());
                defined(w, r);
            }
            // A name or value too long once encrypted is refused first.
            if (!(r == -ERANGE && n.size() >= 150) && !(r == -E2BIG && z > 60000))
                missing(w, r);
            break;
        }
        case 26:
        {
            if (!f.ioctl || hs.empty())
                break;
            Handle& h = hs[s.below(hs.size())];
            std::unique_ptr<char[]> keep;
            const char* hpp = hp(h, keep);
            std::string w = S("ioctl");
            // Commands of no meaning to securefs.
            int r = f.ioctl(hpp, s.pick({0, 1, -1, 0x5401, (int)0x80086601, 0x1268}), s.coin() ? nullptr : &h.fi, &h.fi, (unsigned)s.below(4), nullptr);
            defined(w, r);
            if (!r)
                bad(w + " with an unknown command succeeded");
            break;
        }
        case 27:
        {
            fuse_conn_info ci{};
            ci.proto_major = 7;
            ci.proto_minor = 23;
            ci.capable = (unsigned)s.below(1ull << 32);
            std::string w = S("init capable " + str(ci.capable));
            f.init(&ci);
            if (ci.want & ~ci.capable)
                bad(w + " wants capabilities that were not offered");
            break;
        }
        default:
        {
            c.step("remount");
            close_all();
            m.open(store, cf);
            break;
        }
        }
    }
    void close_all()
    {
        m.enter();
        for (auto& h : hs)
        {
            int r = h.dir ? m.f.releasedir(nullptr, &h.fi) : m.f.release(nullptr, &h.fi);
            if (r)
                bad("closing " + q(h.path) + " returned " + std::to_string(r));
        }
        hs.clear();
    }
    void sentinel(const std::string& when)
    {
        std::string d;
        int r = m.get(SENTINEL, d);
        if (r < 0 || d != SENTINEL_DATA)
            bad(when + " (last call: " + last + "): the untouched file reads as " + std::to_string(r) + " " + q(d));
        struct stat st;
        if ((r = m.getattr("/", st)) || !S_ISDIR(st.st_mode))
            bad(when + " (last call: " + last + "): getattr of the root returned " + std::to_string(r));
    }
    void run(bool log)
    {
        c.step(cf.text());
        store = make_dir(c.dir + "/store");
        m.open(store, cf);
        VREQ(!m.mkdir("/keep", 0755) && m.put(SENTINEL, SENTINEL_DATA) >= 0, "setup failed");
        if (log)
        {
            securefs::global_logger = securefs::Logger::create_file_logger("/dev/null");
            securefs::global_logger->set_level(s.coin() ? securefs::LoggingLevel::kLogTrace : securefs::LoggingLevel::kLogWarning);
            c.step("logging");
        }
        struct Off
        {
            ~Off() { securefs::global_logger.reset(); }
        } off;
        int n = 2 + (int)s.below(60);
        for (int i = 0; i < n; ++i)
        {
            call();
            if (s.chance(1, 12))
                sentinel("in between");
        }
        sentinel("at the end");
        close_all();
        m.open(store, cf);
        sentinel("after remounting");
        std::vector<DirEnt> l;
        int r = m.ls("/", l);
        if (r)
            bad("listing the root after remounting returned " + std::to_string(r));
        m.close();
        c.nontrivial = calls >= 10 && good >= 5;
    }
};
void lite(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    switch (c.s.below(6))
    {
    case 1:
        cf.fold = true;
        break;
    case 2:
        cf.nfc = true;
        break;
    case 3:
        cf.fold = cf.nfc = true;
        break;
    case 4:
        cf.plain = true;
        break;
    }
    cf.verify = !c.s.chance(1, 4);
    cf.xattr = !c.s.chance(1, 6);
    if (c.s.chance(1, 6))
        cf.uid = 1234;
    Caller k(c, cf);
    k.run(c.s.chance(1, 3));
}
void full(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.ci = c.s.chance(1, 4);
    cf.un = c.s.chance(1, 4);
    cf.verify = !c.s.chance(1, 4);
    cf.xattr = !c.s.chance(1, 6);
    if (c.s.chance(1, 6))
        cf.gid = 1234;
    Caller k(c, cf);
    k.run(c.s.chance(1, 3));
}
}    // namespace
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S21";
    p.unprivileged = true;
    p.rule = "A case mounts either format with random settings and options (verification, attributes, name modes, owner overrides, log level) and makes 2 "
             "to 61 raw calls through the fuse_operations table: every entry point, with paths of every shape up to 4095 bytes, null paths where "
             "the table allows them, open and removed handles, all open flags the kernel passes on, sizes from 0, offsets up to 2^63-1, exact heap "
             "buffers under AddressSanitizer, and any owner, mode and time. Non-trivial: at least 10 calls of which 5 succeed; distinct by choice sequence.";
    p.assumptions = {"arguments are those a Linux kernel and libfuse 2 may pass: the kernel's own refusals (unlink of directories, rename into itself, "
                     "wrong type for the call, writes on read-only handles) are not generated, races with removal and replacement are",
                     "O_DIRECT is left to the backing file system and not generated"};
    p.quick_cases = 40000;
    p.thorough_cases = 600000;
    p.tests = {{"lite", lite, 1}, {"full", full, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
