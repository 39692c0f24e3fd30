// S22: arbitrary bytes in the backing store and the config file cause errors, never crashes.
#include "decode.h"
#include "files.h"
#include "params_io.h"
#include <fcntl.h>
#include <google/protobuf/util/json_util.h>
#include <sqlite3.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <set>
#include <unistd.h>
using namespace vp;
using namespace securefs;
namespace
{
std::string mutated(Src& s, std::string v, size_t unit)
{
    for (size_t k = 1 + s.below(3); k > 0; --k)
        switch (s.weighted({5, 3, 3, 2, 2, 2, 2, 1}))
        {
        case 0:
            if (!v.empty())
                v[s.below(v.size())] ^= (char)(1 << s.below(8));
            break;
        case 1:
            v.resize(s.coin() ? s.below(v.size() + 1) : std::min<size_t>(v.size(), s.size_near(v.size(), unit)));
            break;
        case 2:
            v += s.bytes(1 + s.size_near(3 * unit, unit));
            break;
        case 3:
        {
            size_t a = s.below(v.size() + 1), n = std::min<size_t>(v.size() - a, 1 + s.below(unit));
            v.replace(a, n, std::string(n, s.coin() ? '\0' : '\xFF'));
            break;
        }
        case 4:
            if (v.size() >= 4)
            {
                // A number of special value somewhere.
                uint32_t x = s.pick({0u, 1u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFu, 255u, 13u, 14u});
                memcpy(&v[s.below(v.size() - 3)], &x, 4);
            }
            break;
        case 5:
            v = s.bytes(s.size_near(6 * unit, unit));
            break;
        case 6:
            v.insert(s.below(v.size() + 1), s.bytes(1 + s.below(40)));
            break;
        default:
            v.clear();
        }
    return v;
}
// Calls of every kind on a mount whose store may hold anything.
struct User
{
    Ctx& c;
    Src& s;
    FsConfig cf;
    Mount m;
    std::string store;
    struct H
    {
        bool dir;
        fuse_file_info fi;
    };
    std::vector<H> hs;
    std::vector<std::string> pool;
    int calls = 0, good = 0, failed = 0;
    DecryptedSecurefsParams params;
    securefs::MountOptions mo;
    User(Ctx& c_, FsConfig f, std::string d) : c(c_), s(c_.s), cf(std::move(f)), store(std::move(d))
    {
        params = make_params(cf);
        mo = make_mount_options(cf);
    }
    bool mount()
    {
        try
        {
            m.open(store, params, mo);
            return true;
        }
        catch (const std::exception& e)
        {
            c.step(std::string("mount: ") + e.what());
            return false;
        }
    }
    int res(const std::string& what, int r, long most = 0)
    {
        ++calls;
        ++(r < 0 ? failed : good);
        c.step(what + " = " + std::to_string(r));
        if (r > most || r < -133)
            fail("[" + cf.text() + "] " + what + " returned " + std::to_string(r) + ", which is neither a proper result nor an error number");
        return r;
    }
    std::string path()
    {
        std::string p = pool.empty() ? "" : s.pick(pool);
        if (p.empty() || s.chance(1, 4))
        {
            if (p == "/")
                p = "";
            p += "/" + (s.chance(1, 6) ? std::string(1 + s.below(300), 'L') : s.pick({std::string("a"), std::string("b"), std::string("n1"), std::string("n7"), std::string("zz")}));
        }
        return p;
    }
    // The kernel never sends a path through a link, nor names that are none.
    bool sendable(const std::string& p)
    {
        if (p == "/")
            return true;
        if (p.empty() || p[0] != '/' || p.size() > 2000)
            return false;
        for (size_t i = 0; i < p.size();)
        {
            size_t j = p.find('/', i + 1);
            std::string comp = p.substr(i + 1, j == std::string::npos ? j : j - i - 1);
            if (comp.empty() || comp == "." || comp == "..")
                return false;
            if (j == std::string::npos)
                break;
            struct stat st;
            if (!m.getattr(p.substr(0, j), st) && S_ISLNK(st.st_mode))
                return false;
            i = j;
        }
        return true;
    }
    void call()
    {
        std::string p = path();
        if (!sendable(p))
            return;
        std::string w = " " + q(p);
        switch (s.weighted({3, 5, 5, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1}))
        {
        case 0:
        {
            struct stat st{};
            res("getattr" + w, m.getattr(p, st));
            break;
        }
        case 1:
        {
            H h{true, {}};
            if (res("opendir" + w, m.opendir(p, h.fi)))
                break;
            std::vector<DirEnt> l;
            res("readdir" + w, m.readdir(p, l, h.fi));
            for (auto& e : l)
                if (e.name != "." && e.name != ".." && pool.size() < 60 && !e.name.empty() && e.name.find('/') == std::string::npos)
                    pool.push_back((p == "/" ? "" : p) + "/" + e.name);
            if (s.coin())
                res("releasedir", m.releasedir(p, h.fi));
            else
                hs.push_back(h);
            break;
        }
        case 2:
        {
            H h{false, {}};
            struct stat st;
            if (!m.getattr(p, st) && !S_ISREG(st.st_mode))
                break;
            if (!res("open" + w, m.open(p, s.pick({(int)O_RDWR, (int)O_RDONLY, (int)O_RDWR | O_TRUNC}), h.fi)))
                hs.push_back(h);
            break;
        }
        case 3:
        {
            H h{false, {}};
            if (p != "/" && !res("create" + w, m.create(p, 0644, h.fi)))
            {
                hs.push_back(h);
                pool.push_back(p);
            }
            break;
        }
        case 4:
            if (p != "/" && !res("mkdir" + w, m.mkdir(p, 0755)))
                pool.push_back(p);
            break;
        case 5:
            if (p != "/" && !res("symlink" + w, m.symlink(std::string(1 + s.below(200), 't'), p)))
                pool.push_back(p);
            break;
        case 6:
        {
            struct stat st{};
            int r = m.getattr(p, st);
            if (p != "/" && (r || !S_ISDIR(st.st_mode)))
                res("unlink" + w, m.unlink(p));
            break;
        }
        case 7:
        {
            struct stat st{};
            int r = m.getattr(p, st);
            if (p != "/" && (r || S_ISDIR(st.st_mode)))
                res("rmdir" + w, m.rmdir(p));
            break;
        }
        case 8:
        {
            std::string to = path();
            if (p == "/" || to == "/" || !sendable(to) || to.compare(0, p.size() + 1, p + "/") == 0 || p.compare(0, to.size() + 1, to + "/") == 0)
                break;
            if (!res("rename" + w + " " + q(to), m.rename(p, to)))
                pool.push_back(to);
            break;
        }
        case 9:
        {
            std::string to = path();
            struct stat st{};
            if (p == "/" || to == "/" || !sendable(to) || (!m.getattr(p, st) && S_ISDIR(st.st_mode)))
                break;
            if (!res("link" + w + " " + q(to), m.link(p, to)))
                pool.push_back(to);
            break;
        }
        case 10:
        {
            std::string t;
            res("readlink" + w, m.readlink(p, t));
            break;
        }
        case 11:
            res("chmod" + w, m.chmod(p, 0755));
            break;
        case 12:
        {
            timespec ts[2] = {{1, 1}, {2, 2}};
            res("utimens" + w, m.utimens(p, ts));
            break;
        }
        case 13:
        {
            struct stat st{};
            if (!m.getattr(p, st) && !S_ISREG(st.st_mode))
                break;
            res("truncate" + w, m.truncate(p, (off_t)s.size_near(3000, cf.block)));
            break;
        }
        case 14:
        {
            std::vector<std::string> l;
            std::string v;
            int r = m.listxattr(p, l);
            res("listxattr" + w, r, 65536);
            l.push_back("user.x");
            res("getxattr" + w, m.getxattr(p, s.pick(l), v), 65536);
            break;
        }
        case 15:
            res("setxattr" + w, m.setxattr(p, s.pick({"user.x", "user.y"}), s.bytes(s.below(50))));
            break;
        case 16:
            res("removexattr" + w, m.removexattr(p, s.pick({"user.x", "user.y"})));
            break;
        default:
        {
            struct statvfs sv;
            res("statfs", m.statfs("/", sv));
        }
        }
        if (!hs.empty() && s.chance(2, 3))
        {
            size_t i = s.below(hs.size());
            H& h = hs[i];
            if (h.dir)
            {
                std::vector<DirEnt> l;
                if (s.coin())
                    res("readdir again", m.readdir("", l, h.fi));
                else
                {
                    res("releasedir", m.releasedir("", h.fi));
                    hs.erase(hs.begin() + (long)i);
                }
                return;
            }
            off_t off = (off_t)s.size_near(4000, cf.block);
            switch (s.below(6))
            {
            case 0:
            case 1:
            {
                std::string d;
                size_t n = 1 + s.size_near(4000, cf.block);
                res("read " + str((uint64_t)off) + "+" + str(n), m.read("", d, n, off, h.fi), (long)n);
                break;
            }
            case 2:
            {
                std::string d = s.bytes(1 + s.size_near(2000, cf.block));
                if ((h.fi.flags & O_ACCMODE) == O_RDONLY)
                    break;
                res("write " + str((uint64_t)off) + "+" + str(d.size()), m.write("", d, off, h.fi), (long)d.size());
                break;
            }
            case 3:
                if ((h.fi.flags & O_ACCMODE) != O_RDONLY)
                    res("ftruncate " + str((uint64_t)off), m.ftruncate("", off, h.fi));
                break;
            case 4:
                res("flush", m.flush("", h.fi));
                res("fsync", m.fsync("", false, h.fi));
                break;
            default:
            {
                struct stat st;
                res("fgetattr", m.fgetattr("", st, h.fi));
                res("release", m.release("", h.fi));
                hs.erase(hs.begin() + (long)i);
            }
            }
        }
    }
    void close()
    {
        for (auto& h : hs)
            res("closing", h.dir ? m.releasedir("", h.fi) : m.release("", h.fi));
        hs.clear();
        m.close();
    }
    void use(int n)
    {
        if (!mount())
            return;
        pool.push_back("/");
        for (int i = 0; i < n; ++i)
        {
            if (s.chance(1, 25))
            {
                close();
                if (!mount())
                    return;
            }
            call();
        }
        close();
        if (mount())
            m.close();
    }
    // A small tree to start from.
    void fill(bool big)
    {
        VREQ(mount(), "mounting an empty store failed");
        std::vector<std::string> dirs = {"/"};
        int n = 2 + (int)s.below(12);
        auto nm = [&](int i) { return s.chance(1, 5) ? std::string(100 + s.below(100), (char)('A' + i % 20)) : "n" + str((uint64_t)i); };
        for (int i = 0; i < n; ++i)
        {
            std::string d = s.pick(dirs), p = (d == "/" ? "" : d) + "/" + nm(i);
            switch (s.weighted({5, 3, 2}))
            {
            case 0:
                m.put(p, s.bytes(s.size_near(5 * cf.block, cf.block)));
                break;
            case 1:
                m.mkdir(p, 0755);
                dirs.push_back(p);
                break;
            default:
                m.symlink(s.pick({std::string("n1"), std::string(".."), std::string(120, 't')}), p);
            }
            if (s.chance(1, 4))
                m.setxattr(p, "user.x", s.bytes(s.below(60)));
            pool.push_back(p);
        }
        if (big)
        {
            // Many names, so that the index has several levels.
            std::string d = s.pick(dirs);
            unsigned k = s.pick({16u, 30u, 60u, 120u});
            for (unsigned i = 0; i < k; ++i)
                m.symlink("t", (d == "/" ? "" : d) + "/b" + str(i));
            if (s.coin())
                for (unsigned i = 0; i < k; i += s.pick({1, 2, 3}))
                    m.unlink((d == "/" ? "" : d) + "/b" + str(i));
            for (unsigned i = 0; i < k; i += 7)
                pool.push_back((d == "/" ? "" : d) + "/b" + str(i));
        }
        m.close();
    }
};
void damage_file(Ctx& c, const std::string& store, const std::string& f, size_t unit, const std::vector<std::string>& all, const std::set<std::string>& small)
{
    Src& s = c.s;
    struct stat st;
    if (lstat(f.c_str(), &st) || st.st_size > (1 << 25))
        return;
    std::string shown = f.substr(store.size());
    switch (s.weighted({10, 1, 1, 2, 1, 1, 1, 1}))
    {
    case 0:
        if (S_ISREG(st.st_mode))
        {
            c.step("mutate " + shown);
            write_file(f, mutated(s, read_file(f), unit));
        }
        else if (S_ISLNK(st.st_mode))
        {
            char b[4097];
            ssize_t n = readlink(f.c_str(), b, 4096);
            std::string t = mutated(s, std::string(b, n > 0 ? (size_t)n : 0), 40);
            t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
            t.resize(std::min<size_t>(t.size(), 4000));
            if (t.empty() || t[0] == '/')
                t = "x" + t;
            c.step("relink " + shown);
            unlink(f.c_str());
            if (symlink(t.c_str(), f.c_str())) {}
        }
        break;
    case 1:
        c.step("remove " + shown);
        if (unlink(f.c_str())) rmdir(f.c_str());
        break;
    case 2:
        c.step("a directory instead of " + shown);
        unlink(f.c_str());
        mkdir(f.c_str(), 0755);
        break;
    case 3:
    {
        std::string g = s.pick(all);
        struct stat gs;
        if (!lstat(g.c_str(), &gs) && S_ISREG(gs.st_mode) && gs.st_size <= (1 << 25) && S_ISREG(st.st_mode))
        {
            c.step(g.substr(store.size()) + " over " + shown);
            write_file(f, read_file(g));
        }
        break;
    }
    case 4:
        if (S_ISREG(st.st_mode))
        {
            off_t n = (off_t)(1ull << s.range(13, small.count(f) ? 24 : 40));
            c.step("sparse growth of " + shown + " to " + str((uint64_t)n));
            if (truncate(f.c_str(), n)) {}
        }
        break;
    case 5:
    {
        // A strange name beside it.
        std::string n = s.coin() ? s.bytes(1 + s.below(200)) : f.substr(f.rfind('/') + 1) + s.pick({"", "x", ".meta", "A", "..."});
        for (auto& ch : n)
            if (!ch || ch == '/')
                ch = 'q';
        n = f.substr(0, f.rfind('/') + 1) + n.substr(0, 250);
        c.step("stray " + q(n.substr(store.size())));
        if (lstat(n.c_str(), &st))
        {
            if (s.chance(1, 4))
                mkdir(n.c_str(), 0755);
            else if (s.coin())
                write_file(n, s.bytes(s.size_near(400, unit)));
            else if (symlink("stray", n.c_str())) {}
        }
        break;
    }
    case 6:
        if (!S_ISLNK(st.st_mode))
        {
            c.step("attributes of " + shown);
            for (auto& x : raw_xattrs(f))
                setxattr(f.c_str(), x.first.c_str(), x.second.data(), 0, 0);
            std::string v = s.bytes(s.below(80));
            for (auto& x : raw_xattrs(f))
                setxattr(f.c_str(), x.first.c_str(), v.data(), v.size(), 0);
            setxattr(f.c_str(), s.pick({"user.", "user.garbage", "user.AAAAAAAAAAAAAAAAAAAAAAAAAAAA", "user.YWJj=="}), v.data(), v.size(), 0);
        }
        break;
    default:
        c.step("a link instead of " + shown);
        unlink(f.c_str());
        if (symlink(s.pick({".", "..", "nowhere", "x/y", "A"}), f.c_str())) {}
    }
}
FsConfig config(Ctx& c, bool full)
{
    FsConfig cf = gen_config(c.s, full);
    if (cf.block > 1024)
        cf.block = 64;
    if (full)
    {
        cf.ci = c.s.chance(1, 5);
        cf.un = c.s.chance(1, 5);
    }
    else
    {
        cf.fold = c.s.chance(1, 6);
        cf.nfc = c.s.chance(1, 6);
    }
    cf.verify = true;
    return cf;
}
void finish(Ctx& c, User& u)
{
    c.nontrivial = u.calls >= 5 && u.failed >= 1;
    c.label("calls succeeding", (uint64_t)u.good);
    c.label("calls failing", (uint64_t)u.failed);
}
void random_bytes(Ctx& c, bool full)
{
    Src& s = c.s;
    FsConfig cf = config(c, full);
    c.step(cf.text());
    User u(c, cf, make_dir(c.dir + "/store"));
    u.fill(full && s.chance(1, 3));
    auto all = raw_file_list(u.store);
    if (all.empty())
        throw Discard{};
    // Work that grows with the size of the index, or of what authenticates an object, is no defect.
    std::set<std::string> small;
    if (full)
    {
        FullReader rd(u.store, cf);
        for (auto& t : rd.walk(x_name_cmp(cf.ci, cf.un)))
            if (t.second.type == 'd')
                small.insert(rd.path_of(t.second.obj.id));
        for (auto& f : all)
            if (f.size() > 5 && f.compare(f.size() - 5, 5, ".meta") == 0)
                small.insert(f);
    }
    int n = 1 + (int)s.below(4);
    for (int i = 0; i < n; ++i)
        damage_file(c, u.store, s.pick(all), cf.block, all, small);
    u.mo.set_disable_verification(s.coin());
    c.step(u.mo.disable_verification() ? "verification off" : "verification on");
    u.use(5 + (int)s.below(40));
    finish(c, u);
}
void lite_bytes(Ctx& c) { random_bytes(c, false); }
void full_bytes(Ctx& c) { random_bytes(c, true); }

// Objects with well-sealed but senseless contents: what someone with the keys, or with verification off, may leave.
class Raw : public FileBase
{
public:
    using FileBase::FileBase;
    StreamBase& data() { return *m_stream; }
    void root_page(uint32_t v) { set_root_page(v); }
    void free_start(uint32_t v) { set_start_free_page(v); }
    void free_num(uint32_t v) { set_num_free_page(v); }
};
constexpr size_t PAGE = 4096;
void put32(std::string& b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        b[at + (size_t)i] = (char)(v >> (8 * i));
}
uint32_t get32(const std::string& b, size_t at)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i)
        v |= (uint32_t)(unsigned char)b[at + (size_t)i] << (8 * i);
    return v;
}
void crafted(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = config(c, true);
    if (s.coin())
        cf.pad = 0;
    c.step(cf.text());
    User u(c, cf, make_dir(c.dir + "/store"));
    u.fill(s.chance(3, 4));
    FullReader rd(u.store, cf);
    std::map<std::string, FullReader::Node> tree;
    try
    {
        tree = rd.walk(x_name_cmp(cf.ci, cf.un));
    }
    catch (DecodeError& e)
    {
        fail(std::string("the independent reader fails: ") + e.what());
    }
    std::vector<std::string> paths, dirs, ids;
    for (auto& t : tree)
    {
        paths.push_back(t.first);
        if (t.second.type == 'd')
            dirs.push_back(t.first);
        ids.push_back(t.second.obj.id);
    }
    ids.push_back(std::string(32, '\x11'));    // no such object
    ids.push_back(FullReader::root_id());
    auto params = u.params;
    key_type master(reinterpret_cast<const byte*>(params.full_format_params().master_key().data()), 32);
    auto os = std::make_shared<OSService>(u.store);
    for (size_t k = 1 + s.below(3); k > 0; --k)
    {
        std::string p = s.chance(3, 4) ? s.pick(dirs) : s.pick(paths);
        const FObj& o = tree[p].obj;
        bool dir = tree[p].type == 'd';
        std::string path = rd.path_of(o.id).substr(u.store.size() + 1);
        id_type id(reinterpret_cast<const byte*>(o.id.data()), 32);
        std::shared_ptr<FileStream> ds = os->open_file_stream(path, O_RDWR, 0644), ms = os->open_file_stream(path + ".meta", O_RDWR, 0644);
        Raw raw(ds,
                ms,
                StrongType<key_type, tMasterKey>(master),
                id,
                StrongType<bool, tVerify>(false),
                StrongType<unsigned, tBlockSize>(cf.block),
                StrongType<unsigned, tIvSize>(cf.iv),
                StrongType<unsigned, tMaxPaddingSize>(cf.pad),
                StrongType<bool, tStoreTimeWithinFs>(cf.store_time));
        raw.lock();
        std::string d(raw.data().size(), '\0');
        raw.data().read(&d[0], 0, d.size());
        uint32_t pages = (uint32_t)(d.size() / PAGE);
        auto page = [&]
        {
            return s.pick({(uint32_t)s.below(pages + 1), (uint32_t)s.below(pages + 1), raw.get_mode() & 3, 0xFFFFFFFFu, pages, pages + 1, 0x7FFFFFFFu, 0x80000000u, 0x100000u});
        };
        size_t kind = s.weighted({8, 4, 2, 2, 2, 1});
        if (!dir && kind != 1)
            kind = 2 + s.below(3);
        if (dir && kind == 0 && !pages)
            kind = 1;
        switch (kind)
        {
        case 0:
        {
            // One or more fields of one or more index pages.
            for (size_t j = 1 + s.below(4); j > 0; --j)
            {
                size_t at = s.below(pages) * PAGE, nk = (unsigned char)d[at + 4] + 256u * (unsigned char)d[at + 5],
                       ne = (unsigned char)d[at + 6] + 256u * (unsigned char)d[at + 7], ents = at + 8 + nk * 4;
                auto field16 = [&](size_t w, unsigned v)
                {
                    d[at + w] = (char)v;
                    d[at + w + 1] = (char)(v >> 8);
                };
                bool node = get32(d, at) != 0;
                auto ent = [&](size_t i) { return ents + i * (256 + 32 + 4); };
                size_t what = s.weighted({2, 4, 4, 5, 3, 3, 3, 3, 1, 3, 3});
                if (!node && what > 0 && what < 9)
                    what = 9;
                c.step("page " + str(at / PAGE) + " of " + p + " field " + str(what));
                switch (what)
                {
                case 0:
                    put32(d, at, s.pick({0u, 1u, 2u, 0xFFFFFFFFu}));
                    break;
                case 1:
                    field16(4, s.pick({0u, 1u, 2u, (unsigned)ne + 1, (unsigned)ne, 13u, 14u, 15u, 200u, 65535u}));
                    break;
                case 2:
                    field16(6, s.pick({0u, 1u, (unsigned)ne - 1, (unsigned)ne + 1, 5u, 13u, 14u, 65535u}));
                    break;
                case 3:
                    if (nk && ents <= at + PAGE)
                        put32(d, at + 8 + 4 * s.below(nk), page());
                    break;
                case 4:
                    // A child twice.
                    if (nk > 1 && ents <= at + PAGE)
                        put32(d, at + 8 + 4 * s.below(nk), get32(d, at + 8 + 4 * s.below(nk)));
                    break;
                case 5:
                case 6:
                case 7:
                {
                    if (!ne || ent(ne) > at + PAGE)
                        break;
                    size_t e = ent(s.below(ne));
                    if (what == 5)
                    {
                        std::string n = s.pick({std::string(""), std::string("."), std::string(".."), std::string("a/b"), std::string("/"), std::string(256, 'x'), std::string("b1"), std::string("\xFF\xFE"),
                                                std::string("~~~"), std::string("\xED\xA0\x80"), std::string(255, '\xC3')});
                        n.resize(256, '\0');
                        d.replace(e, 256, n);
                    }
                    else if (what == 6)
                        d.replace(e + 256, 32, s.pick(ids));
                    else
                        put32(d, e + 288, s.pick({4u, 8u, 10u, 0u, 255u, 0xFFFFFFFFu, 12u, 2u}));
                    break;
                }
                case 8:
                    for (size_t i = at; i < at + PAGE; ++i)
                        d[i] = '\0';
                    break;
                case 9:
                    put32(d, at + 4, page());    // free page: next
                    put32(d, at + 8, page());
                    break;
                default:
                {
                    // A whole node made up.
                    size_t k2 = s.below(15), e2 = s.pick({(size_t)0, (size_t)1, k2 ? k2 - 1 : 0, s.below(14)});
                    std::string b(PAGE, '\0');
                    put32(b, 0, 1);
                    b[4] = (char)k2;
                    b[6] = (char)e2;
                    uint32_t same = page();
                    bool dup = s.coin();
                    for (size_t i = 0; i < k2; ++i)
                        put32(b, 8 + 4 * i, dup ? same : page());
                    for (size_t i = 0; i < e2 && 8 + 4 * k2 + (i + 1) * 292 <= PAGE; ++i)
                    {
                        size_t e = 8 + 4 * k2 + i * 292;
                        std::string n = s.pick({std::string("a"), std::string("b"), std::string("n1"), std::string("n7"), std::string("b1"), std::string("zz"), std::string("")});
                        std::copy(n.begin(), n.end(), b.begin() + (long)e);
                        b.replace(e + 256, 32, s.pick(ids));
                        put32(b, e + 288, s.pick({4u, 8u, 10u}));
                    }
                    d.replace(at, PAGE, b);
                }
                }
            }
            break;
        }
        case 1:
            switch (s.below(dir ? 5 : 2))
            {
            case 0:
                raw.set_mode(s.pick({0u, 0100644u, 0040755u, 0120777u, 0010644u, 0060644u, 0xFFFFFFFFu, 0140755u}));
                break;
            case 1:
                raw.set_nlink(s.pick({0u, 2u, 0xFFFFFFFFu, 0x80000000u}));
                break;
            case 2:
                raw.root_page(page());
                break;
            case 3:
                raw.free_start(page());
                raw.free_num(s.pick({1u, 6u, 0xFFFFFFFFu, 100u}));
                break;
            default:
                raw.free_num(s.pick({0u, 1u, 6u, 7u, 1000u, 0xFFFFFFFFu}));
            }
            c.step("header of " + p);
            break;
        case 2:
            c.step("random content of " + p);
            d = s.bytes(s.size_near(3 * PAGE, PAGE));
            break;
        case 3:
            c.step("mutated content of " + p);
            d = mutated(s, d, dir ? PAGE : cf.block);
            break;
        case 4:
            if (!d.empty())
            {
                c.step("cut content of " + p);
                d.resize(s.size_near(d.size() - 1, PAGE));
            }
            break;
        default:
            c.step("longer content of " + p);
            d += s.coin() ? std::string(PAGE * (1 + s.below(9)), '\0') : s.bytes(1 + s.below(2 * PAGE));
        }
        raw.data().resize(d.size());
        raw.data().write(d.data(), 0, d.size());
        raw.flush();
        raw.unlock();
    }
    os.reset();
    u.mo.set_disable_verification(s.chance(1, 4));
    u.use(10 + (int)s.below(60));
    finish(c, u);
}
// The table of long names: a SQLite database of anyone's making.
void table(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = config(c, false);
    cf.threshold = s.pick({20u, 8u, 100u, 128u});
    cf.suffix = s.pick({".ll", "", "..."});
    c.step(cf.text());
    User u(c, cf, make_dir(c.dir + "/store"));
    VREQ(u.mount(), "mount failed");
    std::vector<std::string> dirs = {"/"};
    for (int i = 0; i < 5; ++i)
    {
        std::string p = (s.coin() ? std::string() : std::string(dirs.back() == "/" ? "" : dirs.back())) + "/" + std::string(130 + s.below(60), (char)('A' + i));
        if (s.chance(1, 3))
        {
            u.m.mkdir(p, 0755);
            dirs.push_back(p);
        }
        else
            u.m.put(p, s.bytes(s.below(200)));
        u.pool.push_back(p);
    }
    u.m.close();
    std::vector<std::string> dbs;
    for (auto& f : raw_file_list(u.store))
        if (f.size() > 14 && f.compare(f.size() - 14, 14, ".long_names.db") == 0)
            dbs.push_back(f);
    VREQ(!dbs.empty(), "no table of long names exists");
    std::string db = s.pick(dbs);
    if (s.chance(1, 3))
    {
        c.step("mutate the table");
        write_file(db, mutated(s, read_file(db), 512));
        if (s.chance(1, 4))
            write_file(db + "-journal", mutated(s, "\xd9\xd5\x05\xf9\x20\xa1\x63\xd7" + s.bytes(600), 512));
        if (s.chance(1, 6))
            write_file(db + "-wal", s.bytes(200));
    }
    else
    {
        sqlite3* h = nullptr;
        VREQ(!sqlite3_open(db.c_str(), &h), "cannot open the table");
        std::string blob = "x'" + hex(s.bytes(s.below(60)), 1000) + "'";
        std::vector<std::string> sql = {
            "delete from encrypted_mappings",
            "update encrypted_mappings set encrypted_name = ''",
            "update encrypted_mappings set encrypted_name = " + blob,
            "update encrypted_mappings set encrypted_name = keyed_hash",
            "update encrypted_mappings set keyed_hash = " + blob + " where rowid = 1",
            "update encrypted_mappings set encrypted_name = zeroblob(100000)",
            "update encrypted_mappings set encrypted_name = 'a/../../b'",
            "drop table encrypted_mappings",
            "drop table encrypted_mappings; create table encrypted_mappings(a, b)",
            "drop table encrypted_mappings; create table encrypted_mappings(keyed_hash, encrypted_name); insert into encrypted_mappings values (null, null)",
            "create table t2 as select * from encrypted_mappings; drop table encrypted_mappings; create view encrypted_mappings as select keyed_hash, null as encrypted_name from t2",
            "drop table encrypted_mappings; create view encrypted_mappings(keyed_hash, encrypted_name) as with recursive r(x) as (select 1 union all select x + 1 from r) "
            "select 'h' || x, 'e' from r",
            "create trigger tr before insert on encrypted_mappings begin select raise(abort, 'no'); end",
            "create trigger tr before delete on encrypted_mappings begin insert or replace into encrypted_mappings select 'r' || random(), 'x' from "
            "(with recursive r(x) as (select 1 union all select x + 1 from r) select x from r); end",
            "create trigger tr after insert on encrypted_mappings begin insert or replace into encrypted_mappings select 'r' || random(), 'x' from "
            "(with recursive r(x) as (select 1 union all select x + 1 from r) select x from r); end",
            "pragma journal_mode = wal",
            "pragma user_version = 77; pragma application_id = 12345",
        };
        std::string& x = sql[s.below(sql.size())];
        c.step(x);
        char* err = nullptr;
        if (sqlite3_exec(h, x.c_str(), nullptr, nullptr, &err))
            c.step(std::string("(") + (err ? err : "") + ")");
        sqlite3_free(err);
        sqlite3_close(h);
    }
    u.mo.set_disable_verification(s.chance(1, 4));
    u.use(10 + (int)s.below(40));
    finish(c, u);
}
uint32_t wild(Src& s, std::initializer_list<uint32_t> usual)
{
    return s.chance(2, 3) ? s.pick(usual) : s.pick({0u, 1u, 2u, 7u, 11u, 12u, 31u, 33u, 255u, 4095u, 65536u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFE4u});
}
// Whatever the parameters say, mounting and using them works or fails.
void use_params(Ctx& c, const DecryptedSecurefsParams& p)
{
    Src& s = c.s;
    FsConfig cf;
    cf.full = p.has_full_format_params();
    cf.block = 64;
    User u(c, cf, make_dir(c.dir + "/store"));
    u.params = p;
    c.step("params: " + p.ShortDebugString());
    u.pool = {"/a", "/b"};
    u.use(10 + (int)s.below(15));
    c.label("mounted", u.calls > 0);
    c.nontrivial = true;
}
void params(Ctx& c)
{
    Src& s = c.s;
    DecryptedSecurefsParams p;
    if (!s.chance(1, 10))
    {
        auto z = p.mutable_size_params();
        z->set_block_size(wild(s, {4096, 64, 100}));
        z->set_iv_size(wild(s, {12, 16, 32}));
        z->set_max_padding_size(wild(s, {0, 0, 16, 128}));
    }
    auto key = [&](size_t n) { return s.chance(9, 10) ? s.bytes(n) : s.bytes(s.pick({(size_t)0, (size_t)1, (size_t)31, (size_t)33, (size_t)64})); };
    switch (s.weighted({5, 5, 1}))
    {
    case 0:
    {
        auto l = p.mutable_lite_format_params();
        l->set_name_key(key(32));
        l->set_content_key(key(32));
        l->set_xattr_key(key(32));
        if (s.coin())
            l->set_padding_key(key(32));
        if (s.coin())
            l->set_long_name_threshold(wild(s, {8, 100, 128}));
        if (s.coin())
            l->set_long_name_suffix(s.coin() ? s.pick({".ll", "", "/", "A", ".."}) : std::string(s.below(300), 'x'));
        break;
    }
    case 1:
    {
        auto f = p.mutable_full_format_params();
        f->set_master_key(key(32));
        f->set_store_time(s.coin());
        f->set_legacy_file_table_io(s.coin());
        f->set_case_insensitive(s.coin());
        f->set_unicode_normalization_agnostic(s.coin());
        break;
    }
    default:
        break;
    }
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(1);
    a.set_memory_cost(8);
    a.set_parallelism(1);
    // Through an encrypted config, as the mount command does.
    std::string bytes;
    try
    {
        bytes = encrypt(p, a, as_byte_span("pw"), nullptr).SerializeAsString();
        p = decrypt(bytes, as_byte_span("pw"), nullptr);
    }
    catch (const std::exception& e)
    {
        c.step(e.what());
        return;
    }
    use_params(c, p);
}
void config_bytes(Ctx& c)
{
    Src& s = c.s;
    std::string bytes;
    size_t kind = s.weighted({2, 4, 4, 4});
    static const std::string hexd = "0123456789abcdef";
    auto hexs = [&](size_t n)
    {
        std::string r;
        for (size_t i = 0; i < n; ++i)
            r += hexd[s.below(16)];
        return r;
    };
    if (kind == 0)
        bytes = s.bytes(s.below(400));
    else if (kind == 1)
    {
        EncryptedSecurefsParams e;
        e.set_salt(s.bytes(s.pick({(size_t)32, (size_t)0, (size_t)1, (size_t)7, (size_t)100})));
        e.set_iv(s.bytes(s.pick({(size_t)12, (size_t)0, (size_t)1, (size_t)16, (size_t)500})));
        e.set_mac(s.bytes(s.pick({(size_t)16, (size_t)0, (size_t)1, (size_t)17})));
        e.set_ciphertext(s.bytes(s.below(300)));
        if (s.chance(5, 6))
        {
            auto a = e.mutable_argon2id_params();
            a->set_time_cost(s.pick({1u, 0u, 2u}));
            a->set_memory_cost(s.pick({8u, 0u, 1u, 16u, 64u, 4096u, 7u}));
            a->set_parallelism(s.pick({1u, 0u, 2u, 4u, 0x1000000u, 0xFFFFFFFFu}));
        }
        bytes = e.SerializeAsString();
        if (s.coin())
            bytes = mutated(s, bytes, 16);
    }
    else
    {
        auto num = [&](std::initializer_list<uint32_t> l) { return std::to_string(s.pick(l)); };
        auto h = [&](size_t n) { return s.chance(4, 5) ? hexs(n) : s.pick({std::string(""), std::string("a"), std::string("zz"), hexs(1), hexs(n - 1), hexs(2 * n), std::string("\\u0000")}); };
        std::string kdf = s.pick({"scrypt", "pkcs5-pbkdf2-hmac-sha256", "argon2id", "", "md5", "scrypt"});
        bytes = "{\"version\": " + num({4, 1, 2, 3, 0, 5, 0xFFFFFFFFu}) + ", \"block_size\": " + num({4096, 0, 1, 0xFFFFFFFFu}) + ", \"iv_size\": " + num({12, 0, 32, 0xFFFFFFFFu})
            + ", \"salt\": \"" + h(64) + "\", \"iterations\": " + num({2, 16, 0, 1, 3, 7, 1024}) + ", \"pbkdf\": \"" + kdf + "\", \"scrypt_r\": " + num({1, 8, 0, 2})
            + ", \"scrypt_p\": " + num({1, 0, 2}) + ", \"argon2_m_cost\": " + num({8, 0, 1, 64}) + ", \"argon2_p\": " + num({1, 0, 2, 0xFFFFFFFFu})
            + ", \"max_padding\": " + num({0, 16, 0xFFFFFFFFu}) + ", \"encrypted_key\": {\"IV\": \"" + h(24) + "\", \"MAC\": \"" + h(32) + "\", \"key\": \"" + h(s.pick({(size_t)64, (size_t)192})) + "\"}}";
        if (kind == 3)
        {
            bytes = mutated(s, bytes, 16);
            // Costs stay affordable.
            if (bytes.find("iterations") != std::string::npos)
            {
                LegacySecurefsJsonParams l;
                if (google::protobuf::util::JsonStringToMessage(bytes, &l).ok()
                    && (l.iterations() > 5000 || l.argon2_m_cost() > 5000 || l.scrypt_r() > 64 || l.scrypt_p() > 64))
                    throw Discard{};
            }
        }
    }
    EncryptedSecurefsParams e;
    if (e.ParseFromString(bytes) && (e.argon2id_params().time_cost() > 20 || e.argon2id_params().memory_cost() > 20000))
        throw Discard{};
    std::string kf;
    std::shared_ptr<StreamBase> ks;
    if (s.chance(1, 3))
    {
        write_file(c.dir + "/key", s.bytes(s.pick({(size_t)0, (size_t)1, (size_t)4096, (size_t)5000})));
        OSService os(c.dir);
        ks = os.open_file_stream("key", O_RDONLY, 0);
    }
    c.step(q(bytes));
    c.nontrivial = bytes.size() > 10;
    try
    {
        auto p = decrypt(bytes, as_byte_span(s.coin() ? "pw" : ""), ks.get());
        c.label("opened");
        use_params(c, p);
    }
    catch (const std::exception& x)
    {
        c.label("refused");
        c.step(x.what());
    }
}
// The sizes in a config of the old text form are not sealed: anyone can change them.
void legacy_sizes(Ctx& c)
{
    Src& s = c.s;
    bool full = s.coin();
    static const std::string salt(64, '3'), iv(24, '5');
    std::string pw = "pw", hdr = full ? "version=1" : "version=4", key = s.bytes(full ? 32 : s.coin() ? 96 : 128);
    auto unhex = [](const std::string& h)
    {
        std::string r;
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
        return r;
    };
    std::string wk = x_legacy_kdf("pkcs5-pbkdf2-hmac-sha256", pw, unhex(salt), 1, 0, 0, 0, 0), ct(key.size(), '\0'), mac(16, '\0');
    CryptoPP::GCM<CryptoPP::AES>::Encryption enc;
    std::string ivb = unhex(iv);
    enc.SetKeyWithIV((const CryptoPP::byte*)wk.data(), wk.size(), (const CryptoPP::byte*)ivb.data(), ivb.size());
    enc.EncryptAndAuthenticate((CryptoPP::byte*)&ct[0], (CryptoPP::byte*)&mac[0], 16, (const CryptoPP::byte*)ivb.data(), (int)ivb.size(), (const CryptoPP::byte*)hdr.data(), hdr.size(),
                               (const CryptoPP::byte*)key.data(), key.size());
    auto u = [](uint32_t v) { return std::to_string(v); };
    std::string json = "{\"version\": " + u(full ? s.pick({1u, 2u, 3u}) : 4u);
    uint32_t bs = 4096, ivs = 32, pad = wild(s, {0, 16});
    if (s.chance(9, 10))
        json += ", \"block_size\": " + u(bs = wild(s, {4096, 64}));
    if (s.chance(9, 10))
        json += ", \"iv_size\": " + u(ivs = wild(s, {12, 32}));
    json += ", \"max_padding\": " + u(pad) + ", \"salt\": \"" + salt + "\", \"iterations\": 1, \"pbkdf\": \"pkcs5-pbkdf2-hmac-sha256\", \"long_name_component\": "
        + (s.coin() ? "true" : "false") + ", \"encrypted_key\": {\"IV\": \"" + iv + "\", \"MAC\": \"" + hex(mac, 100) + "\", \"key\": \"" + hex(ct, 1000) + "\"}}";
    c.step(json.substr(0, 80));
    bool sane = bs >= 64 && bs <= 4096 && (ivs == 12 || ivs == 32) && pad <= 65536;
    DecryptedSecurefsParams p;
    try
    {
        p = decrypt(json, as_byte_span(pw), nullptr);
    }
    catch (const std::exception& e)
    {
        c.label("refused");
        c.nontrivial = true;
        if (sane)
            fail(std::string("a config with the right password was refused: ") + e.what() + " " + json);
        return;
    }
    use_params(c, p);
}
}    // namespace
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S22";
    p.unprivileged = true;
    p.rule = "a damaged or senseless store was put to use with at least 5 calls of which at least 1 failed, or a made-up config or set of parameters was tried";
    p.assumptions = {"the calls are those the kernel sends: paths without links in them, open and truncate on regular files only",
                     "key derivation costs in made-up configs are kept affordable; a config asking for hours of work is not judged",
                     "a directory's index and the file that authenticates an object are grown to at most 16 MiB, because the work grows with them",
                     "a single allocation above 512 MiB, more than 20 s for one case, any signal and any sanitizer report count as failing"};
    p.quick_cases = 20000;
    p.thorough_cases = 400000;
    p.quick_s = 40;
    p.tests = {{"lite_bytes", lite_bytes, 3, 20}, {"full_bytes", full_bytes, 3, 20}, {"crafted", crafted, 6, 20}, {"table", table, 2, 20}, {"params", params, 2, 20},
               {"config_bytes", config_bytes, 3, 20}, {"legacy_sizes", legacy_sizes, 1, 20}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
