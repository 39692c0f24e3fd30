#include "fsmodel.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/xattr.h>

namespace vp
{
static std::string base_of(const std::string& p) { return p.substr(p.rfind('/') + 1); }
static std::string join(const std::string& d, const std::string& n) { return d == "/" ? "/" + n : d + "/" + n; }

void Hist::bad(const std::string& what) { fail("[" + cfg.text() + "] " + what); }
void Hist::expect(const std::string& what, int got, std::initializer_list<int> ok)
{
    for (int x : ok)
        if (x == got)
            return;
    std::string e;
    for (int x : ok)
        e += (e.empty() ? "" : " or ") + (x < 0 ? std::string("-") + strerrorname_np(-x) : std::to_string(x));
    bad(what + " returned " + (got < 0 && strerrorname_np(-got) ? std::string("-") + strerrorname_np(-got) : std::to_string(got))
        + ", expected " + e);
}
void Hist::gen_pool()
{
    Src& s = c.s;
    static const std::vector<std::string> shorts
        = {"a", "b", "cc", "d.txt", ".hidden", "name with space", "e", "\xE5\x8A\xA0\xE5\xAF\x86", "\xC3\xA4", "UPPER", "..x", "a.ll", "z~"};
    for (int i = 0; i < o.names; ++i)
    {
        std::string n;
        switch (s.weighted({5, 3, 2, 2}))
        {
        case 0:
            n = shorts[s.below(shorts.size())];
            break;
        case 1:    // around the long-name threshold
        {
            unsigned t = cfg.threshold ? *cfg.threshold : 100;
            size_t len = (size_t)std::max<int64_t>(1, (int64_t)t + s.range(-1, 3));
            n = std::string(std::min(len, max_name), (char)('A' + s.below(20)));
            break;
        }
        case 2:
            n = std::string(max_name - s.below(3), (char)('g' + s.below(10)));
            break;
        default:
        {
            size_t len = 1 + s.below(60);
            uint64_t seed = s.below(1 << 20);
            Rng g{seed};
            for (size_t k = 0; k < len; ++k)
            {
                char ch = (char)(g.next() >> 9);
                if (cfg.full || cfg.plain)
                {
                    ch = (char)(33 + ((unsigned char)ch % 90));
                }
                if (ch == 0 || ch == '/')
                    ch = '_';
                n.push_back(ch);
            }
            if (n == "." || n == "..")
                n = "dots";
        }
        }
        if (std::find(pool.begin(), pool.end(), n) == pool.end())
            pool.push_back(n);
    }
}
int Hist::lookup(const std::string& path)
{
    int cur = 0;
    size_t i = 0;
    while (i < path.size())
    {
        if (path[i] == '/')
        {
            ++i;
            continue;
        }
        size_t j = path.find('/', i);
        if (j == std::string::npos)
            j = path.size();
        auto& n = nodes[cur];
        if (n.type != 'd')
            return -1;
        auto it = n.kids.find(keyof(path.substr(i, j - i)));
        if (it == n.kids.end())
            return -1;
        cur = it->second.second;
        i = j;
    }
    return cur;
}
std::pair<int, std::string> Hist::parent_of(const std::string& path)
{
    size_t k = path.rfind('/');
    return {lookup(path.substr(0, k)), path.substr(k + 1)};
}
int Hist::add(int dir, const std::string& name, char type)
{
    int id = next_id++;
    nodes[id].type = type;
    nodes[dir].kids[keyof(name)] = {stored(name), id};
    return id;
}
void Hist::drop(int id)
{
    auto& n = nodes[id];
    if (n.nlink <= 0 && n.opens == 0)
        nodes.erase(id);
}
static void walk(std::map<int, MNode>& nodes, int id, const std::string& p, char type, std::vector<std::string>& r)
{
    for (auto& k : nodes[id].kids)
    {
        std::string q = (p == "/" ? "" : p) + "/" + k.second.first;
        char t = nodes[k.second.second].type;
        if (type == '*' || type == t)
            r.push_back(q);
        if (t == 'd')
            walk(nodes, k.second.second, q, type, r);
    }
}
std::vector<std::string> Hist::paths(char type)
{
    std::vector<std::string> r;
    walk(nodes, 0, "/", type, r);
    return r;
}
std::string Hist::any_dir()
{
    auto d = paths('d');
    d.insert(d.begin(), "/");
    return d[c.s.below(d.size())];
}
size_t Hist::phys_len(const std::string& p) const
{
    if (!cfg.threshold || cfg.full)
        return 0;
    size_t n = store.size() + 20, i = 0;
    while (i < p.size())
    {
        size_t j = p.find('/', i);
        if (j == std::string::npos)
            j = p.size();
        if (j > i)
            n += 1 + (j - i <= *cfg.threshold ? ((j - i + 16) * 8 + 4) / 5 : 77 + std::max<size_t>(3, cfg.suffix.size()));
        i = j + 1;
    }
    return n;
}
bool Hist::deep_ok(int node, const std::string& np)
{
    MNode& n = nodes[node];
    if (n.type != 'd')
        return phys_len(np.substr(0, np.rfind('/'))) < 500;
    if (phys_len(np) >= 500)
        return false;
    for (auto& k : n.kids)
        if (!deep_ok(k.second.second, np + "/" + k.second.first))
            return false;
    return true;
}
std::string Hist::gen_new_path()
{
    std::string d = any_dir();
    if (phys_len(d) >= 500)
        d = "/";
    if ((size_t)std::count(d.begin(), d.end(), '/') >= o.max_depth)
        d = "/";
    return join(d, pool[c.s.below(pool.size())]);
}
std::string Hist::gen_path(char type)
{
    auto v = paths(type);
    if (v.empty() || c.s.chance(1, 12))
        return gen_new_path();
    return v[c.s.below(v.size())];
}
void Hist::close_all()
{
    for (auto& h : hs)
    {
        int r = m.release(h.path, h.fi);
        expect("release " + q(h.path), r, {0});
        nodes[h.node].opens--;
        drop(h.node);
    }
    hs.clear();
    for (auto& h : ds)
        expect("releasedir " + q(h.path), m.releasedir(h.path, h.fi), {0});
    ds.clear();
}
// A listing through a directory opened earlier: rewinding shows the directory as it is now.
void Hist::list_handle(H& h)
{
    std::vector<DirEnt> es;
    int r = m.readdir(h.path, es, h.fi);
    auto node = nodes.find(h.node);
    std::set<std::string> seen;
    for (auto& e : es)
        if (e.name != "." && e.name != ".." && !seen.insert(e.name).second)
            bad("the listing through an open directory has " + q(e.name) + " twice");
    if (node == nodes.end()) 
    {
        if (!seen.empty())
            bad("the listing of a removed directory through its handle has " + q(*seen.begin()));
        return;
    }
    expect("listing of " + q(h.path) + " through an open directory", r, {0});
    for (auto& k : node->second.kids)
        if (!seen.erase(k.second.first))
            bad("the listing of " + q(h.path) + " through an open directory lacks " + q(k.second.first));
    if (!seen.empty())
        bad("the listing of " + q(h.path) + " through an open directory has unexpected " + q(*seen.begin()));
}
void Hist::remount()
{
    close_all();
    m.close();
    m.open(store, cfg);
    c.step("remount");
}
void Hist::check_node(const std::string& path, int id)
{
    MNode& n = nodes[id];
    struct stat st;
    int r = m.getattr(path, st);
    expect("getattr " + q(path) + " of an existing object", r, {0});
    unsigned t = st.st_mode & S_IFMT;
    unsigned want = n.type == 'd' ? S_IFDIR : n.type == 'l' ? S_IFLNK : S_IFREG;
    if (t != want)
        bad("getattr " + q(path) + " reports type " + str(t >> 12) + ", expected " + str(want >> 12));
    if (n.type != 'd')
    {
        size_t sz = n.data.size();
        if ((size_t)st.st_size != sz)
            bad("getattr " + q(path) + " reports size " + str(st.st_size) + ", expected " + str(sz));
        if ((int)st.st_nlink != n.nlink)
            bad("getattr " + q(path) + " reports nlink " + str(st.st_nlink) + ", expected " + str(n.nlink));
    }
    if (o.attrs)
    {
        if (n.type != 'l' && (st.st_mode & 0777) != n.mode)
            bad("getattr " + q(path) + " reports mode 0" + str(st.st_mode & 0777) + ", expected 0" + str(n.mode) + " (decimal)");
        if (st.st_uid != n.uid || st.st_gid != n.gid)
            bad("getattr " + q(path) + " reports owner " + str(st.st_uid) + ":" + str(st.st_gid) + ", expected " + str(n.uid) + ":"
                + str(n.gid));
        if (n.mtime_set)
        {
            if (st.st_mtim.tv_sec != n.mtime.tv_sec || st.st_mtim.tv_nsec != n.mtime.tv_nsec)
                bad("getattr " + q(path) + " reports mtime " + str(st.st_mtim.tv_sec) + "." + str(st.st_mtim.tv_nsec)
                    + ", expected the set value " + str(n.mtime.tv_sec) + "." + str(n.mtime.tv_nsec));
        }
    }
    if (n.type == 'l')
    {
        std::string tgt;
        r = m.readlink(path, tgt);
        expect("readlink " + q(path), r, {0});
        if (tgt != n.data)
            bad("readlink " + q(path) + " gave " + q(tgt) + ", expected " + q(n.data));
    }
    if (n.type == 'f')
    {
        std::string d;
        r = m.get(path, d);
        expect("reading " + q(path), r, {0});
        if (d != n.data)
        {
            size_t i = 0;
            while (i < d.size() && i < n.data.size() && d[i] == n.data[i])
                ++i;
            bad("contents of " + q(path) + " differ from the model at byte " + str(i) + " (sizes " + str(d.size()) + " and "
                + str(n.data.size()) + ")");
        }
    }
    if (o.w_xattr)
    {
        std::vector<std::string> l;
        r = m.listxattr(path, l);
        if (r < 0)
            expect("listxattr " + q(path), r, {0});
        std::set<std::string> got(l.begin(), l.end()), wantx;
        if (got.size() != l.size())
            bad("listxattr " + q(path) + " lists a name twice");
        for (auto& x : n.xattr)
            wantx.insert(x.first);
        if (got != wantx)
            bad("listxattr " + q(path) + " lists " + str(got.size()) + " names, expected " + str(wantx.size()));
        for (auto& x : n.xattr)
        {
            std::string v;
            r = m.getxattr(path, x.first, v);
            if (r != (int)x.second.size() || v != x.second)
                bad("getxattr " + q(path) + " " + q(x.first) + " returned " + std::to_string(r) + " " + hex(v) + ", expected "
                    + hex(x.second));
        }
    }
}
void Hist::verify(const char* when)
{
    std::vector<std::pair<std::string, int>> todo = {{"/", 0}};
    while (!todo.empty())
    {
        auto [p, id] = todo.back();
        todo.pop_back();
        std::vector<DirEnt> es;
        int r = m.ls(p, es);
        expect(std::string(when) + ": listing " + q(p), r, {0});
        std::map<std::string, int> want;
        for (auto& k : nodes[id].kids)
            want[k.second.first] = k.second.second;
        std::set<std::string> seen;
        for (auto& e : es)
        {
            if (!seen.insert(e.name).second)
                bad(std::string(when) + ": listing of " + q(p) + " has " + q(e.name) + " twice");
            auto it = want.find(e.name);
            if (it == want.end())
                bad(std::string(when) + ": listing of " + q(p) + " has unexpected entry " + q(e.name));
            unsigned t = e.st.st_mode & S_IFMT;
            char ty = nodes[it->second].type;
            unsigned wt = ty == 'd' ? S_IFDIR : ty == 'l' ? S_IFLNK : S_IFREG;
            if (t && t != wt)
                bad(std::string(when) + ": listing of " + q(p) + " gives " + q(e.name) + " type " + str(t >> 12) + ", expected "
                    + str(wt >> 12));
        }
        for (auto& w : want)
            if (!seen.count(w.first))
                bad(std::string(when) + ": listing of " + q(p) + " lacks " + q(w.first));
        for (auto& w : want)
        {
            check_node(join(p, w.first), w.second);
            if (nodes[w.second].type == 'd')
                todo.push_back({join(p, w.first), w.second});
        }
    }
    for (auto& h : hs)
    {
        MNode& n = nodes[h.node];
        std::string d;
        int r = m.read(h.path, d, n.data.size() + 50, 0, h.fi);
        if (r < 0)
            expect(std::string(when) + ": reading an open handle of " + q(h.path), r, {0});
        if (d != n.data)
            bad(std::string(when) + ": open handle of " + q(h.path) + " reads " + str(d.size()) + " bytes that differ from the model ("
                + str(n.data.size()) + " bytes)");
        struct stat st;
        r = m.fgetattr(h.path, st, h.fi);
        expect("fgetattr " + q(h.path), r, {0});
        if ((size_t)st.st_size != n.data.size())
            bad("fgetattr of an open handle reports size " + str(st.st_size) + ", expected " + str(n.data.size()));
    }
}
static std::string apply_write(const std::string& old, std::string_view d, size_t off)
{
    std::string r = old;
    if (d.empty())
        return r;
    if (r.size() < off + d.size())
        r.resize(off + d.size(), '\0');
    memcpy(&r[off], d.data(), d.size());
    return r;
}
void Hist::step()
{
    Src& s = c.s;
    auto did = [&]() { ++muts; };
    size_t op = s.weighted({o.w_verify, o.w_ls, o.w_stat, o.w_read, o.w_create, o.w_mkdir, o.w_write, o.w_rename, o.w_unlink, o.w_rmdir,
                            o.w_trunc, o.w_symlink, o.w_link, o.w_open, o.w_handle, o.w_chmod, o.w_utimens, o.w_chown, o.w_xattr,
                            o.w_remount, o.w_dirh});
    switch (op)
    {
    case 0:
        c.step("verify");
        verify("check");
        return;
    case 1:
    {
        std::string p = any_dir();
        c.step("ls " + q(p));
        std::vector<DirEnt> es;
        expect("listing " + q(p), m.ls(p, es), {0});
        if (es.size() != nodes[lookup(p)].kids.size())
            bad("listing of " + q(p) + " has " + str(es.size()) + " entries, expected " + str(nodes[lookup(p)].kids.size()));
        return;
    }
    case 2:
    {
        std::string p = s.coin() ? gen_path('*') : gen_new_path();
        c.step("getattr " + q(p));
        int id = lookup(p);
        struct stat st;
        int r = m.getattr(p, st);
        expect("getattr " + q(p), r, {id < 0 ? -ENOENT : 0});
        return;
    }
    case 3:
    {
        std::string p = gen_path('f');
        int id = lookup(p);
        c.step("read " + q(p));
        // The kernel opens only what it knows to be a regular file.
        if (id >= 0 && nodes[id].type != 'f')
            return;
        std::string d;
        int r = m.get(p, d, 1 + s.below(400));
        if (id < 0)
            expect("opening missing " + q(p), r, {-ENOENT});
        else if (nodes[id].type == 'f')
        {
            expect("reading " + q(p), r, {0});
            if (d != nodes[id].data)
                bad("read of " + q(p) + " returned " + str(d.size()) + " bytes that differ from the model (" + str(nodes[id].data.size())
                    + ")");
        }
        return;
    }
    case 4:    // create
    {
        std::string p = gen_new_path();
        unsigned mode = o.attrs ? (unsigned)s.pick({0644u, 0600u, 0777u, 0400u, 0444u, 0000u, 0200u}) : 0644u;
        auto [d, name] = parent_of(p);
        bool exists = lookup(p) >= 0;
        c.step("create " + q(p));
        fuse_file_info fi;
        int r = m.create(p, mode, fi);
        if (exists)
        {
            expect("create of existing " + q(p), r, {-EEXIST});
            return;
        }
        expect("create " + q(p), r, {0});
        int id = add(d, name, 'f');
        nodes[id].mode = mode | (cfg.full ? 0 : 0400);
        nodes[id].uid = m.uid;
        nodes[id].gid = m.gid;
        did();
        if (s.chance(1, 3) && hs.size() < 6)
        {
            nodes[id].opens++;
            hs.push_back({p, id, fi, true});
            return;
        }
        std::string data = s.bytes(s.size_near(o.max_file, cfg.block));
        if (!data.empty())
        {
            r = m.write(p, data, 0, fi);
            expect("write to new " + q(p), r, {(int)data.size()});
            nodes[id].data = data;
        }
        if (s.coin())
            expect("flush", m.flush(p, fi), {0});
        expect("release", m.release(p, fi), {0});
        return;
    }
    case 5:
    {
        std::string p = gen_new_path();
        unsigned mode = o.attrs ? (unsigned)s.pick({0755u, 0700u, 0777u, 0500u}) : 0755u;
        auto [d, name] = parent_of(p);
        bool exists = lookup(p) >= 0;
        if (phys_len(p) >= 500)
            return;
        c.step("mkdir " + q(p));
        int r = m.mkdir(p, mode);
        if (exists)
        {
            expect("mkdir over existing " + q(p), r, {-EEXIST});
            return;
        }
        expect("mkdir " + q(p), r, {0});
        int id = add(d, name, 'd');
        nodes[id].mode = mode;
        nodes[id].uid = m.uid;
        nodes[id].gid = m.gid;
        did();
        return;
    }
    case 6:    // write via path
    {
        std::string p = gen_path('f');
        int id = lookup(p);
        size_t off = s.size_near(o.max_file, cfg.block);
        std::string data = s.bytes(s.size_near(o.max_file / 2, cfg.block));
        bool trunc = s.chance(1, 6);
        c.step("write " + q(p) + " off=" + str(off) + " len=" + str(data.size()) + (trunc ? " O_TRUNC" : ""));
        fuse_file_info fi;
        if (id >= 0 && nodes[id].type != 'f')
            return;
        int r = m.open(p, (s.coin() ? O_WRONLY : O_RDWR) | (trunc ? O_TRUNC : 0), fi);
        if (id < 0)
        {
            expect("open of missing " + q(p), r, {-ENOENT});
            return;
        }
        expect("open " + q(p), r, {0});
        if (trunc)
        {
            nodes[id].data.clear();
            nodes[id].mtime_set = false;
        }
        if (!data.empty())
        {
            r = m.write(p, data, (off_t)off, fi);
            expect("write " + q(p), r, {(int)data.size()});
            nodes[id].data = apply_write(nodes[id].data, data, off);
            nodes[id].mtime_set = false;
        }
        expect("flush", m.flush(p, fi), {0});
        if (s.chance(1, 6))
            expect("fsync", m.fsync(p, s.coin(), fi), {0});
        expect("release", m.release(p, fi), {0});
        did();
        return;
    }
    case 7:    // rename
    {
        std::string a = gen_path('*'), b = s.coin() ? gen_new_path() : gen_path('*');
        int ia = lookup(a), ib = lookup(b);
        auto [da, na] = parent_of(a);
        auto [db, nb] = parent_of(b);
        c.step("rename " + q(a) + " -> " + q(b));
        if (db < 0 || nodes[db].type != 'd')
            return;
        if (ia < 0)
        {
            if (ib < 0 || s.coin())
            {
                int r = m.rename(a, b);
                expect("rename of missing " + q(a), r, {-ENOENT});
            }
            return;
        }
        if (!deep_ok(ia, b))
            return;
        // The kernel rejects these before the file system is called.
        if (nodes[ia].type == 'd')
        {
            for (int x = db; true;)
            {
                if (x == ia)
                    return;
                int up = -1;
                for (auto& n : nodes)
                    for (auto& k : n.second.kids)
                        if (k.second.second == x)
                            up = n.first;
                if (up < 0)
                    break;
                x = up;
            }
        }
        if (ib >= 0 && ib != ia)
        {
            if ((nodes[ib].type == 'd') != (nodes[ia].type == 'd'))
                return;
            for (int x = da; x >= 0;)
            {
                if (x == ib)
                    return;    // target is an ancestor of the source
                int up = -1;
                for (auto& n : nodes)
                    for (auto& k : n.second.kids)
                        if (k.second.second == x)
                            up = n.first;
                x = up;
            }
        }
        int r = m.rename(a, b);
        if (ib >= 0 && ib != ia && nodes[ib].type == 'd' && !nodes[ib].kids.empty())
        {
            expect("rename over non-empty directory " + q(b), r, {-ENOTEMPTY, -EEXIST});
            c.label("rename over non-empty dir");
            return;
        }
        expect("rename " + q(a) + " -> " + q(b), r, {0});
        did();
        if (ia == ib)
        {
            // Same object: nothing happens, except that a differently spelled equal name is re-stored.
            if (da == db && keyof(na) == keyof(nb))
                nodes[da].kids[keyof(na)].first = stored(nb);
            else
                // Another link of the same object: which of the equivalent spellings is kept is not specified.
                for (auto [d, path, name] : {std::make_tuple(da, a, na), std::make_tuple(db, b, nb)})
                    if (nodes[d].kids[keyof(name)].first != stored(name))
                    {
                        std::vector<DirEnt> es;
                        expect("listing", m.ls(path.substr(0, std::max<size_t>(1, path.rfind('/'))), es), {0});
                        for (auto& e : es)
                            if (e.name == stored(name))
                                nodes[d].kids[keyof(name)].first = e.name;
                    }
            return;
        }
        nodes[da].kids.erase(keyof(na));
        if (ib >= 0)
        {
            c.label("rename replaces");
            nodes[ib].nlink--;
            nodes[db].kids.erase(keyof(nb));
            drop(ib);
        }
        nodes[db].kids[keyof(nb)] = {stored(nb), ia};
        for (auto& h : hs)
            if (h.node == ia)
                h.path = b;
        return;
    }
    case 8:
    {
        std::string p = gen_path(s.chance(1, 4) ? 'l' : 'f');
        int id = lookup(p);
        c.step("unlink " + q(p));
        if (id >= 0 && nodes[id].type == 'd')
            return;
        int r = m.unlink(p);
        if (id < 0)
        {
            expect("unlink of missing " + q(p), r, {-ENOENT});
            return;
        }
        expect("unlink " + q(p), r, {0});
        auto [d, name] = parent_of(p);
        nodes[d].kids.erase(keyof(name));
        nodes[id].nlink--;
        drop(id);
        did();
        return;
    }
    case 9:
    {
        std::string p = gen_path('d');
        int id = lookup(p);
        c.step("rmdir " + q(p));
        if (id >= 0 && nodes[id].type != 'd')
            return;
        int r = m.rmdir(p);
        if (id < 0)
        {
            expect("rmdir of missing " + q(p), r, {-ENOENT});
            return;
        }
        if (!nodes[id].kids.empty())
        {
            expect("rmdir of non-empty " + q(p), r, {-ENOTEMPTY, -EEXIST});
            c.label("rmdir non-empty");
            return;
        }
        expect("rmdir " + q(p), r, {0});
        auto [d, name] = parent_of(p);
        nodes[d].kids.erase(keyof(name));
        nodes.erase(id);
        did();
        return;
    }
    case 10:
    {
        std::string p = gen_path('f');
        int id = lookup(p);
        size_t n = s.size_near(o.max_file * 2, cfg.block);
        c.step("truncate " + q(p) + " to " + str(n));
        if (id >= 0 && nodes[id].type != 'f')
            return;
        int r = m.truncate(p, (off_t)n);
        if (id < 0)
        {
            expect("truncate of missing " + q(p), r, {-ENOENT});
            return;
        }
        expect("truncate " + q(p), r, {0});
        nodes[id].data.resize(n, '\0');
        nodes[id].mtime_set = false;
        did();
        return;
    }
    case 11:
    {
        std::string p = gen_new_path();
        std::string t;
        switch (s.below(4))
        {
        case 0:
            t = pool[s.below(pool.size())];
            break;
        case 1:
            t = "../" + pool[s.below(pool.size())];
            break;
        case 2:
            t = "/abs/" + pool[s.below(pool.size())];
            break;
        default:
        {
            // Long targets: depths times components. The encrypted target must fit a backing symlink.
            size_t n = 1 + s.below(20);
            for (size_t i = 0; i < n; ++i)
                t += (i ? "/" : "") + std::string(1 + s.below(60), (char)('a' + i));
        }
        }
        bool exists = lookup(p) >= 0;
        auto [d, name] = parent_of(p);
        c.step("symlink " + q(p) + " -> " + q(t));
        int r = m.symlink(t, p);
        if (exists)
        {
            expect("symlink over existing " + q(p), r, {-EEXIST});
            return;
        }
        expect("symlink " + q(p), r, {0});
        int id = add(d, name, 'l');
        nodes[id].data = t;
        nodes[id].uid = m.uid;
        nodes[id].gid = m.gid;
        did();
        return;
    }
    case 12:
    {
        std::string a = gen_path(s.chance(1, 5) ? 'l' : 'f'), b = s.chance(1, 5) ? gen_path('*') : gen_new_path();
        int ia = lookup(a), ib = lookup(b);
        auto [db, nb] = parent_of(b);
        c.step("link " + q(a) + " -> " + q(b));
        if (ia >= 0 && nodes[ia].type == 'd')
            return;
        if (db < 0 || nodes[db].type != 'd')
            return;
        int r = m.link(a, b);
        if (ia < 0)
        {
            expect("link of missing " + q(a), r, {-ENOENT, ib >= 0 ? -EEXIST : -ENOENT});
            return;
        }
        if (ib >= 0)
        {
            expect("link over existing " + q(b), r, {-EEXIST});
            return;
        }
        expect("link " + q(a) + " -> " + q(b), r, {0});
        nodes[db].kids[keyof(nb)] = {stored(nb), ia};
        nodes[ia].nlink++;
        did();
        return;
    }
    case 13:
    {
        std::string p = gen_path('f');
        int id = lookup(p);
        c.step("open handle " + q(p));
        if (id < 0 || nodes[id].type != 'f' || hs.size() >= 6)
            return;
        fuse_file_info fi;
        bool w = s.chance(3, 4);
        int r = m.open(p, w ? O_RDWR : O_RDONLY, fi);
        expect("open " + q(p), r, {0});
        nodes[id].opens++;
        hs.push_back({p, id, fi, w});
        return;
    }
    case 14:
    {
        if (hs.empty())
        {
            c.step("no handle");
            return;
        }
        size_t i = s.below(hs.size());
        H& h = hs[i];
        MNode& n = nodes[h.node];
        std::string tag = "handle#" + str(i) + " " + q(h.path);
        switch (s.weighted({4, 5, 2, 2, 1, 3}))
        {
        case 0:
        {
            size_t off = s.size_near(o.max_file, cfg.block), len = s.size_near(o.max_file, cfg.block);
            c.step(tag + " read off=" + str(off) + " len=" + str(len));
            std::string d;
            int r = m.read(h.path, d, len, (off_t)off, h.fi);
            std::string want = off < n.data.size() ? n.data.substr(off, len) : "";
            if (r < 0)
                expect("read", r, {(int)want.size()});
            if (d != want)
                bad(tag + ": read at " + str(off) + " of " + str(len) + " returned " + str(d.size())
                    + " bytes that differ from the model (" + str(want.size()) + " bytes)");
            return;
        }
        case 1:
        {
            size_t off = s.size_near(o.max_file, cfg.block);
            std::string data = s.bytes(s.size_near(o.max_file / 2, cfg.block));
            c.step(tag + " write off=" + str(off) + " len=" + str(data.size()));
            if (!h.write || data.empty())
                return;
            int r = m.write(h.path, data, (off_t)off, h.fi);
            expect("write", r, {(int)data.size()});
            n.data = apply_write(n.data, data, off);
            n.mtime_set = false;
            did();
            return;
        }
        case 2:
        {
            size_t k = s.size_near(o.max_file * 2, cfg.block);
            c.step(tag + " ftruncate " + str(k));
            if (!h.write)
                return;
            expect("ftruncate", m.ftruncate(h.path, (off_t)k, h.fi), {0});
            n.data.resize(k, '\0');
            n.mtime_set = false;
            did();
            return;
        }
        case 3:
        {
            c.step(tag + " fgetattr");
            struct stat st;
            expect("fgetattr", m.fgetattr(h.path, st, h.fi), {0});
            if ((size_t)st.st_size != n.data.size())
                bad(tag + ": fgetattr reports size " + str(st.st_size) + ", expected " + str(n.data.size()));
            return;
        }
        case 4:
            c.step(tag + " sync");
            expect("flush", m.flush(h.path, h.fi), {0});
            expect("fsync", m.fsync(h.path, s.coin(), h.fi), {0});
            return;
        default:
            c.step(tag + " close");
            expect("release", m.release(h.path, h.fi), {0});
            n.opens--;
            drop(h.node);
            hs.erase(hs.begin() + (long)i);
            return;
        }
    }
    case 15:
    {
        std::string p = gen_path(s.coin() ? 'f' : 'd');
        int id = lookup(p);
        unsigned mode = (unsigned)s.below(01000);
        if (!cfg.full)
            mode |= 0400;
        c.step("chmod " + q(p) + " " + str(mode));
        if (id >= 0 && nodes[id].type == 'l')
            return;
        int r = m.chmod(p, (id >= 0 && nodes[id].type == 'd' ? S_IFDIR : S_IFREG) | mode);
        if (id < 0)
        {
            expect("chmod of missing", r, {-ENOENT});
            return;
        }
        expect("chmod", r, {0});
        nodes[id].mode = mode;
        did();
        return;
    }
    case 16:
    {
        std::string p = gen_path('*');
        int id = lookup(p);
        timespec ts[2];
        for (auto& t : ts)
        {
            t.tv_sec = (time_t)s.pick({0ull, 1ull, 1234567890ull, 4294967296ull, 8589934591ull});
            t.tv_nsec = (long)s.pick({0u, 1u, 999999999u, 123456789u});
        }
        c.step("utimens " + q(p));
        int r = m.utimens(p, ts);
        if (id < 0)
        {
            expect("utimens of missing", r, {-ENOENT});
            return;
        }
        expect("utimens", r, {0});
        nodes[id].atime = ts[0];
        nodes[id].mtime = ts[1];
        nodes[id].mtime_set = nodes[id].type == 'f';
        struct stat st;
        expect("getattr", m.getattr(p, st), {0});
        if (st.st_mtim.tv_sec != ts[1].tv_sec || st.st_mtim.tv_nsec != ts[1].tv_nsec)
            bad("after utimens " + q(p) + " getattr reports mtime " + str(st.st_mtim.tv_sec) + "." + str(st.st_mtim.tv_nsec)
                + ", expected " + str(ts[1].tv_sec) + "." + str(ts[1].tv_nsec));
        if (st.st_atim.tv_sec != ts[0].tv_sec || st.st_atim.tv_nsec != ts[0].tv_nsec)
            bad("after utimens " + q(p) + " getattr reports atime " + str(st.st_atim.tv_sec) + "." + str(st.st_atim.tv_nsec)
                + ", expected " + str(ts[0].tv_sec) + "." + str(ts[0].tv_nsec));
        did();
        return;
    }
    case 17:
    {
        std::string p = gen_path('*');
        int id = lookup(p);
        unsigned u = (unsigned)s.pick({0u, 1u, 1000u, 65534u, 4294967295u}), g = (unsigned)s.pick({0u, 5u, 100u, 65534u, 4294967295u});
        c.step("chown " + q(p) + " " + str(u) + ":" + str(g));
        int r = m.chown(p, u, g);
        if (id < 0)
        {
            expect("chown of missing", r, {-ENOENT});
            return;
        }
        expect("chown", r, {0});
        if (u != 4294967295u)
            nodes[id].uid = u;
        if (g != 4294967295u)
            nodes[id].gid = g;
        did();
        return;
    }
    case 18:
    {
        std::string p = gen_path(s.coin() ? 'f' : 'd');
        int id = lookup(p);
        std::string n = xnames[s.below(xnames.size())];
        if (id < 0 || nodes[id].type == 'l')
        {
            c.step("xattr skipped");
            return;
        }
        auto& x = nodes[id].xattr;
        switch (s.weighted({4, 3, 2, 2}))
        {
        case 0:
        {
            std::string v = s.bytes(s.chance(1, 8) ? 0 : 1 + s.size_near(300, 16));
            int fl = (int)s.pick({0, 0, (int)XATTR_CREATE, (int)XATTR_REPLACE});
            c.step("setxattr " + q(p) + " " + q(n) + " len=" + str(v.size()) + " flags=" + str(fl));
            int r = m.setxattr(p, n, v, fl);
            if (fl == XATTR_CREATE && x.count(n))
                expect("setxattr XATTR_CREATE of existing", r, {-EEXIST});
            else if (fl == XATTR_REPLACE && !x.count(n))
                expect("setxattr XATTR_REPLACE of missing", r, {-ENODATA});
            else
            {
                expect("setxattr", r, {0});
                x[n] = v;
                did();
            }
            return;
        }
        case 1:
        {
            c.step("getxattr " + q(p) + " " + q(n));
            std::string v;
            int r = m.getxattr(p, n, v, 0);
            if (!x.count(n))
            {
                expect("getxattr size of missing", r, {-ENODATA});
                expect("getxattr of missing", m.getxattr(p, n, v), {-ENODATA});
                return;
            }
            const std::string& w = x[n];
            expect("getxattr size query", r, {(int)w.size()});
            size_t buf = w.size() + (s.coin() ? s.below(100) : 0);
            r = m.getxattr(p, n, v, buf);
            if (r != (int)w.size() || v != w)
                bad("getxattr " + q(p) + " " + q(n) + " with a buffer of " + str(buf) + " returned " + std::to_string(r)
                    + ", expected " + str(w.size()) + " bytes");
            if (w.size() > 1)
            {
                r = m.getxattr(p, n, v, 1 + s.below(w.size() - 1));
                expect("getxattr into too small a buffer", r, {-ERANGE});
            }
            return;
        }
        case 2:
        {
            c.step("removexattr " + q(p) + " " + q(n));
            int r = m.removexattr(p, n);
            expect("removexattr", r, {x.count(n) ? 0 : -ENODATA});
            x.erase(n);
            did();
            return;
        }
        default:
        {
            c.step("listxattr " + q(p));
            std::vector<std::string> l;
            size_t want = 0;
            for (auto& y : x)
                want += y.first.size() + 1;
            int r = m.listxattr(p, l, 0);
            if (r < (int)want)
                bad("listxattr size query returned " + std::to_string(r) + ", the names need " + str(want));
            int r2 = m.listxattr(p, l, (size_t)std::max(r, 1));
            expect("listxattr", r2, {(int)want});
            return;
        }
        }
    }
    case 20:
    {
        if (ds.empty() || (ds.size() < 4 && s.chance(1, 3)))
        {
            std::string p = any_dir();
            fuse_file_info fi;
            c.step("opendir " + q(p));
            expect("opendir " + q(p), m.opendir(p, fi), {0});
            ds.push_back({p, lookup(p), fi, false});
            if (s.coin())
                list_handle(ds.back());
            return;
        }
        size_t i = s.below(ds.size());
        c.step("readdir of the handle of " + q(ds[i].path));
        list_handle(ds[i]);
        c.label("listing through an older handle");
        if (s.chance(1, 3))
        {
            c.step("releasedir");
            expect("releasedir " + q(ds[i].path), m.releasedir(ds[i].path, ds[i].fi), {0});
            ds.erase(ds.begin() + (long)i);
        }
        return;
    }
    default:
        c.step("remount");
        remount();
        if (s.coin())
            verify("after remount");
        return;
    }
}
void Hist::run()
{
    if (pool.empty())
        gen_pool();
    if (o.w_xattr && xnames.empty())
        xnames = {"user.a", "user.b", "user.some.long.name", "user.\xC3\xA4", "user." + std::string(60, 'n')};
    c.step(cfg.text());
    m.open(store, cfg);
    if (o.attrs)
    {
        struct stat st;
        expect("getattr /", m.getattr("/", st), {0});
    }
    int n = 1 + (int)c.s.below((uint64_t)o.max_ops);
    for (int i = 0; i < n; ++i)
        step();
    verify("at the end");
    remount();
    verify("after the final remount");
    c.nontrivial = muts >= o.want_nontrivial;
    c.label("successful mutations", (uint64_t)muts);
}
}    // namespace vp
