#include "script.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>

namespace vp
{
static std::string join(const std::string& d, const std::string& n) { return d == "/" ? "/" + n : d + "/" + n; }
static std::string dir_of(const std::string& p)
{
    size_t k = p.rfind('/');
    return k == 0 ? "/" : p.substr(0, k);
}
static std::string base_of(const std::string& p) { return p.substr(p.rfind('/') + 1); }

int SState::lookup(const std::string& p) const
{
    int cur = 0;
    for (size_t i = 1; i < p.size();)
    {
        size_t j = std::min(p.find('/', i), p.size());
        auto& x = n.at(cur);
        auto it = x.kids.find(p.substr(i, j - i));
        if (x.type != 'd' || it == x.kids.end())
            return -1;
        cur = it->second;
        i = j + 1;
    }
    return cur;
}
void SState::drop(int id)
{
    auto& x = n.at(id);
    if (x.nlink <= 0 && x.opens <= 0)
        n.erase(id);
}
static void walk(const SState& st, int id, const std::string& p, char type, std::vector<std::string>& r)
{
    for (auto& [k, c] : st.n.at(id).kids)
    {
        std::string q = join(p, k);
        char t = st.n.at(c).type;
        if (type == '*' || type == t)
            r.push_back(q);
        if (t == 'd')
            walk(st, c, q, type, r);
    }
}
std::vector<std::string> SState::paths(char type) const
{
    std::vector<std::string> r;
    walk(*this, 0, "/", type, r);
    return r;
}
std::set<int> SState::below(int id) const
{
    std::set<int> r = {id};
    if (n.count(id))
        for (auto& [k, c] : n.at(id).kids)
        {
            auto s = below(c);
            r.insert(s.begin(), s.end());
        }
    return r;
}
std::string SOp::text() const
{
    static const char* names[] = {"create", "open", "write", "ftruncate", "read", "flush", "fsync", "release", "truncate", "unlink", "mkdir", "rmdir", "rename", "link", "symlink",
                                  "readlink", "stat", "ls", "chmod", "utimens", "setxattr", "getxattr", "removexattr", "opendir", "releasedir", "remount"};
    std::string r = names[kind];
    if (!a.empty())
        r += " " + q(a);
    if (!b.empty())
        r += " " + q(b);
    if (h >= 0)
        r += " #" + std::to_string(h);
    if (kind == S_OPEN)
        r += flags & O_TRUNC ? " trunc" : (flags & O_ACCMODE) == O_RDONLY ? " ro" : " rw";
    if (kind == S_WRITE)
        r += " " + std::to_string(data.size()) + " at " + std::to_string(off);
    if (kind == S_FTRUNC || kind == S_TRUNC)
        r += " to " + std::to_string(off);
    if (kind == S_SETX)
        r += " (" + std::to_string(data.size()) + " bytes)";
    return r;
}
void script_pool(Src& s, const FsConfig& cf, SOpts& o)
{
    size_t maxn = cf.full || cf.threshold || cf.plain ? 255 : 143;
    static const std::vector<std::string> shorts = {"a", "b", "c.txt", ".h", "e f", "\xC3\xA4"};
    o.max_path = cf.full ? 0 : 440;
    unsigned t = cf.threshold ? *cf.threshold : 100;
    size_t n = 4 + s.below(5);
    while (o.pool.size() < n)
    {
        std::string v;
        switch (s.weighted({4, 3, 2}))
        {
        case 0:
            v = shorts[s.below(shorts.size())];
            break;
        case 1:
            v = std::string(std::min<size_t>((size_t)std::max<int64_t>(1, (int64_t)t + s.range(0, 4)), maxn), (char)('A' + s.below(26)));
            break;
        default:
            v = std::string(std::min<size_t>(maxn, 1 + s.below(200)), (char)('a' + s.below(26)));
        }
        if (std::find(o.pool.begin(), o.pool.end(), v) == o.pool.end())
            o.pool.push_back(v);
        else
            --n;
    }
    if (o.pool.empty())
        o.pool.push_back("a");
}
static std::string gen_data(Src& s, size_t n)
{
    if (n && s.chance(1, 6))
        return std::string(n, '\0');
    Rng g{1 + s.below(1 << 20)};
    std::string r;
    for (size_t i = 0; i < n; ++i)
        r += (char)(g.next() >> 13);
    return r;
}
static size_t store_length(const std::string& p)
{
    size_t r = 0, k;
    for (size_t i = 1; i < p.size(); i = k + 1)
    {
        k = std::min(p.find('/', i), p.size());
        r += std::min<size_t>(((k - i + 16) * 8 + 4) / 5, 220) + 1;
    }
    return r;
}
static SOp gen_any_op(Src& s, const SState& st, const SOpts& o);
SOp gen_op(Src& s, const SState& st, const SOpts& o)
{
    for (int i = 0; i < 8; ++i)
    {
        SOp op = gen_any_op(s, st, o);
        if (!o.max_path || !(op.kind == S_CREATE || op.kind == S_MKDIR || op.kind == S_SYMLINK || op.kind == S_LINK || op.kind == S_RENAME))
            return op;
        SState y = st;
        apply(y, op);
        bool ok = true;
        for (auto& p : y.paths('*'))
            ok = ok && store_length(p) <= o.max_path;
        if (ok)
            return op;
    }
    SOp op{};
    op.kind = S_LS;
    op.a = "/";
    return op;
}
static SOp gen_any_op(Src& s, const SState& st, const SOpts& o)
{
    auto files = st.paths('f'), dirs = st.paths('d'), links = st.paths('l');
    auto clean = [&](std::vector<std::string>& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return st.n.at(st.lookup(p)).tainted; }), v.end()); };
    clean(files);
    clean(links);
    std::vector<std::string> all_dirs = dirs;
    all_dirs.push_back("/");
    std::vector<int> wh, rh, dh, fh;
    for (auto& [k, x] : st.h)
    {
        if (x.dir)
            dh.push_back(k);
        else
        {
            fh.push_back(k);
            if (!st.n.at(x.node).tainted)
            {
                rh.push_back(k);
                if (x.write)
                    wh.push_back(k);
            }
        }
    }
    auto fresh = [&](std::string& out)
    {
        for (int i = 0; i < 6; ++i)
        {
            std::string d = s.pick(all_dirs);
            if (std::count(d.begin(), d.end(), '/') >= 3)
                continue;
            out = join(d, o.pool[s.below(o.pool.size())]);
            if (st.lookup(out) < 0)
                return true;
        }
        return false;
    };
    for (int tries = 0; tries < 40; ++tries)
    {
        SOp op{};
        switch (s.weighted({8, 5, 10, 3, 3, 2, 4, 7, 3, 4, 5, 3, 7, 3, 3, 1, 1, 1, 2, 2, 3, 1, 2, 2, 2, 1}))
        {
        case 0:
            op.kind = S_CREATE;
            if (!fresh(op.a))
                continue;
            op.h = st.next_handle;
            return op;
        case 1:
            if (files.empty() || st.h.size() > 5)
                continue;
            op.kind = S_OPEN;
            op.a = s.pick(files);
            op.flags = s.pick({O_RDWR, O_RDONLY, O_WRONLY, O_RDWR | O_TRUNC});
            op.h = st.next_handle;
            return op;
        case 2:
            if (wh.empty())
                continue;
            op.kind = S_WRITE;
            op.h = s.pick(wh);
            op.a = st.h.at(op.h).path;
            op.off = (off_t)s.below(s.coin() ? st.n.at(st.h.at(op.h).node).data.size() + 1 : o.max_file);
            op.data = gen_data(s, 1 + s.below(1 + s.below(o.max_file)));
            return op;
        case 3:
            if (wh.empty())
                continue;
            op.kind = S_FTRUNC;
            op.h = s.pick(wh);
            op.a = st.h.at(op.h).path;
            op.off = (off_t)s.below(o.max_file);
            return op;
        case 4:
            if (rh.empty())
                continue;
            op.kind = S_READ;
            op.h = s.pick(rh);
            op.a = st.h.at(op.h).path;
            op.off = (off_t)s.below(o.max_file);
            op.len = 1 + s.below(o.max_file);
            return op;
        case 5:
        case 6:
            if (rh.empty())
                continue;
            op.kind = s.coin() ? S_FLUSH : S_FSYNC;
            op.h = s.pick(rh);
            op.a = st.h.at(op.h).path;
            return op;
        case 7:
            if (fh.empty())
                continue;
            op.kind = S_RELEASE;
            op.h = s.pick(fh);
            op.a = st.h.at(op.h).path;
            return op;
        case 8:
            if (files.empty())
                continue;
            op.kind = S_TRUNC;
            op.a = s.pick(files);
            op.off = (off_t)s.below(o.max_file);
            return op;
        case 9: {
            auto v = st.paths('f'), l = st.paths('l');
            v.insert(v.end(), l.begin(), l.end());
            if (v.empty())
                continue;
            op.kind = S_UNLINK;
            op.a = s.pick(v);
            return op;
        }
        case 10:
            op.kind = S_MKDIR;
            if (!fresh(op.a))
                continue;
            return op;
        case 11: {
            std::vector<std::string> v;
            for (auto& d : dirs)
                if (st.n.at(st.lookup(d)).kids.empty())
                    v.push_back(d);
            if (v.empty())
                continue;
            op.kind = S_RMDIR;
            op.a = s.pick(v);
            return op;
        }
        case 12: {
            auto v = st.paths('*');
            if (v.empty())
                continue;
            op.kind = S_RENAME;
            op.a = s.pick(v);
            op.b = join(s.pick(all_dirs), o.pool[s.below(o.pool.size())]);
            if (op.b == op.a || op.b.compare(0, op.a.size() + 1, op.a + "/") == 0 || op.a.compare(0, op.b.size() + 1, op.b + "/") == 0)
                continue;
            if (std::count(op.b.begin(), op.b.end(), '/') > 3)
                continue;
            int x = st.lookup(op.a), y = st.lookup(op.b);
            if (x == y)
                continue;
            if (y >= 0)
            {
                bool xd = st.n.at(x).type == 'd', yd = st.n.at(y).type == 'd';
                if (xd != yd || (yd && !st.n.at(y).kids.empty()))
                    continue;
            }
            return op;
        }
        case 13:
            if (files.empty())
                continue;
            op.kind = S_LINK;
            op.a = s.pick(files);
            if (!fresh(op.b))
                continue;
            return op;
        case 14:
            op.kind = S_SYMLINK;
            if (!fresh(op.b))
                continue;
            op.a = gen_data(s, 1 + s.below(60));
            for (char& c : op.a)
                if (c == 0 || c == '/')
                    c = 't';
            return op;
        case 15:
            if (links.empty())
                continue;
            op.kind = S_READLINK;
            op.a = s.pick(links);
            return op;
        case 16: {
            auto v = st.paths('*');
            clean(v);
            if (v.empty())
                continue;
            op.kind = S_STAT;
            op.a = s.pick(v);
            return op;
        }
        case 17:
            op.kind = S_LS;
            op.a = s.pick(all_dirs);
            return op;
        case 18:
        case 19: {
            auto v = files;
            v.insert(v.end(), dirs.begin(), dirs.end());
            if (v.empty())
                continue;
            op.kind = s.coin() ? S_CHMOD : S_UTIMENS;
            op.a = s.pick(v);
            return op;
        }
        case 20:
        case 21:
        case 22: {
            if (!o.xattr || files.empty())
                continue;
            op.a = s.pick(files);
            auto& x = st.n.at(st.lookup(op.a)).xattr;
            op.b = s.pick({"user.one", "user.two"});
            if (x.count(op.b))
                op.kind = s.pick({S_SETX, S_GETX, S_DELX});
            else
                op.kind = S_SETX;
            if (op.kind == S_SETX)
                op.data = gen_data(s, 1 + s.below(80));
            return op;
        }
        case 23:
            if (!o.dirs || st.h.size() > 5)
                continue;
            op.kind = S_OPENDIR;
            op.a = s.pick(all_dirs);
            op.h = st.next_handle;
            return op;
        case 24:
            if (dh.empty())
                continue;
            op.kind = S_RELEASEDIR;
            op.h = s.pick(dh);
            op.a = st.h.at(op.h).path;
            return op;
        default:
            if (!o.remount)
                continue;
            op.kind = S_REMOUNT;
            return op;
        }
    }
    SOp op{};
    op.kind = S_LS;
    op.a = "/";
    return op;
}
static std::string written(const std::string& old, const std::string& d, size_t off)
{
    std::string r = old;
    if (r.size() < off + d.size())
        r.resize(off + d.size(), '\0');
    memcpy(&r[off], d.data(), d.size());
    return r;
}
bool mutates(const SOp& op)
{
    switch (op.kind)
    {
    case S_READ:
    case S_READLINK:
    case S_STAT:
    case S_LS:
    case S_GETX:
    case S_OPENDIR:
    case S_RELEASEDIR:
    case S_RELEASE:
    case S_FLUSH:
    case S_FSYNC:
    case S_REMOUNT:
        return false;
    case S_OPEN:
        return op.flags & O_TRUNC;
    default:
        return true;
    }
}
static void settle(SState& st, int id)
{
    auto it = st.n.find(id);
    if (it != st.n.end() && it->second.opens == 0)
        it->second.dirty = false;
}
void apply(SState& st, const SOp& op)
{
    auto node = [&](const std::string& p) -> int { return st.lookup(p); };
    auto add = [&](const std::string& p, char t)
    {
        int id = st.next_node++;
        st.n[id].type = t;
        st.n[st.lookup(dir_of(p))].kids[base_of(p)] = id;
        return id;
    };
    auto unlink = [&](const std::string& p)
    {
        int id = node(p);
        st.n[st.lookup(dir_of(p))].kids.erase(base_of(p));
        --st.n[id].nlink;
        st.drop(id);
    };
    switch (op.kind)
    {
    case S_CREATE: {
        int id = add(op.a, 'f');
        st.n[id].opens = 1;
        st.n[id].dirty = true;
        st.h[op.h] = {op.a, id, true, false};
        st.next_handle = op.h + 1;
        break;
    }
    case S_OPEN: {
        int id = node(op.a);
        ++st.n[id].opens;
        if (op.flags & O_TRUNC)
        {
            st.n[id].data.clear();
            st.n[id].dirty = true;
        }
        st.h[op.h] = {op.a, id, (op.flags & O_ACCMODE) != O_RDONLY, false};
        st.next_handle = op.h + 1;
        break;
    }
    case S_WRITE: {
        auto& x = st.n[st.h[op.h].node];
        x.data = written(x.data, op.data, (size_t)op.off);
        x.dirty = true;
        break;
    }
    case S_FTRUNC: {
        auto& x = st.n[st.h[op.h].node];
        x.data.resize((size_t)op.off, '\0');
        x.dirty = true;
        break;
    }
    case S_TRUNC: {
        int id = node(op.a);
        st.n[id].data.resize((size_t)op.off, '\0');
        st.n[id].dirty = true;
        settle(st, id);
        break;
    }
    case S_FLUSH:
    case S_FSYNC:
        st.n[st.h[op.h].node].dirty = false;
        break;
    case S_RELEASE:
    case S_RELEASEDIR: {
        int id = st.h[op.h].node;
        st.h.erase(op.h);
        --st.n[id].opens;
        settle(st, id);
        st.drop(id);
        break;
    }
    case S_OPENDIR: {
        int id = node(op.a);
        ++st.n[id].opens;
        st.h[op.h] = {op.a, id, false, true};
        st.next_handle = op.h + 1;
        break;
    }
    case S_UNLINK:
    case S_RMDIR:
        unlink(op.a);
        break;
    case S_MKDIR:
        add(op.a, 'd');
        break;
    case S_SYMLINK:
        st.n[add(op.b, 'l')].data = op.a;
        break;
    case S_LINK: {
        int id = node(op.a);
        st.n[st.lookup(dir_of(op.b))].kids[base_of(op.b)] = id;
        ++st.n[id].nlink;
        break;
    }
    case S_RENAME: {
        int id = node(op.a);
        if (node(op.b) >= 0)
            unlink(op.b);
        st.n[st.lookup(dir_of(op.a))].kids.erase(base_of(op.a));
        st.n[st.lookup(dir_of(op.b))].kids[base_of(op.b)] = id;
        break;
    }
    case S_SETX:
        st.n[node(op.a)].xattr[op.b] = op.data;
        break;
    case S_DELX:
        st.n[node(op.a)].xattr.erase(op.b);
        break;
    case S_REMOUNT: {
        auto hs = st.h;
        for (auto& [k, x] : hs)
        {
            --st.n[x.node].opens;
            settle(st, x.node);
            st.drop(x.node);
        }
        st.h.clear();
        break;
    }
    default:;
    }
}
int exec(Mount& m, SHandles& hs, const SOp& op, const SState& st, std::string& wrong)
{
    struct stat sb;
    std::string v;
    int r = 0;
    switch (op.kind)
    {
    case S_CREATE:
    case S_OPEN: {
        fuse_file_info fi{};
        r = op.kind == S_CREATE ? m.create(op.a, 0644, fi) : m.open(op.a, op.flags, fi);
        if (r == 0)
            hs[op.h] = fi;
        break;
    }
    case S_WRITE:
        r = m.write(op.a, op.data, op.off, hs[op.h]);
        if (r >= 0 && r != (int)op.data.size())
            wrong = "returns " + std::to_string(r);
        break;
    case S_FTRUNC:
        r = m.ftruncate(op.a, op.off, hs[op.h]);
        break;
    case S_READ: {
        r = m.read(op.a, v, op.len, op.off, hs[op.h]);
        auto& d = st.n.at(st.h.at(op.h).node).data;
        std::string want = (size_t)op.off < d.size() ? d.substr((size_t)op.off, op.len) : "";
        if (r >= 0 && (v != want || (size_t)r != want.size()))
            wrong = "gives " + std::to_string(r) + " bytes other than those written";
        break;
    }
    case S_FLUSH:
        r = m.flush(op.a, hs[op.h]);
        break;
    case S_FSYNC:
        r = m.fsync(op.a, false, hs[op.h]);
        break;
    case S_RELEASE:
        r = m.release(op.a, hs[op.h]);
        hs.erase(op.h);
        break;
    case S_TRUNC:
        r = m.truncate(op.a, op.off);
        break;
    case S_UNLINK:
        r = m.unlink(op.a);
        break;
    case S_MKDIR:
        r = m.mkdir(op.a, 0755);
        break;
    case S_RMDIR:
        r = m.rmdir(op.a);
        break;
    case S_RENAME:
        r = m.rename(op.a, op.b);
        break;
    case S_LINK:
        r = m.link(op.a, op.b);
        break;
    case S_SYMLINK:
        r = m.symlink(op.a, op.b);
        break;
    case S_READLINK:
        r = m.readlink(op.a, v);
        if (r == 0 && v != st.n.at(st.lookup(op.a)).data)
            wrong = "gives " + q(v);
        break;
    case S_STAT: {
        r = m.getattr(op.a, sb);
        auto& x = st.n.at(st.lookup(op.a));
        if (r == 0 && x.type == 'f' && !x.tainted && (size_t)sb.st_size != x.data.size())
            wrong = "gives size " + std::to_string(sb.st_size) + " instead of " + std::to_string(x.data.size());
        break;
    }
    case S_LS: {
        std::vector<DirEnt> es;
        r = m.ls(op.a, es);
        std::set<std::string> got;
        for (auto& e : es)
            got.insert(e.name);
        std::set<std::string> want;
        for (auto& k : st.n.at(st.lookup(op.a)).kids)
            want.insert(k.first);
        if (r == 0 && (got != want || es.size() != want.size()))
        {
            wrong = "does not give the names there";
            for (auto& x : want)
                if (!got.count(x))
                    wrong += ", lacks " + q(x);
            for (auto& x : got)
                if (!want.count(x))
                    wrong += ", adds " + q(x);
        }
        break;
    }
    case S_CHMOD:
        r = m.chmod(op.a, 0700);
        break;
    case S_UTIMENS: {
        timespec ts[2] = {{1000, 5}, {2000, 6}};
        r = m.utimens(op.a, ts);
        break;
    }
    case S_SETX:
        r = m.setxattr(op.a, op.b, op.data);
        break;
    case S_GETX:
        r = m.getxattr(op.a, op.b, v);
        if (r >= 0)
        {
            if (v != st.n.at(st.lookup(op.a)).xattr.at(op.b))
                wrong = "gives another value";
            r = 0;
        }
        break;
    case S_DELX:
        r = m.removexattr(op.a, op.b);
        break;
    case S_OPENDIR: {
        fuse_file_info fi{};
        r = m.opendir(op.a, fi);
        if (r == 0)
            hs[op.h] = fi;
        break;
    }
    case S_RELEASEDIR:
        r = m.releasedir(op.a, hs[op.h]);
        hs.erase(op.h);
        break;
    case S_REMOUNT:
        break;    // left to the caller
    }
    return r < 0 ? r : 0;
}
STouched touched(const SState& st, const SOp& op)
{
    STouched t;
    auto add = [&](const std::string& p)
    {
        int id = st.lookup(p);
        if (id >= 0)
            t.nodes.insert(id);
    };
    if (op.h >= 0 && st.h.count(op.h))
        t.nodes.insert(st.h.at(op.h).node);
    switch (op.kind)
    {
    case S_CREATE:
    case S_MKDIR:
    case S_RMDIR:
    case S_UNLINK:
        t.paths = {op.a};
        add(op.a);
        break;
    case S_SYMLINK:
        t.paths = {op.b};
        break;
    case S_LINK:
        t.paths = {op.b};
        add(op.a);
        break;
    case S_RENAME:
        t.paths = {op.a, op.b};
        add(op.b);
        add(op.a);
        break;
    case S_REMOUNT:
        break;
    default:
        if (op.h < 0 || !st.h.count(op.h))
            add(op.a);
    }
    return t;
}
std::string verify(Mount& m, const SState& st, const FsConfig& cf, const std::function<bool(int)>& skip, const std::function<bool(const std::string&)>& open_entry)
{
    std::vector<std::pair<std::string, int>> todo = {{"/", 0}};
    auto err = [](int r) { return std::to_string(r); };
    while (!todo.empty())
    {
        auto [p, id] = todo.back();
        todo.pop_back();
        if (skip(id))
            continue;
        auto& x = st.n.at(id);
        struct stat sb;
        int r = m.getattr(p, sb);
        if (r)
            return "stat of " + q(p) + " gives " + err(r);
        unsigned t = x.type == 'd' ? S_IFDIR : x.type == 'l' ? S_IFLNK : S_IFREG;
        if ((sb.st_mode & S_IFMT) != t)
            return q(p) + " is of another type";
        std::string v;
        if (x.type == 'd')
        {
            std::vector<DirEnt> es;
            r = m.ls(p, es);
            if (r)
                return "listing " + q(p) + " gives " + err(r);
            std::set<std::string> got;
            for (auto& e : es)
            {
                if (!got.insert(e.name).second)
                    return "listing " + q(p) + " gives " + q(e.name) + " twice";
                if (!x.kids.count(e.name) && !open_entry(join(p, e.name)))
                    return "listing " + q(p) + " gives " + q(e.name) + ", which should not be there";
            }
            for (auto& [k, c] : x.kids)
            {
                if (open_entry(join(p, k)))
                    continue;
                if (!got.count(k))
                    return "listing " + q(p) + " lacks " + q(k);
                todo.push_back({join(p, k), c});
            }
        }
        else if (x.type == 'l')
        {
            r = m.readlink(p, v);
            if (r || v != x.data)
                return "reading the link " + q(p) + " gives " + q(v) + " (" + err(r) + "), expected " + q(x.data);
        }
        else
        {
            r = m.get(p, v);
            if (r)
                return "reading " + q(p) + " gives " + err(r);
            if (v != x.data)
            {
                size_t i = 0;
                while (i < v.size() && i < x.data.size() && v[i] == x.data[i])
                    ++i;
                return q(p) + " differs from byte " + std::to_string(i) + " on (" + std::to_string(v.size()) + " bytes instead of " + std::to_string(x.data.size()) + ")";
            }
            if ((int)sb.st_nlink != x.nlink && x.nlink >= 0)
                return q(p) + " has " + std::to_string(sb.st_nlink) + " links instead of " + std::to_string(x.nlink);
        }
        if (x.type == 'f' && cf.xattr)
        {
            for (auto& [k, val] : x.xattr)
            {
                v.clear();
                r = m.getxattr(p, k, v);
                if (r < 0 || v != val)
                    return "attribute " + q(k) + " of " + q(p) + " gives " + q(v) + " (" + err(r) + "), expected " + q(val);
            }
            std::vector<std::string> l;
            r = m.listxattr(p, l);
            if (r < 0 || l.size() != x.xattr.size())
                return "attributes of " + q(p) + ": " + std::to_string(l.size()) + " (" + err(r) + "), expected " + std::to_string(x.xattr.size());
        }
    }
    return "";
}
}    // namespace vp
