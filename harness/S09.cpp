// S09: the full-format tree behaves as a POSIX directory tree, in every name-comparison mode.
#include "fsmodel.h"
#include "nameclasses.h"
#include <sys/stat.h>
using namespace vp;
static void exact(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    HistOpts o;
    Hist h(c, cf, o);
    h.run();
}
// Enough entries in one directory for B-tree splits, merges and page reuse to take part.
static void wide(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.block = c.s.pick({4096u, 512u, 1024u});
    HistOpts o;
    o.max_ops = 160;
    o.max_depth = 2;
    o.max_file = 60;
    o.w_mkdir = 2;
    o.w_create = 20;
    o.w_unlink = 14;
    o.w_verify = 1;
    o.w_write = 1;
    o.want_nontrivial = 40;
    Hist h(c, cf, o);
    size_t n = 20 + c.s.below(60), len = c.s.pick({3u, 30u, 200u, 255u});
    for (size_t i = 0; i < n; ++i)
    {
        std::string s = std::to_string(mix(i) % 100000) + "_" + std::to_string(i);
        if (s.size() < len)
            s += std::string(len - s.size(), 'x');
        h.pool.push_back(s);
    }
    h.run();
}
static void insensitive(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    unsigned k = 1 + (unsigned)c.s.below(3);
    cf.ci = k & 1;
    cf.un = k & 2;
    HistOpts o;
    Hist h(c, cf, o);
    h.keyof = [cf](const std::string& s) { return spelling_key(s, cf.ci, cf.un); };
    size_t n = 4 + c.s.below(12);
    // Neighbouring rows of the table are related spellings.
    size_t at = c.s.below(spellings().size());
    for (size_t i = 0; i < n; ++i)
    {
        if (c.s.chance(1, 4))
            at = c.s.below(spellings().size());
        h.pool.push_back(spellings()[at].text);
        at = (at + 1) % spellings().size();
    }
    h.run();
    // The stored spelling of an object, asked for under any spelling of each part of its path.
    size_t asked = 0;
    for (auto& path : h.paths('*'))
    {
        std::string other, part;
        for (char ch : path.substr(1) + "/")
            if (ch != '/')
                part += ch;
            else if (!part.empty())
            {
                std::vector<std::string> same = {part};
                for (auto& x : spellings())
                    if (h.keyof(x.text) == h.keyof(part))
                        same.push_back(x.text);
                other += "/" + c.s.pick(same);
                part.clear();
            }
        if (other.empty())
            other = "/";
        std::string got;
        size_t room = c.s.pick({path.size() + 1, path.size() + 1, path.size() + 100, path.size(), size_t(1)});
        int want = room > path.size() ? 0 : -ENAMETOOLONG;
        int r = h.m.getpath(other, got, room);
        VREQ(r == want && (r || got == path),
             "[" + cf.text() + "] asking for the stored spelling of " + q(other) + " with room for " + str(room) + " bytes gives " + std::to_string(r) + " " + q(got) + ", expected " + std::to_string(want) + " " + q(path));
        asked += other != path;
        if (other != "/")
        {
            r = h.m.getpath(other + "/no such name", got);
            int id = h.lookup(path);
            VREQ(r == (h.nodes.at(id).type == 'd' ? -ENOENT : r) && r < 0, "[" + cf.text() + "] asking for the spelling of a missing name gives " + std::to_string(r));
        }
    }
    c.label("spellings asked for", asked);
}
// Names of every length the kernel can pass: up to 255 bytes works, longer ones fail and change nothing.
static void lengths(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    Mount m(make_dir(c.dir + "/store"), cf);
    c.step(cf.text());
    auto need = [&](int r, int w, const std::string& what)
    {
        if (r != w)
            fail("[" + cf.text() + "] " + what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    };
    need(m.put("/keep", "kept"), 0, "creating /keep");
    need(m.mkdir("/d", 0755), 0, "mkdir /d");
    need(m.put("/d/sub", "sub"), 0, "creating /d/sub");
    std::map<std::string, std::string> want = {{"keep", "kept"}};
    size_t n = 1 + c.s.below(10);
    for (size_t i = 0; i < n; ++i)
    {
        size_t len = c.s.pick({255u, 256u, 254u, 257u, 300u, 1000u, 100u, 1u});
        std::string name(len, (char)('A' + i));
        size_t op = c.s.below(6);
        c.step("op" + str(op) + " len=" + str(len));
        bool ok = len <= 255;
        int w = ok ? 0 : -ENAMETOOLONG;
        if (op == 0)
        {
            need(m.put("/" + name, "x"), w, "create with a name of " + str(len) + " bytes");
            if (ok)
                want[name] = "x";
        }
        else if (op == 1)
        {
            std::string from = want.begin()->first;
            need(m.rename("/" + from, "/" + name), w, "rename to a name of " + str(len) + " bytes");
            if (ok)
            {
                std::string v = want[from];
                want.erase(from);
                want[name] = v;
            }
        }
        else if (op == 2)
        {
            std::string from = want.begin()->first;
            need(m.link("/" + from, "/" + name), w, "link to a name of " + str(len) + " bytes");
            if (ok)
                want[name] = want[from];
        }
        else if (op == 3)
        {
            need(m.mkdir("/" + name, 0755), w, "mkdir with a name of " + str(len) + " bytes");
            if (ok)
                need(m.rmdir("/" + name), 0, "rmdir");
        }
        else if (op == 4)
        {
            need(m.symlink("t", "/" + name), w, "symlink with a name of " + str(len) + " bytes");
            if (ok)
                need(m.unlink("/" + name), 0, "unlink");
        }
        else
        {
            struct stat st;
            need(m.getattr("/" + std::string(len, 'Z'), st), ok ? -ENOENT : -ENAMETOOLONG, "getattr of a missing name");
        }
    }
    for (int k = 0; k < 2; ++k)
    {
        std::vector<DirEnt> es;
        need(m.ls("/", es), 0, "listing /");
        std::set<std::string> got, exp = {"d"};
        for (auto& e : es)
            got.insert(e.name);
        for (auto& x : want)
        {
            exp.insert(x.first);
            std::string v;
            need(m.get("/" + x.first, v), 0, "reading a file back");
            VREQ(v == x.second, "contents changed");
        }
        VREQ(got == exp, "[" + cf.text() + "] the root lists " + str(got.size()) + " names, expected " + str(exp.size()));
        m.close();
        m.open(c.dir + "/store", cf);
    }
    c.nontrivial = n >= 3;
}
namespace
{
// A tree with directories, files and links of any relative target, and paths that go through them.
struct LNode
{
    char type;
    std::string data;
    std::map<std::string, int> kids;
    int parent;
};
struct LTree
{
    std::vector<LNode> n{{'d', "", {}, 0}};
    // Node of the path or -1; -2 when a component is no directory; -3 when links nest too deeply.
    int walk(int at, const std::string& path, bool follow_last, int depth, int& steps)
    {
        std::vector<std::string> parts;
        std::string cur;
        for (char ch : path + "/")
            if (ch != '/')
                cur += ch;
            else if (!cur.empty())
            {
                parts.push_back(cur);
                cur.clear();
            }
        for (size_t i = 0; i < parts.size(); ++i)
        {
            auto& p = parts[i];
            if (n[(size_t)at].type != 'd')
                return -2;
            if (p == ".")
                continue;
            if (p == "..")
            {
                at = n[(size_t)at].parent;
                continue;
            }
            auto it = n[(size_t)at].kids.find(p);
            if (it == n[(size_t)at].kids.end())
                return -1;
            int child = it->second;
            if (n[(size_t)child].type == 'l' && (follow_last || i + 1 < parts.size()))
            {
                steps = std::max(steps, depth + 1);
                if (depth > 40)
                    return -3;
                child = walk(at, n[(size_t)child].data, true, depth + 1, steps);
                if (child < 0)
                    return child;
            }
            at = child;
        }
        return at;
    }
};
}    // namespace
// Paths through symbolic links, which the full format resolves by itself.
static void links(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, true);
    Mount m(make_dir(c.dir + "/store"), cf);
    c.step(cf.text());
    LTree t;
    std::vector<std::string> dirs = {"/"}, names = {"a", "b", "c", "d", "e"};
    std::vector<int> dirid = {0};
    auto need = [&](int r, int w, const std::string& what)
    {
        if (r != w)
            fail("[" + cf.text() + "] " + what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    };
    size_t n = 4 + s.below(12);
    for (size_t i = 0; i < n; ++i)
    {
        size_t d = s.below(dirs.size());
        std::string name = s.pick(names), path = (d ? dirs[d] : "") + "/" + name;
        if (t.n[(size_t)dirid[d]].kids.count(name))
            continue;
        int id = (int)t.n.size();
        size_t k = s.weighted({4, 3, 5});
        if (k == 0)
        {
            c.step("mkdir " + path);
            need(m.mkdir(path, 0755), 0, "mkdir " + path);
            t.n.push_back({'d', "", {}, dirid[d]});
            dirs.push_back(path);
            dirid.push_back(id);
        }
        else if (k == 1)
        {
            std::string data = "file " + path;
            c.step("create " + path);
            need(m.put(path, data), 0, "creating " + path);
            t.n.push_back({'f', data, {}, dirid[d]});
        }
        else
        {
            std::string to;
            for (size_t j = 1 + s.below(4); j > 0; --j)
                to += (to.empty() ? "" : "/") + s.pick({std::string("a"), std::string("b"), std::string("c"), std::string("d"), std::string(".."), std::string(".")});
            c.step("symlink " + path + " -> " + to);
            need(m.symlink(to, path), 0, "symlink " + path);
            t.n.push_back({'l', to, {}, dirid[d]});
        }
        t.n[(size_t)dirid[d]].kids[name] = id;
    }
    if (s.coin())
    {
        m.close();
        m.open(c.dir + "/store", cf);
    }
    size_t through = 0;
    for (size_t i = 10 + s.below(25); i > 0; --i)
    {
        std::string path = s.pick(dirs);
        if (path == "/")
            path.clear();
        for (size_t j = 1 + s.below(3); j > 0; --j)
            path += "/" + s.pick(names);
        bool follow = s.coin();
        int steps = 0;
        int id = t.walk(0, path, follow, 0, steps);
        // Between 8 and 20 nested links, and through files, the outcome is not specified.
        bool defined = (steps < 8 && id >= -1) || steps > 20;
        c.step((follow ? "open " : "getattr ") + path);
        through += steps > 0;
        if (!follow)
        {
            struct stat st;
            int r = m.getattr(path, st);
            if (!defined)
                continue;
            need(r, steps > 20 ? -ELOOP : id < 0 ? -ENOENT : 0, "getattr " + path);
            if (!r)
            {
                char ty = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
                VREQ(ty == t.n[(size_t)id].type, "[" + cf.text() + "] getattr " + path + " shows type " + ty + ", expected " + t.n[(size_t)id].type);
                if (ty != 'd')
                    VREQ((size_t)st.st_size == t.n[(size_t)id].data.size(), "[" + cf.text() + "] getattr " + path + " shows another object's size");
                if (ty == 'l')
                {
                    std::string to;
                    need(m.readlink(path, to), 0, "readlink " + path);
                    VREQ(to == t.n[(size_t)id].data, "[" + cf.text() + "] readlink " + path + " gives " + q(to) + ", expected " + q(t.n[(size_t)id].data));
                }
                else if (ty == 'd')
                {
                    std::vector<DirEnt> es;
                    need(m.ls(path, es), 0, "listing " + path);
                    std::set<std::string> got, want;
                    for (auto& e : es)
                        got.insert(e.name);
                    for (auto& k : t.n[(size_t)id].kids)
                        want.insert(k.first);
                    VREQ(got == want, "[" + cf.text() + "] listing " + path + " shows another directory's entries");
                }
            }
        }
        else
        {
            if (id >= 0 && t.n[(size_t)id].type != 'f')
                continue;
            std::string d;
            int r = m.get(path, d);
            if (!defined)
                continue;
            need(r, steps > 20 ? -ELOOP : id < 0 ? -ENOENT : 0, "open " + path);
            if (!r)
                VREQ(d == t.n[(size_t)id].data, "[" + cf.text() + "] " + path + " reads " + q(d) + ", expected " + q(t.n[(size_t)id].data));
        }
    }
    c.label("paths through links", through);
    c.nontrivial = through >= 3;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S09";
    p.rule = "A case is one random history of up to 40 (wide: 160) tree calls (create, write, mkdir, symlink, link, unlink, rmdir, "
             "rename, truncate, handles, remount) on a fresh full-format repository with random settings, each result compared "
             "with the model, and the whole tree compared at random points, at the end and after remounting. Non-trivial: at "
             "least 8 (wide: 40) calls that changed the tree, or at least 3 name-length steps, or 3 paths that go through symbolic links; distinct by choice sequence.";
    p.assumptions = {"the kernel rejects type mismatches, directory hard links and renames into an own subtree before the call",
                     "Unicode folding tables come from ICU in place of the uni-algo library, which is not installed"};
    p.quick_cases = 36000;
    p.thorough_cases = 600000;
    p.tests = {{"exact", exact, 6}, {"wide", wide, 2}, {"insensitive", insensitive, 4}, {"lengths", lengths, 1}, {"links", links, 2}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
