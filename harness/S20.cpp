// S20: the full-format backing store holds exactly the objects reachable from the root.
#include "decode.h"
#include "fsmodel.h"
#include "nameclasses.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace
{
std::string hex_all(const std::string& s) { return hex(s, 1000); }
void check_store(Ctx& c, Hist& h, const std::string& when)
{
    h.close_all();
    h.m.close();
    auto bad = [&](const std::string& t) { h.bad(when + ": " + t); };
    try
    {
        FullReader r(h.store, h.cfg);
        auto t = r.walk(x_name_cmp(h.cfg.ci, h.cfg.un));
        std::map<std::string, int> refs;
        std::map<std::string, uint32_t> links;
        std::map<std::string, std::string> where;
        for (auto& x : t)
        {
            std::string id = hex_all(x.second.obj.id);
            refs[id]++;
            links[id] = x.second.obj.flags[3];
            where[id] = x.first;
            if (x.second.type == 'd' && refs[id] > 1)
                bad("the directory " + q(x.first) + " is reachable twice");
        }
        for (auto& x : refs)
            if (links[x.first] != (uint32_t)x.second)
                bad("the object of " + q(where[x.first]) + " is stored with link count " + str(links[x.first]) + " but " + str((uint64_t)x.second)
                    + " entries lead to it");
        size_t orphans = 0;
        std::set<std::string> disk;
        for (auto& id : r.ids_on_disk())
        {
            disk.insert(id);
            if (!refs.count(id))
                ++orphans;
        }
        if (orphans)
            bad(str(orphans) + " of " + str(disk.size()) + " stored objects are not reachable from the root");
        for (auto& x : refs)
            if (!disk.count(x.first))
                bad(q(where[x.first]) + " leads to an object that is not stored");
        for (auto& f : list_tree(h.store))
            if (f[0] == '.' && f != ".securefs.lock" && f != ".config.pb")
                bad("the backing store holds a stray file " + q(f));
        size_t live = 0;
        for (auto& n : h.nodes)
            if (n.second.nlink > 0)
                ++live;
        if (disk.size() != live)
            bad(str(disk.size()) + " objects are stored, the model has " + str(live));
        c.label("objects checked", disk.size());
    }
    catch (DecodeError& e)
    {
        bad(std::string("the independent reader fails: ") + e.what());
    }
    h.m.open(h.store, h.cfg);
}
// Calls that must fail and leave nothing behind.
void failing_call(Hist& h)
{
    Src& s = h.c.s;
    std::string d = h.any_dir();
    if (d == "/")
        d = "";
    std::string path;
    int want = 0;
    size_t kind = s.below(4);
    if (kind == 0)
    {
        path = d + "/" + std::string(256 + s.below(100), 'N');
        want = -ENAMETOOLONG;
    }
    else if (kind == 1)
    {
        path = d + "/no_such_dir/" + s.pick(h.pool);
        want = -ENOENT;
    }
    else if (kind == 2)
    {
        auto f = h.paths('f');
        if (f.empty())
            return;
        path = s.pick(f) + "/below_a_file";
    }
    else
    {
        auto f = h.paths('*');
        if (f.empty())
            return;
        path = s.pick(f);
        if (path == "/")
            return;
        want = -EEXIST;
    }
    auto src = h.paths('f');
    std::string from = src.empty() ? "" : s.pick(src);
    size_t op = s.below(kind == 3 ? 4 : 8);
    int r = 0;
    std::string what;
    switch (op)
    {
    case 0:
    {
        fuse_file_info fi{};
        what = "create " + q(path);
        h.c.step(what);
        r = h.m.create(path, 0644, fi);
        if (!r)
            h.bad(what + " succeeded");
        break;
    }
    case 1:
        what = "mkdir " + q(path);
        h.c.step(what);
        r = h.m.mkdir(path, 0755);
        break;
    case 2:
        what = "symlink " + q(path);
        h.c.step(what);
        r = h.m.symlink("target", path);
        break;
    case 3:
    case 4:
        if (from.empty())
            return;
        what = "link " + q(from) + " " + q(path);
        h.c.step(what);
        r = h.m.link(from, path);
        break;
    case 5:
        if (from.empty())
            return;
        what = "rename " + q(from) + " " + q(path);
        h.c.step(what);
        r = h.m.rename(from, path);
        break;
    case 6:
        what = "unlink " + q(path);
        h.c.step(what);
        r = h.m.unlink(path);
        want = 0;
        break;
    default:
        what = "rename of missing " + q(path);
        h.c.step(what);
        if (from.empty())
            return;
        r = h.m.rename(path, from);
        want = 0;
    }
    if (r >= 0 || (want && r != want))
        h.bad(what + " returned " + std::to_string(r) + ", expected " + (want ? std::to_string(want) : std::string("an error")));
    h.c.label("failing calls");
}
void body(Ctx& c, Hist& h, int ops, unsigned check_every)
{
    Src& s = c.s;
    h.gen_pool();
    h.m.open(h.store, h.cfg);
    h.m.uid = h.m.gid = 0;
    c.step(h.cfg.text());
    for (int i = 0; i < ops; ++i)
    {
        if (s.chance(1, 4))
            failing_call(h);
        else
            h.step();
        if (s.chance(1, check_every))
            check_store(c, h, "after " + str((uint64_t)i + 1) + " calls");
    }
    check_store(c, h, "at the end");
    c.nontrivial = h.muts >= 8;
}
}    // namespace
static void exact(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    HistOpts o;
    o.w_link = 6;
    o.w_unlink = 8;
    Hist h(c, cf, o);
    body(c, h, 10 + (int)c.s.below(40), 40);
}
static void insensitive(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    unsigned k = 1 + (unsigned)c.s.below(3);
    cf.ci = k & 1;
    cf.un = k & 2;
    HistOpts o;
    o.w_link = 6;
    o.w_rename = 14;
    Hist h(c, cf, o);
    h.keyof = [cf](const std::string& s) { return spelling_key(s, cf.ci, cf.un); };
    size_t n = 4 + c.s.below(12), at = c.s.below(spellings().size());
    for (size_t i = 0; i < n; ++i)
    {
        if (c.s.chance(1, 4))
            at = c.s.below(spellings().size());
        h.pool.push_back(spellings()[at].text);
        at = (at + 1) % spellings().size();
    }
    body(c, h, 10 + (int)c.s.below(40), 40);
}
// More objects than the cache of closed ones holds, in a directory of several pages.
static void wide(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.block = c.s.pick({4096u, 512u, 1024u});
    HistOpts o;
    o.max_depth = 2;
    o.max_file = 60;
    o.w_mkdir = 2;
    o.w_create = 20;
    o.w_unlink = 14;
    o.w_write = 1;
    Hist h(c, cf, o);
    size_t n = 20 + c.s.below(60), len = c.s.pick({3u, 30u, 200u, 255u});
    for (size_t i = 0; i < n; ++i)
    {
        std::string s = std::to_string(mix(i) % 100000) + "_" + std::to_string(i);
        if (s.size() < len)
            s += std::string(len - s.size(), 'x');
        h.pool.push_back(s);
    }
    body(c, h, 60 + (int)c.s.below(120), 60);
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S20";
    p.rule = "A case is a random history of up to 50 (wide: 180) calls on a full-format repository, a quarter of them calls that must fail (names beyond "
             "255 bytes, missing parents, files used as directories, existing targets). At random points and at the end everything is released "
             "and unmounted, the backing store is walked by the independent reader from the root, and the set of stored objects, their pairs "
             "of files and their link counts are compared with what is reachable and with the model. Non-trivial: at least 8 calls that changed the "
             "tree; distinct by choice sequence.";
    p.assumptions = {"all handles are released before unmounting, as the kernel does", "leftover empty directories of the object table do not count"};
    p.quick_cases = 9000;
    p.thorough_cases = 400000;
    p.tests = {{"exact", exact, 5}, {"insensitive", insensitive, 2}, {"wide", wide, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
