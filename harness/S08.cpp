// S08: the lite-format tree behaves as a POSIX directory tree.
#include "fsmodel.h"
using namespace vp;
static void lite(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    HistOpts o;
    Hist h(c, cf, o);
    h.run();
}
// Directories that lose their last long name become removable, and renames move long names between tables.
static void longnames(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    cf.threshold = c.s.pick({1u, 3u, 8u});
    HistOpts o;
    o.w_write = 2;
    o.w_trunc = 1;
    o.w_read = 1;
    o.w_rename = 14;
    o.w_rmdir = 8;
    o.w_link = 6;
    o.names = 5;
    o.max_file = 200;
    o.max_ops = 60;
    Hist h(c, cf, o);
    h.run();
}
static void plain(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    cf.plain = true;
    cf.threshold.reset();
    cf.suffix.clear();
    HistOpts o;
    o.max_depth = 3;
    Hist h(c, cf, o);
    h.max_name = 250;
    h.run();
}
static void wide(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    HistOpts o;
    o.max_ops = 120;
    o.max_depth = 2;
    o.max_file = 60;
    o.w_create = 20;
    o.w_unlink = 12;
    o.w_write = 1;
    o.want_nontrivial = 40;
    o.names = 60;
    Hist h(c, cf, o);
    h.run();
}
// Known finding: SQLite refuses database paths of 512 bytes and more, so long names stop working in directories
// whose backing path is that long.
static void deep_long(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    cf.threshold = 20;
    Mount m(make_dir(c.dir + "/store"), cf);
    std::string p;
    size_t depth = 1 + c.s.below(12);
    for (size_t i = 0; i < depth; ++i)
    {
        p += "/" + std::string(20, (char)('a' + i));
        int r = m.mkdir(p, 0755);
        if (r)
            fail("[" + cf.text() + "] mkdir of a directory at depth " + str(i + 1) + " returned " + std::to_string(r));
    }
    p += "/" + std::string(40, 'L');
    c.step("create a long name at depth " + str(depth));
    int r = m.put(p, "x");
    size_t phys = c.dir.size() + 6 + depth * 59;
    if (r && phys > 440)
        fail("[KF:sqlite-512] [" + cf.text() + "] creating a long name in a directory of backing path length " + str(phys)
             + " returned " + std::to_string(r));
    if (r)
        fail("[" + cf.text() + "] creating a long name at depth " + str(depth) + " returned " + std::to_string(r));
    std::string v;
    r = m.get(p, v);
    VREQ(r == 0 && v == "x", "the file is not readable");
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S08";
    p.rule = "A case is one random history of up to 40 (wide: 120) tree calls (create, write, mkdir, symlink, link, unlink, rmdir, "
             "rename, truncate, handles, remount) on a fresh lite-format repository with random block, IV, padding and long-name "
             "settings, each result compared with a POSIX tree model, and the whole tree compared at random points, at the end and "
             "after remounting. Non-trivial: at least 8 (wide: 40) calls that changed the tree; distinct by choice sequence.";
    p.assumptions = {"the kernel rejects type mismatches, directory hard links and renames into an own subtree before the call"};
    p.quick_cases = 22000;
    p.thorough_cases = 400000;
    p.tests = {{"tree", lite, 20}, {"longnames", longnames, 12}, {"plain", plain, 4}, {"wide", wide, 4}, {"deep_long", deep_long, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
