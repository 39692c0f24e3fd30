// S06: padding enlarges each stored file by a constant of its own in [0, P] and is invisible to users.
#include "bytefile.h"
#include "decode.h"
#include <unistd.h>
using namespace vp;

static uint64_t lite_payload(const FsConfig& cf, uint64_t n)
{
    uint64_t b = cf.block, o = cf.iv + 16, full = n / b, res = n % b;
    return 16 + full * (b + o) + (res ? res + o : 0);
}
static uint64_t full_meta(const FsConfig& cf, uint64_t data)
{
    uint64_t o = cf.iv + 16;
    return 32 + o + (cf.store_time ? 80 : 32) + (data + cf.block - 1) / cf.block * o;
}
static uint64_t file_size(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st))
        fail("backing file " + p + " is missing");
    return (uint64_t)st.st_size;
}
struct PadHist : ByteHist
{
    std::unique_ptr<LiteReader> lr;
    std::unique_ptr<FullReader> fr;
    std::vector<std::string> obj;    // data path of each file (full)
    std::vector<int64_t> pads;
    bool used = false;
    PadHist(Ctx& c_, FsConfig f, uint64_t mx) : ByteHist(c_, f, mx) {}
    void start(size_t n)
    {
        setup(n);
        if (cf.full)
        {
            fr = std::make_unique<FullReader>(store, cf);
            // The storage holds just these files, so each is found by its index entry.
            auto t = fr->walk(bin_cmp);
            for (auto& f : fs)
            {
                auto it = t.find(f.path);
                if (it == t.end())
                    bad("file " + f.path + " is not in the storage");
                obj.push_back(fr->path_of(it->second.obj.id));
            }
        }
        else
            lr = std::make_unique<LiteReader>(store, cf);
        for (size_t i = 0; i < n; ++i)
            pads.push_back(-1);
    }
    std::string phys(size_t i) const { return cf.full ? obj[i] : store + "/" + lr->enc_name(fs[i].path.substr(1)); }
    bool has_handle(size_t i) const
    {
        for (auto& h : hs)
            if (h.file == i)
                return true;
        return false;
    }
    void measure(size_t i)
    {
        BFile& f = fs[i];
        uint64_t n = file_size(phys(i)), base = cf.full ? f.data.size() : lite_payload(cf, f.data.size());
        int64_t p = (int64_t)n - (int64_t)base;
        if (p < 0 || p > (int64_t)cf.pad)
            bad("file " + f.path + " of " + str(f.data.size()) + " bytes is stored in " + str(n) + " bytes, that is " + std::to_string(p)
                + " more than without padding (maximum " + str((uint64_t)cf.pad) + ")");
        if (pads[i] >= 0 && p != pads[i])
            bad("the padding of " + f.path + " changed from " + std::to_string(pads[i]) + " to " + std::to_string(p));
        pads[i] = p;
        if (cf.full && !has_handle(i))
        {
            uint64_t m = file_size(phys(i) + ".meta");
            if (m != full_meta(cf, n))
                bad("metadata of " + f.path + " takes " + str(m) + " bytes, expected " + str(full_meta(cf, n)));
        }
        struct stat st;
        ok(m.getattr(f.path, st), 0, "getattr " + f.path);
        if ((uint64_t)st.st_size != f.data.size())
            bad("size of " + f.path + (has_handle(i) ? " (open)" : "") + " is reported as " + str((uint64_t)st.st_size) + ", expected " + str(f.data.size()));
        for (auto& h : hs)
            if (h.file == i)
            {
                ok(m.fgetattr(f.path, st, h.fi), 0, "fgetattr " + f.path);
                if ((uint64_t)st.st_size != f.data.size())
                    bad("size of the open " + f.path + " is reported as " + str((uint64_t)st.st_size) + ", expected " + str(f.data.size()));
            }
    }
    void rename(size_t i)
    {
        std::string to = "/r" + str(c.s.below(1000)) + "_" + str((uint64_t)i);
        if (c.s.chance(1, 3))
            to += std::string(130, 'y');
        if (!cf.full && !cf.threshold && !cf.plain && to.size() > 140)
            to.resize(60);
        if (to == fs[i].path)
            return;
        close_all();
        c.step("rename " + fs[i].path + " " + to);
        ok(m.rename(fs[i].path, to), 0, "rename");
        fs[i].path = to;
    }
};
static FsConfig config(Ctx& c, bool pad)
{
    FsConfig cf = gen_config(c.s, c.s.coin());
    if (pad)
        cf.pad = c.s.pick({1u, 2u, 7u, 16u, 31u, 32u, 33u, 63u, 64u, 100u, 255u, 256u, 1000u, 4096u, 70000u});
    else
        cf.pad = 0;
    return cf;
}
static void life(Ctx& c)
{
    FsConfig cf = config(c, !c.s.chance(1, 4));
    PadHist h(c, cf, std::min<uint64_t>(5 * cf.block + 7, 9000));
    h.start(1 + c.s.below(3));
    int n = 3 + (int)c.s.below(25);
    for (int k = 0; k < n; ++k)
    {
        if (c.s.chance(1, 12))
            h.rename(c.s.below(h.fs.size()));
        else
            h.step();
        for (size_t i = 0; i < h.fs.size(); ++i)
            h.measure(i);
    }
    for (size_t i = 0; i < h.fs.size(); ++i)
        h.whole(i, "at the end");
    h.remount();
    for (size_t i = 0; i < h.fs.size(); ++i)
    {
        h.measure(i);
        h.whole(i, "after remounting");
    }
    c.nontrivial = h.muts >= 3 && (cf.pad == 0 || h.fs.size() > 0);
    c.label(cf.pad ? "padded" : "unpadded");
}
// Many files: the padding must differ from file to file and spread over the range.
static void spread(Ctx& c)
{
    FsConfig cf = config(c, true);
    cf.pad = c.s.pick({1u, 2u, 7u, 16u, 64u, 256u, 1000u, 4096u});
    PadHist h(c, cf, 1000);
    size_t n = 70 + c.s.below(20);
    h.start(n);
    uint64_t len = c.s.below(2 * cf.block);
    std::string d = c.s.bytes(len);
    for (size_t i = 0; i < n; ++i)
    {
        if (len)
        {
            fuse_file_info fi;
            h.ok(h.m.open(h.fs[i].path, 02, fi), 0, "open");
            h.ok(h.m.write(h.fs[i].path, d, 0, fi), (int)len, "write");
            h.ok(h.m.release(h.fs[i].path, fi), 0, "release");
            h.fs[i].data = d;
        }
        h.measure(i);
    }
    std::set<int64_t> v(h.pads.begin(), h.pads.end());
    size_t need = std::min<size_t>(cf.pad + 1, 3);
    if (v.size() < need)
        h.bad(str(n) + " files of the same length have only " + str(v.size()) + " different paddings");
    // All of 70 uniform values in one half of the range: below 2^-68.
    if (*v.begin() * 2 > (int64_t)cf.pad || *v.rbegin() * 2 < (int64_t)cf.pad)
        h.bad("the paddings of " + str(n) + " files reach only from " + std::to_string(*v.begin()) + " to " + std::to_string(*v.rbegin()) + " of "
              + str((uint64_t)cf.pad));
    h.remount();
    for (size_t k = 0; k < 6; ++k)
    {
        size_t i = c.s.below(n);
        h.measure(i);
        h.whole(i, "after remounting");
    }
    c.nontrivial = true;
}
// Directories and links of the full format are padded objects too.
static void others(Ctx& c)
{
    FsConfig cf = config(c, !c.s.chance(1, 4));
    cf.full = true;
    cf.threshold.reset();
    Mount m(make_dir(c.dir + "/store"), cf);
    std::string store = c.dir + "/store";
    auto ok = [&](int r, int w, const char* what)
    {
        if (r != w)
            fail("[" + cf.text() + "] " + what + " returned " + std::to_string(r));
    };
    std::string t = c.s.bytes(1 + c.s.below(300));
    for (auto& ch : t)
        if (!ch)
            ch = 'n';
    ok(m.mkdir("/d", 0755), 0, "mkdir");
    ok(m.symlink(t, "/l"), 0, "symlink");
    FullReader fr(store, cf);
    int64_t dp = -1, lp = -1;
    int live = 0, total = (int)c.s.below(60);
    for (int i = 0; i <= total; ++i)
    {
        std::string p = "/d/n" + str((uint64_t)i);
        if (live > 3 && c.s.chance(1, 3))
        {
            std::vector<DirEnt> l;
            ok(m.ls("/d", l), 0, "readdir");
            ok(m.unlink("/d/" + l[c.s.below(l.size())].name), 0, "unlink");
            --live;
        }
        else
        {
            ok(m.put(p, "x"), 0, "put");
            ++live;
        }
        if (i % 6 && i != total)
            continue;
        if (c.s.chance(1, 4))
            m.open(store, cf);
        auto tree = fr.walk(bin_cmp);
        struct stat st;
        ok(m.getattr("/d", st), 0, "getattr");
        auto& d = tree.at("/d").obj;
        int64_t p1 = (int64_t)d.data_size - st.st_size;
        if (st.st_size % 4096 || p1 < 0 || p1 > (int64_t)cf.pad || (dp >= 0 && p1 != dp))
            fail("[" + cf.text() + "] the directory of reported size " + std::to_string(st.st_size) + " is stored in " + str(d.data_size)
                 + " bytes; its padding was " + std::to_string(dp));
        dp = p1;
        ok(m.getattr("/l", st), 0, "getattr");
        auto& l = tree.at("/l").obj;
        if ((size_t)st.st_size != t.size())
            fail("[" + cf.text() + "] a link to " + str(t.size()) + " bytes has the reported size " + std::to_string(st.st_size));
        int64_t p2 = (int64_t)l.data_size - st.st_size;
        if (p2 < 0 || p2 > (int64_t)cf.pad || (lp >= 0 && p2 != lp))
            fail("[" + cf.text() + "] a link of " + str(t.size()) + " bytes is stored in " + str(l.data_size) + " bytes; its padding was " + std::to_string(lp));
        lp = p2;
        std::string o;
        ok(m.readlink("/l", o), 0, "readlink");
        if (o != t)
            fail("[" + cf.text() + "] a padded link reads as " + q(o));
    }
    c.nontrivial = total > 5;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S06";
    p.rule = "A case draws a format, sizes and a maximum padding (0, or 1 to 70000) and up to 27 content calls and renames on 1 to 3 files; "
             "after each call every file's stored size minus the exact size for its logical length must lie in [0, P] and never "
             "change, metadata files have their exact size, and sizes by path and by handle equal the model's; contents are compared at the end "
             "and after remounting. (spread) 70 to 90 files: the paddings must take several values on both halves of the range. (others) "
             "directories and links. Non-trivial: at least 3 modifications (others: 6 entries); distinct by choice sequence.";
    p.quick_cases = 9000;
    p.thorough_cases = 400000;
    p.tests = {{"life", life, 12}, {"spread", spread, 2}, {"others", others, 2}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
