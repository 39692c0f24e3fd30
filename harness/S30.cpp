// S30: extreme offsets and sizes. The model is a log of modifications, so files of many terabytes cost nothing.
#include "bytefile.h"
#include <errno.h>
using namespace vp;
namespace
{
struct Model
{
    struct Mod
    {
        bool trunc;
        uint64_t off;
        std::string d;
    };
    std::vector<Mod> mods;
    uint64_t size = 0;
    std::string read(uint64_t off, uint64_t len) const
    {
        if (off >= size)
            return "";
        len = std::min(len, size - off);
        std::string r(len, '\0');
        for (auto& m : mods)
        {
            if (m.trunc)
            {
                if (m.off < off + len)
                    std::fill(r.begin() + (long)(m.off > off ? m.off - off : 0), r.end(), '\0');
                continue;
            }
            uint64_t a = std::max(off, m.off), b = std::min(off + len, m.off + m.d.size());
            if (a < b)
                memcpy(&r[a - off], m.d.data() + (a - m.off), b - a);
        }
        return r;
    }
};
struct Big
{
    Ctx& c;
    FsConfig cf;
    Mount m;
    Model md;
    fuse_file_info fi;
    std::set<uint64_t> spots = {0};
    Big(Ctx& c_, FsConfig f) : c(c_), cf(f) {}
    [[noreturn]] void bad(const std::string& s) { fail("[" + cf.text() + "] " + s); }
    uint64_t point()
    {
        Src& s = c.s;
        if (s.chance(1, 4))
        {
            auto it = spots.begin();
            std::advance(it, (long)s.below(spots.size()));
            int64_t d = s.range(-2, 2);
            return *it > (1ull << 62) ? *it : (uint64_t)std::max<int64_t>(0, (int64_t)*it + d);
        }
        uint64_t k;
        // Block counts. Full-format metadata is authenticated as a whole, so sizes between a few million blocks and
        // the limit would take minutes of hashing for no gain.
        if (cf.full)
            k = s.pick({0ull, 1ull, 2ull, 7ull, 255ull, 256ull, 4095ull, 65535ull, 65536ull, (1ull << 30) + 2, (1ull << 31), (1ull << 32),
                        (1ull << 33) + 1});
        else
            k = s.pick({0ull, 1ull, 2ull, 7ull, 255ull, 256ull, 65535ull, 65536ull, (1ull << 24), (1ull << 30), (1ull << 31) - 2,
                        (1ull << 31) - 1, (1ull << 31), (1ull << 32) - 1, 1ull << 32, (1ull << 33) + 1});
        int64_t d = s.range(-2, 2);
        if (s.chance(1, 12))
        {
            // Near the end of the representable range.
            return (uint64_t)((int64_t)((1ull << 63) - 1 - s.pick({0ull, 1ull, 4095ull, 1ull << 20, 1ull << 40, 1ull << 61, 1ull << 62})));
        }
        int64_t v = (int64_t)(k * cf.block) + d;
        return (uint64_t)std::max<int64_t>(0, v);
    }
    bool beyond(uint64_t end) const
    {
        uint64_t limit = cf.full ? (1ull << 30) : (1ull << 31) - 1;
        return end / cf.block + 1 >= limit;
    }
    void check(const std::string& when)
    {
        struct stat st;
        int r = m.fgetattr("/f", st, fi);
        if (r || (uint64_t)st.st_size != md.size)
            bad(when + ": fgetattr returned " + std::to_string(r) + " size " + str((uint64_t)st.st_size) + ", expected " + str(md.size));
        for (uint64_t p : spots)
            for (uint64_t b : {p / cf.block * cf.block, p})
            {
                uint64_t a = b > 3 ? b - 3 : 0, len = std::min<uint64_t>(3 + cf.block + 3, 4200);
                if (a + len > (1ull << 63) - 1)
                    continue;
                std::string d, w = md.read(a, len);
                r = m.read("/f", d, len, (off_t)a, fi);
                if (r < 0)
                {
                    if (beyond(a + len))
                        continue;
                    bad(when + ": read of " + str(len) + " at " + str(a) + " returned " + std::to_string(r));
                }
                if (d != w)
                    bad(when + ": read of " + str(len) + " at " + str(a) + " gave " + str(d.size()) + " bytes " + hex(d, 24) + ", expected "
                        + str(w.size()) + " bytes " + hex(w, 24));
            }
    }
    void run()
    {
        Src& s = c.s;
        c.step(cf.text());
        m.open(make_dir(c.dir + "/store"), cf);
        if (m.create("/f", 0600, fi))
            bad("create failed");
        int n = 1 + (int)s.below(12), far = 0;
        for (int i = 0; i < n; ++i)
        {
            uint64_t p = point();
            size_t op = s.weighted({4, 4, 2, 1});
            if (spots.size() < 14)
                spots.insert(p);
            if (op == 0)
            {
                uint64_t len = s.pick({1u, 2u, cf.block - 1, cf.block, cf.block + 1, 2 * cf.block, 3u});
                if (s.chance(1, 12))
                    len = 0;
                std::string d = s.bytes(len);
                for (auto& x : d)
                    x |= 1;
                if (p > (1ull << 63) - 1 - len)
                    continue;
                int r = m.write("/f", d, (off_t)p, fi);
                c.step("write " + str(p) + "+" + str(len) + " = " + std::to_string(r));
                if (r >= 0)
                {
                    if ((uint64_t)r != len)
                        bad("write of " + str(len) + " at " + str(p) + " returned " + std::to_string(r));
                    if (len)
                    {
                        md.size = std::max(md.size, p + len);
                        md.mods.push_back({false, p, d});
                    }
                }
                else if (!beyond(p + len))
                    bad("write of " + str(len) + " at " + str(p) + " returned " + std::to_string(r));
                far += p > (1u << 20);
                if (spots.size() < 14)
                    spots.insert(p + len);
            }
            else if (op == 1)
            {
                int r = s.coin() ? m.ftruncate("/f", (off_t)p, fi) : m.truncate("/f", (off_t)p);
                c.step("truncate " + str(p) + " = " + std::to_string(r));
                if (r == 0)
                {
                    md.size = p;
                    md.mods.push_back({true, p, ""});
                    far += p > (1u << 20);
                }
                else if (r > 0 || !beyond(p))
                    bad("truncate to " + str(p) + " returned " + std::to_string(r));
            }
            else if (op == 2)
            {
                c.step("read " + str(p));
                std::string d;
                uint64_t len = s.pick({0u, 1u, cf.block, 2 * cf.block + 1, 131072u});
                if (p > (1ull << 63) - 1 - len)
                    continue;
                int r = m.read("/f", d, len, (off_t)p, fi);
                if (r < 0 && beyond(p + len))
                    continue;
                if (r < 0 || d != md.read(p, len))
                    bad("read of " + str(len) + " at " + str(p) + " returned " + std::to_string(r) + ", expected "
                        + str(md.read(p, len).size()) + " bytes");
            }
            else
            {
                c.step("reopen");
                if (m.release("/f", fi))
                    bad("release failed");
                m.open(c.dir + "/store", cf);
                if (m.open("/f", O_RDWR, fi))
                    bad("open failed after remount");
            }
            check("after step " + str(i));
        }
        if (m.release("/f", fi))
            bad("release failed");
        c.nontrivial = far >= 1;
    }
};
void lite(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    Big b(c, cf);
    b.run();
}
void full(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    Big b(c, cf);
    b.run();
}
// Bytes cut off never reappear, whatever chain of shrinking and extending follows.
void residue(Ctx& c)
{
    FsConfig cf = gen_config(c.s, c.s.coin());
    Big b(c, cf);
    Src& s = c.s;
    c.step(cf.text());
    b.m.open(make_dir(c.dir + "/store"), cf);
    if (b.m.create("/f", 0600, b.fi))
        b.bad("create failed");
    std::string d(1 + s.below(3 * cf.block), 'S');
    b.m.write("/f", d, 0, b.fi);
    b.md.size = d.size();
    b.md.mods.push_back({false, 0, d});
    for (uint64_t k = 0; k < 4; ++k)
        b.spots.insert(k * cf.block);
    int n = 2 + (int)s.below(10);
    for (int i = 0; i < n; ++i)
    {
        uint64_t p = s.size_near(4 * cf.block, cf.block);
        b.spots.insert(p);
        if (s.chance(1, 4))
        {
            std::string w = "WW";
            c.step("write " + str(p));
            if (b.m.write("/f", w, (off_t)p, b.fi) != 2)
                b.bad("write failed");
            b.md.size = std::max(b.md.size, p + 2);
            b.md.mods.push_back({false, p, w});
        }
        else
        {
            c.step("truncate " + str(p));
            if (b.m.ftruncate("/f", (off_t)p, b.fi))
                b.bad("ftruncate failed");
            b.md.size = p;
            b.md.mods.push_back({true, p, ""});
        }
        b.check("after step " + str(i));
    }
    b.m.release("/f", b.fi);
    c.nontrivial = true;
}
}    // namespace
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S30";
    p.rule = "A case is up to 12 writes, truncations, reads and reopenings of one file at offsets around block boundaries up to and beyond the "
             "largest block number and the largest file position, compared (size, and every region around an offset used) with a model "
             "that replays the log of modifications; a call may fail only beyond the format's limit and must then change nothing. "
             "Non-trivial: at least one modification beyond 1 MiB (residue: every case); distinct by choice sequence.";
    p.assumptions = {"full format: offsets between 65536 blocks and the limit of 2^30 blocks are not exercised, because every flush hashes all metadata"};
    p.quick_cases = 70000;
    p.thorough_cases = 300000;
    p.tests = {{"lite", lite, 5}, {"full", full, 3}, {"residue", residue, 3}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
