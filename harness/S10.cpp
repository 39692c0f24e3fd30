// S10: an encrypted directory behaves as an ordered name map, its stored index is sound and compact.
#include "decode.h"
#include "fsmodel.h"
#include "nameclasses.h"
#include <fcntl.h>
#include <sys/stat.h>
using namespace vp;
namespace
{
struct Entry
{
    std::string name;
    size_t obj;
};
struct Dir
{
    Ctx& c;
    Src& s;
    FsConfig cf;
    Mount m;
    std::string store;
    std::function<std::string(const std::string&)> keyof;
    std::function<int(const std::string&, const std::string&)> cmp;
    std::map<std::string, Entry> want;    // key -> entry
    std::vector<std::string> keys;        // for random picks
    std::map<std::string, size_t> at;     // key -> index in keys
    std::vector<ino_t> ino;
    std::vector<size_t> links;
    size_t peak = 0, ops = 0, depth = 0, frees = 0;
    int adds = 0, dels = 0;
    std::string D = "/d";
    Dir(Ctx& c_, FsConfig f) : c(c_), s(c_.s), cf(f), cmp(x_name_cmp(f.ci, f.un))
    {
        store = make_dir(c.dir + "/store");
        keyof = [f](const std::string& n) { return spelling_key(n, f.ci, f.un); };
    }
    [[noreturn]] void bad(const std::string& t) { fail("[" + cf.text() + "] with " + str(want.size()) + " entries after " + str(ops) + " operations: " + t); }
    void need(int r, int w, const std::string& what)
    {
        if (r != w)
            bad(what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    }
    static std::string src(size_t i) { return "/o" + str(i); }
    void setup(size_t nobj)
    {
        m.open(store, cf);
        need(m.mkdir(D, 0755), 0, "mkdir");
        for (size_t i = 0; i < nobj; ++i)
        {
            if (i % 3 == 2)
                need(m.symlink("target" + str(i), src(i)), 0, "symlink");
            else
                need(m.put(src(i), "content " + str(i)), 0, "create");
            struct stat st;
            need(m.getattr(src(i), st), 0, "getattr");
            ino.push_back(st.st_ino);
            links.push_back(1);
        }
    }
    void add(const std::string& name)
    {
        ++ops;
        std::string k = keyof(name);
        size_t o = s.below(ino.size());
        bool dup = want.count(k);
        int r = m.link(src(o), D + "/" + name);
        need(r, dup ? -EEXIST : 0, "adding " + q(name));
        if (!dup)
        {
            want[k] = {name, o};
            at[k] = keys.size();
            keys.push_back(k);
            ++links[o];
            ++adds;
            peak = std::max(peak, want.size());
        }
    }
    void drop_key(const std::string& k)
    {
        size_t i = at[k];
        at[keys.back()] = i;
        std::swap(keys[i], keys.back());
        keys.pop_back();
        at.erase(k);
        want.erase(k);
    }
    void del(const std::string& name)
    {
        ++ops;
        std::string k = keyof(name);
        bool has = want.count(k);
        need(m.unlink(D + "/" + name), has ? 0 : -ENOENT, "removing " + q(name));
        if (has)
        {
            --links[want[k].obj];
            drop_key(k);
            ++dels;
        }
    }
    void get(const std::string& name)
    {
        ++ops;
        struct stat st;
        auto i = want.find(keyof(name));
        int r = m.getattr(D + "/" + name, st);
        need(r, i == want.end() ? -ENOENT : 0, "looking up " + q(name));
        if (!r && st.st_ino != ino[i->second.obj])
            bad("looking up " + q(name) + " gave another object than the one it was added with");
        if (!r && (size_t)st.st_nlink != links[i->second.obj])
            bad("the object behind " + q(name) + " has " + str(st.st_nlink) + " links, expected " + str(links[i->second.obj]));
    }
    void enumerate()
    {
        ++ops;
        std::vector<DirEnt> es;
        need(m.ls(D, es), 0, "listing");
        std::map<std::string, int> got;
        for (auto& e : es)
            if (++got[e.name] > 1)
                bad("the listing shows " + q(e.name) + " twice");
        if (got.size() != want.size())
            bad("the listing shows " + str(got.size()) + " entries");
        for (auto& x : want)
            if (!got.count(x.second.name))
                bad("the listing lacks " + q(x.second.name));
    }
    void remount(bool decode)
    {
        m.close();
        if (decode)
            try
            {
                FullReader r(store, cf);
                BTree root = r.tree(r.read(FullReader::root_id()), cmp);
                std::string id;
                for (auto& e : root.ents)
                    if ("/" + e.name == D)
                        id = e.id;
                if (id.empty())
                    bad("the directory is missing in its parent");
                BTree t = r.tree(r.read(id), cmp);
                std::set<std::string> got, exp;
                for (auto& e : t.ents)
                    got.insert(e.name);
                for (auto& x : want)
                    exp.insert(x.second.name);
                if (got != exp || t.ents.size() != exp.size())
                    bad("the stored index holds " + str(t.ents.size()) + " entries that differ from the model's");
                // Pages never outnumber what the fullest state needed (each page but the root holds 6 entries or
                // more), and a directory that shrank gives its space back.
                if (t.pages > peak / 6 + 2)
                    bad("the stored index has " + str(t.pages) + " pages though there were never more than " + str(peak) + " entries");
                if (t.pages > 4 * t.used + 8)
                    bad("the stored index has " + str(t.pages) + " pages, only " + str(t.used) + " of them in use");
                depth = std::max(depth, t.depth);
                frees = std::max(frees, t.free);
            }
            catch (DecodeError& e)
            {
                bad(std::string("the stored index is unsound: ") + e.what());
            }
        m.open(store, cf);
    }
    std::string any() { return want[s.pick(keys)].name; }
    void step(const std::function<std::string()>& fresh, unsigned wa, unsigned wd)
    {
        switch (s.weighted({wa, wd, 6, 1, 1}))
        {
        case 0:
            add(!keys.empty() && s.chance(1, 12) ? any() : fresh());
            break;
        case 1:
            del(keys.empty() || s.chance(1, 15) ? fresh() : any());
            break;
        case 2:
            get(keys.empty() || s.chance(1, 3) ? fresh() : any());
            break;
        case 3:
            if (s.chance(1, 4))
                enumerate();
            break;
        default:
            if (s.chance(1, 3))
            {
                c.step("remount at " + str(want.size()));
                remount(true);
                if (want.size() < 300)
                    enumerate();
            }
        }
    }
    void finish()
    {
        for (auto& x : want)
            get(x.second.name);
        enumerate();
        remount(true);
        enumerate();
        for (size_t i = 0; i < keys.size(); i += 1 + s.below(4))
            get(want[keys[i]].name);
        // It can be emptied and then removed; while it has entries it cannot.
        if (!want.empty())
            need(m.rmdir(D), -ENOTEMPTY, "removing the directory that has entries");
        if (s.coin())
        {
            c.step("empty it");
            while (!keys.empty())
                del(any());
            enumerate();
            if (s.coin())
            {
                remount(true);
                enumerate();
            }
            need(m.rmdir(D), 0, "removing the empty directory");
            struct stat st;
            need(m.getattr(D, st), -ENOENT, "looking up the removed directory");
        }
        c.label("index depth " + str(depth));
        if (frees)
            c.label("free pages seen");
    }
};
std::string numbered(uint64_t i, size_t len)
{
    std::string r = str(i);
    while (r.size() < 6)
        r = "0" + r;
    if (r.size() < len)
        r += std::string(len - r.size(), 'n');
    return r;
}
}    // namespace
static FsConfig conf(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.block = c.s.pick({4096u, 512u, 1024u, 1000u, 8192u});
    unsigned k = (unsigned)c.s.below(4);
    cf.ci = k & 1;
    cf.un = k & 2;
    return cf;
}
// Phases of growth and shrinkage in different orders.
static void run(Ctx& c, size_t maxn)
{
    Dir d(c, conf(c));
    Src& s = c.s;
    c.step(d.cf.text());
    d.setup(1 + s.below(4));
    size_t len = s.pick({0u, 0u, 40u, 255u});
    size_t phases = 1 + s.below(4);
    uint64_t space = maxn * 2;
    for (size_t p = 0; p < phases; ++p)
    {
        size_t kind = s.weighted({3, 2, 2, 3, 2});
        size_t n = 1 + s.below(maxn);
        uint64_t base = s.below(space), i = 0;
        bool up = s.coin();
        auto seq = [&]() { return numbered(up ? base + i++ : base + space - i++, len); };
        auto rnd = [&]() { return numbered(s.below(space), len); };
        c.step("phase " + str(kind) + " of " + str(n) + (up ? " up" : " down"));
        for (size_t k = 0; k < n; ++k)
            switch (kind)
            {
            case 0:    // mixed
                d.step(rnd, 10, 10);
                break;
            case 1:    // sequential growth
                d.step(seq, 30, 1);
                break;
            case 2:    // random growth
                d.step(rnd, 30, 2);
                break;
            case 3:    // random shrinkage
                d.step(rnd, 2, 30);
                break;
            default:    // ordered removal
                if (!d.want.empty())
                    d.del(up ? d.want.begin()->second.name : d.want.rbegin()->second.name);
            }
        if (d.want.size() < 400 || s.chance(1, 4))
            d.enumerate();
    }
    d.finish();
    c.nontrivial = d.adds >= 14 && d.dels >= 3;
}
static void small(Ctx& c) { run(c, 60); }
static void medium(Ctx& c) { run(c, 400); }
static void large(Ctx& c) { run(c, 2500); }
// Names of every kind: related spellings, all byte values, all lengths.
static void names(Ctx& c)
{
    FsConfig cf = conf(c);
    Dir d(c, cf);
    Src& s = c.s;
    c.step(cf.text());
    d.setup(1 + s.below(3));
    size_t n = 10 + s.below(120);
    auto fresh = [&]() -> std::string
    {
        switch (s.weighted({6, 2, 2}))
        {
        case 0:
            return spellings()[s.below(spellings().size())].text;
        case 1:
            return std::string(1 + s.below(255), (char)('a' + s.below(26)));
        default:
            if (cf.ci || cf.un)
                return numbered(s.below(40), 0);
            std::string r(1 + s.below(6), 'a');
            for (auto& x : r)
                do
                    x = (char)(1 + s.below(255));
                while (x == '/');
            return r == "." || r == ".." ? "x" : r;
        }
    };
    for (size_t k = 0; k < n; ++k)
    {
        if (s.chance(1, 3) && !d.keys.empty())
        {
            // Another spelling of an existing name, or a neighbour of it.
            std::string x = fresh();
            switch (s.below(3))
            {
            case 0:
                d.add(x);
                break;
            case 1:
                d.get(x);
                break;
            default:
                d.del(x);
            }
        }
        else
            d.step(fresh, 12, 6);
    }
    d.finish();
    c.nontrivial = d.adds >= 8 && d.dels >= 2;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S10";
    p.rule = "A case drives one directory of a fresh full-format repository (random settings, all four name comparisons) through one to four "
             "phases of insertion, lookup, removal, enumeration and remounting of up to 60, 400 or 2500 steps each in random, ascending or "
             "descending order, each result compared with an ordered map keyed by the configured comparison; at every remount the stored "
             "index is decoded independently and its order, node fill, depth, page graph and free list are checked. Non-trivial: at least "
             "14 insertions (one more than a node holds) and 3 removals (names: 8 and 2); distinct by choice sequence.";
    p.assumptions = {"entries are made by link() of a few files and symbolic links, so ids repeat",
                     "Unicode folding tables come from ICU in place of the uni-algo library, which is not installed"};
    p.quick_cases = 6000;
    p.thorough_cases = 100000;
    p.tests = {{"small", small, 12}, {"medium", medium, 6}, {"large", large, 1}, {"names", names, 6}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
