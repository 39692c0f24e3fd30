// S25: the name modes of the lite format (plain text, case folding, normalisation, long names) and the
// migration to another long-name suffix.
#include "cmd.h"
#include "fsmodel.h"
#include "lite_format.h"
#include "nameclasses.h"
#include "params_io.h"
#include "shuffledir.h"
#include "tags.h"
#include <dirent.h>
#include <sys/stat.h>
using namespace vp;
using namespace securefs;
// The normalised texts of the spelling classes of nameclasses.h, from the Unicode tables.
static std::string canon(const Spelling& x, bool fold, bool nfc)
{
    static const std::map<std::string, std::string> f = {{"e_acute", "\xC3\xA9"}, {"e+acute", "e\xCC\x81"}, {"sigma", "\xCF\x83"}, {"a_ring", "\xC3\xA5"},
        {"a+ring", "a\xCC\x8A"}, {"han_c", "\xED\x95\x9C"}, {"han_d", "\xE1\x84\x92\xE1\x85\xA1\xE1\x86\xAB"}, {"q_below_above", "q\xCC\xA3\xCC\x87"},
        {"q_above_below", "q\xCC\x87\xCC\xA3"}, {"alpha_iota+acute", "\xCE\xB1\xCE\xB9\xCC\x81"}, {"alpha+acute_iota", "\xCE\xB1\xCC\x81\xCE\xB9"},
        {"alpha_acute_iota", "\xCE\xAC\xCE\xB9"}, {"jiami", "\xE5\x8A\xA0\xE5\xAF\x86"}};
    static const std::map<std::string, std::string> n = {{"e+acute", "\xC3\xA9"}, {"E+acute", "\xC3\x89"}, {"SIGMA", "\xCE\xA3"}, {"sigma", "\xCF\x83"},
        {"finalsigma", "\xCF\x82"}, {"A+ring", "\xC3\x85"}, {"a+ring", "\xC3\xA5"}, {"han", "\xED\x95\x9C"}, {"fi_lig", "\xEF\xAC\x81"},
        {"q+", "q\xCC\xA3\xCC\x87"}, {"Q+", "Q\xCC\xA3\xCC\x87"}, {"alpha_sub", "\xE1\xBE\xB4"}, {"ALPHA_ACUTE_IOTA", "\xCE\x86\xCE\x99"}, {"jiami", "\xE5\x8A\xA0\xE5\xAF\x86"}};
    static const std::map<std::string, std::string> b = {{"e_acute*", "\xC3\xA9"}, {"sigma", "\xCF\x83"}, {"a_ring*", "\xC3\xA5"}, {"han", "\xED\x95\x9C"},
        {"q+", "q\xCC\xA3\xCC\x87"}, {"alpha_acute_iota", "\xCE\xAC\xCE\xB9"},
        {"jiami", "\xE5\x8A\xA0\xE5\xAF\x86"}};
    if (!fold && !nfc)
        return x.text;
    auto& m = fold && nfc ? b : fold ? f : n;
    std::string k = fold && nfc ? x.both : fold ? x.ci : x.un;
    auto it = m.find(k);
    return it == m.end() ? k : it->second;
}
// Names composed of table pieces, sometimes long; `out` gets the normalised text of each name.
static void gen_names(Src& s, size_t n, bool fold, bool nfc, size_t max, std::vector<std::string>& pool, std::map<std::string, std::string>& norm)
{
    auto& sp = spellings();
    std::vector<std::vector<size_t>> made;
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<size_t> p;
        size_t k = made.empty() ? 0 : s.weighted({3, 4, 1});
        if (k == 0)
        {
            size_t len = s.weighted({6, 3, 2});
            len = len == 0 ? 1 : len == 1 ? 2 + s.below(4) : 20 + s.below(60);
            size_t a = s.below(sp.size()), b = s.below(sp.size());
            for (size_t j = 0; j < len; ++j)
                p.push_back(j % 2 ? b : a);
        }
        else
        {
            // Another spelling of an earlier name: some pieces replaced by their neighbours in the table.
            p = made[s.below(made.size())];
            size_t at = s.below(p.size());
            for (size_t j = 0; j < p.size(); ++j)
                if (k == 1 ? j >= at : j == at)
                {
                    std::vector<size_t> same;
                    for (size_t q = 0; q < sp.size(); ++q)
                        if (std::string(sp[q].both) == sp[p[j]].both)
                            same.push_back(q);
                    p[j] = s.pick(same);
                }
        }
        std::string t, c;
        for (size_t j : p)
        {
            if (t.size() + strlen(sp[j].text) > max || c.size() + canon(sp[j], fold, nfc).size() > max)
                break;
            t += sp[j].text;
            c += canon(sp[j], fold, nfc);
        }
        made.push_back(p);
        if (t.empty() || norm.count(t))
            continue;
        norm[t] = c;
        norm[c] = c;
        pool.push_back(t);
    }
}
static void modes(Ctx& c)
{
    g_dir_order = 0;
    FsConfig cf = gen_config(c.s, false);
    size_t k = c.s.below(4);
    cf.fold = k == 0 || k == 2;
    cf.nfc = k == 1 || k == 2;
    std::map<std::string, std::string> norm;
    HistOpts o;
    Hist h(c, cf, o);
    gen_names(c.s, 5 + c.s.below(10), cf.fold, cf.nfc, h.max_name > 250 ? 250 : h.max_name, h.pool, norm);
    h.keyof = h.stored = [&norm](const std::string& n)
    {
        auto it = norm.find(n);
        if (it == norm.end())
            fail("the listing shows " + q(n) + ", which is no spelling of any name used");
        return it->second;
    };
    h.run();
    // Every spelling reaches exactly the object of its class.
    size_t n = 0;
    for (auto& d : h.paths('d'))
    {
        for (auto& p : h.pool)
        {
            struct stat st;
            std::string path = d + "/" + p;
            int id = h.lookup(path), r = h.m.getattr(path, st);
            if (r != (id < 0 ? -ENOENT : 0))
                fail("[" + cf.text() + "] getattr " + q(path) + " returned " + std::to_string(r) + ", expected " + (id < 0 ? "ENOENT" : "success"));
            ++n;
        }
    }
    c.label(cf.fold && cf.nfc ? "mode fold+nfc" : cf.fold ? "mode fold" : cf.nfc ? "mode nfc" : "mode none");
    c.label("spellings looked up", n);
}
static void raw_names(const std::string& dir, const std::string& pre, std::map<std::string, char>& out)
{
    DIR* d = opendir(dir.c_str());
    VREQ(d, "cannot open backing directory " + dir);
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat st;
        if (lstat((dir + "/" + n).c_str(), &st))
            continue;
        out[pre + n] = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
        if (S_ISDIR(st.st_mode))
            raw_names(dir + "/" + n, pre + n + "/", out);
    }
    closedir(d);
}
static void plain(Ctx& c)
{
    g_dir_order = 0;
    FsConfig cf = gen_config(c.s, false);
    cf.plain = true;
    HistOpts o;
    Hist h(c, cf, o);
    h.run();
    std::map<std::string, char> raw, want;
    raw_names(h.store, "", raw);
    for (auto& p : h.paths('*'))
        want[p.substr(1)] = h.nodes[h.lookup(p)].type;
    for (auto& [n, t] : want)
        if (!raw.count(n) || raw[n] != t)
            fail("[" + cf.text() + "] with plain-text names " + q(n) + " is not stored under that name");
    for (auto& [n, t] : raw)
        if (!want.count(n))
            fail("[" + cf.text() + "] with plain-text names the store has an extra entry " + q(n));
    for (auto& p : h.paths('l'))
    {
        char b[5000];
        ssize_t r = ::readlink((h.store + p).c_str(), b, sizeof b);
        if (r < 0 || std::string(b, (size_t)r) != h.nodes[h.lookup(p)].data)
            fail("[" + cf.text() + "] with plain-text names the target of link " + q(p) + " is not stored as it is");
    }
    // And the other way round: what appears in the store under a name is shown under it.
    std::string extra = "put there \xC3\xA9";
    mkdir((h.store + "/" + extra).c_str(), 0755);
    std::vector<DirEnt> es;
    h.m.ls("/", es);
    VREQ(std::any_of(es.begin(), es.end(), [&](const DirEnt& e) { return e.name == extra; }), "a plain-text name made in the store is not listed");
}
// --- The same calls on mounts that differ only in how names are stored.
struct Op
{
    int kind;
    std::string a, b;
};
static std::string gen_name(Src& s, const std::vector<std::string>& suffixes)
{
    static const std::vector<std::string> fixed = {"a", "b", "dir", "x.ll", "y...", "...", ".ll", ".hidden", ".long_names.db", ".config.pb", ".securefs.json", "A", "..a", "n m"};
    switch (s.weighted({4, 3, 2}))
    {
    case 0:
        return s.pick(fixed);
    case 1:
    {
        // Lengths whose stored forms are as long as those of hashed names, and the extremes.
        size_t len = s.pick({33u, 32u, 34u, 35u, 36u, 31u, 30u, 8u, 9u, 20u, 21u, 100u, 128u, 129u, 143u, 142u, 127u, 60u});
        return std::string(len, (char)('a' + s.below(3)));
    }
    default:
        return std::string(1 + s.below(3), (char)('p' + s.below(3))) + s.pick(suffixes);
    }
}
static int apply(Mount& m, const Op& o)
{
    switch (o.kind)
    {
    case 0:
    {
        fuse_file_info fi{};
        fi.flags = O_RDWR | O_CREAT | O_EXCL;
        struct stat st;
        if (m.getattr(o.a, st) == 0)
            return -EEXIST;
        return m.put(o.a, o.b);
    }
    case 1:
        return m.mkdir(o.a, 0755);
    case 2:
        return m.unlink(o.a);
    case 3:
        return m.rmdir(o.a);
    case 4:
        return m.rename(o.a, o.b);
    case 5:
        return m.link(o.a, o.b);
    case 6:
        return m.symlink(o.b, o.a);
    default:
    {
        std::string d;
        return m.get(o.a, d);
    }
    }
}
// Calls the kernel itself would refuse are not made.
static bool legal(Mount& m, const Op& o)
{
    struct stat a, b;
    bool ea = m.getattr(o.a, a) == 0, eb = m.getattr(o.b, b) == 0;
    auto parent_dir = [&](const std::string& p)
    {
        struct stat st;
        std::string d = p.substr(0, p.rfind('/'));
        return m.getattr(d.empty() ? "/" : d, st) == 0 && S_ISDIR(st.st_mode);
    };
    switch (o.kind)
    {
    case 2:
        return ea && !S_ISDIR(a.st_mode);
    case 3:
        return ea && S_ISDIR(a.st_mode);
    case 4:
        return ea && parent_dir(o.b) && o.b.compare(0, o.a.size() + 1, o.a + "/") != 0 && (!eb || S_ISDIR(a.st_mode) == S_ISDIR(b.st_mode));
    case 5:
        return ea && !S_ISDIR(a.st_mode) && parent_dir(o.b) && !eb;
    case 6:
    case 1:
    case 0:
        return !ea && parent_dir(o.a);
    default:
        return ea && S_ISREG(a.st_mode);
    }
}
// Bytes of the longest directory path below a directory.
static size_t deepest(Mount& m, const std::string& p)
{
    std::vector<DirEnt> es;
    size_t r = 0;
    if (m.ls(p, es) == 0)
        for (auto& e : es)
        {
            struct stat st;
            if (m.getattr(p + "/" + e.name, st) == 0 && S_ISDIR(st.st_mode))
                r = std::max(r, e.name.size() + 1 + deepest(m, p + "/" + e.name));
        }
    return r;
}
struct Variant
{
    FsConfig cf;
    Mount m;
    std::string dir;
};
static void compare_trees(std::vector<std::unique_ptr<Variant>>& v, const char* when)
{
    std::string ref = dump_tree(v[0]->m);
    for (size_t i = 1; i < v.size(); ++i)
    {
        std::string t = dump_tree(v[i]->m);
        if (t != ref)
        {
            size_t k = 0;
            while (k < t.size() && k < ref.size() && t[k] == ref[k])
                ++k;
            size_t b = ref.rfind('\n', k ? k - 1 : 0);
            b = b == std::string::npos ? 0 : b + 1;
            fail(std::string(when) + " the trees of [" + v[0]->cf.text() + "] and [" + v[i]->cf.text() + "] differ: " + q(ref.substr(b, 160)) + " / "
                 + q(t.substr(b, 160)));
        }
    }
}
static const std::vector<std::string>& good_suffixes()
{
    static const std::vector<std::string> v = {".ll", "...", "", ".x", "~", "a", "1", "-", " ", ".", "..", "long", ".LONG", "A.", ".A", "\xC3\xA9", ".long_name_suffix", "==", "0A", "A0"};
    return v;
}
static void histories(Ctx& c, std::vector<std::unique_ptr<Variant>>& v, std::vector<Op>& done, size_t nops, const std::vector<std::string>& suffixes)
{
    std::vector<std::string> dirs = {""}, names;
    size_t nn = 3 + c.s.below(6);
    while (names.size() < nn)
        names.push_back(gen_name(c.s, suffixes));
    for (size_t i = 0; i < nops; ++i)
    {
        auto path = [&]
        {
            std::string d = dirs[c.s.below(dirs.size())];
            return d + "/" + c.s.pick(names);
        };
        Op o;
        o.kind = (int)c.s.weighted({8, 5, 3, 2, 6, 2, 2, 1});
        o.a = path();
        o.b = o.kind == 0 || o.kind == 6 ? "target-" + std::to_string(i) : path();
        if (std::count(o.a.begin(), o.a.end(), '/') > 3 || std::count(o.b.begin(), o.b.end(), '/') > 3)
            continue;
        if (!legal(v[0]->m, o))
            continue;
        // Long names need their database's path below 512 bytes (a known finding of S08).
        struct stat st;
        size_t extra = o.kind == 1 ? o.a.size() : 0, db = std::max(o.a.rfind('/'), o.kind == 4 || o.kind == 5 ? o.b.rfind('/') : 0);
        if (o.kind == 4 && v[0]->m.getattr(o.a, st) == 0 && S_ISDIR(st.st_mode))
            extra = o.b.size() + deepest(v[0]->m, o.a);
        if (std::max(db, extra) > 200)
            continue;
        c.step(std::to_string(o.kind) + " " + q(o.a) + " " + q(o.b));
        int r0 = apply(v[0]->m, o);
        for (size_t k = 1; k < v.size(); ++k)
        {
            int r = apply(v[k]->m, o);
            if (r != r0)
                fail("call " + std::to_string(o.kind) + " " + q(o.a) + " " + q(o.b) + " returned " + std::to_string(r0) + " with [" + v[0]->cf.text()
                     + "] and " + std::to_string(r) + " with [" + v[k]->cf.text() + "]");
        }
        if (r0 == 0)
        {
            done.push_back(o);
            if (o.kind == 1 && std::find(dirs.begin(), dirs.end(), o.a) == dirs.end())
                dirs.push_back(o.a);
        }
    }
}
static void storage(Ctx& c)
{
    g_dir_order = 0;
    std::vector<std::unique_ptr<Variant>> v;
    FsConfig base = gen_config(c.s, false);
    base.threshold.reset();
    std::vector<std::string> sufs;
    size_t n = 2 + c.s.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        v.push_back(std::make_unique<Variant>());
        v[i]->cf = base;
        if (!c.s.chance(1, 5))
        {
            // Directories with long names stay rare enough for the database path limit (see S08).
            v[i]->cf.threshold = c.s.pick({100u, 128u, 20u, 8u, 1u, 32u, 33u, 143u});
            v[i]->cf.suffix = c.s.pick(good_suffixes());
        }
        sufs.push_back(v[i]->cf.suffix);
        v[i]->dir = make_dir(c.dir + "/s" + std::to_string(i));
        v[i]->m.open(v[i]->dir, v[i]->cf);
        c.step(v[i]->cf.text());
    }
    std::vector<Op> done;
    histories(c, v, done, 4 + c.s.below(30), sufs);
    compare_trees(v, "after the calls");
    for (auto& x : v)
        x->m.open(x->dir, x->cf);
    compare_trees(v, "after remounting");
    c.nontrivial = done.size() >= 4;
    c.label("calls on all variants", done.size());
}
// --- Changing the suffix.
static void migrate(Ctx& c)
{
    g_dir_order = c.s.below(1000);
    FsConfig cf = gen_config(c.s, false);
    cf.threshold = c.s.pick({8u, 1u, 20u, 100u, 128u, 33u});
    cf.suffix = c.s.pick(good_suffixes());
    std::vector<std::unique_ptr<Variant>> v;
    v.push_back(std::make_unique<Variant>());
    v[0]->cf = cf;
    v[0]->dir = make_dir(c.dir + "/s");
    v[0]->m.open(v[0]->dir, cf);
    c.step(cf.text());
    auto params = make_params(cf);
    size_t rounds = 1 + c.s.below(3), changed = 0, total = 0;
    for (size_t r = 0; r < rounds; ++r)
    {
        std::vector<Op> done;
        histories(c, v, done, 4 + c.s.below(25), {v[0]->cf.suffix, ".ll"});
        total += done.size();
        std::string before = dump_tree(v[0]->m);
        v[0]->m.close();
        std::string nsuf = c.s.pick(good_suffixes());
        if (nsuf.empty())
            nsuf = ".zz";
        c.step("suffix " + q(v[0]->cf.suffix) + " -> " + q(nsuf));
        std::string old = v[0]->cf.suffix.empty() ? "..." : v[0]->cf.suffix;
        try
        {
            lite_format::change_long_name_suffix(v[0]->dir, params, nsuf);
        }
        catch (const std::exception& e)
        {
            fail("[" + cf.text() + "] changing the suffix " + q(old) + " to " + q(nsuf) + " failed: " + e.what());
        }
        v[0]->cf.suffix = nsuf;
        if (params.lite_format_params().long_name_suffix() != nsuf && old != nsuf)
            fail("after changing the suffix to " + q(nsuf) + " the parameters hold " + q(params.lite_format_params().long_name_suffix()));
        if (old != nsuf)
            ++changed;
        v[0]->m.open(v[0]->dir, params, make_mount_options(v[0]->cf));
        std::string after = dump_tree(v[0]->m);
        if (after != before)
            fail("[" + cf.text() + "] changing the suffix " + q(old) + " to " + q(nsuf) + " changed the tree from " + q(before) + " to " + q(after));
        // No stored name keeps the old suffix (unless the new one ends with it), so nothing is left behind.
        std::map<std::string, char> raw;
        raw_names(v[0]->dir, "", raw);
        for (auto& [p, t] : raw)
        {
            size_t b = p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1;
            (void)t;
            if (p.size() - b == 77 + old.size() && p.compare(p.size() - old.size(), old.size(), old) == 0 && old != nsuf && old.size() != nsuf.size())
                fail("after changing the suffix " + q(old) + " to " + q(nsuf) + " a stored name still has the old one");
        }
    }
    g_dir_order = 0;
    c.nontrivial = changed > 0 && total >= 4;
    c.label("suffix changes", changed);
}
// A suffix given on the command line is either refused or works for every name.
static void any_suffix(Ctx& c)
{
    g_dir_order = 0;
    Src& s = c.s;
    std::string suf;
    static const std::string alpha = "AB2Z.a/ 1~-\xC3";
    for (size_t k = s.below(5); k > 0; --k)
        suf += alpha[s.below(alpha.size())];
    if (s.chance(1, 8))
        suf += std::string(s.pick({150u, 170u, 177u, 178u, 179u, 200u, 300u}), 'l');
    std::string dir = c.dir + "/s";
    unsigned thr = s.pick({8u, 1u, 33u, 40u, 128u});
    std::vector<std::string> a = {"create", dir, "--pass", "x", "--long-name-threshold", std::to_string(thr), "--long-name-suffix", suf};
    for (auto& x : cheap_argon())
        a.push_back(x);
    c.step(cmd_text(a));
    auto r = run_cmd(c.dir, a);
    if (r.rc != 0)
    {
        c.label("suffixes refused");
        if (suf.find_first_of(".a 1~-l") != std::string::npos && suf.find('/') == std::string::npos && suf.size() < 100 && suf.find('\xC3') == std::string::npos)
            fail("create refused the suffix " + q(suf));
        return;
    }
    c.label("suffixes accepted");
    auto params = decrypt(read_file(dir + "/.config.pb"), {(const byte*)"x", 1}, nullptr);
    if (s.coin())
    {
        // Take it by migrating instead.
        std::vector<std::string> b = {"migrate-long-name", dir, "--pass", "x", "--long-name-suffix", suf};
        for (auto& x : cheap_argon())
            b.push_back(x);
        run_cmd(c.dir, b);
        params = decrypt(read_file(dir + "/.config.pb"), {(const byte*)"x", 1}, nullptr);
    }
    FsConfig cf;
    cf.threshold = thr;
    cf.suffix = suf;
    Mount m;
    m.open(dir, params, make_mount_options(cf));
    std::set<std::string> want;
    for (size_t n = 1; n <= 143; n += 1 + s.below(3))
    {
        std::string name(n, 'm');
        int e = m.put("/" + name, "data " + std::to_string(n));
        if (e != 0)
        {
            // Nothing but a suffix too long for the backing file system may hinder a name.
            fail("with the accepted suffix " + q(suf) + " and threshold " + std::to_string(thr) + " creating a name of " + std::to_string(n) + " bytes returned "
                 + std::to_string(e));
        }
        want.insert(name);
    }
    // Short names of different content: their stored form may end with anything.
    for (size_t i = 0; i < 60; ++i)
    {
        std::string name = std::to_string(i) + std::string(s.below(6), 'k');
        if (m.put("/" + name, "data") == 0)
            want.insert(name);
    }
    std::vector<DirEnt> es;
    VREQ(m.ls("/", es) == 0, "listing the root failed");
    std::set<std::string> got;
    for (auto& e : es)
        got.insert(e.name);
    for (auto& w : want)
        if (!got.count(w))
            fail("with the accepted suffix " + q(suf) + " and threshold " + std::to_string(thr) + " the listing lacks " + q(w) + " (" + std::to_string(w.size()) + " bytes)");
    VREQ(got.size() == want.size(), "the listing has extra names");
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S25";
    p.rule = "A case runs a generated call history on lite mounts: with case folding, normalisation, both or neither over names composed of hand-made spelling "
             "classes (model keyed by class, every spelling looked up at the end); with plain-text names, comparing the backing directory with the model; on 2 to 4 "
             "mounts that differ only in long-name threshold and suffix, comparing every result and the trees; and with the suffix changed between histories, "
             "comparing the tree before and after. A last test offers arbitrary suffixes to create and migrate-long-name: each must be refused or serve every name. "
             "Non-trivial: at least 8 (histories) or 4 (comparisons) successful changes, an actual suffix change, an accepted suffix; distinct by choice sequence.";
    p.assumptions = {"ICU stands in for uni-algo, which is not installed", "suffixes with characters outside base32 and without '/' unless the create command is asked",
                     "the kernel refuses calls on wrong types before they arrive"};
    p.quick_cases = 20000;
    p.thorough_cases = 60000;
    p.quick_s = 40;
    p.init = []
    {
        global_logger.reset();
        umask(0);
    };
    p.tests = {{"modes", modes, 4}, {"plain", plain, 2}, {"storage", storage, 4}, {"migrate", migrate, 3}, {"any-suffix", any_suffix, 2}};
    return run_main(argc, argv, p);
}
