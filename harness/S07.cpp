// S07: lite-format names and link targets encrypt reversibly and opaquely.
#include "decode.h"
#include "fsdrv.h"
#include "lite_format.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
using namespace securefs;
using namespace securefs::lite_format;

static key_type gen_key(uint64_t seed)
{
    key_type k;
    Rng g{seed * 77 + 3};
    for (size_t i = 0; i < k.size(); ++i)
        k.data()[i] = (unsigned char)g.next();
    return k;
}
static std::string key_text(const key_type& k) { return std::string((const char*)k.data(), k.size()); }
static std::shared_ptr<NameTranslator> translator(const key_type& k, unsigned threshold, const std::string& suffix)
{
    NameNormalizationFlags f{};
    f.long_name_threshold = threshold;
    f.long_name_suffix = suffix;
    return make_name_translator(f, StrongType<key_type, tNameMasterKey>(k));
}
// A component: any bytes but '/' and NUL.
static std::string gen_comp(Src& s, unsigned threshold, size_t max)
{
    size_t n;
    switch (s.weighted({4, 3, 2, 2}))
    {
    case 0:
        n = 1 + s.below(20);
        break;
    case 1:    // around the threshold and around the longest legal names
    {
        int64_t around = s.coin() && threshold ? (int64_t)threshold : s.pick({16, 32, 48, 64, 143, 144, 255, 300});
        n = (size_t)std::max<int64_t>(1, around + s.range(-3, 3));
        break;
    }
    case 2:
        n = 1 + s.below(160);
        break;
    default:
        n = 1 + s.below(max);
    }
    n = std::min(n, max);
    std::string r(n, 'a');
    switch (s.below(4))
    {
    case 0:
        break;
    case 1:
        for (size_t i = 0; i < n; ++i)
            r[i] = (char)('a' + i % 26);
        break;
    default:
    {
        Rng g{s.below(1u << 24)};
        for (auto& ch : r)
            do
                ch = (char)g.next();
            while (ch == '/' || ch == 0);
    }
    }
    return r;
}
// A name close to another one.
static std::string relative(Src& s, const std::string& o)
{
    std::string r = o;
    switch (s.below(6))
    {
    case 0:
        r.push_back('a');
        break;
    case 1:
        r.pop_back();
        break;
    case 2:
        r[s.below(r.size())] ^= 0x20;
        break;
    case 3:
        r[s.below(r.size())] ^= (char)(1 << s.below(8));
        break;
    case 4:
        r += "...";
        break;
    default:
        std::reverse(r.begin(), r.end());
    }
    for (auto& ch : r)
        if (ch == '/' || ch == 0)
            ch = 'x';
    return r;
}
static const char ALPHA[] = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789abcdefghijkmnpqrstuvwxyz";
static bool legal(const std::string& n)
{
    return !n.empty() && n[0] != '.' && n.find('/') == std::string::npos && n.find('\0') == std::string::npos;
}
// What the stored name denotes independent of letter case and of the bits that its last letter leaves unused.
static std::string canon(const std::string& stored)
{
    std::string raw;
    return x_b32_decode(stored, raw) ? raw : "\x01" + stored;
}
static std::vector<std::string> split(const std::string& p)
{
    std::vector<std::string> r;
    std::string cur;
    for (char ch : p + "/")
        if (ch == '/')
        {
            if (!cur.empty())
                r.push_back(cur);
            cur.clear();
        }
        else
            cur.push_back(ch);
    return r;
}
// The documented stored form of a name.
static std::string expect_stored(const std::string& key, unsigned threshold, const std::string& suffix, const std::string& n)
{
    if (!threshold || n.size() <= threshold)
        return x_b32_encode(x_siv_encrypt(key, n));
    return x_b32_encode(x_siv_encrypt(key, x_blake2b(key, n, 32))) + (suffix.empty() ? "..." : suffix);
}
struct Style
{
    unsigned threshold = 0;
    std::string suffix;
    key_type key;
    std::string text() const
    {
        return threshold ? "threshold " + str(threshold) + " suffix " + q(suffix) : std::string("names of format version 4.0");
    }
};
static Style gen_style(Src& s)
{
    Style y;
    y.threshold = s.pick({128u, 0u, 1u, 16u, 60u, 127u, 143u, 144u, 200u, 255u});
    if (y.threshold)
        y.suffix = s.pick({".ll", "", "...", ".x", "-long", "\xC3\xA4", "_"});
    y.key = gen_key(s.below(1000));
    return y;
}
static void names(Ctx& c)
{
    Src& s = c.s;
    Style y = gen_style(s);
    auto t1 = translator(y.key, y.threshold, y.suffix), t2 = translator(y.key, y.threshold, y.suffix);
    key_type other_key = gen_key(1000 + s.below(1000));
    if (s.coin())
    {
        other_key = y.key;
        // (keys that share the first half derive the same synthetic nonce, by definition of SIV)
        other_key.data()[s.below(16)] ^= (unsigned char)(1 << s.below(8));
    }
    auto t3 = translator(other_key, y.threshold, y.suffix);
    std::string ks = key_text(y.key);
    auto bad = [&](const std::string& t) { fail("[" + y.text() + "] " + t); };
    c.step(y.text());
    size_t max = y.threshold ? 3000 : 2000;
    std::map<std::string, std::string> seen;    // stored -> name
    std::vector<std::string> pool;
    unsigned most = t1->max_virtual_path_component_size(255);
    int done = 0;
    for (int n = 1 + (int)s.below(16); n > 0; --n)
    {
        std::vector<std::string> comps;
        for (int k = 1 + (int)s.below(4); k > 0; --k)
        {
            std::string x = !pool.empty() && s.chance(1, 3) ? relative(s, s.pick(pool)) : !pool.empty() && s.chance(1, 5) ? s.pick(pool) : gen_comp(s, y.threshold, max);
            if (x.empty() || x == "." || x == "..")
                x = "x";
            if (x.size() > max)
                x.resize(max);
            comps.push_back(x);
            pool.push_back(x);
        }
        std::string path, last1, last2;
        for (auto& x : comps)
            path += "/" + x;
        c.step(q(path) + " (" + str(comps.back().size()) + ")");
        std::string e1 = t1->encrypt_full_path(path, &last1);
        std::string e2 = (s.coin() ? t1 : t2)->encrypt_full_path(path, nullptr);
        if (e1 != e2)
            bad("the stored path of " + q(path) + " differs from call to call");
        auto st = split(e1);
        if (!st.empty() && st[0] == ".")
            st.erase(st.begin());
        if (st.size() != comps.size())
            bad("a path of " + str(comps.size()) + " components is stored as " + str(st.size()));
        if (e1[0] == '/')
            bad("the stored path is absolute");
        auto o = split(t3->encrypt_full_path(path, nullptr));
        if (!o.empty() && o[0] == ".")
            o.erase(o.begin());
        for (size_t i = 0; i < comps.size(); ++i)
        {
            const std::string &v = comps[i], &p = st[i];
            bool is_long = y.threshold && v.size() > y.threshold;
            ++done;
            if (p != expect_stored(ks, y.threshold, y.suffix, v))
                bad("the name " + q(v) + " (" + str(v.size()) + " bytes) is stored as " + q(p) + ", the documented form is "
                    + q(expect_stored(ks, y.threshold, y.suffix, v)));
            if (!legal(p))
                bad("the name " + q(v) + " is stored as the illegal name " + q(p));
            if (v.size() <= most && p.size() > 255)
                bad("a name of " + str(v.size()) + " bytes (" + str(most) + " are promised) is stored as one of " + str(p.size()));
            auto it = seen.emplace(p, v).first;
            if (it->second != v)
                bad("the names " + q(v) + " and " + q(it->second) + " are stored as the same " + q(p));
            if (p == v || (v.size() >= 4 && p.find(v) != std::string::npos))
                bad("the name " + q(v) + " is readable in " + q(p));
            if (i < o.size() && o[i] == p)
                bad("the name " + q(v) + " is stored alike under another key");
            auto d = (s.coin() ? t1 : t2)->decrypt_path_component(p);
            if (is_long)
            {
                if (!std::holds_alternative<LongNameTag>(d))
                    bad("the stored long name " + q(p) + " is not recognised as one");
            }
            else if (!std::holds_alternative<std::string>(d) || std::get<std::string>(d) != v)
                bad("the stored name of " + q(v) + " decodes to " + (std::holds_alternative<std::string>(d) ? q(std::get<std::string>(d)) : "nothing"));
            try
            {
                auto w = t3->decrypt_path_component(p);
                if (std::holds_alternative<std::string>(w))
                    bad("a stored name decodes under another key, to " + q(std::get<std::string>(w)));
            }
            catch (const std::exception&)
            {
            }
        }
        bool last_long = y.threshold && comps.back().size() > y.threshold;
        if (last_long)
        {
            auto d = t1->decrypt_path_component(last1);
            if (!std::holds_alternative<std::string>(d) || std::get<std::string>(d) != comps.back())
                bad("the full encrypted form of the long name " + q(comps.back()) + " does not decode to it");
        }
        else if (!last1.empty())
            bad("the short name " + q(comps.back()) + " is given a long form");
        if (std::string(NameTranslator::get_last_component(e1)) != st.back()
            || std::string(NameTranslator::remove_last_component(e1)) + st.back() != e1)
            bad("the last component of " + q(e1) + " is taken wrongly");
        // An altered stored name.
        for (int k = (int)s.below(4); k > 0; --k)
        {
            std::string src = s.pick(st), m = src;
            switch (s.below(8))
            {
            case 0:
                m[s.below(m.size())] = ALPHA[s.below(32)];
                break;
            case 1:
                m.resize(s.below(m.size()));
                break;
            case 2:
                m += std::string(1 + s.below(3), ALPHA[s.below(56)]);
                break;
            case 3:    // two names joined
            {
                std::string z = std::next(seen.begin(), (long)s.below(seen.size()))->first;
                size_t cut = s.below(std::min(m.size(), z.size()) + 1);
                m = m.substr(0, cut) + z.substr(cut);
                break;
            }
            case 4:
                m[s.below(m.size())] = (char)(1 + s.below(255));
                break;
            case 5:
            {
                size_t l = s.below(300);
                m.clear();
                for (size_t i = 0; i < l; ++i)
                    m.push_back(ALPHA[s.below(56)]);
                break;
            }
            case 6:
                m = s.pick({"", "A", "README.txt", "a.b", "........", "desktop.ini", "AAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAA"});
                break;
            default:
                std::swap(m[s.below(m.size())], m[s.below(m.size())]);
            }
            std::string got;
            try
            {
                auto d = t1->decrypt_path_component(m);
                if (!std::holds_alternative<std::string>(d))
                    continue;
                got = std::get<std::string>(d);
            }
            catch (const std::exception&)
            {
                continue;
            }
            if (x_b32_encode(x_siv_encrypt(ks, got)) != x_b32_encode(canon(m)))
                bad("the malformed stored name " + q(m) + " (from " + q(src) + ") decodes to " + q(got));
        }
    }
    c.label(y.threshold ? "new style" : "4.0 style");
    c.nontrivial = done >= 3;
}
static std::string gen_target(Src& s)
{
    size_t n;
    switch (s.weighted({3, 4, 2, 2}))
    {
    case 0:
        n = 1 + s.below(20);
        break;
    case 1:    // around the group size of the stored form
        n = (size_t)std::max<int64_t>(1, (int64_t)(60 * (1 + s.below(6))) - 16 + s.range(-2, 2));
        break;
    case 2:
        n = 1 + s.below(2400);
        break;
    default:
        return s.pick({"/", "//", ".", "..", "a/", "/a", "a//b", "/a/", "../../x/./y", "///", "\n", "\xFF\xFE", "/.", "./"});
    }
    std::string r(n, 'a');
    switch (s.below(4))
    {
    case 0:
        break;
    case 1:
        for (size_t i = 0; i < n; ++i)
            r[i] = i % (3 + s.below(9)) == 2 ? '/' : (char)('a' + i % 26);
        break;
    default:
    {
        Rng g{s.below(1u << 24)};
        for (auto& ch : r)
            do
                ch = (char)g.next();
            while (ch == 0);
    }
    }
    return r;
}
static void targets(Ctx& c)
{
    Src& s = c.s;
    Style y = gen_style(s);
    auto t1 = translator(y.key, y.threshold, y.suffix), t2 = translator(y.key, y.threshold, y.suffix);
    key_type ok = y.key;
    ok.data()[s.below(16)] ^= (unsigned char)(1 << s.below(8));
    auto t3 = translator(ok, y.threshold, y.suffix);
    auto bad = [&](const std::string& t) { fail("[" + y.text() + "] " + t); };
    c.step(y.text());
    std::map<std::string, std::string> seen;
    std::vector<std::string> all;
    int done = 0;
    for (int n = 1 + (int)s.below(12); n > 0; --n)
    {
        std::string v = gen_target(s);
        c.step("target " + q(v) + " (" + str(v.size()) + ")");
        std::string e;
        try
        {
            e = t1->encrypt_path_for_symlink(v);
        }
        catch (const std::exception&)
        {
            // A component beyond what the old style can hold.
            size_t longest = 0;
            for (auto& x : split(v))
                longest = std::max(longest, x.size());
            if (y.threshold || longest <= 2000)
                bad("the link target " + q(v) + " of " + str(v.size()) + " bytes is refused");
            continue;
        }
        ++done;
        if (e != t2->encrypt_path_for_symlink(v))
            bad("the stored target of " + q(v) + " differs from call to call");
        if (e.find('\0') != std::string::npos)
            bad("the stored target holds a NUL");
        for (auto& x : split(e))
            if (y.threshold && x.size() > 255)
                bad("the stored target has a component of " + str(x.size()) + " bytes");
        auto it = seen.emplace(e, v).first;
        if (it->second != v)
            bad("the targets " + q(v) + " and " + q(it->second) + " are stored alike");
        if (v.size() >= 6 && v.find_first_not_of('/') != std::string::npos && e.find(v) != std::string::npos)
            bad("the target " + q(v) + " is readable in its stored form");
        std::string d = t2->decrypt_path_from_symlink(e);
        if (d != v)
            bad("the target " + q(v) + " of " + str(v.size()) + " bytes comes back as " + q(d) + " of " + str(d.size()));
        bool only_slashes = v.find_first_not_of('/') == std::string::npos;
        if (y.threshold || !only_slashes)
        {
            if (t3->encrypt_path_for_symlink(v) == e)
                bad("the target " + q(v) + " is stored alike under another key");
            try
            {
                std::string w = t3->decrypt_path_from_symlink(e);
                if (!w.empty())
                    bad("a stored target decodes under another key, to " + q(w));
            }
            catch (const std::exception&)
            {
            }
        }
        all.push_back(e);
        for (int k = (int)s.below(4); k > 0; --k)
        {
            std::string m = e;
            switch (s.below(5))
            {
            case 0:
                m[s.below(m.size())] = ALPHA[s.below(32)];
                break;
            case 1:
                m.resize(s.below(m.size()));
                break;
            case 2:
                m += std::string(1 + s.below(3), ALPHA[s.below(32)]);
                break;
            case 3:
                m[s.below(m.size())] = (char)(1 + s.below(255));
                break;
            default:
            {
                std::string z = s.pick(all);
                size_t cut = s.below(std::min(m.size(), z.size()) + 1);
                m = m.substr(0, cut) + z.substr(cut);
            }
            }
            std::string got;
            try
            {
                got = t1->decrypt_path_from_symlink(m);
            }
            catch (const std::exception&)
            {
                continue;
            }
            if (got.empty())
                continue;
            // Unused bits, letter case and separators carry nothing (new style); single components are sealed (old style).
            std::string re = t1->encrypt_path_for_symlink(got), a, b;
            auto flat = [&](const std::string& x)
            {
                std::string r;
                if (y.threshold)
                {
                    std::string tmp;
                    for (char ch : x)
                        if (ch != '/')
                            tmp.push_back(ch);
                    return canon(tmp);
                }
                for (auto& part : split(x))
                    r += "/" + (part == "." ? std::string(".") : canon(part));
                return r;
            };
            // The separators of the old style are not sealed.
            if (flat(re) != flat(m) && !(!y.threshold && split(got).empty() && (m == "." || split(m).empty())))
                bad("the malformed stored target " + q(m) + " (" + str(m.size()) + ") decodes to " + q(got));
        }
    }
    c.nontrivial = done >= 2;
}
static std::string ls_text(const std::vector<DirEnt>& l)
{
    std::vector<std::string> v;
    for (auto& e : l)
        v.push_back(q(e.name));
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto& x : v)
        r += x + " ";
    return r;
}
// The same through a mount, with foreign names in the backing directory.
static void mounted(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, false);
    cf.plain = cf.fold = cf.nfc = false;
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    LiteReader lr(store, cf);
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    c.step(cf.text());
    struct statvfs sv;
    VREQ(!m.statfs("/", sv), "statfs failed");
    std::string dir = s.coin() ? "" : "/d";
    if (!dir.empty())
        VREQ(!m.mkdir(dir, 0755), "mkdir failed");
    std::string pdir = dir.empty() ? store : store + "/" + lr.enc_name("d");
    std::map<std::string, std::string> want;    // name -> "" file, "/" dir, or target
    std::vector<std::string> foreign;
    unsigned thr = cf.threshold.value_or(0);
    int did = 0;
    auto check = [&](const std::string& when)
    {
        std::vector<DirEnt> l;
        int r = m.ls(dir.empty() ? "/" : dir, l);
        if (r)
            bad(when + ": listing returned " + std::to_string(r));
        std::vector<DirEnt> w;
        for (auto& x : want)
            w.push_back({x.first, {}});
        if (ls_text(l) != ls_text(w))
            bad(when + " (with " + str(foreign.size()) + " foreign names): the listing is " + ls_text(l) + "instead of " + ls_text(w));
        for (auto& x : want)
        {
            struct stat st;
            std::string p = dir + "/" + x.first, v;
            r = m.getattr(p, st);
            if (r)
                bad(when + ": getattr of " + q(p) + " returned " + std::to_string(r));
            if (x.second.empty() || x.second == "\x01")
                continue;
            if ((uint64_t)st.st_size != x.second.size())
                bad(when + ": the link to " + str(x.second.size()) + " bytes has the size " + str((uint64_t)st.st_size));
            size_t bs = s.pick({(size_t)4097, x.second.size() + 1, x.second.size() + 2, (size_t)1 + s.below(x.second.size() + 1)});
            r = m.readlink(p, v, bs);
            std::string e = x.second.substr(0, std::min(x.second.size(), bs ? bs - 1 : 0));
            // libfuse always offers 4097 bytes; with less the result may be cut further or refused.
            if (bs < 4097 ? r >= 0 && e.compare(0, v.size(), v) != 0 : (r || v != e))
                bad(when + ": readlink with a buffer of " + str(bs) + " returned " + std::to_string(r) + " and " + q(v) + " (" + str(v.size()) + "), expected "
                    + q(e) + " (" + str(e.size()) + ")");
        }
    };
    for (int n = 1 + (int)s.below(14); n > 0; --n)
    {
        size_t what = s.weighted({4, 2, 4, 3, 2, 1});
        std::string name = gen_comp(s, thr, 400);
        if (name == "." || name == ".." || (dir.empty() && name == "d"))
            name = "x" + name;
        std::string p = dir + "/" + name;
        bool fits = name.size() <= sv.f_namemax, exists = want.count(name) != 0;
        int e = exists ? -EEXIST : fits ? 0 : -ENAMETOOLONG;
        if (what <= 2)
        {
            int r;
            std::string t;
            if (what == 0)
            {
                fuse_file_info fi{};
                fi.flags = O_CREAT | O_EXCL | O_RDWR;
                r = m.create(p, S_IFREG | 0644, fi);
                if (!r)
                    m.release(p, fi);
            }
            else if (what == 1)
            {
                r = m.mkdir(p, 0755);
                t = "\x01";
            }
            else
            {
                t = gen_target(s);
                r = m.symlink(t, p);
                if (r == -ENAMETOOLONG && fits)
                {
                    // Legitimate where the stored form exceeds what the system can hold.
                    size_t stored = t.size() * 8 / 5;
                    if (thr)
                        stored = (t.size() + 16) * 8 / 5 + t.size() / 60 + 2;
                    else
                        for (auto& x : split(t))
                            stored += 28 + x.size() / 100;
                    size_t longest = 0;
                    for (auto& x : split(t))
                        longest = std::max(longest, x.size());
                    if (stored < 4000 && (thr || longest <= 2000))
                        bad("the link target of " + str(t.size()) + " bytes is refused as too long");
                    c.step("target too long");
                    continue;
                }
            }
            c.step(std::string(what == 0 ? "create " : what == 1 ? "mkdir " : "symlink ") + q(name) + " (" + str(name.size()) + ")");
            if (r != e)
                bad("making " + q(name) + " of " + str(name.size()) + " bytes returned " + std::to_string(r) + ", expected " + std::to_string(e));
            if (!r)
            {
                want[name] = t;
                ++did;
                struct stat st;
                if (lstat((pdir + "/" + lr.enc_name(name)).c_str(), &st))
                    bad("the name " + q(name) + " is not stored under its encrypted form");
            }
        }
        else if (what == 3)
        {
            // A foreign name in the backing directory: not made by this repository under this key.
            std::string x;
            switch (s.below(6))
            {
            case 0:
                x = s.pick({"README.txt", "desktop.ini", "Thumbs.db", "a", "AAAA", "lost+found", "...", "x...", "~lock", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"});
                break;
            case 1:
            {
                size_t l = 1 + s.below(100);
                for (size_t i = 0; i < l; ++i)
                    x.push_back(ALPHA[s.below(32)]);
                break;
            }
            case 2:    // under another key
                x = x_b32_encode(x_siv_encrypt(key_text(gen_key(s.below(100))), gen_comp(s, thr, 60)));
                break;
            case 3:    // a hash without an entry in the table
                x = x_b32_encode(x_siv_encrypt(lr.k.name, s.bytes(32))) + (lr.suffix.empty() ? "..." : lr.suffix);
                if (!thr)
                    x = "zz";
                break;
            case 4:    // a true name, altered in a letter
                x = lr.enc_name(gen_comp(s, thr, 60));
                {
                    size_t i = s.below(x.size() - 1);
                    x[i] = x[i] == 'A' ? 'B' : 'A';
                }
                break;
            default:
                x = x_b32_encode(x_siv_encrypt(lr.k.name, gen_comp(s, thr, 40)) + "\x01");
            }
            struct stat fst;
            if (x.size() > 255 || !lstat((pdir + "/" + x).c_str(), &fst))
                continue;
            c.step("foreign name " + q(x));
            if (s.coin())
                write_file(pdir + "/" + x, "foreign");
            else
                ::mkdir((pdir + "/" + x).c_str(), 0755);
            foreign.push_back(x);
        }
        else if (what == 4)
        {
            c.step("remount");
            m.open(store, cf);
        }
        else
            check("in between");
    }
    check("at the end");
    c.label("foreign names", foreign.size());
    c.nontrivial = did >= 2;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S07";
    p.rule = "A case draws a name style (old, or new with a threshold 1 to 255 and a suffix), a key and up to 16 paths of up to 4 components of 1 to "
             "3000 arbitrary bytes, many of them close relatives of each other, or up to 12 link targets of 1 to 2400 bytes, and compares the stored "
             "form with an independent encoder, decodes it, decodes it under a related key, and decodes altered forms; or makes such names and links "
             "through a mount whose backing directory also holds foreign names. Non-trivial: at least 3 names, 2 targets or 2 objects; distinct by "
             "choice sequence.";
    p.assumptions = {"a stored name that differs only in letter case, or in the bits its last letter leaves unused, denotes the same name",
                     "names within the length the mount reports as its maximum (statfs); the long-name suffix contains a character outside base32",
                     "a stored link target of the old style is sealed per component, as documented"};
    p.quick_cases = 70000;
    p.thorough_cases = 500000;
    p.tests = {{"names", names, 4}, {"targets", targets, 3}, {"mounted", mounted, 4}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
