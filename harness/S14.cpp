// S14: repositories of earlier releases read as known, and everything written now is readable by an
// independent decoder of the documented formats.
#include "decode.h"
#include "fsmodel.h"
#include "nameclasses.h"
#include "params_io.h"
#include "streams.h"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;

static std::string repo()
{
    const char* r = getenv("VERIF_REPO");
    return r ? r : "/repo";
}
static void compare_xattr(Hist& h, const std::string& path, const std::map<std::string, std::string>& got)
{
    auto& want = h.nodes[h.lookup(path)].xattr;
    if (got != want)
        h.bad("the independent reader finds " + str(got.size()) + " extended attributes at " + q(path) + ", expected " + str(want.size())
              + " with the values last set");
}
static void check_lite(Ctx& c, Hist& h)
{
    h.close_all();
    std::string want = dump_of(h.m);
    h.m.close();
    try
    {
        LiteReader r(h.store, h.cfg);
        auto t = r.walk();
        if (dump_of(t) != want)
            h.bad("the independent reader of the lite format sees\n" + dump_of(t) + "\nbut the mount shows\n" + want);
        for (auto& x : t)
        {
            int id = h.lookup(x.first);
            if (id < 0)
                h.bad("the backing store holds " + q(x.first) + " which does not exist");
            if (x.second.type != 'l' && h.o.w_xattr)
                compare_xattr(h, x.first, x.second.xattr);
        }
        c.label("lite objects decoded", t.size());
    }
    catch (DecodeError& e)
    {
        h.bad(std::string("the independent reader of the lite format fails: ") + e.what());
    }
}
static void check_full(Ctx& c, Hist& h)
{
    h.close_all();
    std::string want = dump_of(h.m);
    h.m.close();
    try
    {
        FullReader r(h.store, h.cfg);
        auto t = r.walk(x_name_cmp(h.cfg.ci, h.cfg.un));
        if (dump_of(t) != want)
            h.bad("the independent reader of the full format sees\n" + dump_of(t) + "\nbut the mount shows\n" + want);
        for (auto& x : t)
        {
            int id = x.first == "/" ? 0 : h.lookup(x.first);
            if (id < 0)
                h.bad("the backing store holds " + q(x.first) + " which does not exist");
            auto& n = h.nodes[id];
            auto& f = x.second.obj.flags;
            if (h.o.attrs && id)
            {
                if ((f[0] & 07777) != n.mode && n.type != 'l')
                    h.bad(q(x.first) + " is stored with mode " + str(f[0]) + ", expected permission bits " + str(n.mode));
                if (n.type == 'f' && (int)f[3] != n.nlink)
                    h.bad(q(x.first) + " is stored with link count " + str(f[3]) + ", expected " + str((uint64_t)n.nlink));
                if (h.cfg.store_time && n.mtime_set && (x.second.obj.mt.sec != (uint64_t)n.mtime.tv_sec || x.second.obj.mt.nsec != (uint32_t)n.mtime.tv_nsec))
                    h.bad(q(x.first) + " is stored with modification time " + str(x.second.obj.mt.sec) + ", expected " + str((uint64_t)n.mtime.tv_sec));
            }
            if (h.o.w_xattr && n.type != 'l')
                compare_xattr(h, x.first, x.second.obj.xattr);
        }
        c.label("full objects decoded", t.size());
    }
    catch (DecodeError& e)
    {
        h.bad(std::string("the independent reader of the full format fails: ") + e.what());
    }
}
static HistOpts opts(Src& s)
{
    HistOpts o;
    o.w_verify = 0;
    o.w_write = 9;
    o.w_xattr = s.coin() ? 4 : 0;
    o.max_ops = 30;
    o.names = 6;
    o.want_nontrivial = 6;
    return o;
}
static void lite(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    Hist h(c, cf, opts(c.s));
    h.run();
    check_lite(c, h);
}
static void full(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    HistOpts o = opts(c.s);
    o.attrs = true;
    o.w_chmod = 3;
    o.w_utimens = 3;
    Hist h(c, cf, o);
    h.run();
    check_full(c, h);
}
static void full_names(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.ci = c.s.coin();
    cf.un = !cf.ci || c.s.coin();
    HistOpts o;
    o.w_verify = 0;
    o.w_symlink = 0;
    o.max_ops = 40;
    o.want_nontrivial = 6;
    Hist h(c, cf, o);
    h.keyof = [=](const std::string& s) { return spelling_key(s, cf.ci, cf.un); };
    for (size_t i = 0; i < 14; ++i)
        h.pool.push_back(c.s.pick(spellings()).text);
    h.run();
    check_full(c, h);
}
// A directory with many entries spans many index pages.
static void full_wide(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    HistOpts o;
    o.max_ops = 150;
    o.max_depth = 1;
    o.w_create = 25;
    o.w_unlink = 9;
    o.w_write = 0;
    o.w_verify = 0;
    o.w_symlink = 0;
    o.names = 90;
    o.want_nontrivial = 40;
    Hist h(c, cf, o);
    h.run();
    check_full(c, h);
}

// ---- reference repositories
struct Ref
{
    std::string dir, plain;
    bool plain_names = false;
    struct Conf
    {
        std::string file;
        bool pass, key;
    };
    std::vector<Conf> confs;
};
static std::vector<Ref> refs()
{
    std::vector<Ref> r;
    std::string base = repo() + "/test/reference/";
    auto scan = [&](const std::string& d, const std::string& plain, const std::string& conf_dir, bool pn)
    {
        Ref x;
        x.dir = base + d;
        x.plain = base + plain;
        x.plain_names = pn;
        DIR* dd = opendir((base + conf_dir).c_str());
        if (!dd)
            return;
        while (auto e = readdir(dd))
        {
            std::string n = e->d_name;
            if (n.rfind(".securefs.", 0) == 0 || n.rfind(".config.", 0) == 0)
                x.confs.push_back({base + conf_dir + "/" + n, n.find("PASSWORD") != std::string::npos, n.find("KEYFILE") != std::string::npos});
        }
        closedir(dd);
        std::sort(x.confs.begin(), x.confs.end(), [](auto& a, auto& b) { return a.file < b.file; });
        if (!x.confs.empty())
            r.push_back(x);
    };
    for (const char* d : {"1", "2", "3", "4", "1-padded", "2-padded", "3-padded", "4-padded"})
        scan(d, "plain", d, false);
    scan("4-plain-text-names", "plain", "4", true);
    for (const char* d : {"new-lite", "new-full", "new-lite-padded", "new-full-padded"})
        scan(d, "new-plain", d, false);
    return r;
}
static void copy_tree(const std::string& a, const std::string& b)
{
    make_dir(b);
    DIR* d = opendir(a.c_str());
    if (!d)
        return;
    while (auto e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat st;
        lstat((a + "/" + n).c_str(), &st);
        if (S_ISDIR(st.st_mode))
            copy_tree(a + "/" + n, b + "/" + n);
        else if (S_ISLNK(st.st_mode))
        {
            char t[8192];
            ssize_t k = readlink((a + "/" + n).c_str(), t, sizeof t - 1);
            t[std::max<ssize_t>(0, k)] = 0;
            if (symlink(t, (b + "/" + n).c_str()))
                ;
        }
        else
            write_file(b + "/" + n, read_file(a + "/" + n));
    }
    closedir(d);
}
using Tree = std::map<std::string, std::pair<char, std::string>>;
static void plain_tree(const std::string& d, const std::string& v, Tree& t)
{
    DIR* dd = opendir(d.c_str());
    if (!dd)
        return;
    while (auto e = readdir(dd))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat st;
        lstat((d + "/" + n).c_str(), &st);
        if (S_ISDIR(st.st_mode))
        {
            t[v + "/" + n] = {'d', ""};
            plain_tree(d + "/" + n, v + "/" + n, t);
        }
        else
            t[v + "/" + n] = {'f', read_file(d + "/" + n)};
    }
    closedir(dd);
}
static std::string text_of(const Tree& t)
{
    std::set<std::string> r;
    for (auto& x : t)
        r.insert(x.second.first == 'd' ? x.first + " dir\n" : x.first + " file " + str(x.second.second.size()) + " " + hex(x.second.second, 1 << 20) + "\n");
    std::string o;
    for (auto& l : r)
        o += l;
    return o;
}
static std::map<std::string, securefs::DecryptedSecurefsParams>& opened()
{
    static std::map<std::string, securefs::DecryptedSecurefsParams> m;
    return m;
}
static void reference(Ctx& c)
{
    static std::vector<Ref> all = refs();
    VREQ(all.size() == 13, "only " + str(all.size()) + " reference repositories found");
    Src& s = c.s;
    const Ref& r = all[s.below(all.size())];
    const Ref::Conf& cf = r.confs[s.below(r.confs.size())];
    std::string base = repo() + "/test/reference/", kf = read_file(base + "keyfile"), pw = cf.pass ? "abc" : " ";
    c.step(cf.file + " for " + r.dir);
    securefs::DecryptedSecurefsParams p;
    auto it = opened().find(cf.file);
    if (it != opened().end())
        p = it->second;
    else
    {
        std::string bytes = read_file(cf.file);
        securefs::OSService os(base);
        auto ks = cf.key ? os.open_file_stream("keyfile", O_RDONLY, 0) : nullptr;
        try
        {
            p = securefs::decrypt(bytes, absl::MakeConstSpan((const unsigned char*)pw.data(), pw.size()), ks.get());
        }
        catch (std::exception& e)
        {
            fail("opening " + cf.file + " failed: " + e.what());
        }
        RawParams rp;
        std::string kfs = kf;
        if (!x_config_open(bytes, pw, cf.key ? &kfs : nullptr, rp))
            fail("the independent reader cannot open " + cf.file);
        if (rp.text() != raw_of(p).text())
            fail(cf.file + " opens as " + raw_of(p).text() + ", expected " + rp.text());
        opened()[cf.file] = p;
    }
    std::string store = c.dir + "/store";
    copy_tree(r.dir, store);
    Tree want;
    plain_tree(r.plain, "", want);
    VREQ(want.size() >= 6, "reference contents missing");
    if (r.plain_names)
        for (auto i = want.begin(); i != want.end();)
            i = i->first.find("/.") != std::string::npos ? want.erase(i) : std::next(i);
    securefs::MountOptions mo;
    mo.set_enable_xattr(true);
    mo.set_plain_text_names(r.plain_names);
    Mount m;
    auto reopen = [&]
    {
        try
        {
            m.open(store, p, mo);
        }
        catch (std::exception& e)
        {
            fail("mounting " + r.dir + " failed: " + e.what());
        }
    };
    reopen();
    std::string got = dump_of(m);
    if (got != text_of(want))
        fail("mounting " + r.dir + " with " + cf.file + " shows\n" + got + "\nexpected\n" + text_of(want));
    // Partial reads.
    std::vector<std::string> files, dirs = {""};
    auto relist = [&]
    {
        files.clear();
        dirs = {""};
        for (auto& x : want)
            (x.second.first == 'd' ? dirs : files).push_back(x.first);
    };
    relist();
    int muts = 0;
    for (int n = (int)s.below(25); n > 0; --n)
    {
        relist();
        const std::string f = files.empty() ? "" : s.pick(files);
        int r_;
        auto ok = [&](const std::string& w, int rc)
        {
            if (rc < 0)
                fail("[" + r.dir + "] " + w + " returned " + std::to_string(rc));
        };
        std::string d = s.pick(dirs);
        switch (s.weighted({6, 4, 2, 2, 2, 1}))
        {
        case 0:
        {
            if (f.empty())
                break;
            std::string& w = want[f].second;
            fuse_file_info fi;
            ok("open " + f, m.open(f, O_RDONLY, fi));
            size_t off = s.below(w.size() + 2), len = 1 + s.below(6000);
            std::string v;
            c.step("read " + f + " " + str(off) + "+" + str(len));
            ok("read " + f, m.read(f, v, len, (off_t)off, fi));
            ok("release", m.release(f, fi));
            if (v != (off < w.size() ? w.substr(off, len) : ""))
                fail("[" + r.dir + "] reading " + f + " at " + str(off) + " gave other bytes than stored");
            break;
        }
        case 1:
        {
            if (f.empty())
                break;
            std::string& w = want[f].second;
            fuse_file_info fi;
            ok("open " + f, m.open(f, O_RDWR, fi));
            size_t off = s.below(w.size() + 3000);
            std::string v = s.bytes(1 + s.below(5000));
            c.step("write " + f + " " + str(off) + "+" + str(v.size()));
            r_ = m.write(f, v, (off_t)off, fi);
            if (r_ != (int)v.size())
                fail("write to " + f + " returned " + std::to_string(r_));
            ok("release", m.release(f, fi));
            if (w.size() < off + v.size())
                w.resize(off + v.size(), '\0');
            w.replace(off, v.size(), v);
            ++muts;
            break;
        }
        case 2:
        {
            if (f.empty())
                break;
            c.step("unlink " + f);
            ok("unlink " + f, m.unlink(f));
            want.erase(f);
            ++muts;
            break;
        }
        case 3:
        {
            std::string p2 = d + "/" + std::string(1 + s.below(3), 'n') + (s.chance(1, 4) ? std::string(100, 'x') : "");
            if (want.count(p2))
                break;
            bool dir = s.chance(1, 3);
            std::string v = s.bytes(s.below(5000));
            c.step((dir ? "mkdir " : "create ") + p2);
            ok("create " + p2, dir ? m.mkdir(p2, 0755) : m.put(p2, v));
            want[p2] = {dir ? 'd' : 'f', dir ? "" : v};
            ++muts;
            break;
        }
        case 4:
        {
            if (f.empty())
                break;
            std::string p2 = d + "/ren" + str(s.below(5));
            if (want.count(p2) && want[p2].first == 'd')
                break;
            c.step("rename " + f + " " + p2);
            ok("rename " + f, m.rename(f, p2));
            auto v = want[f];
            want.erase(f);
            want[p2] = v;
            ++muts;
            break;
        }
        default:
            c.step("remount");
            reopen();
        }
    }
    got = dump_of(m);
    if (got != text_of(want))
        fail("[" + r.dir + "] after changes the mount shows\n" + got + "\nexpected\n" + text_of(want));
    m.close();
    std::string seen;
    try
    {
        if (p.has_full_format_params())
            seen = dump_of(FullReader(store, p).walk(x_name_cmp(p.full_format_params().case_insensitive(), p.full_format_params().unicode_normalization_agnostic())));
        else
            seen = dump_of(LiteReader(store, p, r.plain_names).walk());
    }
    catch (DecodeError& e)
    {
        fail("[" + r.dir + "] the independent reader fails: " + e.what());
    }
    if (seen != text_of(want))
        fail("[" + r.dir + "] the independent reader sees\n" + seen + "\nexpected\n" + text_of(want));
    c.nontrivial = true;
    c.label("changes to reference repositories", (uint64_t)muts);
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S14";
    p.rule = "A case is either a random history (tree calls, writes, attributes, remounts) on a new repository of random settings, whose "
             "backing store is then decoded by an independent reader (own AES-SIV, GCM, HKDF, base32, B-tree and SQLite code paths) and "
             "compared with the mount and the model; or one of the 13 reference repositories opened through one of its configs, compared "
             "with its known contents, read in parts, changed, and decoded independently. Non-trivial: at least 6 (wide: 40) changes, or "
             "a reference repository; distinct by choice sequence.";
    p.quick_cases = 7000;
    p.thorough_cases = 150000;
    p.tests = {{"lite", lite, 5}, {"full", full, 5}, {"full_names", full_names, 2}, {"full_wide", full_wide, 2}, {"reference", reference, 2}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
