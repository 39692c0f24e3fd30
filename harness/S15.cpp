// S15: extended attributes behave as an encrypted map per file.
#include "decode.h"
#include "fsmodel.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
using namespace vp;
static void tree(Ctx& c)
{
    FsConfig cf = gen_config(c.s, c.s.coin());
    HistOpts o;
    o.w_xattr = 30;
    o.w_write = o.w_trunc = o.w_read = 1;
    o.w_remount = 2;
    Hist h(c, cf, o);
    h.run();
}
static std::string gen_name(Src& s)
{
    switch (s.weighted({6, 2, 1, 1}))
    {
    case 0:
        return s.pick({"user.a", "user.b", "user.mime_type", "user.\xC3\xA4", "user.A"});
    case 1:
        return "user." + std::string(1 + s.below(165), (char)('a' + s.below(3)));
    case 2:
        return s.pick({"security.selinux", "system.posix_acl_access", "trusted.x", "com.apple.FinderInfo", "x"});
    default:
    {
        std::string r = "user.";
        size_t n = 1 + s.below(20);
        for (size_t i = 0; i < n; ++i)
            r.push_back((char)(1 + s.below(255)));
        return r;
    }
    }
}
// One or two objects, many attributes of all sizes.
static void dense(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, s.coin());
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    std::vector<std::string> objs = {"/f", "/d", "/d/g"};
    VREQ(!m.put("/f", "content") && !m.mkdir("/d", 0755) && !m.put("/d/g", "x"), "setup failed");
    std::map<std::string, std::map<std::string, std::string>> want;
    c.step(cf.text());
    int did = 0;
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    auto check = [&](const std::string& when)
    {
        for (auto& p : objs)
        {
            auto& w = want[p];
            std::vector<std::string> l;
            int r = m.listxattr(p, l, 0);
            size_t need = 0;
            for (auto& x : w)
                need += x.first.size() + 1;
            if (r < (int)need)
                bad(when + ": listxattr size of " + p + " is " + std::to_string(r) + ", the names need " + str(need));
            if (r)
            {
                int r2 = m.listxattr(p, l, (size_t)r + s.below(30));
                if (r2 != (int)need)
                    bad(when + ": listxattr of " + p + " returned " + std::to_string(r2) + ", expected " + str(need));
                std::set<std::string> got(l.begin(), l.end()), ws;
                for (auto& x : w)
                    ws.insert(x.first);
                if (got != ws || l.size() != ws.size())
                    bad(when + ": listxattr of " + p + " lists the wrong names");
                if (need > 1)
                {
                    r2 = m.listxattr(p, l, 1 + s.below(need - 1));
                    if (r2 != -ERANGE)
                        bad(when + ": listxattr into too small a buffer returned " + std::to_string(r2));
                }
            }
            for (auto& x : w)
            {
                std::string v;
                r = m.getxattr(p, x.first, v, 0);
                if (r != (int)x.second.size())
                    bad(when + ": the size of " + q(x.first) + " of " + p + " is " + std::to_string(r) + ", expected " + str(x.second.size()));
                size_t buf = std::max<size_t>(1, x.second.size() + s.pick({0u, 1u, 28u, 60000u}));
                r = m.getxattr(p, x.first, v, buf);
                if (r != (int)x.second.size() || v != x.second)
                    bad(when + ": reading " + q(x.first) + " of " + p + " (" + str(x.second.size()) + " bytes) with a buffer of " + str(buf) + " returned "
                        + std::to_string(r));
                if (x.second.size() > 1)
                {
                    r = m.getxattr(p, x.first, v, 1 + s.below(x.second.size() - 1));
                    if (r != -ERANGE)
                        bad(when + ": reading " + q(x.first) + " into too small a buffer returned " + std::to_string(r));
                }
            }
        }
    };
    for (int n = 1 + (int)s.below(40); n > 0; --n)
    {
        std::string& p = objs[s.below(objs.size())];
        auto& w = want[p];
        std::string a = w.empty() || s.coin() ? gen_name(s) : std::next(w.begin(), (long)s.below(w.size()))->first;
        switch (s.weighted({6, 3, 1, 1, 1, 1}))
        {
        case 0:
        {
            std::string v = s.bytes(s.size_near(900, 16));
            int fl = s.pick({0, 0, 0, (int)XATTR_CREATE, (int)XATTR_REPLACE});
            c.step("setxattr " + p + " " + q(a) + " " + str(v.size()) + " flags " + std::to_string(fl));
            int r = m.setxattr(p, a, v, fl), e = 0;
            if (fl == XATTR_CREATE && w.count(a))
                e = -EEXIST;
            if (fl == XATTR_REPLACE && !w.count(a))
                e = -ENODATA;
            if (r != e)
                bad("setxattr " + q(a) + " of " + str(v.size()) + " bytes with flags " + std::to_string(fl) + " returned " + std::to_string(r) + ", expected "
                    + std::to_string(e));
            if (!r)
            {
                w[a] = v;
                ++did;
            }
            break;
        }
        case 1:
        {
            c.step("removexattr " + p + " " + q(a));
            int r = m.removexattr(p, a), e = w.count(a) ? 0 : -ENODATA;
            if (r != e)
                bad("removexattr " + q(a) + " returned " + std::to_string(r) + ", expected " + std::to_string(e));
            w.erase(a);
            ++did;
            break;
        }
        case 2:
        {
            std::string v;
            c.step("getxattr of a missing name");
            if (w.count("user.none"))
                break;
            for (size_t b : {0u, 10u})
            {
                int r = m.getxattr(p, "user.none", v, b);
                if (r != -ENODATA)
                    bad("reading a missing attribute returned " + std::to_string(r));
            }
            break;
        }
        case 3:
            c.step("remount");
            m.open(store, cf);
            break;
        case 4:
        {
            std::string to = p.find("/d/") == 0 ? "/d/h" + str(s.below(3)) : p == objs[0] ? "/r" + str(s.below(3)) : "";
            if (to.empty() || to == p)
                break;
            c.step("rename " + p + " " + to);
            int r = m.rename(p, to);
            if (r)
                bad("rename returned " + std::to_string(r));
            auto v = want[p];
            want.erase(p);
            want[to] = v;
            p = to;
            break;
        }
        default:
            check("check");
        }
    }
    check("at the end");
    m.open(store, cf);
    check("after remounting");
    m.close();
    c.nontrivial = did >= 4;
    // Nothing readable below: neither names nor values of 12 bytes and more.
    auto leak = [&](const std::string& f)
    {
        std::string l(65536, '\0');
        ssize_t k = llistxattr(f.c_str(), &l[0], l.size());
        l.resize((size_t)std::max<ssize_t>(0, k));
        std::string all = l;
        for (size_t i = 0; i < l.size(); i += strlen(&l[i]) + 1)
        {
            std::string v(65536, '\0');
            k = lgetxattr(f.c_str(), &l[i], &v[0], v.size());
            v.resize((size_t)std::max<ssize_t>(0, k));
            all += "\n" + v;
        }
        for (auto& o : want)
            for (auto& x : o.second)
            {
                if (x.first.size() > 12 && all.find(x.first.substr(5)) != std::string::npos)
                    bad("the attribute name " + q(x.first) + " is readable in the backing store");
                if (x.second.size() >= 12 && x.second.find_first_not_of('\0') != std::string::npos && all.find(x.second) != std::string::npos)
                    bad("the value of " + q(x.first) + " is readable in the backing store");
            }
    };
    for (auto& f : list_tree(store))
        leak(store + "/" + f);
}
// A stored value altered, cut, or replaced by another is not returned as if valid.
static std::string raw(const std::string& p, const std::string& n)
{
    std::string v(65536, '\0');
    ssize_t k = lgetxattr(p.c_str(), n.c_str(), &v[0], v.size());
    VREQ(k >= 0, "lgetxattr failed");
    v.resize((size_t)k);
    return v;
}
static void exchange(Ctx& c, const FsConfig& cf, const std::string& store)
{
    Src& s = c.s;
    bool objects = s.coin();
    Mount m(store, cf);
    std::string x = s.bytes(1 + s.below(60)), y = s.bytes(x.size());
    if (x == y)
        throw Discard{};
    std::string po = objects ? "/g" : "/f", no = objects ? "user.x" : "user.y";
    VREQ(!m.put("/g", "other"), "setup failed");
    VREQ(m.removexattr("/f", "user.t") == 0, "removexattr failed");
    VREQ(!m.setxattr("/f", "user.x", x) && !m.setxattr(po, no, y), "setxattr failed");
    m.close();
    c.step(cf.text());
    c.step(objects ? "the stored values of one attribute of two objects are exchanged" : "the stored values of two attributes of an object are exchanged");
    std::vector<std::pair<std::string, std::string>> at[2];
    for (auto& f : list_tree(store))
    {
        std::string l(65536, '\0'), p = store + "/" + f;
        ssize_t k = llistxattr(p.c_str(), &l[0], l.size());
        bool meta = f.size() > 5 && f.substr(f.size() - 5) == ".meta";
        for (ssize_t i = 0; i < k; i += (ssize_t)strlen(&l[(size_t)i]) + 1)
            at[meta].push_back({p, &l[(size_t)i]});
    }
    for (auto& a : at)
    {
        VREQ(a.size() == 2, "the stored attributes were not found");
        std::string u = raw(a[0].first, a[0].second), w = raw(a[1].first, a[1].second);
        VREQ(!lsetxattr(a[0].first.c_str(), a[0].second.c_str(), w.data(), w.size(), 0) && !lsetxattr(a[1].first.c_str(), a[1].second.c_str(), u.data(), u.size(), 0),
            "lsetxattr failed");
    }
    m.open(store, cf);
    std::string got;
    int r = m.getxattr("/f", "user.x", got, 65536);
    if (r >= 0)
        fail("[" + cf.text() + "] the value of " + (objects ? "the same attribute of another object" : "another attribute") + " is accepted: " + hex(got));
    got.clear();
    r = m.getxattr(po, no, got, 65536);
    if (r >= 0)
        fail("[" + cf.text() + "] an exchanged value is accepted: " + hex(got));
    c.label(objects ? "exchanged between objects" : "exchanged between attributes");
    c.nontrivial = true;
}
static void tamper(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, s.coin());
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    std::string v1 = s.bytes(1 + s.below(100));
    VREQ(!m.put("/f", "content"), "setup failed");
    int r = m.setxattr("/f", "user.t", v1);
    if (r)
        fail("setxattr returned " + std::to_string(r));
    m.close();
    c.step(cf.text());
    std::vector<std::pair<std::string, std::string>> where;
    for (auto& f : list_tree(store))
    {
        std::string l(65536, '\0'), p = store + "/" + f;
        ssize_t k = llistxattr(p.c_str(), &l[0], l.size());
        for (ssize_t i = 0; i < k; i += (ssize_t)strlen(&l[(size_t)i]) + 1)
            where.push_back({p, &l[(size_t)i]});
    }
    VREQ(!where.empty(), "no attribute found in the backing store");
    std::sort(where.begin(), where.end());
    if (cf.full && s.chance(1, 3))
    {
        // The values of two attributes of an object, or of the same attribute of two objects, are exchanged.
        exchange(c, cf, store);
        return;
    }
    auto w = s.pick(where);
    std::string v(65536, '\0');
    ssize_t k = lgetxattr(w.first.c_str(), w.second.c_str(), &v[0], v.size());
    v.resize((size_t)k);
    std::string o = v;
    switch (s.below(4))
    {
    case 0:
        v[s.below(v.size())] ^= (char)(1 << s.below(8));
        break;
    case 1:
        v.resize(s.below(v.size()));
        break;
    case 2:
        v += s.bytes(1 + s.below(20));
        break;
    default:
        v = s.bytes(s.below(v.size() + 40));
    }
    if (v == o)
        throw Discard{};
    c.step("stored attribute of " + str(o.size()) + " bytes becomes " + hex(v));
    VREQ(!lsetxattr(w.first.c_str(), w.second.c_str(), v.data(), v.size(), 0), "lsetxattr failed");
    m.open(store, cf);
    std::string got;
    r = m.getxattr("/f", "user.t", got, 65536);
    if (r >= 0)
        fail("[" + cf.text() + "] after its stored value was altered, the attribute still reads as " + std::to_string(r) + " bytes " + hex(got));
    got.clear();
    r = m.getxattr("/f", "user.t", got, v1.size());
    if (r >= 0)
        fail("[" + cf.text() + "] after its stored value was altered, the attribute still reads (exact buffer) as " + hex(got));
    // It can be set anew.
    r = m.setxattr("/f", "user.t", "new");
    if (r || m.getxattr("/f", "user.t", got) != 3 || got != "new")
        fail("[" + cf.text() + "] the attribute cannot be set anew after tampering: " + std::to_string(r));
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S15";
    p.rule = "A case draws either format with random settings and a history of setting (all flags, sizes 0 to 900), reading with zero, too "
             "small, exact and larger buffers, listing and removing attributes of files and directories mixed with renames, other tree calls "
             "and remounts, compared with a map per object; or alters one stored attribute value, or (full format) exchanges the stored values of two attributes or objects. Non-trivial: at least 4 attribute changes "
             "(tree: 8 changes), or a tampered value; distinct by choice sequence.";
    p.assumptions = {"names and values are within the limits of the backing file system"};
    p.quick_cases = 50000;
    p.thorough_cases = 300000;
    p.tests = {{"tree", tree, 3}, {"dense", dense, 6}, {"tamper", tamper, 3}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
