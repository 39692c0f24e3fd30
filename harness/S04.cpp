// S04: tampering with full-format objects is detected.
#include "decode.h"
#include "fsmodel.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace
{
struct Snap
{
    std::string data, meta, content;
};
struct Obj
{
    char type;
    std::string id, content;    // of a directory: its listing as text
    unsigned mode = 0;
    std::vector<Snap> snaps;
};
}    // namespace
static void tamper(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, true);
    if (cf.block > 1024)
        cf.block = 64;
    const size_t B = cf.block;
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    c.step(cf.text());
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    auto need = [&](int r, int w, const std::string& what)
    {
        if (r != w)
            bad(what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    };
    std::map<std::string, Obj> objs;
    std::map<std::string, std::string> content;    // path -> content or target
    std::map<std::string, char> type = {{"/", 'd'}};
    auto listing = [&](const std::string& d)
    {
        std::string r, pre = d == "/" ? "/" : d + "/";
        for (auto& t : type)
            if (t.first != "/" && t.first.compare(0, pre.size(), pre) == 0 && t.first.find('/', pre.size()) == std::string::npos)
                r += t.first.substr(pre.size()) + " " + t.second + "\n";
        return r;
    };
    auto mutate = [&](int n)
    {
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::string> dirs, files;
            for (auto& t : type)
                (t.second == 'd' ? dirs : files).push_back(t.first);
            std::string d = s.pick(dirs), p = (d == "/" ? "" : d) + "/" + s.pick({std::string("a"), std::string("b"), std::string("c"), std::string("d"), std::string("e")});
            switch (s.weighted({6, 2, 3, 6, 2, 2}))
            {
            case 0:
                if (!type.count(p))
                {
                    std::string v = s.bytes(s.size_near(4 * B, B));
                    c.step("create " + p + " with " + str(v.size()));
                    need(m.put(p, v), 0, "create");
                    type[p] = 'f';
                    content[p] = v;
                }
                break;
            case 1:
                if (!type.count(p))
                {
                    c.step("mkdir " + p);
                    need(m.mkdir(p, 0755), 0, "mkdir");
                    type[p] = 'd';
                }
                break;
            case 2:
                if (!type.count(p))
                {
                    std::string v(1 + s.below(120), (char)('l' + s.below(5)));
                    c.step("symlink " + p);
                    need(m.symlink(v, p), 0, "symlink");
                    type[p] = 'l';
                    content[p] = v;
                }
                break;
            case 3:
            {
                if (files.empty())
                    break;
                std::string f = s.pick(files);
                if (type[f] != 'f')
                    break;
                size_t off = s.size_near(4 * B, B), k = 1 + s.size_near(3 * B, B);
                std::string v = s.bytes(k);
                c.step("write " + f + " " + str(off) + "+" + str(k));
                fuse_file_info fi;
                need(m.open(f, O_RDWR, fi), 0, "open");
                need(m.write(f, v, (off_t)off, fi), (int)k, "write");
                need(m.release(f, fi), 0, "release");
                auto& t = content[f];
                if (t.size() < off + k)
                    t.resize(off + k, '\0');
                t.replace(off, k, v);
                break;
            }
            case 4:
            {
                if (files.empty())
                    break;
                std::string f = s.pick(files);
                if (type[f] != 'f')
                    break;
                size_t k = s.size_near(5 * B, B);
                c.step("truncate " + f + " " + str(k));
                need(m.truncate(f, (off_t)k), 0, "truncate");
                content[f].resize(k, '\0');
                break;
            }
            default:
            {
                if (files.empty())
                    break;
                std::string f = s.pick(files);
                c.step("unlink " + f);
                need(m.unlink(f), 0, "unlink");
                type.erase(f);
                content.erase(f);
                break;
            }
            }
        }
    };
    FullReader rd(store, cf);
    auto take = [&]
    {
        m.close();
        std::map<std::string, Obj> now;
        try
        {
            for (auto& x : rd.walk(bin_cmp))
            {
                std::string id = hex(x.second.obj.id, 100);
                Obj o;
                for (auto& y : objs)
                    if (hex(y.second.id, 100) == id)
                        o = y.second;
                o.type = x.second.type;
                o.id = x.second.obj.id;
                o.mode = x.second.obj.flags[0];
                o.content = o.type == 'd' ? listing(x.first) : content[x.first];
                std::string p = rd.path_of(o.id);
                o.snaps.push_back({read_file(p), read_file(p + ".meta"), o.content});
                now[x.first] = o;
            }
        }
        catch (DecodeError& e)
        {
            bad(std::string("the independent reader fails: ") + e.what());
        }
        objs = now;
    };
    mutate(2 + (int)s.below(8));
    take();
    for (size_t k = s.below(3); k > 0; --k)
    {
        m.open(store, cf);
        mutate(1 + (int)s.below(4));
        take();
    }
    std::vector<std::string> paths;
    for (auto& o : objs)
        paths.push_back(o.first);
    std::set<std::string> touched;
    for (size_t k = 1 + s.below(2); k > 0; --k)
    {
        std::string path = s.pick(paths);
        // Prefer what has content.
        if (s.coin())
            path = s.pick(paths);
        Obj &o = objs[path], &g = objs[s.pick(paths)];
        std::string dp = rd.path_of(o.id), mp = dp + ".meta";
        std::string d = read_file(dp), md = read_file(mp), d0 = d, md0 = md;
        const Snap &os = s.pick(o.snaps), &gs = s.pick(g.snaps);
        const size_t hdr = 32 + cf.iv + 16 + (cf.store_time ? 0 : 0);
        (void)hdr;
        bool on_meta = s.coin();
        std::string& t = on_meta ? md : d;
        const std::string &ot = on_meta ? os.meta : os.data, &gt = on_meta ? gs.meta : gs.data;
        size_t ms = cf.iv + 16;
        auto cut_at = [&](size_t n)
        { return on_meta ? (n > ms && s.coin() ? n - ms * (1 + s.below(std::max<size_t>(1, n / ms / 2))) : s.below(n + 1)) : s.coin() ? s.below(n / B + 1) * B : s.below(n + 1); };
        std::string what = std::string(on_meta ? "metadata" : "data") + " of " + path;
        switch (s.weighted({6, 4, 4, 4, 3, 3, 3, 3, 3, 2}))
        {
        case 0:
            if (!t.empty())
            {
                size_t at = s.below(t.size());
                c.step("flip a bit at " + str(at) + " in the " + what);
                t[at] ^= (char)(1 << s.below(8));
            }
            break;
        case 1:
        {
            size_t n = cut_at(t.size());
            c.step("cut the " + what + " to " + str(n));
            t.resize(std::min(n, t.size()));
            break;
        }
        case 2:
        {
            size_t n = s.coin() ? (on_meta ? ms : B) * (1 + s.below(3)) : 1 + s.below(2 * B);
            c.step("append " + str(n) + " to the " + what);
            t += s.coin() ? std::string(n, '\0') : s.bytes(n);
            break;
        }
        case 3:
            c.step("an earlier version of the " + what);
            t = ot;
            break;
        case 4:
            c.step("the same part of another object over the " + what);
            t = gt;
            break;
        case 5:
            c.step("both parts of another object over " + path);
            d = gs.data;
            md = gs.meta;
            break;
        case 6:
        {
            // Exchange blocks, in the data, the metadata or both.
            size_t n = d.size() / B;
            if (n < 2)
                break;
            size_t a = s.below(n), b = s.below(n), kind = s.below(3);
            c.step("exchange blocks " + str(a) + " and " + str(b) + (kind == 0 ? " of the data of " : kind == 1 ? " of the metadata of " : " of both parts of ") + path);
            if (kind != 1)
                for (size_t i = 0; i < B; ++i)
                    std::swap(d[a * B + i], d[b * B + i]);
            if (kind != 0)
            {
                size_t base = md.size() - (d.size() + B - 1) / B * ms;
                for (size_t i = 0; i < ms; ++i)
                    if (base + b * ms + i < md.size() && base + a * ms + i < md.size())
                        std::swap(md[base + a * ms + i], md[base + b * ms + i]);
            }
            break;
        }
        case 7:
        {
            size_t at = s.coin() || on_meta ? s.below(t.size() + 1) : s.below(t.size() / B + 1) * B, n = s.coin() ? (on_meta ? ms : B) : 1 + s.below(40);
            c.step("zero " + str(n) + " bytes at " + str(at) + " in the " + what);
            for (size_t i = at; i < at + n && i < t.size(); ++i)
                t[i] = 0;
            break;
        }
        case 8:
        {
            // A run of blocks from another version or object.
            size_t u = on_meta ? ms : B;
            const std::string& from = s.coin() ? ot : gt;
            size_t a = s.below(from.size() / u + 1) * u, b = s.below(t.size() / u + 1) * u, n = u * (1 + s.below(3));
            if (on_meta && s.coin())
            {
                a = from.size() % u + a;
                b = t.size() % u + b;
            }
            c.step("copy " + str(n) + " foreign bytes from " + str(a) + " to " + str(b) + " in the " + what);
            std::string piece = a < from.size() ? from.substr(a, n) : "";
            if (b <= t.size())
                t.replace(b, std::min(piece.size(), t.size() - b), piece);
            break;
        }
        default:
        {
            size_t at = s.below(t.size() + 1), n = 1 + s.below(40);
            if (s.coin())
            {
                c.step("insert " + str(n) + " bytes at " + str(at) + " in the " + what);
                t.insert(at, s.bytes(n));
            }
            else
            {
                c.step("remove " + str(n) + " bytes at " + str(at) + " in the " + what);
                t.erase(at, n);
            }
        }
        }
        if (d != d0)
            write_file(dp, d);
        if (md != md0)
            write_file(mp, md);
        if (d != d0 || md != md0)
            touched.insert(path);
    }
    if (touched.empty())
    {
        c.label("tampering without effect");
        return;
    }
    // What may be shown at a path: the present content, or that of an earlier version stored whole.
    std::map<std::string, std::set<std::string>> ok;
    std::set<std::string> rolled, hole_tail;
    for (auto& o : objs)
    {
        std::string p = rd.path_of(o.second.id), d = read_file(p), md = read_file(p + ".meta");
        std::set<std::string> a;
        for (auto& sn : o.second.snaps)
            // Junk after an earlier version adds nothing to putting that version back.
            // Where both parts were changed, the metadata says which version the rest is of.
            if (sn.meta == md && (d.compare(0, sn.data.size(), sn.data) == 0 || d != o.second.snaps.back().data))
                a.insert(sn.content);
        if (a.empty())
            a.insert(o.second.content);
        else if (touched.count(o.first))
            rolled.insert(o.first);
        ok[o.first] = a;
        if (!d.empty() && d.find_first_not_of('\0', (d.size() - 1) / B * B) == std::string::npos)
            hole_tail.insert(o.first);
    }
    // An object below a directory of an earlier version may not be the one recorded at its path.
    auto unsure = [&](const std::string& path)
    {
        for (auto& r : rolled)
            if (objs[r].type == 'd' && r != path && (r == "/" || path.compare(0, r.size() + 1, r + "/") == 0))
                return true;
        return false;
    };
    try
    {
        m.open(store, cf);
    }
    catch (const std::exception& e)
    {
        if (!touched.count("/"))
            bad(std::string("mounting fails though the root directory was not changed: ") + e.what());
        c.nontrivial = true;
        c.label("mounts refused");
        return;
    }
    size_t errors = 0;
    for (auto& x : objs)
    {
        const std::string& path = x.first;
        if (unsure(path))
            continue;
        auto& want = ok[path];
        struct stat st;
        int r = m.getattr(path, st);
        if (r < 0)
            ++errors;
        else if (touched.count(path) && !rolled.count(path))
        {
            // Without any metadata no attributes are known; such an object cannot be opened.
            if (st.st_mode != x.second.mode && (unsigned)st.st_mode != 0xffffffffu)
                bad("getattr of the tampered " + path + " shows mode " + str(st.st_mode) + ", the true one is " + str(x.second.mode));
        }
        if (x.second.type == 'd')
        {
            std::vector<DirEnt> es;
            r = m.ls(path, es);
            if (r < 0)
            {
                ++errors;
                continue;
            }
            std::vector<std::string> ls;
            for (auto& e : es)
                ls.push_back(e.name + " " + (S_ISDIR(e.st.st_mode) ? 'd' : S_ISLNK(e.st.st_mode) ? 'l' : 'f') + "\n");
            std::sort(ls.begin(), ls.end());
            std::string t;
            for (auto& l : ls)
                t += l;
            if (!want.count(t) && t.empty())
            {
                // The metadata of a time when the directory was empty refers to no block of the data.
                std::string md = read_file(rd.path_of(x.second.id) + ".meta");
                for (auto& sn : x.second.snaps)
                    if (sn.meta == md && sn.content.empty())
                        bad("with the metadata of an earlier, empty version of " + path + " alone it lists empty [KF:empty-dir-meta]");
            }
            if (!want.count(t))
                bad("the directory " + path + " lists\n" + t + "which it never held; expected\n" + *want.begin());
        }
        else if (x.second.type == 'l')
        {
            std::string to;
            r = m.readlink(path, to);
            if (r < 0)
                ++errors;
            else if (!want.count(to))
                bad("the link " + path + " leads to " + q(to) + ", expected " + q(*want.begin()));
        }
        else
        {
            fuse_file_info fi;
            r = m.open(path, s.coin() ? O_RDONLY : O_RDWR, fi);
            if (r < 0)
            {
                ++errors;
                continue;
            }
            auto judge = [&](const std::set<std::string>& acc, size_t off, size_t n, const std::string& when)
            {
                std::string d;
                int r = m.read(path, d, n, (off_t)off, fi);
                if (r < 0)
                {
                    ++errors;
                    return;
                }
                for (auto& w : acc)
                    if ((off < w.size() ? w.substr(off, n) : "") == d)
                        return;
                // The length of a final block that was never written is not authenticated by the format.
                if (hole_tail.count(path))
                    for (auto& w : acc)
                    {
                        std::string a = off < w.size() ? w.substr(off, n) : "", b = d;
                        size_t k = std::max(a.size(), b.size());
                        a.resize(k, '\0');
                        b.resize(k, '\0');
                        if (a == b && k - std::min(d.size(), off < w.size() ? std::min(n, w.size() - off) : 0) < B)
                            bad(when + ": the end of " + path + " moved within a hole [KF:hole-tail]");
                    }
                bad(when + ": reading " + str(n) + " bytes at " + str(off) + " of " + path + " returned " + str(d.size()) + " bytes that are not authentic (true size "
                    + str(acc.begin()->size()) + ")");
            };
            size_t top = want.begin()->size();
            judge(want, 0, top + 3 * B + 50, "after tampering");
            for (int i = 0; i < 4; ++i)
            {
                size_t off = s.size_near(top + B, B), n = 1 + s.size_near(2 * B, B);
                judge(want, off, n, "after tampering");
            }
            m.release(path, fi);
            // Changing a part must not make altered bytes valid.
            if (touched.count(path) && s.coin() && m.open(path, O_RDWR, fi) == 0)
            {
                size_t off = s.below(top + B), n = 1 + s.below(B);
                bool trunc = s.chance(1, 3);
                std::string w = s.bytes(n);
                c.step((trunc ? "truncate to " : "write at ") + str(off) + " of " + path);
                r = trunc ? m.ftruncate(path, (off_t)off, fi) : m.write(path, w, (off_t)off, fi);
                if (r >= 0)
                {
                    std::set<std::string> acc;
                    for (auto v : want)
                    {
                        if (trunc)
                            v.resize(off, '\0');
                        else
                        {
                            if (v.size() < off + n)
                                v.resize(off + n, '\0');
                            v.replace(off, n, w);
                        }
                        acc.insert(v);
                    }
                    for (int round = 0; round < 2; ++round)
                    {
                        judge(acc, 0, top + 3 * B + 50, "after a change of the tampered file");
                        for (size_t b = 0; b * B < acc.begin()->size() + B; ++b)
                            judge(acc, b * B, B, "after a change of the tampered file");
                        m.flush(path, fi);
                        m.release(path, fi);
                        m.open(store, cf);
                        if (m.open(path, O_RDWR, fi))
                            break;
                        if (round)
                            m.release(path, fi);
                    }
                }
                else
                {
                    ++errors;
                    m.release(path, fi);
                }
            }
        }
    }
    c.label("failed calls on tampered objects", errors);
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S04";
    p.rule = "A case builds a small full-format tree (directories, files, links), changes it over up to three mounts keeping every stored version, and "
             "applies 1 or 2 changes to the data or metadata files of the unmounted repository: flips, cuts (also at block boundaries), "
             "appends, earlier versions of one part, parts or blocks of other objects, whole other objects, exchanged blocks, zeros, insertions. Then "
             "every object is listed, read, resolved and partly rewritten: each call fails or shows the true content (or an earlier version when "
             "both parts are exactly of it). Non-trivial: the stored bytes really changed; distinct by choice sequence.";
    p.assumptions = {"the object is not open while its stored bytes are changed", "putting back both parts of one earlier version, with or without junk behind its data, is not detectable"};
    p.quick_cases = 45000;
    p.thorough_cases = 1500000;
    p.tests = {{"tamper", tamper, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
