// S19: open handles stay coherent through rename, unlink and sharing.
#include "fsmodel.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
static void tree(Ctx& c)
{
    FsConfig cf = gen_config(c.s, c.s.coin());
    HistOpts o;
    o.w_open = 10;
    o.w_handle = 25;
    o.w_link = 6;
    o.w_unlink = 8;
    o.w_rename = 12;
    Hist h(c, cf, o);
    h.run();
}
namespace
{
struct F
{
    std::string data;
    std::set<std::string> names;
    int opens = 0;
    unsigned mode = 0644;
    ino_t ino = 0;
};
struct Hd
{
    size_t f;
    fuse_file_info fi;
    std::string opened_as;
    bool w;
};
std::map<std::string, std::string> store_files(const std::string& d)
{
    std::map<std::string, std::string> r;
    for (auto& f : list_tree(d))
    {
        struct stat st;
        if (lstat((d + "/" + f).c_str(), &st) || !S_ISREG(st.st_mode) || f.find(".securefs.lock") != std::string::npos || f.find("long_names") != std::string::npos)
            continue;
        r[f] = read_file(d + "/" + f);
    }
    return r;
}
// Deleted files of the store that are still held open.
size_t held_deleted(const std::string& store)
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = d ? readdir(d) : nullptr)
    {
        char b[4096];
        ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
        std::string t(b, (size_t)std::max<ssize_t>(0, k));
        if (t.find("long_names") == std::string::npos && t.find(store + "/") == 0 && t.size() > 10 && t.substr(t.size() - 10) == " (deleted)")
        {
            struct stat st;
            if (!fstat(atoi(e->d_name), &st) && st.st_nlink == 0)
                ++n;
        }
    }
    if (d)
        closedir(d);
    return n;
}
}    // namespace
static void dense(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, s.coin());
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    c.step(cf.text());
    std::vector<F> fs;
    std::vector<Hd> hs;
    std::map<std::string, size_t> at;    // name -> file
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    auto need = [&](int r, int w, const std::string& what)
    {
        if (r != w)
            bad(what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    };
    std::vector<std::string> pool = {"/a", "/b", "/c", "/d/a", "/d/b", "/" + std::string(120 + s.below(20), 'L'), "/d/" + std::string(120 + s.below(20), 'M')};
    need(m.mkdir("/d", 0755), 0, "mkdir");
    size_t tree_changes = 0, muts = 0;
    auto check_file = [&](size_t i, const std::string& when)
    {
        F& f = fs[i];
        size_t k = 0;
        for (auto& h : hs)
            if (h.f == i)
            {
                ++k;
                struct stat st;
                need(m.fgetattr(h.opened_as, st, h.fi), 0, when + ": fgetattr of a handle");
                std::string w = when + ": handle " + str(k) + " (opened as " + h.opened_as + (f.names.empty() ? ", now unlinked" : "") + ") ";
                if ((uint64_t)st.st_size != f.data.size())
                    bad(w + "reports size " + str((uint64_t)st.st_size) + ", expected " + str(f.data.size()));
                if ((size_t)st.st_nlink != f.names.size())
                    bad(w + "reports " + str(st.st_nlink) + " links, expected " + str(f.names.size()));
                if ((st.st_mode & 0777) != f.mode)
                    bad(w + "reports other permission bits than were set");
                std::string d;
                int r = m.read(h.opened_as, d, f.data.size() + 50, 0, h.fi);
                if (r < 0 || d != f.data)
                    bad(w + "reads " + (r < 0 ? "error " + std::to_string(r) : str(d.size()) + " bytes that differ from the file's " + str(f.data.size())));
            }
        for (auto& n : f.names)
        {
            struct stat st;
            need(m.getattr(n, st), 0, when + ": getattr " + n);
            if ((uint64_t)st.st_size != f.data.size() || (size_t)st.st_nlink != f.names.size() || (st.st_mode & 0777) != f.mode)
                bad(when + ": " + n + " reports size " + str((uint64_t)st.st_size) + ", " + str(st.st_nlink) + " links, mode " + str(st.st_mode & 0777)
                    + "; expected " + str(f.data.size()) + ", " + str(f.names.size()) + ", " + str(f.mode));
            if (f.ino && st.st_ino != f.ino)
                bad(when + ": " + n + " has another inode number than its file");
            f.ino = st.st_ino;
            std::string d;
            need(m.get(n, d), 0, when + ": reading " + n);
            if (d != f.data)
                bad(when + ": " + n + " reads " + str(d.size()) + " bytes that differ from the file's " + str(f.data.size()));
        }
    };
    auto check_storage = [&](const std::string& when)
    {
        std::set<std::string> live;
        size_t names = 0, anon = 0, dirs = 1;
        size_t files = 0;
        for (auto& f : fs)
        {
            if (!f.names.empty())
                ++files;
            names += f.names.size();
            if (f.names.empty() && f.opens)
                ++anon;
        }
        (void)dirs;
        auto st = store_files(store);
        if (cf.full)
        {
            // Two files per object: the root, /d and each file that has a name or a handle.
            size_t max = 2 * (2 + files + anon);
            if (st.size() != max)
                bad(when + ": the backing store has " + str(st.size()) + " files, expected two for each of the root, /d, " + str(files) + " named and " + str(anon)
                    + " open unlinked files");
        }
        else
        {
            if (st.size() != names)
                bad(when + ": the backing store has " + str(st.size()) + " files, expected " + str(names));
            size_t held = held_deleted(store);
            if (!anon && held)
                bad(when + ": " + str(held) + " deleted backing files are still held open though no handle needs them");
        }
    };
    auto drop_name = [&](const std::string& n)
    {
        auto i = at.find(n);
        if (i == at.end())
            return;
        fs[i->second].names.erase(n);
        at.erase(i);
    };
    for (int k = 5 + (int)s.below(45); k > 0; --k)
    {
        std::string n = s.pick(pool);
        auto it = at.find(n);
        switch (s.weighted({5, 7, 8, 4, 6, 4, 3, 5, 2, 1, 2, 1, 3}))
        {
        case 0:
        {
            if (hs.size() > 8)
                break;
            Hd h{fs.size(), {}, n, true};
            c.step("create " + q(n));
            int r = m.create(n, 0644, h.fi);
            if (it != at.end())
            {
                need(r, -EEXIST, "create of an existing name");
                break;
            }
            need(r, 0, "create");
            F f;
            f.names = {n};
            f.opens = 1;
            at[n] = fs.size();
            fs.push_back(f);
            hs.push_back(h);
            break;
        }
        case 1:
        {
            if (hs.size() > 8)
                break;
            Hd h{0, {}, n, true};
            int fl = s.pick({(int)O_RDWR, (int)O_RDONLY, (int)O_WRONLY, (int)(O_RDWR | O_TRUNC), (int)(O_WRONLY | O_TRUNC), (int)(O_WRONLY | O_APPEND)});
            c.step("open " + q(n) + " flags " + std::to_string(fl));
            int r = m.open(n, fl, h.fi);
            if (it == at.end())
            {
                need(r, -ENOENT, "open of a missing name");
                break;
            }
            need(r, 0, "open");
            h.f = it->second;
            h.w = (fl & O_ACCMODE) != O_RDONLY;
            fs[h.f].opens++;
            hs.push_back(h);
            if (fl & O_TRUNC)
            {
                fs[h.f].data.clear();
                ++muts;
                check_file(h.f, "after open with truncation");
            }
            break;
        }
        case 2:
        {
            if (hs.empty())
                break;
            Hd& h = hs[s.below(hs.size())];
            if (!h.w)
                break;
            size_t off = s.size_near(5 * cf.block, cf.block);
            off = std::min<size_t>(off, 3000);
            std::string d = s.bytes(1 + s.below(std::min(600u, 3 * cf.block)));
            c.step("write handle of " + q(h.opened_as) + " " + str(off) + "+" + str(d.size()));
            need(m.write(h.opened_as, d, (off_t)off, h.fi), (int)d.size(), "write");
            F& f = fs[h.f];
            if (f.data.size() < off + d.size())
                f.data.resize(off + d.size(), '\0');
            f.data.replace(off, d.size(), d);
            ++muts;
            check_file(h.f, "after a write through a handle");
            break;
        }
        case 3:
        {
            size_t l = std::min<size_t>(s.size_near(6 * cf.block, cf.block), 4000);
            if (s.coin() && !hs.empty())
            {
                Hd& h = hs[s.below(hs.size())];
                if (!h.w)
                    break;
                c.step("ftruncate handle of " + q(h.opened_as) + " " + str(l));
                need(m.ftruncate(h.opened_as, (off_t)l, h.fi), 0, "ftruncate");
                fs[h.f].data.resize(l, '\0');
                ++muts;
                check_file(h.f, "after ftruncate");
            }
            else if (it != at.end())
            {
                c.step("truncate " + q(n) + " " + str(l));
                need(m.truncate(n, (off_t)l), 0, "truncate");
                fs[it->second].data.resize(l, '\0');
                ++muts;
                check_file(it->second, "after truncate by path");
            }
            break;
        }
        case 4:
        {
            std::string to = s.pick(pool);
            c.step("rename " + q(n) + " " + q(to));
            int r = m.rename(n, to);
            if (it == at.end())
            {
                need(r, -ENOENT, "rename of a missing name");
                break;
            }
            need(r, 0, "rename");
            size_t i = it->second;
            auto j = at.find(to);
            size_t old = SIZE_MAX;
            if (j == at.end() || j->second != i)
            {
                if (j != at.end())
                    old = j->second;
                drop_name(to);
                drop_name(n);
                at[to] = i;
                fs[i].names.insert(to);
            }
            ++tree_changes;
            check_file(i, "after rename");
            if (old != SIZE_MAX)
                check_file(old, "after being replaced by rename");
            break;
        }
        case 5:
        {
            c.step("unlink " + q(n));
            int r = m.unlink(n);
            if (it == at.end())
            {
                need(r, -ENOENT, "unlink of a missing name");
                break;
            }
            need(r, 0, "unlink");
            size_t i = it->second;
            drop_name(n);
            ++tree_changes;
            check_file(i, "after unlink");
            struct stat st;
            need(m.getattr(n, st), -ENOENT, "getattr of the unlinked name");
            break;
        }
        case 6:
        {
            std::string to = s.pick(pool);
            c.step("link " + q(n) + " " + q(to));
            int r = m.link(n, to);
            if (it == at.end())
            {
                if (r != -ENOENT && !(r == -EEXIST && at.count(to)))
                    bad("link of a missing name returned " + std::to_string(r));
                break;
            }
            if (at.count(to))
            {
                need(r, -EEXIST, "link to an existing name");
                break;
            }
            need(r, 0, "link");
            at[to] = it->second;
            fs[it->second].names.insert(to);
            ++tree_changes;
            check_file(at[to], "after link");
            break;
        }
        case 7:
        {
            if (hs.empty())
                break;
            size_t i = s.below(hs.size());
            size_t f = hs[i].f;
            c.step("release handle of " + q(hs[i].opened_as));
            if (s.coin())
                need(m.flush(hs[i].opened_as, hs[i].fi), 0, "flush");
            need(m.release(hs[i].opened_as, hs[i].fi), 0, "release");
            hs.erase(hs.begin() + (long)i);
            fs[f].opens--;
            check_file(f, "after a release");
            check_storage("after a release");
            break;
        }
        case 8:
            if (!hs.empty())
            {
                Hd& h = hs[s.below(hs.size())];
                c.step("fsync");
                need(m.fsync(h.opened_as, s.coin(), h.fi), 0, "fsync");
            }
            break;
        case 9:
        {
            c.step("remount");
            for (auto& h : hs)
            {
                need(m.release(h.opened_as, h.fi), 0, "release");
                fs[h.f].opens--;
            }
            hs.clear();
            check_storage("before remounting");
            m.open(store, cf);
            for (auto& f : fs)
                f.ino = 0;
            for (size_t i = 0; i < fs.size(); ++i)
                check_file(i, "after remounting");
            break;
        }
        case 10:
            if (it != at.end())
            {
                unsigned md = 0400 | (unsigned)s.below(0400);
                c.step("chmod " + q(n) + " " + str(md));
                need(m.chmod(n, S_IFREG | md), 0, "chmod");
                fs[it->second].mode = md;
                check_file(it->second, "after chmod");
            }
            break;
        case 11:
        {
            // Reading leaves every stored byte alone.
            if (it == at.end() || (cf.full && cf.store_time) || !hs.empty())
                break;
            c.step("open for reading " + q(n));
            m.open(store, cf);
            auto before = store_files(store);
            fuse_file_info fi;
            std::string d;
            need(m.open(n, O_RDONLY, fi), 0, "open");
            if (s.coin())
                m.read(n, d, 100, (off_t)s.below(100), fi);
            need(m.flush(n, fi), 0, "flush");
            need(m.release(n, fi), 0, "release");
            m.close();
            if (store_files(store) != before)
                bad("opening " + q(n) + " for reading changed the backing store");
            m.open(store, cf);
            break;
        }
        default:
            check_storage("check");
        }
    }
    for (size_t i = 0; i < fs.size(); ++i)
        check_file(i, "at the end");
    while (!hs.empty())
    {
        Hd h = hs.back();
        hs.pop_back();
        need(m.release(h.opened_as, h.fi), 0, "release");
        fs[h.f].opens--;
        check_file(h.f, "after releasing at the end");
    }
    check_storage("after releasing everything");
    m.open(store, cf);
    for (auto& f : fs)
        f.ino = 0;
    for (size_t i = 0; i < fs.size(); ++i)
        check_file(i, "after remounting");
    c.nontrivial = tree_changes >= 2 && muts >= 2;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S19";
    p.rule = "A case draws either format with random settings and up to 50 calls on a few names (short and long) with up to nine open handles: "
             "create, open in every mode, write, truncate, rename (also onto others), link, unlink, chmod, release, fsync, remount. After each "
             "change every handle and every name of the file concerned is read whole and its attributes compared; the number of backing files "
             "is compared after releases. Non-trivial: at least 2 tree changes and 2 content changes (tree: 8 changes); distinct by choice sequence.";
    p.assumptions = {"the mount runs with hard_remove, as the mount command sets it"};
    p.quick_cases = 40000;
    p.thorough_cases = 500000;
    p.tests = {{"tree", tree, 1}, {"dense", dense, 4}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
