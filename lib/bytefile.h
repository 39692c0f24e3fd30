// One or a few files against in-memory byte arrays: histories of writes, reads, truncations and reopenings.
#pragma once
#include "fsdrv.h"
#include <fcntl.h>
#include <sys/stat.h>
namespace vp
{
struct BFile
{
    std::string path, data;
    struct stat attr{};
};
struct ByteHist
{
    Ctx& c;
    FsConfig cf;
    Mount m;
    std::string store;
    std::vector<BFile> fs;
    struct BH
    {
        size_t file;
        fuse_file_info fi;
    };
    std::vector<BH> hs;
    uint64_t max_size;
    int muts = 0, unaligned = 0;
    ByteHist(Ctx& c_, FsConfig f, uint64_t mx) : c(c_), cf(f), max_size(mx) { store = make_dir(c.dir + "/store"); }
    [[noreturn]] void bad(const std::string& m_) { fail("[" + cf.text() + "] " + m_); }
    void ok(int r, int w, const std::string& what)
    {
        if (r != w)
            bad(what + " returned " + std::to_string(r) + ", expected " + std::to_string(w));
    }
    // An offset or length: small, near a block multiple, near the current end, or anywhere.
    uint64_t pos(const BFile& f)
    {
        Src& s = c.s;
        switch (s.weighted({2, 4, 2, 3}))
        {
        case 0:
            return s.below(std::min<uint64_t>(max_size, 40) + 1);
        case 1:
            return (uint64_t)std::clamp<int64_t>((int64_t)(s.below(max_size / cf.block + 1) * cf.block) + s.range(-1, 1), 0, (int64_t)max_size);
        case 2:
            return (uint64_t)std::clamp<int64_t>((int64_t)f.data.size() + s.range(-2, 2), 0, (int64_t)max_size);
        default:
            return s.below(max_size + 1);
        }
    }
    void compare(const std::string& what, const std::string& got, const BFile& f, uint64_t off, uint64_t len)
    {
        std::string want = off < f.data.size() ? f.data.substr(off, len) : "";
        if (got == want)
            return;
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
            ++i;
        bad(what + ": read of " + str(len) + " at " + str(off) + " gave " + str(got.size()) + " bytes, expected " + str(want.size())
            + (i < std::min(got.size(), want.size()) ? ", first difference at file offset " + str(off + i) + ": got " + hex(got.substr(i, 8))
                      + " expected " + hex(want.substr(i, 8))
                                                      : ""));
    }
    void whole(size_t i, const std::string& when)
    {
        BFile& f = fs[i];
        struct stat st;
        ok(m.getattr(f.path, st), 0, when + ": getattr " + f.path);
        if ((uint64_t)st.st_size != f.data.size())
            bad(when + ": size of " + f.path + " is " + str((uint64_t)st.st_size) + ", expected " + str(f.data.size()));
        fuse_file_info fi;
        ok(m.open(f.path, O_RDONLY, fi), 0, when + ": open " + f.path);
        std::string d;
        int r = m.read(f.path, d, f.data.size() + 100, 0, fi);
        if (r < 0)
            bad(when + ": reading " + f.path + " returned " + std::to_string(r));
        compare(when, d, f, 0, f.data.size() + 100);
        ok(m.release(f.path, fi), 0, "release");
        for (auto& h : hs)
            if (h.file == i)
            {
                r = m.read(f.path, d, f.data.size() + 100, 0, h.fi);
                if (r < 0)
                    bad(when + ": reading an open handle returned " + std::to_string(r));
                compare(when + " (open handle)", d, f, 0, f.data.size() + 100);
            }
        if (cf.full)
        {
            if ((st.st_mode & 07777) != (f.attr.st_mode & 07777) || st.st_uid != f.attr.st_uid || st.st_gid != f.attr.st_gid
                || st.st_nlink != f.attr.st_nlink)
                bad(when + ": mode, owner or link count of " + f.path + " changed");
        }
    }
    void close_all()
    {
        for (auto& h : hs)
            ok(m.release(fs[h.file].path, h.fi), 0, "release");
        hs.clear();
    }
    void remount()
    {
        close_all();
        m.open(store, cf);
    }
    size_t handle(size_t file, bool w = true)
    {
        if (hs.size() < 4 && (hs.empty() || c.s.chance(1, 5)))
            hs.push_back({file, open_new(file)});
        std::vector<size_t> mine;
        for (size_t i = 0; i < hs.size(); ++i)
            if (hs[i].file == file)
                mine.push_back(i);
        if (mine.empty())
        {
            if (hs.size() >= 4)
            {
                ok(m.release(fs[hs[0].file].path, hs[0].fi), 0, "release");
                hs.erase(hs.begin());
            }
            hs.push_back({file, open_new(file)});
            return hs.size() - 1;
        }
        return mine[c.s.below(mine.size())];
    }
    fuse_file_info open_new(size_t file)
    {
        fuse_file_info fi;
        ok(m.open(fs[file].path, O_RDWR, fi), 0, "open " + fs[file].path);
        return fi;
    }
    void step()
    {
        Src& s = c.s;
        size_t i = s.below(fs.size());
        BFile& f = fs[i];
        switch (s.weighted({5, 8, 5, 1, 2, 1, 1, 1}))
        {
        case 0:
        {
            uint64_t off = pos(f), len = 1 + pos(f);
            size_t h = handle(i);
            c.step("read " + f.path + " " + str(off) + "+" + str(len));
            std::string d;
            int r = m.read(f.path, d, len, (off_t)off, hs[h].fi);
            if (r < 0)
                bad("read of " + str(len) + " at " + str(off) + " (size " + str(f.data.size()) + ") returned " + std::to_string(r));
            compare("read", d, f, off, len);
            return;
        }
        case 1:
        {
            uint64_t off = pos(f), len = s.chance(1, 3) ? 1 + s.below(5) : pos(f);
            if (off + len > max_size)
                len = max_size - off;
            std::string d = s.bytes(len);
            size_t h = handle(i);
            c.step("write " + f.path + " " + str(off) + "+" + str(len));
            if (!len)
                return;
            ok(m.write(f.path, d, (off_t)off, hs[h].fi), (int)len, "write");
            if (f.data.size() < off + len)
                f.data.resize(off + len, '\0');
            f.data.replace(off, len, d);
            ++muts;
            if (off % cf.block || (off + len) % cf.block)
                ++unaligned;
            return;
        }
        case 2:
        {
            uint64_t n = pos(f);
            bool byh = s.coin();
            c.step((byh ? "ftruncate " : "truncate ") + f.path + " " + str(n));
            ok(byh ? m.ftruncate(f.path, (off_t)n, hs[handle(i)].fi) : m.truncate(f.path, (off_t)n), 0, "truncate");
            f.data.resize(n, '\0');
            ++muts;
            return;
        }
        case 3:
        {
            c.step("sync");
            size_t h = handle(i);
            ok(m.flush(f.path, hs[h].fi), 0, "flush");
            ok(m.fsync(f.path, s.coin(), hs[h].fi), 0, "fsync");
            return;
        }
        case 4:
            c.step("close handles");
            close_all();
            return;
        case 5:
            c.step("remount");
            remount();
            return;
        case 6:
        {
            // O_TRUNC on open.
            c.step("open O_TRUNC " + f.path);
            fuse_file_info fi;
            ok(m.open(f.path, O_RDWR | O_TRUNC, fi), 0, "open O_TRUNC");
            ok(m.release(f.path, fi), 0, "release");
            f.data.clear();
            ++muts;
            return;
        }
        default:
            c.step("check " + f.path);
            whole(i, "check");
        }
    }
    void setup(size_t nfiles)
    {
        c.step(cf.text());
        m.open(store, cf);
        for (size_t i = 0; i < nfiles; ++i)
        {
            BFile f;
            f.path = "/f" + str(i);
            fuse_file_info fi;
            ok(m.create(f.path, 0600 + (mode_t)i, fi), 0, "create");
            ok(m.release(f.path, fi), 0, "release");
            if (cf.full && c.s.coin())
            {
                ok(m.chown(f.path, 1000 + (uid_t)i, 2000), 0, "chown");
                ok(m.link(f.path, f.path + "L"), 0, "link");
            }
            ok(m.getattr(f.path, f.attr), 0, "getattr");
            fs.push_back(f);
        }
    }
    void run(int n)
    {
        for (int k = 0; k < n; ++k)
            step();
        for (size_t i = 0; i < fs.size(); ++i)
            whole(i, "at the end");
        remount();
        for (size_t i = 0; i < fs.size(); ++i)
            whole(i, "after remounting");
        c.nontrivial = muts >= 4 && unaligned >= 2;
    }
};
}    // namespace vp
