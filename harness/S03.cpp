// S03: tampering with lite-format files never yields unauthentic data.
#include "fsmodel.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace
{
// Everything each stored file (identified by its 16-byte header) ever held: block index -> plain texts.
struct Versions
{
    std::map<std::string, std::map<size_t, std::set<std::string>>> v;
    void record(const std::string& id, const std::string& data, size_t block)
    {
        for (size_t i = 0; i * block < data.size(); ++i)
            v[id][i].insert(data.substr(i * block, block));
    }
};
struct File
{
    std::string name, phys, data;
    std::vector<std::string> snaps;    // stored bytes at several times
};
}    // namespace
static void tamper(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, false);
    if (cf.block > 1024)
        cf.block = 64;
    if (s.chance(1, 4))
        cf.plain = true;
    std::string store = make_dir(c.dir + "/store");
    Mount m(store, cf);
    c.step(cf.text());
    auto bad = [&](const std::string& t) { fail("[" + cf.text() + "] " + t); };
    const size_t B = cf.block, U = B + cf.iv + 16;
    Versions vs;
    std::vector<File> fs;
    size_t nf = 1 + s.below(3);
    for (size_t i = 0; i < nf; ++i)
    {
        File f;
        f.name = "/f" + std::string(1, (char)('a' + i));
        auto before = list_tree(store);
        if (m.put(f.name, ""))
            bad("creating a file failed");
        for (auto& x : list_tree(store))
            if (std::find(before.begin(), before.end(), x) == before.end() && x.find("long_names") == std::string::npos)
                f.phys = store + "/" + x;
        fs.push_back(f);
    }
    auto snapshot = [&](File& f)
    {
        f.snaps.push_back(read_file(f.phys));
        vs.record(f.snaps.back().substr(0, 16), f.data, B);
    };
    size_t writes = nf + s.below(10);
    for (size_t i = 0; i < writes; ++i)
    {
        File& f = i < nf ? fs[i] : fs[s.below(nf)];
        if (i >= nf && s.chance(1, 4))
        {
            size_t n = s.size_near(6 * B, B);
            c.step("truncate " + f.name + " " + str(n));
            if (m.truncate(f.name, (off_t)n))
                bad("truncate failed");
            f.data.resize(n, '\0');
        }
        else
        {
            size_t off = s.size_near(i < nf ? B : 5 * B, B), n = 1 + s.size_near(4 * B, B);
            std::string d = s.bytes(n);
            c.step("write " + f.name + " " + str(off) + "+" + str(n));
            fuse_file_info fi;
            if (m.open(f.name, O_RDWR, fi))
                bad("open failed");
            if (m.write(f.name, d, (off_t)off, fi) != (int)n)
                bad("write failed");
            m.release(f.name, fi);
            if (f.data.size() < off + n)
                f.data.resize(off + n, '\0');
            f.data.replace(off, n, d);
        }
        snapshot(f);
    }
    // Unmounted, or with the files open all the time.
    bool live = s.chance(1, 3);
    std::vector<fuse_file_info> pre(nf);
    if (live)
    {
        c.step("the files stay open");
        for (size_t i = 0; i < nf; ++i)
            if (m.open(fs[i].name, O_RDWR, pre[i]))
                bad("open failed");
    }
    else
        m.close();
    size_t changes = 1 + s.below(3), effective = 0;
    for (size_t k = 0; k < changes; ++k)
    {
        File& f = fs[s.below(nf)];
        std::string p = read_file(f.phys), o = p;
        // The header length including padding is not known to the attacker, but to the most useful tampering.
        size_t blocks = (f.data.size() + B - 1) / B;
        size_t stored = f.data.empty() ? 0 : (f.data.size() / B) * U + (f.data.size() % B ? f.data.size() % B + cf.iv + 16 : 0);
        size_t H = f.snaps.back().size() - stored;
        File& g = fs[s.below(nf)];
        const std::string& src = s.pick(g.snaps);
        size_t gstored = 0;
        (void)gstored;
        auto at_block = [&](size_t b) { return H + b * U; };
        switch (s.weighted({4, 5, 3, 4, 3, 3, 3, 2, 2, 2, 2}))
        {
        case 0:
            if (!p.empty())
            {
                size_t at = s.below(p.size());
                c.step("flip a bit at " + str(at) + " of " + f.name);
                p[at] ^= (char)(1 << s.below(8));
            }
            break;
        case 1:
            if (blocks)
            {
                // A byte in one field of one block.
                size_t b = s.below(blocks), len = std::min(U, p.size() > at_block(b) ? p.size() - at_block(b) : 0);
                if (len < cf.iv + 17u)
                    break;
                size_t field = s.below(3);
                size_t at = at_block(b) + (field == 0 ? s.below(cf.iv) : field == 1 ? cf.iv + s.below(len - cf.iv - 16) : len - 1 - s.below(16));
                c.step("change byte " + str(at) + " (block " + str(b) + ", " + (field == 0 ? "nonce" : field == 1 ? "text" : "tag") + ") of " + f.name);
                p[at] = (char)(p[at] + 1 + (int)s.below(255));
            }
            break;
        case 2:
        {
            // Cut anywhere or at a block.
            size_t n = s.coin() ? s.below(p.size() + 1) : std::min(p.size(), at_block(s.below(blocks + 1)));
            c.step("cut " + f.name + " to " + str(n));
            p.resize(n);
            break;
        }
        case 3:
        {
            // One block over another, of this or another file, of the present or an earlier version.
            size_t gh = H;
            if (&g != &f)
            {
                size_t gs = g.data.empty() ? 0 : (g.data.size() / B) * U + (g.data.size() % B ? g.data.size() % B + cf.iv + 16 : 0);
                gh = g.snaps.back().size() - gs;
            }
            if (src.size() <= gh)
                break;
            size_t nb = (src.size() - gh + U - 1) / U, from = s.below(nb), to = s.below(blocks + 2);
            std::string piece = src.substr(gh + from * U, U);
            c.step("block " + str(from) + " of " + g.name + " over block " + str(to) + " of " + f.name);
            if (p.size() < at_block(to))
                p.resize(at_block(to), '\0');
            p.replace(at_block(to), std::min(piece.size(), p.size() - at_block(to)), piece);
            break;
        }
        case 4:
        {
            // Extend by zeros, random bytes or own bytes.
            size_t n = 1 + s.size_near(3 * U, U);
            std::string add = s.coin() ? std::string(n, '\0') : s.coin() ? s.bytes(n) : p.substr(p.size() > n ? p.size() - n : 0);
            c.step("append " + str(add.size()) + " bytes to " + f.name);
            p += add;
            break;
        }
        case 5:
        {
            // Zero a whole block, or a part of it.
            if (!blocks)
                break;
            size_t b = s.below(blocks), from = at_block(b), n = U;
            switch (s.below(4))
            {
            case 1:
                n = cf.iv;
                break;
            case 2:
                from += cf.iv;
                n = B;
                break;
            case 3:
                from += s.below(U);
                n = 1 + s.below(U);
                break;
            }
            c.step("zeros at " + str(from) + "+" + str(n) + " of " + f.name);
            for (size_t i = from; i < from + n && i < p.size(); ++i)
                p[i] = 0;
            break;
        }
        case 6:
        {
            // Another header.
            size_t n = s.coin() ? 16 : H;
            c.step("header of " + g.name + " on " + f.name);
            for (size_t i = 0; i < n && i < p.size() && i < src.size(); ++i)
                p[i] = src[i];
            break;
        }
        case 7:
            c.step("an earlier whole file over " + f.name);
            p = src;
            break;
        case 8:
        {
            // Swap two blocks.
            if (blocks < 2)
                break;
            size_t a = s.below(blocks), b = s.below(blocks);
            if (p.size() < at_block(std::max(a, b) + 1))
                break;
            c.step("swap blocks " + str(a) + " and " + str(b) + " of " + f.name);
            std::string x = p.substr(at_block(a), U), y = p.substr(at_block(b), U);
            p.replace(at_block(a), U, y);
            p.replace(at_block(b), U, x);
            break;
        }
        case 9:
        {
            // Insert or remove bytes: everything after moves.
            size_t at = s.coin() ? s.below(p.size() + 1) : std::min(p.size(), at_block(s.below(blocks + 1)));
            size_t n = s.coin() ? U : 1 + s.below(40);
            if (s.coin())
            {
                c.step("insert " + str(n) + " bytes at " + str(at) + " of " + f.name);
                p.insert(at, s.bytes(n));
            }
            else
            {
                c.step("remove " + str(n) + " bytes at " + str(at) + " of " + f.name);
                p.erase(at, n);
            }
            break;
        }
        default:
        {
            // The front part of one version joined to the rest of another.
            const std::string& o2 = s.pick(f.snaps);
            size_t at = s.coin() ? s.below(p.size() + 1) : std::min(p.size(), at_block(s.below(blocks + 1)));
            c.step("mix two versions of " + f.name + " at " + str(at));
            p = p.substr(0, at) + (at < o2.size() ? o2.substr(at) : "");
        }
        }
        if (p != o)
        {
            ++effective;
            write_file(f.phys, p);
        }
    }
    if (!effective)
    {
        c.label("tampering without effect");
        if (live)
            for (auto& f : fs)
                m.release(f.name, pre[(size_t)(&f - fs.data())]);
        return;
    }
    if (!live)
        m.open(store, cf);
    size_t errors = 0, reads = 0;
    for (auto& f : fs)
    {
        std::string p = read_file(f.phys);
        std::string id = live ? f.snaps.back().substr(0, 16) : p.substr(0, 16);
        // Header length (with padding) of the file this header belongs to; a header never seen has none that matters.
        size_t H = 16;
        for (auto& g : fs)
            if (!g.snaps.empty() && g.snaps.back().substr(0, 16) == id)
            {
                size_t gs = g.data.empty() ? 0 : (g.data.size() / B) * U + (g.data.size() % B ? g.data.size() % B + cf.iv + 16 : 0);
                H = g.snaps.back().size() - gs;
            }
        const bool seen = vs.v.count(id);
        fuse_file_info fi;
        int r = 0;
        if (live)
            fi = pre[(size_t)(&f - fs.data())];
        else
            r = m.open(f.name, s.coin() ? O_RDONLY : O_RDWR, fi);
        if (r)
        {
            ++errors;
            continue;
        }
        auto authentic = [&](size_t b, size_t off, const std::string& piece, bool exact_end)
        {
            // `piece` was read at `off` within block b; with exact_end it is the end of that block.
            auto& known = vs.v[id][b];
            for (auto& k : known)
                if (off + piece.size() <= k.size() && k.compare(off, piece.size(), piece) == 0 && (!exact_end || off + piece.size() == k.size()))
                    return true;
            // A hole: only zeros are stored for the whole block.
            if (piece.find_first_not_of('\0') == std::string::npos)
            {
                if (!seen && cf.pad)
                    return true;    // where its blocks begin is not known here
                std::string raw = p.size() > H + b * U ? p.substr(H + b * U, U) : "";
                if (raw.size() > cf.iv + 16u && raw.find_first_not_of('\0') == std::string::npos)
                    return true;
            }
            return false;
        };
        auto judge = [&](const std::string& d, size_t off, size_t asked, const std::string& what)
        {
            for (size_t i = 0; i < d.size();)
            {
                size_t b = (off + i) / B, in = (off + i) % B, n = std::min(B - in, d.size() - i);
                bool at_end = i + n == d.size() && d.size() < asked && in + n < B;
                if (!authentic(b, in, d.substr(i, n), at_end))
                    bad(what + ": " + str(n) + " bytes at " + str(off + i) + " of " + f.name + " are returned as valid but the file never held them there");
                i += n;
            }
        };
        for (size_t k = 0; k < 6; ++k)
        {
            size_t off = k == 0 ? 0 : s.size_near(f.data.size() + B, B), n = k == 0 ? f.data.size() + 8 * U : 1 + s.size_near(3 * B, B);
            std::string d;
            int r = m.read(f.name, d, n, (off_t)off, fi);
            ++reads;
            if (r < 0)
            {
                ++errors;
                if (r != -EIO && r != -EINVAL && r != -EFBIG && r != -EBADMSG && r != -EPERM)
                    bad("reading tampered data returned " + std::to_string(r));
            }
            else
                judge(d, off, n, "read");
        }
        if (!live)
            m.release(f.name, fi);
        // Writing into a part of a block must not make altered bytes valid.
        if (s.coin() && (live || !m.open(f.name, O_RDWR, fi)))
        {
            for (size_t k = 0; k < 2; ++k)
            {
                size_t off = s.below(f.data.size() + B), n = 1 + s.below(B);
                std::string w = s.bytes(n);
                struct stat st;
                if (m.fgetattr(f.name, st, fi))
                    continue;
                bool trunc = s.chance(1, 3);
                c.step((trunc ? "truncate to " : "write at ") + str(off) + " of " + f.name);
                // Pieces of blocks that were authentic before the change.
                auto old = vs.v[id];
                int r = trunc ? m.ftruncate(f.name, (off_t)off, fi) : m.write(f.name, w, (off_t)off, fi);
                if (r < 0)
                {
                    ++errors;
                    continue;
                }
                // The blocks touched now hold an authentic old text, or zeros, below the new bytes.
                auto& nv = vs.v[id];
                size_t size = (size_t)st.st_size;
                size_t end = trunc ? off : std::max(size, off + n);
                std::string raw_before = p;
                for (size_t b = std::min(size, off) / B; b * B < end; ++b)
                {
                    std::set<std::string> bases = old[b];
                    bases.insert("");
                    std::string raw = raw_before.size() > H + b * U ? raw_before.substr(H + b * U, U) : "";
                    if ((!seen && cf.pad) || (raw.size() > cf.iv + 16u && raw.find_first_not_of('\0') == std::string::npos))
                        bases.insert(std::string(raw.size() > cf.iv + 16u ? raw.size() - cf.iv - 16 : B, '\0'));
                    for (auto base : bases)
                    {
                        // An empty base stands for a block that did not exist before.
                        if (base.empty() && b * B < size && b * B + std::min(B, size - b * B) > b * B && !(b * B >= off && !trunc && b * B + std::min(B, size - b * B) <= off + n))
                            continue;
                        size_t len = std::min(B, end - b * B);
                        base.resize(len, '\0');
                        if (!trunc)
                            for (size_t i = 0; i < n; ++i)
                                if (off + i >= b * B && off + i < b * B + len)
                                    base[off + i - b * B] = w[i];
                        nv[b].insert(base);
                    }
                }
                p = read_file(f.phys);
                std::string d;
                size_t asked = end + B;
                int rr = m.read(f.name, d, asked, 0, fi);
                if (rr >= 0)
                    judge(d, 0, asked, "read after a change");
                else
                    ++errors;
                for (size_t b = 0; b * B < end; ++b)
                {
                    rr = m.read(f.name, d, B, (off_t)(b * B), fi);
                    if (rr >= 0)
                        judge(d, b * B, B, "read after a change");
                }
            }
            m.release(f.name, fi);
        }
        else if (live)
            m.release(f.name, fi);
        struct stat st;
        m.getattr(f.name, st);
    }
    c.label("failed calls on tampered files", errors);
    c.label("reads judged", reads);
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S03";
    p.rule = "A case writes 1 to 3 lite-format files several times (every stored version is kept), then applies 1 to 3 changes to their stored bytes: "
             "flips, changes of one field of a block, cuts, appends, blocks moved or copied within and between files and versions, zeroed "
             "parts, foreign headers, swaps, insertions, removals, mixtures of versions. Every read afterwards must fail or return, block by block, "
             "what the file with that header once held at that position (or zeros where a whole block of zeros is stored), also after "
             "further partial writes and truncations, with the files closed or open while they are changed. Non-trivial: the stored bytes really changed; distinct by choice sequence.";
    p.assumptions = {"a file is identified by its stored header: copying a whole stored file over another is not tampering with its content"};
    p.quick_cases = 120000;
    p.thorough_cases = 2000000;
    p.tests = {{"tamper", tamper, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
