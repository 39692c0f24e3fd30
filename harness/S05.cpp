// S05: nothing secret is readable in the backing store; nonces are fresh and never repeat under a key.
#include "decode.h"
#include "fsmodel.h"
#include <exception>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace vp;

static bool rich(std::string_view w)
{
    std::set<char> s(w.begin(), w.end());
    return s.size() >= 8;
}
static std::string letters(Src& s, size_t n)
{
    Rng g{s.below(1u << 30)};
    std::string r;
    for (size_t i = 0; i < n; ++i)
        r.push_back("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[g.next() % 62]);
    return r;
}
struct Secrets
{
    std::set<std::string> needles;    // byte strings that must not occur anywhere
    std::map<std::string, std::string> what;
    void add(const std::string& n, const std::string& w)
    {
        if (n.size() >= 10 && rich(n) && needles.insert(n).second)
            what[n] = w;
    }
    // A text and the start of its usual encodings.
    void text(const std::string& t, const std::string& w)
    {
        if (t.size() < 10)
            return;
        add(t.substr(0, 12), w);
        add(t.substr(t.size() - std::min<size_t>(12, t.size())), w);
        add(t.substr(t.size() / 2 - std::min<size_t>(6, t.size() / 2), 12), w);
        std::string head = t.substr(0, 15), h, H;
        for (unsigned char c : head)
        {
            char b[3];
            snprintf(b, 3, "%02x", c);
            h += b;
            snprintf(b, 3, "%02X", c);
            H += b;
        }
        add(h, w + " in hexadecimal");
        add(H, w + " in hexadecimal");
        if (head.size() == 15)
        {
            add(x_b32_encode(head), w + " in base 32");
            add(x_b64url_encode(head), w + " in base 64");
        }
    }
    void content(Src& s, const std::string& d)
    {
        if (d.size() < 16 || needles.size() > 400)
            return;
        for (size_t at : {(size_t)0, d.size() - 16, (size_t)s.below(d.size() - 15)})
            add(d.substr(at, 16), "file content");
    }
    void key(const std::string& k, const std::string& w)
    {
        for (size_t at = 0; at + 16 <= k.size(); at += 8)
            add(k.substr(at, 16), w);
    }
    void scan(const std::string& store) const
    {
        for (auto& p : raw_file_list(store))
        {
            struct stat st;
            if (lstat(p.c_str(), &st))
                continue;
            std::vector<std::pair<std::string, std::string>> blobs = {{"the stored name", p.substr(store.size())}};
            if (S_ISREG(st.st_mode))
                blobs.push_back({"the stored bytes", read_file(p)});
            else if (S_ISLNK(st.st_mode))
            {
                std::string t(16384, '\0');
                ssize_t n = readlink(p.c_str(), &t[0], t.size());
                t.resize((size_t)std::max<ssize_t>(n, 0));
                blobs.push_back({"the stored link target", t});
                std::string u;
                for (char c : t)
                    if (c != '/')
                        u += c;
                blobs.push_back({"the stored link target", u});
            }
            for (auto& x : raw_xattrs(p))
            {
                blobs.push_back({"the stored name of an attribute", x.first});
                blobs.push_back({"the stored value of an attribute", x.second});
            }
            for (auto& b : blobs)
                for (auto& n : needles)
                    if (b.second.find(n) != std::string::npos)
                        fail(what.at(n) + " " + q(n) + " is readable in " + b.first + " of " + q(p.substr(store.size())));
        }
    }
};
// All sealed units ever seen.
struct Freshness
{
    std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> by_nonce;    // (key, iv) -> (sealed, where)
    std::map<std::string, std::string> by_sealed;                                                   // sealed -> iv + where
    // By kind (block, header, attribute): values seen per byte, and the nonces.
    std::map<std::string, std::vector<std::set<unsigned char>>> bytes;
    std::map<std::string, std::set<std::string>> ivs;
    std::map<std::string, std::string> now;    // where -> iv
    size_t total = 0;
    void add(const std::vector<Seal>& v)
    {
        now.clear();
        for (auto& s : v)
        {
            now[s.where] = s.iv;
            auto it = by_nonce.find({s.key, s.iv});
            if (it == by_nonce.end())
            {
                by_nonce[{s.key, s.iv}] = {s.sealed, s.where};
                ++total;
            }
            else if (it->second.first != s.sealed || it->second.second != s.where)
                fail("nonce " + hex(s.iv) + " was used twice under one key: for " + it->second.second + " and for " + s.where);
            auto x = by_sealed.emplace(s.sealed, s.iv + s.where);
            if (!x.second && x.first->second != s.iv + s.where)
                fail("the same ciphertext appears twice: " + s.where + " and " + x.first->second.substr(s.iv.size()));
            std::string kind = s.where.substr(s.where.find(' ') + 1);
            kind = kind.substr(0, kind.find(' '));
            if (ivs[kind].insert(s.iv).second)
            {
                auto& b = bytes[kind];
                b.resize(s.iv.size());
                for (size_t i = 0; i < s.iv.size(); ++i)
                    b[i].insert((unsigned char)s.iv[i]);
            }
        }
    }
    void diverse()
    {
        for (auto& x : bytes)
        {
            size_t n = ivs[x.first].size(), need = n >= 64 ? 8 : n >= 16 ? 3 : n >= 8 ? 2 : 1;
            for (size_t i = 0; i < x.second.size(); ++i)
                if (x.second[i].size() < need)
                    fail(str(n) + " " + x.first + " nonces have only " + str(x.second[i].size()) + " value(s) at byte " + str(i) + ": they are not random");
        }
    }
};
struct Checker
{
    Ctx& c;
    Hist& h;
    Secrets sec;
    Freshness fresh;
    std::unique_ptr<FullReader> fr;
    std::unique_ptr<LiteReader> lr;
    Checker(Ctx& c_, Hist& h_) : c(c_), h(h_)
    {
        if (h.cfg.full)
            fr = std::make_unique<FullReader>(h.store, h.cfg);
        else
            lr = std::make_unique<LiteReader>(h.store, h.cfg);
        Keys k = keys_of(make_params(h.cfg));
        for (auto& x : {k.master, k.name, k.content, k.xattr, k.pad})
            if (!x.empty())
                sec.key(x, "key material");
    }
    std::vector<Seal> collect()
    {
        std::vector<std::string> keys;
        auto v = fr ? fr->seals(&keys) : lr->seals(&keys);
        std::set<std::string> d(keys.begin(), keys.end());
        if (d.size() != keys.size())
            fail("two stored files have the same keys");
        for (auto& k : keys)
            if (sec.needles.size() < 600)
                sec.key(k, "a derived key");
        fresh.add(v);
        return v;
    }
    void secrets()
    {
        bool plain = h.cfg.plain;
        for (auto& n : h.nodes)
        {
            if (n.second.type == 'f')
                sec.content(c.s, n.second.data);
            else if (n.second.type == 'l' && !plain)
                sec.text(n.second.data, "a link target");
            for (auto& x : n.second.xattr)
            {
                sec.text(x.first.substr(5), "an attribute name");
                sec.text(x.second, "an attribute value");
            }
            if (!plain)
                for (auto& k : n.second.kids)
                    sec.text(k.second.first, "a file name");
        }
    }
    void scan()
    {
        secrets();
        sec.scan(h.store);
        c.label("needles", sec.needles.size());
    }
};
static void in_thread(bool other, const std::function<void()>& f)
{
    if (!other)
        return f();
    std::exception_ptr e;
    std::thread t([&] {
        try
        {
            f();
        }
        catch (...)
        {
            e = std::current_exception();
        }
    });
    t.join();
    if (e)
        std::rethrow_exception(e);
}
static FsConfig config(Ctx& c)
{
    bool full = c.s.coin();
    FsConfig cf = gen_config(c.s, full);
    if (full)
    {
        cf.ci = c.s.chance(1, 6);
        cf.un = !cf.ci && c.s.chance(1, 6);
    }
    else if (c.s.chance(1, 8))
    {
        cf.plain = true;
        cf.threshold.reset();
        cf.suffix.clear();
    }
    return cf;
}
static void history(Ctx& c)
{
    FsConfig cf = config(c);
    HistOpts o;
    o.w_xattr = 6;
    o.w_write = 10;
    o.w_symlink = 5;
    o.w_verify = 0;
    o.w_trunc = 5;
    o.max_file = 900;
    o.max_ops = 30;
    o.names = 4;
    Hist h(c, cf, o);
    h.gen_pool();
    if (cf.ci || cf.un)
        h.pool.clear();    // exact model: only spellings that do not collide
    for (int i = 0; i < 4; ++i)
        h.pool.push_back(letters(c.s, c.s.pick({12u, 16u, 30u, 100u, 140u})));
    if (cf.ci)
        for (auto& n : h.pool)
            for (auto& ch : n)
                ch = (char)tolower(ch);
    std::sort(h.pool.begin(), h.pool.end());
    h.pool.erase(std::unique(h.pool.begin(), h.pool.end()), h.pool.end());
    h.xnames = {"user." + letters(c.s, 14), "user." + letters(c.s, 40), "user.a"};
    c.step(cf.text());
    h.m.open(h.store, cf);
    Checker k(c, h);
    int n = 2 + (int)c.s.below((uint64_t)o.max_ops);
    int links = 0;
    for (int i = 0; i < n; ++i)
    {
        in_thread(c.s.chance(1, 4), [&] { h.step(); });
        if (c.s.chance(1, 4))
        {
            // A link with a marked target.
            std::string p = h.any_dir(), t = letters(c.s, c.s.pick({14u, 25u, 70u, 200u}));
            if (c.s.coin())
                t = "/" + t + "/" + letters(c.s, 20);
            p = (p == "/" ? "" : p) + "/mark" + str((uint64_t)links++);
            int r = h.m.symlink(t, p);
            if (r == 0)
            {
                k.sec.text(t[0] == '/' && !cf.plain ? t.substr(1) : t, "a link target");
                if (cf.plain)
                    for (auto it = k.sec.needles.begin(); it != k.sec.needles.end();)
                        it = k.sec.what[*it].rfind("a link target", 0) == 0 ? k.sec.needles.erase(it) : std::next(it);
                auto par = h.parent_of(p);
                int id = h.add(par.first, par.second, 'l');
                h.nodes[id].data = t;
            }
        }
        k.collect();
        k.secrets();
        if (c.s.chance(1, 5))
            k.scan();
    }
    k.scan();
    h.close_all();
    h.remount();
    k.collect();
    k.scan();
    k.fresh.diverse();
    c.label("sealed units", k.fresh.total);
    c.nontrivial = k.fresh.total >= 15 && k.sec.needles.size() >= 30;
}
// The same plaintext over and over: in one write, in other blocks, files, versions, threads and mounts.
static void repeat(Ctx& c)
{
    FsConfig cf = config(c);
    Hist h(c, cf, HistOpts());
    Checker k(c, h);
    c.step(cf.text());
    h.m.open(h.store, cf);
    std::string d = c.s.bytes(cf.block * (1 + c.s.below(6)) + c.s.pick({0u, 1u, 7u}));
    d = d.substr(0, 6000);
    std::string same = d.substr(0, cf.block);
    while (same.size() < std::min<size_t>(d.size() * 3, 4000))
        same += d.substr(0, cf.block);
    int files = 1 + (int)c.s.below(5), rounds = 2 + (int)c.s.below(6);
    int units = 0;
    for (int r = 0; r < rounds; ++r)
    {
        for (int f = 0; f < files; ++f)
            in_thread(c.s.chance(1, 3),
                      [&]
                      {
                          std::string p = "/f" + str((uint64_t)f);
                          struct stat st;
                          fuse_file_info fi;
                          int rc = h.m.getattr(p, st) == 0 ? h.m.open(p, O_RDWR, fi) : h.m.create(p, 0644, fi);
                          h.expect("open", rc, {0});
                          const std::string& v = c.s.coin() ? d : same;
                          size_t off = c.s.chance(1, 3) ? cf.block : 0;
                          int way = (int)c.s.below(4);
                          if (way == 3 && off == 0)
                              h.expect("ftruncate", h.m.ftruncate(p, 0, fi), {0});
                          if (way == 2)
                              for (size_t i = 0; i < v.size(); i += 40)
                                  h.expect("write", h.m.write(p, v.substr(i, 40), (off_t)(off + i), fi), {(int)std::min<size_t>(40, v.size() - i)});
                          else
                              h.expect("write", h.m.write(p, v, (off_t)off, fi), {(int)v.size()});
                          h.expect("release", h.m.release(p, fi), {0});
                          k.collect();
                          ++units;
                      });
        if (c.s.chance(1, 2))
            h.remount();
        if (c.s.chance(1, 2))
        {
            std::string v = d.substr(0, c.s.pick({0u, 1u, 16u, 200u}));
            for (int i = 0; i < 5; ++i)
            {
                h.expect("setxattr", h.m.setxattr("/f0", "user.x" + str((uint64_t)(i % 2)), v), {0});
                k.collect();
            }
        }
    }
    // Rewriting with the same data must change every stored block of the range.
    std::string v;
    int rc = h.m.get("/f0", v);
    h.expect("read", rc, {0});
    auto stored = [&]
    {
        std::map<std::string, std::string> r;
        for (auto& s : (k.fr ? k.fr->seals() : k.lr->seals()))
            r[s.where] = s.iv + s.sealed;
        return r;
    };
    auto a = stored();
    fuse_file_info fi;
    h.expect("open", h.m.open("/f0", O_RDWR, fi), {0});
    h.expect("write", h.m.write("/f0", v, 0, fi), {(int)v.size()});
    h.expect("release", h.m.release("/f0", fi), {0});
    auto b = stored();
    size_t changed = 0;
    for (auto& x : a)
        if (x.first.find(" block ") != std::string::npos && b.count(x.first) && b[x.first] != x.second)
            ++changed;
    size_t need = (v.size() + cf.block - 1) / cf.block;
    if (changed < need)
        fail("[" + cf.text() + "] writing the same " + str(v.size()) + " bytes again changed only " + str(changed) + " of " + str(need) + " stored blocks");
    k.collect();
    k.fresh.diverse();
    c.label("sealed units", k.fresh.total);
    c.nontrivial = k.fresh.total >= 10 && units >= 2;
}
// Many files: identifiers, first nonces and padding bytes must all vary.
static void many(Ctx& c)
{
    FsConfig cf = config(c);
    Hist h(c, cf, HistOpts());
    Checker k(c, h);
    c.step(cf.text());
    h.m.open(h.store, cf);
    int n = 66 + (int)c.s.below(20);
    std::string d = c.s.bytes(1 + c.s.below(2 * cf.block));
    for (int i = 0; i < n; ++i)
        in_thread(c.s.chance(1, 8),
                  [&]
                  {
                      std::string p = "/f" + str((uint64_t)i);
                      h.expect("put", h.m.put(p, d), {0});
                      if (c.s.chance(1, 10))
                          h.remount();
                  });
    k.collect();
    k.fresh.diverse();
    std::set<std::string> ids;
    if (cf.full)
        for (auto& x : k.fr->ids_on_disk())
        {
            std::string r;
            for (size_t i = 0; i < x.size(); i += 2)
                r.push_back((char)std::stoi(x.substr(i, 2), nullptr, 16));
            if (r != std::string(32, '\0'))
                ids.insert(r);
        }
    else
        for (auto& p : raw_file_list(h.store))
        {
            std::string r = read_file(p);
            if (p.find(".long_names") == std::string::npos && r.size() >= 16)
                ids.insert(r.substr(0, 16));
        }
    if (ids.size() != (size_t)n)
        fail("[" + cf.text() + "] " + str((uint64_t)n) + " files have only " + str(ids.size()) + " distinct identifiers");
    for (size_t b = 0; b < ids.begin()->size(); ++b)
    {
        std::set<char> v;
        for (auto& x : ids)
            v.insert(x[b]);
        if (v.size() < 8)
            fail("[" + cf.text() + "] byte " + str(b) + " of the identifiers of " + str(ids.size()) + " files has only " + str(v.size()) + " values");
    }
    c.nontrivial = k.fresh.total >= 64;
    c.label("sealed units", k.fresh.total);
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S05";
    p.rule = "A case draws a format, sizes, name options and (history) up to 30 random tree, content, link and attribute calls, a quarter "
             "of them from fresh threads; after each call every sealed unit in the store is located by position (block, header, attribute) and "
             "its (key, nonce, ciphertext) added to a history-wide record: a nonce seen twice under a key, a ciphertext seen twice, or two files with "
             "one key is a violation; and the store's names, bytes, link targets, attributes and databases are searched for 12 to 16-byte pieces of "
             "every name, content, target, attribute and key (also in hexadecimal, base 32 and base 64). (repeat) the same plaintext in other blocks, files, "
             "versions, mounts; (many) over 64 files, every byte of identifiers and nonces must vary. Non-trivial: at least 15 (repeat 10, "
             "many 64) sealed units and 30 needles; distinct by choice sequence.";
    p.assumptions = {"randomness is judged by collisions and per-byte variety, not by statistical strength"};
    p.quick_cases = 5000;
    p.thorough_cases = 200000;
    p.tests = {{"history", history, 12}, {"repeat", repeat, 8}, {"many", many, 2}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
