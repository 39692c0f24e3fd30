// S23: the log shows no content, attribute value, link target or key unless allowed, and changes nothing.
#include "fsdrv.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
#include <unordered_set>
using namespace vp;
using securefs::LoggingLevel;
namespace
{
enum Kind
{
    CREATE,
    OPEN,
    RELEASE,
    READ,
    WRITE,
    TRUNC,
    FTRUNC,
    GETATTR,
    FGETATTR,
    MKDIR,
    RMDIR,
    UNLINK,
    SYMLINK,
    READLINK,
    LINK,
    RENAME,
    CHMOD,
    CHOWN,
    UTIMENS,
    STATFS,
    SETX,
    GETX,
    LISTX,
    REMX,
    LS,
    FLUSH,
    FSYNC,
    IOCTL,
    KINDS
};
const char* const kNames[] = {"create", "open", "release", "read", "write", "truncate", "ftruncate", "getattr", "fgetattr", "mkdir",
                              "rmdir", "unlink", "symlink", "readlink", "link", "rename", "chmod", "chown", "utimens", "statfs",
                              "setxattr", "getxattr", "listxattr", "removexattr", "readdir", "flush", "fsync", "ioctl"};
struct Op
{
    Kind k;
    std::string a, b;    // paths
    std::string d;       // secret payload
    uint64_t off, n, h;
    int flags;
};
// Secrets are made of letters and digits, so that escaping leaves them as they are.
std::string secret(Rng& g, size_t n)
{
    static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    std::string r(n, ' ');
    for (auto& c : r)
        c = al[g.next() % 62];
    return r;
}
const size_t W = 8;
struct Needles
{
    std::unordered_set<std::string> w;
    void add(const std::string& v)
    {
        for (size_t i = 0; i + W <= v.size(); ++i)
            w.insert(v.substr(i, W));
    }
    // Empty when nothing was found.
    std::string find(const std::string& log, std::string& how) const
    {
        for (size_t i = 0; i + W <= log.size(); ++i)
            if (w.count(log.substr(i, W)))
                return how = "in clear", log.substr(i, W);
        // Runs of hexadecimal digits, with or without separators, decoded.
        for (int sep = 0; sep < 2; ++sep)
            for (int odd = 0; odd < 2; ++odd)
            {
                std::string b;
                for (size_t i = 0; i + 1 < log.size();)
                {
                    int x = hexv(log[i]), y = hexv(log[i + 1]);
                    if (x < 0 || y < 0 || (odd && b.empty() && i > 0 && hexv(log[i - 1]) < 0))
                    {
                        if (sep && !b.empty() && x < 0)
                        {
                            ++i;
                            if (i + 1 < log.size() && hexv(log[i]) >= 0)
                                continue;
                        }
                        else
                            ++i;
                        b.clear();
                        continue;
                    }
                    b.push_back((char)(x * 16 + y));
                    i += 2;
                    if (b.size() >= W && w.count(b.substr(b.size() - W)))
                        return how = "in hexadecimal", b.substr(b.size() - W);
                }
            }
        // Base64 runs.
        static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        for (int shift = 0; shift < 4; ++shift)
        {
            std::string b;
            unsigned acc = 0, bits = 0;
            int skip = shift;
            for (char ch : log)
            {
                size_t v = al.find(ch);
                if (v == std::string::npos)
                {
                    b.clear();
                    bits = acc = 0;
                    skip = shift;
                    continue;
                }
                if (skip > 0)
                {
                    --skip;
                    continue;
                }
                acc = (acc << 6 | (unsigned)v) & 0xFFFF;
                bits += 6;
                if (bits >= 8)
                {
                    bits -= 8;
                    b.push_back((char)(acc >> bits));
                    if (b.size() >= W && w.count(b.substr(b.size() - W)))
                        return how = "in base64", b.substr(b.size() - W);
                }
            }
        }
        return "";
    }
    static int hexv(char c)
    {
        return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    }
};
std::string parent(const std::string& p) { return p.rfind('/') ? p.substr(0, p.rfind('/')) : "/"; }

struct Result
{
    int r;
    std::string data;
    bool operator==(const Result& o) const { return r == o.r && data == o.data; }
};
struct Runner
{
    Mount m;
    struct H
    {
        fuse_file_info fi;
        std::string p;
    };
    std::vector<H> hs;
    Result run(const Op& o)
    {
        Result R{0, ""};
        H* h = hs.empty() ? nullptr : &hs[o.h % hs.size()];
        switch (o.k)
        {
        case CREATE:
        case OPEN:
        {
            H n{};
            n.p = o.a;
            n.fi.flags = o.flags;
            R.r = o.k == CREATE ? m.create(o.a, 0644, n.fi) : m.open(o.a, o.flags, n.fi);
            if (!R.r)
                hs.push_back(n);
            break;
        }
        case RELEASE:
            if (h)
            {
                R.r = m.release(h->p, h->fi);
                hs.erase(hs.begin() + (h - hs.data()));
            }
            break;
        case READ:
            if (h && (h->fi.flags & O_ACCMODE) != O_WRONLY)
                R.r = m.read(h->p, R.data, o.n, (off_t)o.off, h->fi);
            break;
        case WRITE:
            if (h && (h->fi.flags & O_ACCMODE) != O_RDONLY)
                R.r = m.write(h->p, o.d, (off_t)o.off, h->fi);
            break;
        case FTRUNC:
            if (h && (h->fi.flags & O_ACCMODE) != O_RDONLY)
                R.r = m.ftruncate(h->p, (off_t)o.off, h->fi);
            break;
        case TRUNC:
        {
            struct stat st;
            if (!m.getattr(o.a, st) && !S_ISREG(st.st_mode))
                break;
            R.r = m.truncate(o.a, (off_t)o.off);
            break;
        }
        case GETATTR:
        case FGETATTR:
        {
            struct stat st;
            memset(&st, 0, sizeof st);
            if (o.k == FGETATTR && h)
                R.r = m.fgetattr(h->p, st, h->fi);
            else
                R.r = m.getattr(o.a, st);
            if (!R.r)
                R.data = str(st.st_mode) + " " + str(st.st_nlink) + (S_ISDIR(st.st_mode) ? "" : " " + str((uint64_t)st.st_size));
            break;
        }
        case MKDIR:
            R.r = m.mkdir(o.a, 0755);
            break;
        case RMDIR:
        {
            struct stat st;
            if (!m.getattr(o.a, st) && !S_ISDIR(st.st_mode))
                break;
            R.r = m.rmdir(o.a);
            break;
        }
        case UNLINK:
        {
            struct stat st;
            if (!m.getattr(o.a, st) && S_ISDIR(st.st_mode))
                break;
            R.r = m.unlink(o.a);
            break;
        }
        case SYMLINK:
            R.r = m.symlink(o.d, o.a);
            break;
        case READLINK:
            R.r = m.readlink(o.a, R.data);
            break;
        case LINK:
        {
            struct stat st;
            if (!m.getattr(o.a, st) && S_ISDIR(st.st_mode))
                break;
            R.r = m.link(o.a, o.b);
            break;
        }
        case RENAME:
        {
            struct stat x, y;
            if (o.a == o.b || o.b.compare(0, o.a.size() + 1, o.a + "/") == 0 || o.a.compare(0, o.b.size() + 1, o.b + "/") == 0)
                break;
            if (!m.getattr(o.a, x) && !m.getattr(o.b, y) && S_ISDIR(x.st_mode) != S_ISDIR(y.st_mode))
                break;
            R.r = m.rename(o.a, o.b);
            break;
        }
        case CHMOD:
        {
            struct stat st;
            if (!m.getattr(o.a, st) && S_ISLNK(st.st_mode))
                break;
            R.r = m.chmod(o.a, 0700);
            break;
        }
        case CHOWN:
            R.r = m.chown(o.a, (uid_t)-1, (gid_t)-1);
            break;
        case UTIMENS:
        {
            timespec ts[2] = {{(time_t)o.off, 0}, {(time_t)o.n, 0}};
            R.r = m.utimens(o.a, ts);
            break;
        }
        case STATFS:
        {
            struct statvfs sv;
            R.r = m.statfs(o.a, sv);
            break;
        }
        case SETX:
            if (m.f.setxattr)
                R.r = m.setxattr(o.a, "user." + o.b.substr(1), o.d, o.flags & (XATTR_CREATE | XATTR_REPLACE));
            break;
        case GETX:
            if (m.f.getxattr)
                R.r = m.getxattr(o.a, "user." + o.b.substr(1), R.data, o.n);
            break;
        case LISTX:
            if (m.f.listxattr)
            {
                std::vector<std::string> v;
                R.r = m.listxattr(o.a, v);
                std::sort(v.begin(), v.end());
                for (auto& x : v)
                    R.data += x + "\n";
            }
            break;
        case REMX:
            if (m.f.removexattr)
                R.r = m.removexattr(o.a, "user." + o.b.substr(1));
            break;
        case LS:
        {
            std::vector<DirEnt> v;
            struct stat st;
            if (!m.getattr(o.a, st) && S_ISLNK(st.st_mode))
                break;
            R.r = m.ls(o.a, v);
            std::vector<std::string> names;
            for (auto& e : v)
                names.push_back(e.name);
            std::sort(names.begin(), names.end());
            for (auto& x : names)
                R.data += x + "\n";
            break;
        }
        case FLUSH:
            if (h)
                R.r = m.flush(h->p, h->fi);
            break;
        case FSYNC:
            if (h)
                R.r = m.fsync(h->p, o.n % 2, h->fi);
            break;
        case IOCTL:
            if (h && m.f.ioctl)
            {
                m.enter();
                R.r = m.f.ioctl(h->p.c_str(), 0x5401, nullptr, &h->fi, 0, nullptr);
            }
            break;
        default:
            break;
        }
        return R;
    }
    void close()
    {
        for (auto& h : hs)
            m.release(h.p, h.fi);
        hs.clear();
        m.close();
    }
};
const std::vector<std::string> kComps = {"a", "b", "c", "dir", "long-name-of-forty-characters-or-even-more", "A", "\xC3\xA9", "\xFF", "e\xCC\x81"};
std::vector<Op> gen_ops(Src& s, Rng& g, int n)
{
    std::vector<Op> r;
    auto path = [&]
    {
        std::string p;
        for (int d = 1 + (int)s.weighted({6, 3, 1}); d > 0; --d)
            p += "/" + s.pick(kComps);
        return p;
    };
    for (int i = 0; i < n; ++i)
    {
        Op o{};
        static const Kind heavy[] = {CREATE, WRITE, READ, SYMLINK, READLINK, SETX, GETX, LISTX, MKDIR};
        o.k = s.chance(1, 2) ? heavy[s.below(9)] : (Kind)s.below(KINDS);
        o.a = path();
        o.b = path();
        o.off = s.below(300);
        o.n = s.below(400);
        o.h = s.below(8);
        o.flags = s.pick({(int)O_RDWR, (int)O_RDONLY, (int)O_WRONLY, O_RDWR | O_TRUNC}) | (o.k == SETX ? (int)s.pick({0, 0, 1, 2}) : 0);
        if (o.k == CREATE)
            o.flags = O_RDWR | O_CREAT;
        if (o.k == WRITE || o.k == SETX)
            o.d = secret(g, s.pick({(size_t)20, (size_t)8 + s.below(300)}));
        if (o.k == SYMLINK)
        {
            o.d = secret(g, 10 + s.below(80));
            if (s.chance(1, 3))
                o.d = secret(g, 10) + "/../" + o.d;
            else if (s.chance(1, 4))
                o.d = "./" + o.d;
        }
        if (o.k == GETX && s.coin())
            o.n = 65536;
        r.push_back(o);
    }
    return r;
}
std::string descr(const Op& o)
{
    return std::string(kNames[o.k]) + " " + q(o.a) + (o.k == RENAME || o.k == LINK || o.k == SETX || o.k == GETX ? " " + q(o.b) : "") + " h" + str(o.h)
        + " off " + str(o.off) + " n " + str(o.n) + " payload " + q(o.d);
}
// Changes something in the backing store at random.
void damage(Src& s, const std::string& store)
{
    auto l = list_tree(store);
    if (l.empty())
        return;
    std::string f = store + "/" + s.pick(l);
    struct stat st;
    if (lstat(f.c_str(), &st))
        return;
    if (S_ISREG(st.st_mode))
        switch (s.below(4))
        {
        case 0:
        {
            std::string d = read_file(f);
            if (!d.empty())
            {
                d[s.below(d.size())] ^= (char)(1 << s.below(8));
                write_file(f, d);
            }
            break;
        }
        case 1:
            if (truncate(f.c_str(), (off_t)s.below((uint64_t)st.st_size + 1)))
                break;
            break;
        case 2:
            unlink(f.c_str());
            break;
        default:
        {
            // An attribute value or its tag.
            char names[4096];
            ssize_t k = listxattr(f.c_str(), names, sizeof names);
            if (k > 0)
            {
                char v[65536];
                ssize_t z = getxattr(f.c_str(), names, v, sizeof v);
                if (z > 0)
                {
                    v[s.below((uint64_t)z)] ^= 1;
                    setxattr(f.c_str(), names, v, (size_t)z, 0);
                }
            }
        }
        }
    else if (S_ISLNK(st.st_mode))
    {
        unlink(f.c_str());
        if (symlink("nonsense", f.c_str()))
            return;
    }
}
struct LogLine
{
    std::string level;
};
std::string level_name(LoggingLevel l) { return securefs::stringify(l); }
int level_of(const std::string& line)
{
    for (int i = 0; i <= 4; ++i)
    {
        std::string t = "[" + level_name((LoggingLevel)i) + "] ";
        if (line.compare(0, t.size(), t) == 0)
            return i;
    }
    return -1;
}
void one(Ctx& c, bool full)
{
    FsConfig cf = gen_config(c.s, full);
    if (full)
    {
        cf.ci = c.s.chance(1, 4);
        cf.un = c.s.chance(1, 4);
    }
    else
    {
        size_t k = c.s.below(6);
        cf.fold = k == 1 || k == 2;
        cf.nfc = k == 2 || k == 3;
        cf.plain = k == 4;
    }
    cf.verify = !c.s.chance(1, 6);
    auto params = make_params(cf);
    auto mo = make_mount_options(cf);
    bool allowed = c.s.chance(1, 4), tamper = c.s.chance(1, 3), idle = c.s.chance(1, 6);
    mo.set_allow_sensitive_logging(allowed);
    if (idle)
        mo.set_max_idle_seconds(1000);
    auto level = (LoggingLevel)c.s.below(5);
    Rng g{c.s.below(1u << 30)};
    auto setup = gen_ops(c.s, g, (int)c.s.below(25));
    auto ops = gen_ops(c.s, g, 4 + (int)c.s.below(40));
    c.step(cf.text() + " level " + level_name(level) + (allowed ? " allowed" : "") + (tamper ? " tamper" : ""));
    // Names known to the listings only.
    std::vector<std::string> hidden;
    for (size_t i = 0; i < 3; ++i)
        hidden.push_back(secret(g, 12 + c.s.below(20)));
    auto prepare = [&](Runner& r)
    {
        for (auto& o : setup)
            r.run(o);
        for (auto& h : hidden)
        {
            r.m.put("/" + h, "x");
            if (r.m.f.setxattr)
                for (auto& p : {"/", "/a", "/dir"})
                    r.m.setxattr(p, "user." + h, "v");
        }
        for (auto& h : r.hs)
            r.m.release(h.p, h.fi);
        r.hs.clear();
    };
    // Without a log.
    std::vector<Result> want;
    if (!tamper)
    {
        Runner r;
        securefs::global_logger.reset();
        r.m.open(make_dir(c.dir + "/A"), params, mo);
        prepare(r);
        for (auto& o : ops)
            want.push_back(r.run(o));
        r.close();
    }
    // With it.
    std::string store = make_dir(c.dir + "/B"), logf = c.dir + "/log";
    {
        Runner r;
        securefs::global_logger.reset();
        r.m.open(store, params, mo);
        prepare(r);
        r.close();
    }
    Needles need;
    auto add_key = [&](const std::string& k)
    {
        if (k.size() >= W)
            need.add(k);
    };
    if (full)
        add_key(params.full_format_params().master_key());
    else
    {
        auto& lp = params.lite_format_params();
        add_key(lp.name_key());
        add_key(lp.content_key());
        add_key(lp.xattr_key());
        add_key(lp.padding_key());
    }
    if (!allowed)
        for (auto* v : {&setup, &ops})
            for (auto& o : *v)
                if (!(cf.plain && o.k == SYMLINK))    // stored in clear as well
                    need.add(o.d);
    if (!allowed)
        for (auto& h : hidden)
            need.add(h);
    size_t lines = 0, done = 0, leaksafe = 0;
    auto check = [&](const std::string& when)
    {
        std::string log;
        if (!try_read_file(logf, log))
            return;
        std::string how, w = need.find(log, how);
        if (!w.empty())
        {
            size_t at = log.find(w);
            std::string line;
            if (at != std::string::npos)
            {
                size_t b = log.rfind('\n', at);
                b = b == std::string::npos ? 0 : b + 1;
                line = log.substr(b, std::min<size_t>(600, log.find('\n', at) - b));
            }
            fail("[" + cf.text() + "] " + when + ": the log shows " + how + " the secret piece " + q(w) + ": " + line);
        }
        size_t b = 0;
        while (b < log.size())
        {
            size_t e = log.find('\n', b);
            std::string line = log.substr(b, e - b);
            int l = level_of(line);
            if (l >= 0)
            {
                ++lines;
                c.label("line " + level_name((LoggingLevel)l));
                if (l < (int)level)
                    fail("[" + cf.text() + "] " + when + ": a line below the level " + level_name(level) + " was logged: " + line.substr(0, 300));
            }
            b = e == std::string::npos ? log.size() : e + 1;
        }
        ++leaksafe;
    };
    {
        securefs::global_logger = securefs::Logger::create_file_logger(logf);
        securefs::global_logger->set_level(level);
        struct Off
        {
            ~Off() { securefs::global_logger.reset(); }
        } off;
        Runner r;
        r.m.open(store, params, mo);
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (tamper && c.s.chance(1, 3))
                damage(c.s, store);
            auto& o = ops[i];
            std::string d = descr(o);
            c.step(d);
            if (truncate(logf.c_str(), 0))
                fail("the log file vanished");
            Result got = r.run(o);
            c.label(std::string(kNames[o.k]) + (got.r >= 0 ? "" : " failing"));
            done += got.r >= 0;
            if (!tamper && !(got == want[i]))
                fail("[" + cf.text() + "] " + d + " returns " + std::to_string(got.r) + " " + q(got.data) + " while logging and " + std::to_string(want[i].r) + " "
                     + q(want[i].data) + " without a log");
            check("after " + d);
            // The allowed trace shows what was passed.
            if (allowed && level == LoggingLevel::kLogTrace && got.r >= 0)
            {
                std::string log;
                try_read_file(logf, log);
                std::string show;
                if ((o.k == WRITE && got.r > 0) || (o.k == SETX && r.m.f.setxattr) || o.k == SYMLINK)
                    show = o.d;
                else if (o.k == READ && got.r > 0)
                    show = got.data.substr(0, std::min<size_t>(got.data.size(), got.data.find('\0')));
                else if (o.k == GETX && got.r > 0 && o.n)
                    show = got.data;
                else if (o.k == CREATE || o.k == MKDIR || o.k == UNLINK)
                    show = o.a.size() < 4 && (unsigned char)o.a[1] < 128 ? o.a : "";
                for (char ch : show)
                    if (!isalnum((unsigned char)ch) && ch != '/' && ch != '.')
                    {
                        show.clear();    // would be escaped
                        break;
                    }
                if (!show.empty() && log.find(show) == std::string::npos)
                    fail("[" + cf.text() + "] after " + d + " with sensitive logging allowed the trace lacks " + q(show));
                if (!show.empty())
                    c.label("shown");
            }
        }
        if (truncate(logf.c_str(), 0))
            fail("the log file vanished");
        r.close();
        check("after unmounting");
    }
    c.label(allowed ? "allowed" : "not allowed");
    c.nontrivial = !allowed && done >= 4 && lines > 0;
}
void lite(Ctx& c) { one(c, false); }
void full(Ctx& c) { one(c, true); }
}    // namespace
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S23";
    p.rule = "A case prepares a mount of random settings without a log and then makes 4 to 43 calls of all kinds, failing ones and, in a third of the "
             "cases, ones on damaged storage, at a random log level with sensitive logging allowed or not. After each call the log is searched for every "
             "8-byte piece of all contents, attribute values, link targets, keys and names never passed to a call, in clear, hexadecimal and base64. "
             "Results equal those of the same calls on another mount without a log. Non-trivial: not allowed, at least 4 calls succeeded, lines were logged.";
    p.assumptions = {"with plain-text names, link targets are no secret", "paths and attribute names passed to a call may be logged with it: the log option documents so"};
    p.quick_cases = 12000;
    p.thorough_cases = 200000;
    p.tests = {{"lite", lite, 1}, {"full", full, 1}};
    p.unprivileged = false;
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
