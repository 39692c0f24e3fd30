// S26: a full-format repository is never mounted twice at once, a mount in vain changes nothing, and nothing stays
// locked. Every mount runs in a process of its own, whose operations on the repository can be held up one by one.
#include "decode.h"
#include "fault.h"
#include "fsdrv.h"
#include <csignal>
#include <cstring>
#include <filesystem>
#include <set>
#include <linux/capability.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
using namespace vp;

static const char* LOCK = "/.securefs.lock";
// --- The process with the mounts. It reads commands, one a line, and answers each with a line "=result".
// While steps are on, each operation on the repository is announced with "@kind path" and waits for a line.
namespace
{
// Another user's process, which may do with files what it likes, but not signal others' processes. Only where the
// check itself may still end such a process.
bool get_caps(__user_cap_data_struct d[2])
{
    __user_cap_header_struct h{_LINUX_CAPABILITY_VERSION_3, 0};
    return syscall(SYS_capget, &h, d) == 0;
}
bool can_be_others()
{
    __user_cap_data_struct d[2];
    const unsigned need = 1u << CAP_KILL | 1u << CAP_SETUID | 1u << CAP_DAC_OVERRIDE | 1u << CAP_FOWNER;
    return get_caps(d) && (d[0].effective & need) == need;
}
void become(unsigned uid)
{
    __user_cap_data_struct d[2];
    if (prctl(PR_SET_KEEPCAPS, 1) || (uid && setresuid(uid, uid, uid)) || !get_caps(d))
        _exit(5);
    d[0].permitted &= ~(1u << CAP_KILL);
    d[0].effective = d[0].permitted;
    d[1].effective = d[1].permitted;
    __user_cap_header_struct h{_LINUX_CAPABILITY_VERSION_3, 0};
    if (syscall(SYS_capset, &h, d))
        _exit(5);
}
struct Server
{
    int fd;
    std::string dir;
    FsConfig cf;
    std::string rbuf;
    std::string line()
    {
        for (;;)
        {
            size_t e = rbuf.find('\n');
            if (e != rbuf.npos)
            {
                std::string r = rbuf.substr(0, e);
                rbuf.erase(0, e + 1);
                return r;
            }
            char b[512];
            ssize_t n = ::read(fd, b, sizeof b);
            if (n <= 0)
                _exit(3);
            rbuf.append(b, (size_t)n);
        }
    }
    void say(const std::string& v)
    {
        std::string t = v + "\n";
        if (::write(fd, t.data(), t.size()) != (ssize_t)t.size())
            _exit(4);
    }
    // Steps: 0 none, 1 the lock file only, 2 all.
    int steps = 0;
    long fail_at = -1, count = 0;
    int fail_err = 0;    // 0: end the process
    std::string changed;
    fault::Verdict hook(const fault::Op& op)
    {
        fault::Verdict v;
        if (op.kind == fault::READDIR || op.kind == fault::OPENDIR)
            return v;
        if (fail_at >= 0 && count++ == fail_at)
        {
            if (!fail_err)
                _exit(9);
            v.err = fail_err;
            return v;
        }
        bool lock = op.path == LOCK || op.path == std::string(LOCK) + " (deleted)";
        if (op.mutates && !lock)
            changed = std::string(fault::kind_name(op.kind)) + " " + op.path;
        if (steps == 2 || (steps == 1 && lock))
        {
            say("@" + std::string(fault::kind_name(op.kind)) + " " + op.path + (op.mutates && !lock ? " !" : ""));
            if (line() == "die")
                _exit(9);
        }
        return v;
    }
    [[noreturn]] void run()
    {
        signal(SIGPIPE, SIG_DFL);
        alarm(100);
        Mount m[2];
        fuse_file_info held{};
        std::string held_name;
        fault::Armed armed(dir, [this](const fault::Op& op) { return hook(op); });
        for (;;)
        {
            std::string l = line();
            std::vector<std::string> w;
            for (size_t i = 0; i < l.size();)
            {
                size_t e = std::min(l.find(' ', i), l.size());
                w.push_back(l.substr(i, e - i));
                i = e + 1;
            }
            std::string r = "ok";
            Mount& x = m[w.size() > 1 ? atoi(w[1].c_str()) & 1 : 0];
            if (w[0] == "steps")
            {
                steps = atoi(w[1].c_str());
                continue;
            }
            if (w[0] == "fault")
            {
                fail_at = atol(w[1].c_str());
                fail_err = atoi(w[2].c_str());
                count = 0;
                continue;
            }
            if (w[0] == "open")
            {
                changed.clear();
                try
                {
                    x.open(dir, cf);
                }
                catch (const std::exception& e)
                {
                    r = std::string("no ") + e.what();
                    x.close();
                }
                if (r != "ok")
                    r += "|" + changed;
            }
            else if (w[0] == "close")
                x.close();
            else if (w[0] == "put")
                r = std::to_string(x.put("/" + w[2], w[3]));
            else if (w[0] == "hold")
            {
                // Leaves the file open: it is flushed when unmounting.
                int e = x.create("/" + w[2], 0644, held);
                if (e == 0)
                    e = x.write("/" + w[2], w[3], 0, held);
                r = std::to_string(e < 0 ? e : 0);
                held_name = w[2];
            }
            else if (w[0] == "dump")
            {
                r = dump_tree(x);
                for (char& ch : r)
                    if (ch == '\n')
                        ch = '\1';
            }
            else if (w[0] == "exit")
                _exit(0);
            count = 0;
            fail_at = -1;
            for (char& ch : r)
                if (ch == '\n')
                    ch = ' ';
            say("=" + r);
        }
    }
};
struct Child
{
    pid_t pid = -1;
    int fd = -1;
    std::string buf;
    Child() = default;
    Child(const Child&) = delete;
    // user: 0 stays what it is, otherwise the process is another user's.
    void start(const std::string& dir, const FsConfig& cf, int user)
    {
        int sv[2];
        VREQ(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0, "socketpair");
        fflush(nullptr);
        pid = fork();
        if (pid == 0)
        {
            ::close(sv[0]);
            if (user)
                become(60000u + (unsigned)user);
            Server sr{sv[1], dir, cf};
            sr.run();
        }
        ::close(sv[1]);
        fd = sv[0];
    }
    void send(const std::string& l)
    {
        std::string t = l + "\n";
        if (::send(fd, t.data(), t.size(), MSG_NOSIGNAL) != (ssize_t)t.size())
            fail("internal: the mounting process is gone");
    }
    // False when nothing comes in time.
    bool recv(std::string& l, int ms)
    {
        for (;;)
        {
            size_t e = buf.find('\n');
            if (e != buf.npos)
            {
                l = buf.substr(0, e);
                buf.erase(0, e + 1);
                return true;
            }
            pollfd p{fd, POLLIN, 0};
            if (poll(&p, 1, ms) <= 0)
                return false;
            char b[4096];
            ssize_t n = ::read(fd, b, sizeof b);
            if (n <= 0)
            {
                l = "gone";
                return true;
            }
            buf.append(b, (size_t)n);
        }
    }
    int reap()
    {
        int st = 0;
        if (pid > 0)
            waitpid(pid, &st, 0);
        pid = -1;
        if (fd >= 0)
            ::close(fd);
        fd = -1;
        buf.clear();
        return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    }
    std::string call(const std::string& l)
    {
        send(l);
        std::string r;
        if (!recv(r, 60000))
            fail("does not end: " + l);
        if (r == "gone")
        {
            int rc = reap();
            if (rc < 0 || rc != 9)
                fail(l + ": the process ends with " + std::to_string(rc));
            return r;
        }
        return r.substr(1);
    }
    ~Child()
    {
        if (pid > 0)
        {
            kill(pid, SIGKILL);
            reap();
        }
    }
};
std::map<std::string, std::string> raw(const std::string& dir)
{
    std::map<std::string, std::string> r;
    for (auto& f : raw_file_list(dir))
        r[f] = std::filesystem::is_regular_file(f) ? read_file(f) : "dir";
    return r;
}
std::string differs(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
    for (auto& [f, v] : a)
        if (!b.count(f))
            return "removes " + q(f);
        else if (b.at(f) != v)
            return "alters " + q(f);
    for (auto& [f, v] : b)
        if (!a.count(f))
            return "adds " + q(f);
    return "";
}
std::string lock_junk(Src& s, std::string& text)
{
    // A process that has ended for sure.
    pid_t p = fork();
    if (p == 0)
        _exit(0);
    waitpid(p, nullptr, 0);
    std::string dead = std::to_string(p), r;
    switch (s.below(7))
    {
    case 0:
        text = "empty";
        break;
    case 1:
        r = text = "junk";
        break;
    case 2:
        r = text = "-5";
        break;
    case 3:
        r = text = "99999999999999999999999";
        break;
    case 4:
        r = dead + "\n";
        text = "of an ended process, with a line end";
        break;
    default:
        r = dead;
        text = "of an ended process";
    }
    return r;
}
}    // namespace

// Mounts, unmounts, operations and deaths one after another.
static void history_case(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, true);
    std::string dir = c.dir + "/data";
    make_dir(dir);
    c.step(cf.text());
    std::map<std::string, std::string> files;
    bool fresh = s.chance(1, 2);
    if (!fresh)
    {
        Mount m(dir, cf);
        VREQ(m.put("/before", "b") == 0 && m.mkdir("/d", 0755) == 0 && m.put("/d/x", "x") == 0, "cannot fill");
        files["before"] = "b";
        m.close();
    }
    const int K = 3;
    bool others = s.chance(1, 3) && can_be_others();
    if (others)
        c.step("every process is another user's");
    Child ch[K];
    int hp = -1, hm = -1;    // who has it mounted
    std::string view;
    auto name = [&](int p, int m) { return "process " + std::to_string(p) + (m ? " (second)" : ""); };
    int refused = 0, again = 0, mounts = 0, deaths = 0, unheld = 0;
    bool stale = false, open_file = false;
    size_t n = 2 + s.below(18);
    for (size_t i = 0; i < n; ++i)
    {
        int p = (int)s.below(K);
        int m = s.chance(1, 4) ? 1 : 0;
        switch (s.below(9))
        {
        case 0:
        case 1:
        case 2:
        case 3: {
            if (hp == p && hm == m)
                continue;
            if (ch[p].pid < 0)
                ch[p].start(dir, cf, others ? 1 + p : 0);
            if (hp < 0 && !stale && s.chance(1, 8))
            {
                std::string text, v = lock_junk(s, text);
                write_file(dir + LOCK, v);
                c.step("there is a lock file: " + text);
                stale = true;
            }
            bool inject = s.chance(1, 6);
            if (inject)
            {
                long at = (long)s.below(s.pick({6, 20, 60}));
                int err = s.pick({EIO, ENOSPC, EMFILE, EACCES, 0});
                if (fresh && mounts == 0)
                    err = s.pick({EIO, ENOSPC, EMFILE, EACCES});    // dying in the first mount of all: not judged
                c.step(name(p, m) + ": operation " + std::to_string(at) + (err ? " fails with " + std::to_string(err) : " is its last"));
                ch[p].send("fault " + std::to_string(at) + " " + std::to_string(err));
            }
            auto before = raw(dir);
            std::string r = ch[p].call("open " + std::to_string(m));
            c.step(name(p, m) + ": mount: " + r.substr(0, 2));
            if (r == "gone")
            {
                ++deaths;
                stale = hp < 0;
                if (hp == p)
                {
                    hp = -1;
                    stale = true;
                    // What was not flushed may be gone.
                    files.clear();
                    unheld = 1;
                }
                continue;
            }
            if (r == "ok")
            {
                if (hp >= 0)
                    fail(name(p, m) + " mounts although " + name(hp, hm) + " has it mounted");
                hp = p;
                hm = m;
                stale = false;
                again += mounts++ > 0;
                if (!inject)
                    for (auto& [f, v] : files)
                    {
                        std::string d = ch[p].call("dump " + std::to_string(m));
                        if (d.find("/" + f) == d.npos)
                            fail(name(p, m) + " mounts, but " + q(f) + " written before is gone");
                    }
            }
            else
            {
                if (hp < 0 && !inject)
                    fail(name(p, m) + " cannot mount although nobody has it mounted: " + r);
                auto after = raw(dir);
                if (hp >= 0)
                {
                    ++refused;
                    std::string d = differs(before, after);
                    if (!d.empty())
                        fail(name(p, m) + " fails to mount what " + name(hp, hm) + " has mounted, but " + d);
                    if (r.find('|') + 1 < r.size() && !inject)
                        fail(name(p, m) + " fails to mount what " + name(hp, hm) + " has mounted, but writes: " + r.substr(r.find('|') + 1));
                }
                else if (after.count(dir + LOCK) && !before.count(dir + LOCK))
                    stale = true;
            }
            break;
        }
        case 4:
        case 5: {
            if (hp < 0)
                continue;
            std::string f = "f" + std::to_string(i), v = "value" + std::to_string(i);
            bool hold = !open_file && s.chance(1, 4);
            std::string r = ch[hp].call((hold ? "hold " : "put ") + std::to_string(hm) + " " + f + " " + v);
            c.step(name(hp, hm) + ": " + (hold ? "write and leave open " : "write ") + f);
            if (r == "gone" || r != "0")
                fail("cannot write " + f + ": " + r);
            files[f] = v;
            break;
        }
        case 6:
        case 7: {
            if (hp < 0)
                continue;
            // What the holder sees must be what it wrote.
            std::string d = ch[hp].call("dump " + std::to_string(hm));
            for (auto& [f, v] : files)
                if (d.find("/" + f) == d.npos)
                    fail(name(hp, hm) + " no longer sees " + q(f));
            std::string r = ch[hp].call("close " + std::to_string(hm));
            c.step(name(hp, hm) + ": unmount");
            if (std::filesystem::exists(dir + LOCK))
                fail("the lock file is left behind by unmounting");
            hp = hm = -1;
            break;
        }
        default: {
            if (ch[p].pid < 0)
                continue;
            if (hp == p && s.coin())
                continue;
            kill(ch[p].pid, SIGKILL);
            ch[p].reap();
            c.step("process " + std::to_string(p) + " is killed");
            ++deaths;
            if (hp == p)
            {
                hp = hm = -1;
                stale = true;
                files.clear();
                unheld = 1;
            }
        }
        }
    }
    if (hp >= 0)
        ch[hp].call("close " + std::to_string(hm));
    Mount m;
    try
    {
        m.open(dir, cf);
    }
    catch (const std::exception& e)
    {
        fail(std::string("in the end it cannot be mounted: ") + e.what());
    }
    for (auto& [f, v] : files)
    {
        std::string b;
        int e = m.get("/" + f, b);
        if (e || b != v)
            fail("in the end " + q(f) + " reads " + q(b) + " (" + std::to_string(e) + "), written was " + q(v));
    }
    if (refused)
        c.label("second mounts refused");
    if (again)
        c.label("mounted again");
    if (deaths)
        c.label("deaths");
    if (others)
        c.label("processes of different users");
    c.nontrivial = refused + again + deaths > 1;
}

// Several mounts at the same time, their operations interleaved as generated.
static void race_case(Ctx& c)
{
    Src& s = c.s;
    FsConfig cf = gen_config(s, true);
    std::string dir = c.dir + "/data";
    make_dir(dir);
    bool fresh = s.chance(1, 4);
    std::string text;
    if (!fresh)
    {
        Mount m(dir, cf);
        VREQ(m.put("/before", "b") == 0, "cannot fill");
        m.close();
    }
    if (s.chance(1, 2))
        write_file(dir + LOCK, lock_junk(s, text));
    const int K = 2 + (int)s.below(2);
    int steps = s.chance(2, 3) ? 1 : 2;
    bool others = s.chance(1, 4) && can_be_others();
    if (others)
        c.step("every process is another user's");
    c.step(cf.text() + (fresh ? " fresh" : "") + (text.empty() ? "" : " lock file " + text));
    Child ch[3];
    enum St
    {
        IDLE,      // waits for a command
        STEP,      // waits at an operation
        BLOCKED,   // has been let go and not reported since
        GONE
    };
    struct Run
    {
        St st = IDLE;
        int doing = 0;         // 1 mounting, 2 unmounting
        bool holds = false;    // from the mount's success until the lock file is removed or the process ends
        bool over = false;     // unmounted far enough that others may have it
        bool contact = false;  // others were at it during the attempt
        std::string at;
        int rounds = 0, file = 0;
    } r[3];
    std::set<std::string> must;
    for (int k = 0; k < K; ++k)
    {
        ch[k].start(dir, cf, others ? 1 + k : 0);
        ch[k].send("steps " + std::to_string(steps));
    }
    int overlaps = 0, refused = 0;
    bool died = false;
    auto active = [&](int k) { return r[k].st != GONE && (r[k].doing || r[k].holds); };
    auto touch = [&]
    {
        for (int k = 0; k < K; ++k)
            for (int j = 0; j < K; ++j)
                if (j != k && active(j) && active(k))
                {
                    r[k].contact = true;
                    ++overlaps;
                }
    };
    auto report = [&](int k, const std::string& l)
    {
        Run& x = r[k];
        if (l == "gone")
        {
            ch[k].reap();
            x.st = GONE;
            x.holds = false;
            return;
        }
        if (l[0] == '@')
        {
            x.st = STEP;
            x.at = l.substr(1);
            if (x.doing == 2 && x.over && x.at.find(" !") != x.at.npos)
                fail("process " + std::to_string(k) + " changes the repository after it gave up the lock: " + x.at);
            return;
        }
        x.st = IDLE;
        std::string v = l.substr(1);
        if (x.doing == 1)
        {
            c.step(std::to_string(k) + (v == "ok" ? " has mounted" : " fails to mount"));
            if (v == "ok")
            {
                for (int j = 0; j < K; ++j)
                    if (j != k && r[j].holds)
                        fail("processes " + std::to_string(j) + " and " + std::to_string(k) + " have the repository mounted at the same time");
                x.holds = true;
                x.over = false;
            }
            else
            {
                ++refused;
                if (!x.contact)
                    fail("process " + std::to_string(k) + " cannot mount although nobody else is at it: " + v);
                if (v.find('|') + 1 < v.size() && !fresh)
                    fail("process " + std::to_string(k) + " fails to mount, but changes the repository: " + v.substr(v.find('|') + 1));
            }
        }
        else if (x.doing == 2)
        {
            c.step(std::to_string(k) + " has unmounted");
            x.holds = false;
        }
        x.doing = 0;
    };
    size_t n = 10 + s.below(120);
    for (size_t i = 0; i < n; ++i)
    {
        for (int k = 0; k < K; ++k)
        {
            std::string l;
            if (r[k].st == BLOCKED && ch[k].recv(l, 0))
                report(k, l);
        }
        int k = (int)s.below(K);
        Run& x = r[k];
        if (x.st == GONE)
        {
            if (!s.chance(1, 3))
                continue;
            ch[k].start(dir, cf, others ? 1 + k : 0);
            ch[k].send("steps " + std::to_string(steps));
            x = Run();
        }
        if (x.st == IDLE)
        {
            if (!x.holds)
            {
                if (x.rounds++ > 3)
                    continue;
                c.step(std::to_string(k) + " mounts");
                x.contact = false;
                x.doing = 1;
                ch[k].send("open 0");
            }
            else
            {
                if (s.coin())
                {
                    // Write something, without steps.
                    std::string f = "f" + std::to_string(k) + "x" + std::to_string(i), l;
                    ch[k].send("steps 0");
                    ch[k].send((x.file == 0 && s.coin() ? "hold 0 " : "put 0 ") + f + " v");
                    if (!ch[k].recv(l, 60000) || l != "=0")
                        fail("cannot write " + f + ": " + l);
                    ch[k].send("steps " + std::to_string(steps));
                    must.insert(f);
                    ++x.file;
                    continue;
                }
                c.step(std::to_string(k) + " unmounts");
                x.doing = 2;
                ch[k].send("close 0");
            }
            touch();
        }
        else if (x.st == STEP)
        {
            touch();
            if (!fresh && s.chance(1, 60))    // dying in the first mount of all: not judged
            {
                c.step(std::to_string(k) + " dies at " + x.at);
                if (x.holds && !x.over)
                {
                    must.clear();
                    died = true;
                }
                ch[k].send("die");
                std::string l;
                ch[k].recv(l, 60000);
                report(k, "gone");
                continue;
            }
            c.step(std::to_string(k) + ": " + x.at);
            if (x.doing == 2 && x.at == std::string("unlink ") + LOCK)
            {
                x.over = true;
                x.holds = false;
            }
            ch[k].send("go");
        }
        else if (x.st == BLOCKED)
            continue;
        x.st = BLOCKED;
        std::string l;
        if (ch[k].recv(l, 60))
            report(k, l);
    }
    // Let all come to an end.
    for (int tries = 0; tries < 4000; ++tries)
    {
        bool all = true;
        for (int k = 0; k < K; ++k)
        {
            Run& x = r[k];
            std::string l;
            if (x.st == BLOCKED && ch[k].recv(l, 20))
                report(k, l);
            if (x.st == GONE || (x.st == IDLE && !x.holds))
                continue;
            all = false;
            touch();
            if (x.st == IDLE)
            {
                c.step(std::to_string(k) + " unmounts");
                x.doing = 2;
                ch[k].send("close 0");
                x.st = BLOCKED;
            }
            else if (x.st == STEP)
            {
                c.step(std::to_string(k) + ": " + x.at);
                if (x.doing == 2 && x.at == std::string("unlink ") + LOCK)
                {
                    x.over = true;
                    x.holds = false;
                }
                ch[k].send("go");
                x.st = BLOCKED;
            }
        }
        if (all)
            break;
    }
    for (int k = 0; k < K; ++k)
        if (r[k].st == BLOCKED || r[k].st == STEP)
            fail("process " + std::to_string(k) + " never ends " + (r[k].doing == 1 ? "mounting" : "unmounting"));
    Mount m;
    try
    {
        m.open(dir, cf);
    }
    catch (const std::exception& e)
    {
        fail(std::string("in the end it cannot be mounted: ") + e.what());
    }
    if (!fresh)
        must.insert("before");
    for (auto& f : must)
    {
        std::string b;
        int e = m.get("/" + f, b);
        if (e || b != (f == "before" ? "b" : "v"))
            fail("in the end " + q(f) + " reads " + q(b) + " (" + std::to_string(e) + ")");
    }
    c.nontrivial = overlaps > 0;
    if (refused)
        c.label("mounts refused");
    if (died)
        c.label("deaths while mounted");
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S26";
    p.rule = "history: up to 20 generated steps of three processes that mount (also twice in one process, with a failing or fatal operation in it, over left-behind lock files), "
             "write, unmount and get killed, also each of another user; a model says who has the repository, and raw files are compared around each refused mount. race: two or three processes mount and "
             "unmount at the same time, held up at each operation on the lock file (or at every operation) and let go in generated order, also killed there; never may two have it "
             "mounted, nor one change anything after giving up the lock or in a refused mount; in the end it mounts and has all written by unmounted mounts. "
             "Non-trivial: at least two of refused mounts, repeated mounts and deaths (history), overlapping attempts (race); distinct by choice sequence.";
    p.assumptions = {"numbers of ended processes are not used again within a case", "all processes on one machine, with file locks enabled",
                     "dying during the very first mount of a new repository is not judged"};
    p.quick_cases = 4000;
    p.thorough_cases = 100000;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
    };
    p.tests = {{"history", history_case, 1, 120}, {"race", race_case, 1, 120}};
    return run_main(argc, argv, p);
}
