// S29: the options of the mount command take effect as documented. The functions of libfuse that would talk to
// the kernel are replaced below, so that a mount command runs to its end here, with its file system probed.
#include "cmd.h"
#include "decode.h"
#include "params_io.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <dlfcn.h>
#include <filesystem>
#include <fuse_lowlevel.h>
#include <mutex>
#include <set>
#include <sys/file.h>
#include <sys/statfs.h>
#include <sys/wait.h>
#include <thread>
using namespace vp;
namespace stdfs = std::filesystem;

// --- The part that runs inside the mounting process.
namespace
{
// What the probes found, as name=value lines.
FILE* g_out = nullptr;
std::mutex g_mu;
std::set<pthread_t> g_threads;
std::atomic<bool> g_exited{false};
std::atomic<int> g_received{0}, g_flocks{0}, g_processed{0};
bool g_in_probe = false;
long g_fstype = -1;
bool g_no_listxattr = false;
double g_t0 = 0;
std::string g_mode = "end";
int g_dummy;
double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
std::string hx(const std::string& v)
{
    std::string r = "x";
    char b[4];
    for (unsigned char ch : v)
    {
        snprintf(b, 4, "%02x", ch);
        r += b;
    }
    return r;
}
std::string unhx(const std::string& v)
{
    std::string r;
    for (size_t i = 1; i + 1 < v.size(); i += 2)
        r += (char)strtol(v.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
void note(const std::string& k, const std::string& v)
{
    // Workers get cancelled at the end, not while they write.
    int old;
    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old);
    {
        std::lock_guard<std::mutex> lg(g_mu);
        fprintf(g_out, "%s=%s\n", k.c_str(), v.c_str());
        fflush(g_out);
    }
    pthread_setcancelstate(old, nullptr);
}
void probe(const fuse_operations* op, void* data)
{
    Mount m;
    m.f = *op;
    m.ops = std::shared_ptr<securefs::FuseHighLevelOpsBase>(std::shared_ptr<void>(), (securefs::FuseHighLevelOpsBase*)data);
    struct stat st;
    auto num = [](long v) { return std::to_string(v); };
    int e = m.getattr("/", st);
    note("root", num(e) + " " + num(st.st_uid) + " " + num(st.st_gid));
    std::string v;
    g_flocks = 0;
    e = m.get("/known", v);
    note("known", num(e) + " " + hx(v));
    note("flocks", num(g_flocks));
    v.clear();
    e = m.get("/tampered", v);
    note("tampered", num(e) + " " + num((long)v.size()));
    note("put", num(m.put("/Zanzibar", "written by the mount")));
    note("case", num(m.getattr("/zANZIBAR", st)));
    note("put2", num(m.put("/caf\x65\xCC\x81", "accent")));
    note("nfc", num(m.getattr("/caf\xC3\xA9", st)));
    note("owner", num(m.getattr("/Zanzibar", st)) + " " + num(st.st_uid) + " " + num(st.st_gid));
    e = m.setxattr("/Zanzibar", "user.k", "attribute");
    note("setxattr", num(e));
    v.clear();
    e = m.getxattr("/Zanzibar", "user.k", v);
    note("getxattr", num(e) + " " + hx(e > 0 ? v : ""));
    std::vector<DirEnt> es;
    m.ls("/", es);
    std::string names;
    for (auto& x : es)
        names += hx(x.name) + " ";
    note("names", names);
    m.ops.reset();
    m.f = {};
}
}    // namespace
extern "C"
{
struct fuse* fuse_setup(int argc, char* argv[], const struct fuse_operations* op, size_t, char** mountpoint, int* multithreaded, void* user_data)
{
    for (int i = 0; i < argc; ++i)
        note("arg", hx(argv[i]));
    struct fuse_args a = FUSE_ARGS_INIT(0, nullptr);
    for (int i = 0; i < argc; ++i)
        fuse_opt_add_arg(&a, argv[i]);
    int fg = 0;
    if (fuse_parse_cmdline(&a, mountpoint, multithreaded, &fg) != 0)
    {
        note("parse", "bad");
        return nullptr;
    }
    note("mountpoint", hx(*mountpoint ? *mountpoint : ""));
    note("foreground", std::to_string(fg));
    if (g_mode == "refuse")
        return nullptr;
    if (const char* pf = getenv("SECUREFS_PID_FILE"))
    {
        std::string v;
        note("pid", try_read_file(pf, v) && v == std::to_string(getpid()) ? "good" : "bad " + hx(v));
    }
    probe(op, user_data);
    g_t0 = now_s();
    return (struct fuse*)&g_dummy;
}
int fuse_start_cleanup_thread(struct fuse*) { return 0; }
void fuse_stop_cleanup_thread(struct fuse*) {}
void fuse_teardown(struct fuse*, char*) { note("teardown", "1"); }
struct fuse_session* fuse_get_session(struct fuse*) { return (struct fuse_session*)&g_dummy; }
struct fuse_chan* fuse_session_next_chan(struct fuse_session*, struct fuse_chan*) { return (struct fuse_chan*)&g_dummy; }
size_t fuse_chan_bufsize(struct fuse_chan*) { return 4096; }
int fuse_session_exited(struct fuse_session*) { return g_exited; }
void fuse_session_exit(struct fuse_session*)
{
    char b[40];
    snprintf(b, sizeof b, "%.3f", now_s() - g_t0);
    note("exit", b);
    g_exited = true;
}
void fuse_session_process_buf(struct fuse_session*, const struct fuse_buf* buf, struct fuse_chan*)
{
    if (buf->size == 7)
        ++g_processed;
}
int fuse_session_receive_buf(struct fuse_session*, struct fuse_buf* buf, struct fuse_chan**)
{
    bool first;
    int nth = g_received++;
    {
        std::lock_guard<std::mutex> lg(g_mu);
        first = g_threads.empty();
        g_threads.insert(pthread_self());
    }
    auto settle = []
    {
        // Until no further worker has come for a while.
        size_t n = 0;
        for (int i = 0; i < 200; ++i)
        {
            usleep(60000);
            std::lock_guard<std::mutex> lg(g_mu);
            if (g_threads.size() == n)
                break;
            n = g_threads.size();
        }
    };
    if (g_mode == "end")
    {
        if (nth < 3)
            return -EINTR;
        if (nth < 5)
        {
            buf->size = 7;
            return 7;
        }
        settle();
        return 0;
    }
    if (g_mode == "error")
    {
        settle();
        return -ENODEV;
    }
    if (first && g_mode.compare(0, 6, "signal") == 0)
    {
        settle();
        int sig = atoi(g_mode.c_str() + 6);
        for (int i = 0; i < 500; ++i)
        {
            struct sigaction sa;
            sigaction(SIGHUP, nullptr, &sa);    // installed last
            if (sa.sa_handler != SIG_DFL)
                break;
            usleep(10000);
        }
        note("sent", "1");
        kill(getpid(), sig);
    }
    if (g_mode == "idle")
    {
        for (int i = 0; i < 16; ++i)
            usleep(100000);
        static std::atomic<bool> told{false};
        if (!told.exchange(true))
            note("still", g_exited ? "0" : "1");
        return 0;
    }
    for (;;)
        usleep(20000);
}
int flock(int fd, int op)
{
    static auto r = (int (*)(int, int))dlsym(RTLD_NEXT, "flock");
    ++g_flocks;
    return r(fd, op);
}
int statfs64(const char* p, struct statfs64* st)
{
    static auto r = (int (*)(const char*, struct statfs64*))dlsym(RTLD_NEXT, "statfs64");
    int e = r(p, st);
    if (e == 0 && g_fstype >= 0)
        st->f_type = g_fstype;
    return e;
}
ssize_t llistxattr(const char* p, char* b, size_t n)
{
    static auto r = (ssize_t (*)(const char*, char*, size_t))dlsym(RTLD_NEXT, "llistxattr");
    if (g_no_listxattr)
    {
        errno = ENOTSUP;
        return -1;
    }
    return r(p, b, n);
}
ssize_t listxattr(const char* p, char* b, size_t n)
{
    static auto r = (ssize_t (*)(const char*, char*, size_t))dlsym(RTLD_NEXT, "listxattr");
    if (g_no_listxattr)
    {
        errno = ENOTSUP;
        return -1;
    }
    return r(p, b, n);
}
}
static void inside()
{
    alarm(40);
    g_out = fopen(getenv("S29_OUT"), "a");
    g_mode = getenv("S29_MODE");
    g_fstype = atol(getenv("S29_FSTYPE"));
    g_no_listxattr = getenv("S29_NOLIST")[0] == '1';
    // In the worker, these may be ignored.
    for (int s : {SIGTERM, SIGINT, SIGHUP})
        signal(s, SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
}
static void finish(int rc)
{
    note("threads", std::to_string(g_threads.size()));
    note("processed", std::to_string(g_processed));
    note("rc", std::to_string(rc & 0xff));
    fflush(nullptr);
}

// --- The tests.
struct Plan
{
    std::vector<std::vector<std::string>> groups;    // options with their values
    std::string input, exe = "securefs";
    std::string mode = "end";
    long fstype = -1;
    bool nolist = false;
};
static std::string tell(const std::map<std::string, std::string>& got, const std::string& k)
{
    auto it = got.find(k);
    return it == got.end() ? "-" : it->second;
}
static void mount_case(Ctx& c)
{
    Src& s = c.s;
    // The repository.
    FsConfig cf = gen_config(s, s.chance(2, 5));
    if (cf.full)
    {
        cf.ci = s.chance(1, 5);
        cf.un = s.chance(1, 5);
    }
    auto params = make_params(cf);
    std::string dir = c.dir + "/" + s.pick({"data", "da ta", "d,a=ta"}), mnt = c.dir + "/" + s.pick({"mnt", "m n", "M"});
    stdfs::create_directory(dir);
    if (s.coin())
        stdfs::create_directory(mnt);
    std::string pw = s.pick({"secret", "p w", "\xC3\xA9", "x"}), key = s.bytes(s.below(5000));
    bool use_pw = true, use_key = s.chance(1, 3);
    if (use_key)
        use_pw = s.coin();
    write_file(c.dir + "/key", key);
    std::string eff = use_pw ? pw : " ", config;
    securefs::EncryptedSecurefsParams::Argon2idParams a2;
    a2.set_time_cost(1);
    a2.set_memory_cost(8);
    a2.set_parallelism(1);
    auto ks = use_key ? securefs::maybe_open_key_stream(c.dir + "/key") : nullptr;
    std::string sealed = securefs::encrypt(params, a2, {(const unsigned char*)eff.data(), eff.size()}, ks.get()).SerializeAsString();
    switch (s.below(4))
    {
    case 0:
    case 1:
        write_file(dir + "/.config.pb", sealed);
        break;
    case 2:
        write_file(dir + "/.securefs.json", sealed);    // the style is told by the content
        break;
    default:
        config = c.dir + "/conf ig";
        write_file(config, sealed);
        // Another one in the default place must not matter.
        if (s.coin())
            write_file(dir + "/.config.pb", "junk");
    }
    bool own_root = s.coin();
    std::string known = s.bytes(1 + s.below(3 * cf.block)), tampered_phys;
    {
        std::set<std::string> before;
        Mount m(dir, cf);
        VREQ(m.put("/known", known) == 0, "cannot fill the repository");
        if (own_root)
            VREQ(m.chown("/", 1234, 2345) == 0, "cannot chown the root");
        m.close();
        for (auto& f : raw_file_list(dir))
            before.insert(f);
        m.open(dir, cf);
        VREQ(m.put("/tampered", std::string(2 * cf.block, 't')) == 0, "cannot fill the repository");
        m.close();
        for (auto& f : raw_file_list(dir))
            if (!before.count(f) && f.find(".meta") == f.npos && stdfs::is_regular_file(f) && stdfs::file_size(f) >= 2 * cf.block)
                tampered_phys = f;
        VREQ(!tampered_phys.empty(), "cannot find the stored file");
        std::string b = read_file(tampered_phys);
        // In the last block.
        b[b.size() - (cf.full ? 5 : 20)] ^= 1;
        write_file(tampered_phys, b);
    }
    // The options, each with what it should lead to.
    Plan p;
    auto& G = p.groups;
    bool insecure = false, noxattr = false, single = false, fold = false, nfc = false, plain = false, background = false, noflock = false, verbose = false, trace = false, sensitive = false;
    bool bad = false, wrong = false, own_uid = false, own_gid = false;
    std::string log;
    long uid = 0, gid = 0, timeout = 30, idle = 0;
    std::string fsname = "securefs", fssub = "securefs", ino = "auto";
    std::vector<std::string> user;
    auto maybe = [&](unsigned num, unsigned den) { return s.chance(num, den); };
    if (maybe(1, 4))
        insecure = true, G.push_back({s.pick({"-i", "--insecure"})});
    if (maybe(1, 4))
        noxattr = true, G.push_back({s.pick({"-x", "--noxattr"})});
    if (maybe(1, 3))
        single = true, G.push_back({s.pick({"-s", "--single"})});
    if (maybe(1, 3))
    {
        std::string n = s.pick({"none", "casefold", "nfc", "casefold+nfc"});
        fold = n.compare(0, 8, "casefold") == 0;
        nfc = n.find("nfc") != n.npos;
        if (maybe(1, 8))
        {
            n = s.pick({"nfd", "case", "NFC", "nfc+casefold", "casefold,nfc", "true"});
            bad = true;
        }
        G.push_back({"--normalization", n});
    }
    if (maybe(1, 6))
        plain = true, G.push_back({"--plain-text-names"});
    if (maybe(1, 4))
    {
        long v = s.pick({-1, 0, 1, 1000, 65534});
        uid = v == -1 ? 0 : v;
        own_uid = v != -1;
        G.push_back({"--uid-override", std::to_string(v)});
    }
    if (maybe(1, 4))
    {
        long v = s.pick({-1, 0, 7, 2000, 65534});
        gid = v == -1 ? 0 : v;
        own_gid = v != -1;
        G.push_back({"--gid-override", std::to_string(v)});
    }
    if (maybe(1, 4))
        G.push_back({"--attr-timeout", std::to_string(timeout = s.pick({0, 1, 100000}))});
    if (maybe(1, 4))
        G.push_back({"--fsname", fsname = s.pick({"my disk", "a", "x=y"})});
    if (maybe(1, 4))
        G.push_back({"--fssubtype", fssub = s.pick({"sub", "enc.fs"})});
    if (maybe(1, 3))
    {
        ino = s.pick({"auto", "true", "false"});
        if (maybe(1, 10))
        {
            ino = s.pick({"yes", "1", "True"});
            bad = true;
        }
        G.push_back({"--use-ino", ino});
    }
    if (maybe(1, 6))
        noflock = true, G.push_back({"--noflock"});
    if (maybe(1, 5))
        verbose = true, G.push_back({s.pick({"-v", "--verbose"})});
    if (maybe(1, 5))
        trace = true, G.push_back({"--trace"});
    if (maybe(1, 3))
        G.push_back({"--log", log = c.dir + "/l og"});
    if (maybe(1, 4))
        sensitive = true, G.push_back({"--allow-sensitive-logging"});
    if (maybe(1, 12))
        G.push_back({"--skip-dot-dot"});
    if (maybe(1, 6))
        G.push_back({"--max-idle-seconds", std::to_string(idle = s.pick({0, 3600, 1}))});
    if (maybe(1, 5))
        for (size_t n = 1 + s.below(3); n > 0; --n)
        {
            user.push_back(s.pick({"ro", "allow_other", "attr_timeout=5", "default_permissions,nonempty", "max_read=4096", "fsname=mine"}));
            G.push_back({s.pick({"-o", "--opt"}), user.back()});
        }
    if (maybe(1, 6))
        background = true, G.push_back({s.pick({"-b", "--background"})});
    if (!config.empty())
        G.push_back({"--config", config});
    if (use_key)
        G.push_back({"--keyfile", c.dir + "/key"});
    bool missing = false;
    std::string say = pw;
    if (maybe(1, 8))
    {
        wrong = true;
        switch (s.below(4))
        {
        case 0:
            say = pw + "x";
            if (!use_pw)
                use_pw = true;    // given although none belongs
            break;
        case 1:
            write_file(c.dir + "/key", key + "k");
            if (!use_key)
                G.push_back({"--keyfile", c.dir + "/key"});
            break;
        case 2:
            if (use_key)
                G.back() = {"--keyfile", c.dir + "/no key"};
            else
                say = pw.substr(0, pw.size() - 1) + "#";
            break;
        default:
            missing = true;
            for (auto f : {dir + "/.config.pb", dir + "/.securefs.json", c.dir + "/conf ig"})
                stdfs::remove(f);
        }
        // Without an own password, a key file given stands for the empty one.
        if (wrong && !missing && !use_pw && !use_key)
            use_pw = true;
    }
    if (use_pw)
    {
        if (s.coin())
        {
            p.input = say + s.pick({"\n", "", "\r\n"});
            for (auto& g : G)
                if (g[0] == "--keyfile")
                {
                    G.push_back({"--askpass"});
                    break;
                }
        }
        else
        {
            G.push_back({"--pass", say});
            if (maybe(1, 6))
                G.push_back({"--askpass"});
        }
    }
    if (idle == 1 || maybe(1, 40))
        p.mode = idle == 1 ? "wait" : "idle";
    else if (!bad && !wrong)
        switch (s.below(10))
        {
        case 0:
            p.mode = "error";
            break;
        case 1:
            p.mode = "refuse";
            break;
        case 2:
        case 3:
            p.mode = "signal" + std::to_string(s.pick({SIGTERM, SIGINT, SIGHUP}));
            break;
        default:;
        }
    if (maybe(1, 3))
        p.fstype = s.pick({0xEF53l, 0x9123683El, 0x58465342l, 0x01021994l, 0x2FC12FC1l, 0x6969l, 0x65735546l, 0xFF534D42l});
    p.nolist = maybe(1, 12);
    bool pidfile = maybe(1, 6);
    if (background)
        p.exe = "/proc/self/exe";
    for (size_t i = G.size(); i > 1; --i)
        std::swap(G[i - 1], G[s.below(i)]);
    {
        // Order of the user's FUSE options as on the command line.
        user.clear();
        for (auto& g : G)
            if (g[0] == "-o" || g[0] == "--opt")
                user.push_back(g[1]);
    }
    std::vector<std::string> args = {s.pick({"mount", "m"})};
    size_t at1 = s.below(G.size() + 1), at2 = at1 + s.below(G.size() + 1 - at1);
    for (size_t i = 0; i <= G.size(); ++i)
    {
        if (i == at1)
            args.push_back(dir);
        if (i == at2)
            args.push_back(mnt);
        if (i < G.size())
            args.insert(args.end(), G[i].begin(), G[i].end());
    }
    std::string t = cmd_text(args) + (p.input.empty() ? "" : " <" + q(p.input)) + (p.mode == "end" ? "" : " [" + p.mode + "]") + (p.fstype < 0 ? "" : " [fs type " + str(p.fstype) + "]")
        + (p.nolist ? " [no attributes on the disk]" : "");
    c.step(cf.text() + (use_key ? " key file" : "") + ": " + t);
    std::map<std::string, std::string> disk;
    for (auto& f : raw_file_list(dir))
        disk[f] = read_file(f);
    // Run it apart.
    std::string out = c.dir + "/found";
    write_file(out, "");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        setenv("S29_OUT", out.c_str(), 1);
        setenv("S29_MODE", p.mode.c_str(), 1);
        setenv("S29_FSTYPE", std::to_string(p.fstype).c_str(), 1);
        setenv("S29_NOLIST", p.nolist ? "1" : "0", 1);
        if (pidfile)
            setenv("SECUREFS_PID_FILE", (c.dir + "/pid").c_str(), 1);
        inside();
        // Messages for the user.
        dup2(::open((c.dir + "/stderr").c_str(), O_WRONLY | O_CREAT, 0600), 2);
        int in = memfd_create("input", 0);
        if (::write(in, p.input.data(), p.input.size()) != (ssize_t)p.input.size())
            _exit(97);
        lseek(in, 0, SEEK_SET);
        dup2(in, 0);
        __fpurge(stdin);
        clearerr(stdin);
        std::vector<const char*> v = {p.exe.c_str()};
        for (auto& a : args)
            v.push_back(a.c_str());
        int rc = securefs::commands_main((int)v.size(), v.data());
        if (!background)
            finish(rc);
        _exit(rc & 0xff);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::multimap<std::string, std::string> all;
    std::map<std::string, std::string> got;
    std::vector<std::string> fargs;
    {
        std::string v = read_file(out), line;
        size_t i = 0;
        while (i < v.size())
        {
            size_t e = v.find('\n', i);
            line = v.substr(i, e - i);
            i = e == v.npos ? v.size() : e + 1;
            size_t eq = line.find('=');
            if (eq == line.npos)
                continue;
            if (line.substr(0, eq) == "arg")
                fargs.push_back(unhx(line.substr(eq + 1)));
            else
                got[line.substr(0, eq)] = line.substr(eq + 1);
        }
    }
    auto want = [&](const std::string& k, const std::string& v)
    {
        if (tell(got, k) != v)
            fail(t + ": " + k + " is " + q(tell(got, k)) + ", expected " + q(v));
    };
    if (!WIFEXITED(st))
    {
        if (WTERMSIG(st) == SIGALRM)
            fail(t + ": does not end (" + (fargs.empty() ? "before serving" : "serving") + ")");
        fail(t + ": dies by signal " + str(WTERMSIG(st)) + (got.count("sent") ? " although it was asked to end" : ""));
    }
    int rc = WEXITSTATUS(st);
    if (rc == 98 || rc == 99)
    {
        std::string e = read_file(c.dir + "/stderr");
        for (const char* k : {"runtime error", "Sanitizer"})
            if (e.find(k) != e.npos)
                fail(t + ": ends with " + str(rc) + ": " + e.substr(e.find(k), 1500));
    }
    if (bad || wrong)
    {
        if (rc == 0)
            fail(t + ": returns 0" + (bad ? ", although an option has an invalid value" : ", although the secrets are wrong or the config is missing"));
        if (!fargs.empty())
            fail(t + ": starts serving, although " + (bad ? "an option has an invalid value" : "the secrets are wrong or the config is missing"));
        for (auto& [f, b] : disk)
            if (read_file(f) != b)
                fail(t + ": alters " + q(f) + " although it fails");
        c.label(bad ? "invalid values" : missing ? "missing configs" : "wrong secrets");
        c.nontrivial = true;
        return;
    }
    if (fargs.empty())
    {
        std::string msg;
        try_read_file(c.dir + "/stderr", msg);
        fail(t + ": returns " + str(rc) + " without serving: " + q(msg));
    }
    if (!background)
        want("rc", std::to_string(rc));
    bool fails = p.mode == "error" || p.mode == "refuse";
    if (!background && (rc != 0) != fails)
        fail(t + ": returns " + str(rc));
    if (background && got.count("rc") && (tell(got, "rc") != "0") != fails)
        fail(t + ": the background process returns " + tell(got, "rc"));
    if (background && !got.count("rc"))
        fail(t + ": the background process dies");
    // What libfuse is told.
    if (fargs.back() != mnt)
        fail(t + ": the last argument for libfuse is " + q(fargs.back()) + ", expected the mount point");
    want("foreground", "1");
    want("mountpoint", hx(stdfs::canonical(mnt).string()));
    std::vector<std::string> opts;
    for (size_t i = 1; i + 1 < fargs.size(); ++i)
        if (fargs[i] == "-o")
            opts.push_back(fargs[++i]);
        else if (fargs[i].compare(0, 2, "-o") == 0)
            opts.push_back(fargs[i].substr(2));
        else if (fargs[i] != "-f" && fargs[i] != "-s")
            fail(t + ": libfuse gets the argument " + q(fargs[i]));
    if (std::count(fargs.begin(), fargs.end(), "-s") != (single ? 1 : 0))
        fail(t + ": libfuse is " + (single ? "not " : "") + "told to use a single thread");
    bool use_ino = ino == "true" || (ino == "auto" && cf.full);
    bool ino_free = false;
    if (ino == "auto" && !cf.full)
    {
        if (p.fstype < 0)
            ino_free = true;    // as it is here
        else
            use_ino = p.fstype != 0x6969l && p.fstype != 0x65735546l && p.fstype != 0xFF534D42l;
    }
    std::vector<std::string> need = {"hard_remove",
                                     "fsname=" + fsname,
                                     "subtype=" + fssub,
                                     "entry_timeout=" + str(timeout),
                                     "attr_timeout=" + str(timeout),
                                     "negative_timeout=" + str(timeout)};
    if (use_ino)
        need.push_back("use_ino");
    for (auto& u : user)
        need.push_back(u);
    std::vector<std::string> rest = opts, in_order;
    for (auto& o : need)
    {
        auto it = std::find(rest.begin(), rest.end(), o);
        if (it == rest.end())
            fail(t + ": libfuse is not given the option " + q(o));
        rest.erase(it);
    }
    for (auto& o : rest)
        if (o != "atomic_o_trunc" && o != "big_writes" && !(o == "use_ino" && ino_free))
            fail(t + ": libfuse is given the option " + q(o));
    if (opts.size() < user.size() || !std::equal(user.begin(), user.end(), opts.end() - (long)user.size()))
        fail(t + ": the user's options do not come last and in order");
    if (p.mode == "refuse")
    {
        c.label("failing mounts");
        c.nontrivial = true;
        return;
    }
    want("teardown", "1");
    // Serving threads.
    size_t cores = std::thread::hardware_concurrency();
    if (single)
        want("threads", "1");
    else if (cores > 1 && p.mode != "wait" && tell(got, "threads") == "1")
        fail(t + ": served by one thread only");
    if (p.mode == "end" && (single || true))
        want("processed", "2");
    if (p.mode.compare(0, 6, "signal") == 0 && !got.count("exit"))
        fail(t + ": the signal does not end the session");
    if (p.mode == "wait")
    {
        double at = atof(tell(got, "exit").c_str());
        if (!got.count("exit") || at < 0.9)
            fail(t + ": ends after " + tell(got, "exit") + " seconds, expected 1");
        c.label("idle mounts ended");
    }
    if (p.mode == "idle")
        want("still", "1");
    // What the file system does.
    bool xattr = !noxattr && !p.nolist;
    want("root", "0 " + std::to_string(own_uid || !own_root ? uid : 1234) + " " + std::to_string(own_gid || !own_root ? gid : 2345));
    want("owner", "0 " + std::to_string(uid) + " " + std::to_string(gid));
    bool hidden = plain && !cf.full;
    if (hidden)
    {
        want("known", "-2 x");
        want("tampered", "-2 0");
    }
    else
    {
        want("known", "0 " + hx(known));
        std::string tam = tell(got, "tampered");
        if (insecure ? tam != "0 " + str(2 * cf.block) : tam[0] != '-')
            fail(t + ": reading an altered file gives " + q(tam) + " although verification is " + (insecure ? "off" : "on"));
        int fl = atoi(tell(got, "flocks").c_str());
        if (noflock ? fl != 0 : fl == 0 && !cf.full)    // the full format has a lock of its own
            fail(t + ": files are " + (noflock ? "" : "not ") + "locked (" + str(fl) + " calls)");
    }
    want("put", "0");
    want("put2", "0");
    bool ci = cf.full ? cf.ci : fold && !plain, un = cf.full ? cf.un : nfc && !plain;
    want("case", ci ? "0" : "-2");
    want("nfc", un ? "0" : "-2");
    if (xattr)
    {
        want("setxattr", "0");
        want("getxattr", "9 " + hx("attribute"));
    }
    else if (tell(got, "setxattr")[0] != '-' || tell(got, "getxattr")[0] != '-')
        fail(t + ": attributes work although they are switched off");
    if (hidden && !stdfs::exists(dir + "/Zanzibar"))
        fail(t + ": the name is not stored in plain");
    if (!hidden && stdfs::exists(dir + "/Zanzibar"))
        fail(t + ": the name is stored in plain");
    if (pidfile)
    {
        want("pid", "good");
        if (stdfs::exists(c.dir + "/pid"))
            fail(t + ": the file with the process number is left behind");
    }
    // The log.
    std::string lg;
    if (try_read_file(c.dir + "/l og", lg) != !log.empty())
        fail(t + ": the log file " + (log.empty() ? "exists" : "does not exist"));
    if (!log.empty())
    {
        bool tr = lg.find("[Trace]") != lg.npos, ve = lg.find("[Verbose]") != lg.npos, inside = lg.find("written by") != lg.npos;
        if (tr != trace)
            fail(t + ": calls are " + (trace ? "not " : "") + "traced in the log");
        if (ve != (verbose || trace))
            fail(t + ": the log has " + (ve ? "" : "no ") + "verbose messages");
        if (inside && !(trace && sensitive))
            fail(t + ": the log shows the content of a file");
        if (!inside && trace && sensitive)
            fail(t + ": the log does not show what traced calls write although it may");
        c.label("logs");
    }
    // The repository is the same, and what the mount wrote is there with the repository's own parameters.
    FsConfig again = cf;
    again.fold = fold && !cf.full;
    again.nfc = nfc && !cf.full;
    again.plain = hidden;
    Mount m;
    m.open(dir, params, make_mount_options(again));
    std::string v;
    int e = m.get("/Zanzibar", v);
    if (e != 0 || v != "written by the mount")
        fail(t + ": later the file written reads " + q(v) + " (" + std::to_string(e) + ")");
    if (!hidden)
    {
        v.clear();
        e = m.get("/known", v);
        if (e != 0 || v != known)
            fail(t + ": later the file there before reads " + q(v) + " (" + std::to_string(e) + ")");
    }
    if (background)
        c.label("in the background");
    c.nontrivial = G.size() >= 3;
}
int main(int argc, char** argv)
{
    if (argc == 2 && !strcmp(argv[1], "protomount") && getenv("S29_OUT"))
    {
        securefs::global_logger.reset();
        inside();
        int rc = securefs::commands_main(argc, argv);
        finish(rc);
        _exit(rc & 0xff);
    }
    Prop p;
    p.id = "S29";
    p.rule = "A case makes a repository of generated parameters and secrets, draws a mount command with generated options, values, spellings and order, also in the "
             "background, and runs it to its end in a process of its own, with the functions of libfuse that talk to the kernel replaced. Recorded are the arguments libfuse "
             "gets, the serving threads, how it ends (unmounted, failing, signal, idle), and what the mounted file system does: owners, names, attributes, verification, "
             "locks, log. Each is compared with what the documentation of the options given says. Wrong secrets, missing configs and invalid values must fail before "
             "anything is served. Non-trivial: at least 3 options, or a failing command; distinct by choice sequence.";
    p.assumptions = {"libfuse acts on its arguments as documented", "names of file systems without commas (libfuse's separator)"};
    p.quick_cases = 1500;
    p.thorough_cases = 60000;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
    };
    p.tests = {{"mount", mount_case, 1, 120}};
    return run_main(argc, argv, p);
}
