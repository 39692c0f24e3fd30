// S13: create, chpass, info and migrate-long-name keep the repository accessible.
#include "cmd.h"
#include "decode.h"
#include "fault.h"
#include "params_io.h"
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <filesystem>
#include <google/protobuf/util/json_util.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vp;
namespace stdfs = std::filesystem;
using securefs::DecryptedSecurefsParams;

static const std::string kPrintable = "abcXYZ019 _.!$'\"\\\xC3\xA9\t=";
struct Secret
{
    std::string pw;    // as typed; empty: only the key file
    bool has_key = false;
    std::string key;
    std::string effective() const { return pw.empty() && has_key ? " " : pw; }
    std::string text() const { return (pw.empty() ? "no password" : "password " + q(pw)) + (has_key ? " + key file of " + str(key.size()) + " bytes" : ""); }
    bool operator==(const Secret& o) const { return effective() == o.effective() && has_key == o.has_key && (!has_key || key == o.key); }
};
static Secret gen_secret(Src& s)
{
    Secret k;
    k.has_key = s.chance(2, 5);
    if (!k.has_key || s.coin())
        switch (s.below(4))
        {
        case 0:
            k.pw = s.pick({"password", "a", "pass word", " ", "\xE5\xAF\x86\xE7\xA0\x81"});
            break;
        case 1:
            for (size_t n = 1 + s.below(12); n > 0; --n)
                k.pw += kPrintable[s.below(kPrintable.size())];
            break;
        case 2:
            k.pw = std::string(s.pick({63u, 64u, 65u, 200u}), 'p');
            break;
        default:
            k.pw = "p" + str(s.below(50));
        }
    if (k.has_key)
        k.key = s.bytes(s.size_near(9000, 4096));
    return k;
}
static Secret other(Src& s, const Secret& k)
{
    for (;;)
    {
        Secret o = k;
        switch (s.below(5))
        {
        case 0:
            o.pw += "x";
            break;
        case 1:
            if (o.pw.size() > 1)
                o.pw.pop_back();
            break;
        case 2:
            o.has_key = !o.has_key;
            o.key = o.has_key ? s.bytes(s.below(100)) : "";
            if (!o.has_key && o.pw.empty())
                o.pw = s.pick({std::string(" "), std::string("x")});
            break;
        case 3:
            if (o.has_key)
                o.key += s.coin() ? std::string(1, '\0') : "k";
            break;
        default:
            o = gen_secret(s);
        }
        if (!(o == k))
            return o;
        o.pw = k.pw + "y";
        return o;
    }
}
struct Repo
{
    Ctx& c;
    std::string dir, config;    // the config as given on the command line; empty: default
    std::string real;           // where the config is
    bool exists = false;
    Secret sec;
    std::vector<Secret> old;
    RawParams par;
    std::string dump;
    unsigned nkey = 0, nname = 0;
    explicit Repo(Ctx& c_) : c(c_) {}

    // Options that give a secret to a command; `in` is what it reads.
    std::vector<std::string> give(const Secret& k, const std::string& pass, const std::string& keyfile, const std::string& ask, std::string& in)
    {
        std::vector<std::string> a;
        Src& s = c.s;
        if (k.has_key)
        {
            std::string f = c.dir + "/keys/" + str(nkey++);
            stdfs::create_directories(c.dir + "/keys");
            write_file(f, k.key);
            a.insert(a.end(), {keyfile, f});
        }
        if (!k.pw.empty())
        {
            if (s.chance(1, 3))
            {
                if (k.has_key)
                    a.push_back(ask);
                in += k.pw + s.pick({std::string("\n"), std::string("\n"), std::string("\r")});
            }
            else
                a.insert(a.end(), {pass, k.pw});
        }
        return a;
    }
    std::vector<std::string> base(const std::string& cmd)
    {
        std::vector<std::string> a = {cmd};
        if (c.s.coin())
            a.push_back(dir);
        if (!config.empty())
            a.insert(a.end(), {"--config", config});
        if (a.size() < 2 || a[1] != dir)
            a.push_back(dir);
        return a;
    }
    std::vector<std::string> argon()
    {
        unsigned p = 1 + (unsigned)c.s.below(3);
        return {"--argon2-t", str(1 + c.s.below(2)), "--argon2-m", str(8 * p + c.s.below(30)), "--argon2-p", str(p)};
    }
};
// The parser of arguments ends the process when it dislikes them.
static CmdResult run_apart(const std::string& scratch, const std::vector<std::string>& args, const std::string& input)
{
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(::open("/dev/null", O_WRONLY), 2);
        int rc = run_cmd(scratch, args, input).rc;
        _exit(rc & 0xff);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    unlink((scratch + "/stdout").c_str());
    if (!WIFEXITED(st))
        fail(cmd_text(args) + " crashes");
    return {WEXITSTATUS(st), ""};
}
static void add(std::vector<std::string>& a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); }

static std::map<std::string, std::string> snapshot(const std::string& top)
{
    std::map<std::string, std::string> r;
    if (!stdfs::exists(top))
        return r;
    for (auto& e : stdfs::recursive_directory_iterator(top))
    {
        std::string t;
        struct stat st;
        lstat(e.path().c_str(), &st);
        t = str(st.st_mode) + " ";
        if (e.is_symlink())
            t += stdfs::read_symlink(e.path()).string();
        else if (e.is_regular_file())
            t += read_file(e.path().string());
        r[e.path().string().substr(top.size())] = t;
    }
    return r;
}
static void same(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const std::string& what)
{
    for (auto& [k, v] : a)
        if (!b.count(k))
            fail(what + " removed " + q(k) + " from the disk");
        else if (b.at(k) != v)
            fail(what + " altered " + q(k) + " on the disk");
    for (auto& [k, v] : b)
        if (!a.count(k))
            fail(what + " left " + q(k) + " on the disk");
}
static std::optional<DecryptedSecurefsParams> open_config(const std::string& bytes, const Secret& k, Ctx& c)
{
    try
    {
        std::shared_ptr<securefs::StreamBase> ks;
        if (k.has_key)
        {
            write_file(c.dir + "/vkey", k.key);
            ks = securefs::maybe_open_key_stream(c.dir + "/vkey");
        }
        std::string p = k.effective();
        return securefs::decrypt(std::string_view(bytes), {(const unsigned char*)p.data(), p.size()}, ks.get());
    }
    catch (std::exception&)
    {
        return {};
    }
}
static std::string tree(Repo& r, const DecryptedSecurefsParams& p)
{
    Mount m;
    FsConfig cf;
    m.open(r.dir, p, make_mount_options(cf));
    return dump_of(m);
}
// The config must hold what the model says for exactly the secret the model says.
static void check(Repo& r, const std::string& after)
{
    std::string bytes;
    VREQ(try_read_file(r.real, bytes), after + ": the config is gone");
    RawParams got;
    bool ok = false;
    try
    {
        ok = x_config_open(bytes, r.sec.effective(), r.sec.has_key ? &r.sec.key : nullptr, got);
    }
    catch (DecodeError& e)
    {
        fail(after + ": the independent reader cannot read the config: " + e.what());
    }
    if (!ok)
        fail(after + ": the independent reader cannot open the config with " + r.sec.text());
    if (got.text() != r.par.text())
        fail(after + ": the config holds " + got.text() + ", expected " + r.par.text());
    auto p = open_config(bytes, r.sec, r.c);
    if (!p)
        fail(after + ": the config does not open with " + r.sec.text());
    std::vector<Secret> wrong = {other(r.c.s, r.sec)};
    if (!r.old.empty())
        wrong.push_back(r.old[r.c.s.below(r.old.size())]);
    for (auto& w : wrong)
        if (!(w == r.sec) && open_config(bytes, w, r.c))
            fail(after + ": the config for " + r.sec.text() + " also opens with " + w.text());
    std::string d = tree(r, *p);
    if (d != r.dump)
        fail(after + ": the tree is " + q(d) + ", expected " + q(r.dump));
}
struct CreateArgs
{
    std::vector<std::string> a;
    bool bad = false;
    RawParams want;
};
static CreateArgs gen_create(Repo& r, bool may_be_bad)
{
    Src& s = r.c.s;
    CreateArgs o;
    RawParams& w = o.want;
    w.block = 4096;
    w.iv = 12;
    w.full = s.chance(1, 3);
    if (w.full || s.coin())
        add(o.a, {s.pick({"--format", "-f"}), w.full ? s.pick({std::string("full"), std::string("2"), std::string("FULL")}) : s.pick({std::string("lite"), std::string("4"), std::string("Lite")})});
    if (s.coin())
        add(o.a, {"--iv-size", str(w.iv = s.pick({12u, 16u, 32u}))});
    if (s.coin())
        add(o.a, {"--block-size", str(w.block = s.pick({4096u, 64u, 512u, 65536u}))});
    if (s.chance(1, 3))
        add(o.a, {"--max-padding", str(w.pad = s.pick({0u, 1u, 64u, 300u}))});
    if (w.full)
    {
        if (s.chance(1, 3))
            add(o.a, {"--case", (w.ci = s.coin()) ? "insensitive" : "sensitive"});
        if (s.chance(1, 3))
            add(o.a, {"--uninorm", (w.un = s.coin()) ? "insensitive" : "sensitive"});
    }
    else
    {
        w.has_threshold = true;
        w.threshold = 128;
        w.suffix = ".ll";
        if (s.coin())
        {
            w.threshold = s.pick({10u, 0u, 40u, 143u});
            add(o.a, {"--long-name-threshold", str(w.threshold)});
            w.has_threshold = w.threshold > 0;
        }
        if (s.chance(1, 3))
            add(o.a, {"--long-name-suffix", w.suffix = s.pick({".x", "...", "~", ".LONG"})});
    }
    if (may_be_bad && s.chance(1, 4))
    {
        o.bad = true;
        switch (s.below(7))
        {
        case 0:
            add(o.a, {"--keyfile", r.c.dir + "/missing"});
            break;
        case 1:
            o.a = {"--format", "medium"};
            break;
        case 2:
            o.a = {"--block-size", "0"};
            break;
        case 3:
            o.a = {"--format", "full", "--case", "maybe"};
            break;
        case 4:
            o.a = {"--format", "full", "--uninorm", "maybe"};
            break;
        case 5:
            o.a = {"--long-name-suffix", s.pick({std::string("a/b"), std::string("ABC"), std::string(300, '.')})};
            break;
        default:
            o.a = {"--iv-size", "many"};
        }
    }
    return o;
}
static void took_keys(Repo& r, const std::string& bytes)
{
    RawParams got;
    Secret& k = r.sec;
    bool ok = false;
    try
    {
        ok = x_config_open(bytes, k.effective(), k.has_key ? &k.key : nullptr, got);
    }
    catch (DecodeError& e)
    {
        fail(std::string("the independent reader cannot read the new config: ") + e.what());
    }
    if (!ok)
        fail("the new config does not open with " + k.text());
    std::set<std::string> keys;
    auto key = [&](const std::string& v, std::string& to)
    {
        if (v.size() < 32 || std::set<char>(v.begin(), v.end()).size() < 8 || !keys.insert(v).second)
            fail("the new config holds the senseless key " + hex(v));
        to = v;
    };
    if (got.full)
        key(got.master, r.par.master);
    else
    {
        key(got.name, r.par.name);
        key(got.content, r.par.content);
        key(got.xattr, r.par.xattr);
        key(got.padkey, r.par.padkey);
    }
}
// Adds things to the tree, with long names and nested directories.
static void populate(Repo& r, size_t n, bool links)
{
    auto p = open_config(read_file(r.real), r.sec, r.c);
    VREQ(p, "the config does not open");
    Mount m;
    FsConfig cf;
    m.open(r.dir, *p, make_mount_options(cf));
    Src& s = r.c.s;
    std::vector<std::string> dirs = {""};
    std::string what;
    // In full, around the thresholds in use.
    size_t lens[] = {1, 5, 12, 41, 128, 129, 130, 143, 90, 10, 11, 40, 100, 131};
    for (size_t i = 0; i < n; ++i)
    {
        unsigned id = r.nname++;
        std::string last = str(id), name;
        size_t len = lens[s.below(sizeof lens / sizeof lens[0])];
        last.resize(std::max(last.size(), len), (char)('k' + s.below(3)));
        name = s.pick(dirs) + "/" + last;
        int e = 0;
        switch (s.weighted({4, 2, links ? 1u : 0u, 1}))
        {
        case 0:
            e = m.put(name, s.bytes(s.below(200)));
            break;
        case 1:
            e = m.mkdir(name, 0755);
            if (e == 0)
                dirs.push_back(name);
            break;
        case 2:
            e = m.symlink("to " + str(id) + std::string(s.below(120), 't'), name);
            break;
        default:
            e = m.put(name, "");
            if (e == 0)
                e = m.setxattr(name, "user.x" + str(id), "value");
        }
        if (e != 0)
            fail("filling the repository: " + q(name) + " gives " + std::to_string(e));
        what += " " + q(name);
    }
    r.c.step("add" + what);
    r.dump = dump_of(m);
}
static std::map<std::string, std::string> snap(Repo& r)
{
    auto a = snapshot(r.dir);
    for (auto& [k, v] : snapshot(r.c.dir + "/conf"))
        a["conf:" + k] = v;
    return a;
}
static void choose_places(Repo& r)
{
    Src& s = r.c.s;
    r.dir = r.c.dir + "/data";
    stdfs::create_directory(r.c.dir + "/conf");
    if (s.coin())
        stdfs::create_directory(r.dir);
    if (s.chance(1, 3))
    {
        r.config = r.c.dir + "/conf/" + s.pick({"my.pb", "c", "with space.json"});
        r.real = r.config;
    }
    else
        r.real = r.dir + "/.config.pb";
}
// A JSON config of an earlier version.
static void legacy_repo(Repo& r)
{
    Src& s = r.c.s;
    stdfs::create_directories(r.dir);
    if (r.config.empty())
        r.real = r.dir + "/.securefs.json";
    r.sec = gen_secret(s);
    unsigned ver = s.pick({4u, 2u, 1u, 3u});
    std::string master = s.bytes(ver == 4 ? 128 : 32), salt(32, 's'), iv(12, 'i');
    for (size_t i = 0; i < master.size(); ++i)
        master[i] = (char)(master[i] + i);
    r.par = RawParams{};
    r.par.full = ver != 4;
    r.par.block = 512;
    r.par.iv = 12;
    r.par.pad = s.coin() ? 77 : 0;
    bool lnames = s.coin();
    if (ver == 4)
    {
        r.par.name = master.substr(0, 32);
        r.par.content = master.substr(32, 32);
        r.par.xattr = master.substr(64, 32);
        r.par.padkey = master.substr(96);
        r.par.has_threshold = lnames;
        r.par.threshold = lnames ? 128 : 0;
    }
    else
    {
        r.par.master = master;
        r.par.legacy = ver == 1;
        r.par.store_time = ver == 3;
    }
    std::string key = x_legacy_kdf("pkcs5-pbkdf2-hmac-sha256", r.sec.effective(), r.sec.has_key ? x_hmac(salt, r.sec.key) : salt, 1, 0, 0, 0, 0);
    std::string aad = ver == 4 ? "version=4" : "version=1", ct(master.size(), 0), mac(16, 0);
    CryptoPP::GCM<CryptoPP::AES>::Encryption g;
    using CryptoPP::byte;
    g.SetKeyWithIV((const byte*)key.data(), 32, (const byte*)iv.data(), iv.size());
    g.EncryptAndAuthenticate((byte*)&ct[0], (byte*)&mac[0], 16, (const byte*)iv.data(), (int)iv.size(), (const byte*)aad.data(), aad.size(), (const byte*)master.data(),
                             master.size());
    auto hx = [](const std::string& v)
    {
        std::string o;
        char b[4];
        for (unsigned char ch : v)
        {
            snprintf(b, 4, "%02x", ch);
            o += b;
        }
        return o;
    };
    write_file(r.real,
               "{\"version\":" + str(ver) + ",\"block_size\":512,\"iv_size\":12" + (r.par.pad ? ",\"max_padding\":77" : "") + (lnames ? ",\"long_name_component\":true" : "")
                   + ",\"pbkdf\":\"pkcs5-pbkdf2-hmac-sha256\",\"iterations\":1,\"salt\":\"" + hx(salt) + "\",\"encrypted_key\":{\"IV\":\"" + hx(iv) + "\",\"MAC\":\"" + hx(mac)
                   + "\",\"key\":\"" + hx(ct) + "\"}}");
    r.exists = true;
    r.dump = tree(r, *open_config(read_file(r.real), r.sec, r.c));
    r.c.step("repository of version " + str(ver) + " with " + r.sec.text());
}
static void create(Repo& r, bool may_be_bad)
{
    Secret k = gen_secret(r.c.s);
    CreateArgs o = gen_create(r, may_be_bad);
    std::string in;
    auto a = r.base(r.c.s.pick({"create", "c"}));
    add(a, o.a);
    if (o.bad)
        add(a, {"--pass", "x"});
    else
        add(a, r.give(k, "--pass", "--keyfile", "--askpass", in));
    add(a, r.argon());
    auto before = snap(r);
    auto res = o.bad ? run_apart(r.c.dir, a, in) : run_cmd(r.c.dir, a, in);
    std::string t = cmd_text(a);
    r.c.step(t + (in.empty() ? "" : " <" + q(in)) + " = " + std::to_string(res.rc));
    if (r.exists || o.bad)
    {
        if (res.rc == 0)
            fail(t + (r.exists ? " succeeds although there is a config" : " succeeds"));
        same(before, snap(r), "refused " + t);
        r.c.label(r.exists ? "create over a repository" : "create with bad options");
        return;
    }
    if (res.rc != 0)
        fail(t + " returns " + str(res.rc));
    r.exists = true;
    r.sec = k;
    r.par = o.want;
    std::string bytes;
    VREQ(try_read_file(r.real, bytes), t + " leaves no config");
    took_keys(r, bytes);
    r.dump = tree(r, *open_config(bytes, k, r.c));
    if (r.dump.find('\n') != std::string::npos && false)
        fail("a new repository is not empty");
    check(r, t);
    r.c.label("created");
}
struct Planned
{
    std::vector<std::string> a;
    std::string in;
    bool refuse = false;
    Secret to;               // chpass
    std::string suffix;      // migrate
};
static Planned plan_chpass(Repo& r, bool may_refuse)
{
    Src& s = r.c.s;
    Planned p;
    p.refuse = may_refuse && s.chance(1, 4);
    Secret from = p.refuse ? other(s, r.sec) : r.sec;
    p.to = s.chance(1, 8) ? r.sec : s.chance(1, 3) ? other(s, r.sec) : gen_secret(s);
    p.a = r.base("chpass");
    add(p.a, r.give(from, "--oldpass", "--oldkeyfile", "--askoldpass", p.in));
    add(p.a, r.give(p.to, "--newpass", "--newkeyfile", "--asknewpass", p.in));
    if (may_refuse && s.chance(1, 12))
    {
        add(p.a, {"--bogus"});
        p.refuse = true;
    }
    add(p.a, r.argon());
    return p;
}
static const std::vector<std::string> kSuffixes = {".ll", ".x", "a.x", "...", "~", ".LONG", ".l", "l", "1"};
static Planned plan_migrate(Repo& r, bool may_refuse)
{
    Src& s = r.c.s;
    Planned p;
    bool wrong = may_refuse && s.chance(1, 5);
    p.refuse = wrong || r.par.full;
    p.suffix = s.pick(kSuffixes);
    if (may_refuse && s.chance(1, 6))
    {
        p.suffix = s.pick({std::string("a/b"), std::string("ABC"), std::string(300, '.'), std::string("\xC3")});
        p.refuse = true;
    }
    p.a = r.base("migrate-long-name");
    add(p.a, r.give(wrong ? other(s, r.sec) : r.sec, "--pass", "--keyfile", "--askpass", p.in));
    if (p.suffix != ".ll" || s.coin())
        add(p.a, {"--long-name-suffix", p.suffix});
    add(p.a, r.argon());
    return p;
}
static void chpass_done(Repo& r, const Planned& p)
{
    r.old.push_back(r.sec);
    r.sec = p.to;
}
// What the config holds after a migration; a new threshold must not touch existing names.
static void migrate_done(Repo& r, const Planned& p, size_t longest)
{
    r.par.suffix = p.suffix;
    if (r.par.threshold == 0)
    {
        RawParams got;
        x_config_open(read_file(r.real), r.sec.effective(), r.sec.has_key ? &r.sec.key : nullptr, got);
        if (!got.has_threshold || got.threshold == 0 || got.threshold < longest || got.threshold > 143)
            fail("after migrating names of up to " + str(longest) + " bytes, the threshold is " + str(got.threshold));
        r.par.has_threshold = true;
        r.par.threshold = got.threshold;
    }
}
static size_t longest_name(const Repo& r)
{
    size_t n = 0;
    if (!stdfs::exists(r.dir))
        return 0;
    for (auto& e : stdfs::recursive_directory_iterator(r.dir))
    {
        size_t k = e.path().filename().string().size() * 5 / 8;
        if (k > 16 && e.path().filename().string()[0] != '.')
            n = std::max(n, k - 16);
    }
    return n;
}
static bool has_links(const Repo& r)
{
    for (auto& e : stdfs::recursive_directory_iterator(r.dir))
        if (e.is_symlink())
            return true;
    return false;
}
static void info(Repo& r)
{
    Src& s = r.c.s;
    bool wrong = s.chance(1, 3), unmask = s.coin();
    std::string in;
    auto a = r.base("info");
    add(a, r.give(wrong ? other(s, r.sec) : r.sec, "--pass", "--keyfile", "--askpass", in));
    if (unmask)
        a.push_back("--unmask");
    auto before = snap(r);
    auto res = run_cmd(r.c.dir, a, in);
    std::string t = cmd_text(a);
    r.c.step(t + " = " + std::to_string(res.rc));
    same(before, snap(r), t);
    if (wrong)
    {
        if (res.rc == 0)
            fail(t + " succeeds with wrong secrets");
        if (!res.out.empty())
            fail(t + " prints " + q(res.out) + " although the secrets are wrong");
        r.c.label("info refused");
        return;
    }
    if (res.rc != 0)
        fail(t + " returns " + str(res.rc));
    DecryptedSecurefsParams p;
    auto st = google::protobuf::util::JsonStringToMessage(res.out, &p);
    if (!st.ok())
        fail(t + " prints something unreadable: " + q(res.out));
    RawParams got = raw_of(p), want = r.par;
    if (!unmask)
        want.master = want.name = want.content = want.xattr = want.padkey = "";
    // Printing does not tell an absent threshold from 0.
    if (!got.has_threshold || got.threshold == 0)
        got.has_threshold = want.has_threshold && want.threshold == 0;
    if (got.text() != want.text())
        fail(t + " prints " + q(res.out) + ", the config holds " + want.text());
    r.c.label(unmask ? "info unmasked" : "info");
}
static void commands(Ctx& c)
{
    Repo r(c);
    Src& s = c.s;
    choose_places(r);
    if (s.chance(1, 5))
        legacy_repo(r);
    size_t n = 3 + s.below(6), good = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t w = r.exists ? s.weighted({3, 3, 3, 3, 1}) : 4;
        switch (w)
        {
        case 0:
            populate(r, 1 + s.below(5), s.chance(1, 3));
            break;
        case 1: {
            Planned p = plan_chpass(r, true);
            auto before = snap(r);
            std::string had = read_file(r.real);
            auto res = p.refuse ? run_apart(c.dir, p.a, p.in) : run_cmd(c.dir, p.a, p.in);
            std::string t = cmd_text(p.a);
            c.step(t + (p.in.empty() ? "" : " <" + q(p.in)) + " = " + std::to_string(res.rc));
            if (p.refuse)
            {
                if (res.rc == 0)
                    fail(t + " succeeds");
                same(before, snap(r), "refused " + t);
                c.label("chpass refused");
                break;
            }
            if (res.rc != 0)
                fail(t + " returns " + str(res.rc));
            chpass_done(r, p);
            std::string now = read_file(r.real);
            if (now == had)
                fail(t + " leaves the config as it was");
            auto after = snap(r);
            std::string key = r.config.empty() ? r.real.substr(r.dir.size()) : "conf:" + r.real.substr((c.dir + "/conf").size());
            before.erase(key);
            after.erase(key);
            same(before, after, t);
            check(r, t);
            ++good;
            c.label("chpass");
            break;
        }
        case 2: {
            Planned p = plan_migrate(r, true);
            auto before = snap(r);
            bool fresh = !r.par.full && r.par.threshold == 0;
            if (fresh && has_links(r))
                p.refuse = true;
            size_t longest = longest_name(r);
            auto res = p.refuse ? run_apart(c.dir, p.a, p.in) : run_cmd(c.dir, p.a, p.in);
            std::string t = cmd_text(p.a);
            c.step(t + (p.in.empty() ? "" : " <" + q(p.in)) + " = " + std::to_string(res.rc));
            if (p.refuse)
            {
                if (res.rc == 0)
                    fail(t + " succeeds");
                same(before, snap(r), "refused " + t);
                c.label("migrate refused");
                break;
            }
            if (res.rc != 0)
                fail(t + " returns " + str(res.rc));
            migrate_done(r, p, longest);
            check(r, t);
            ++good;
            c.label(fresh ? "migrated to long names" : "migrated to another suffix");
            break;
        }
        case 3:
            info(r);
            break;
        default: {
            bool had = r.exists;
            create(r, true);
            good += !had && r.exists;
        }
        }
        if (r.exists && s.chance(1, 3))
            check(r, "later");
    }
    c.nontrivial = good >= 2;
}
// --- A failure or an interruption at each operation on the disk.
static void restore(const std::string& from, const std::string& to)
{
    stdfs::remove_all(to);
    if (stdfs::exists(from))
    {
        // With the extended attributes.
        std::string cmd = "cp -a --no-preserve=timestamps '" + from + "' '" + to + "'";
        if (system(cmd.c_str()) != 0)
            throw std::runtime_error("copy");
    }
}
static void faults(Ctx& c)
{
    Repo r(c);
    Src& s = c.s;
    choose_places(r);
    size_t kind = s.below(3);
    if (kind < 2)
    {
        if (s.chance(1, 5))
            legacy_repo(r);
        else
            create(r, false);
        if (kind == 1 && r.par.full)
            kind = 0;
        populate(r, kind == 1 ? 2 + s.below(10) : s.below(3), false);
    }
    Planned p;
    CreateArgs o;
    Secret k;
    if (kind == 0)
        p = plan_chpass(r, false);
    else if (kind == 1)
        p = plan_migrate(r, false);
    else
    {
        k = gen_secret(s);
        o = gen_create(r, false);
        p.a = r.base("create");
        add(p.a, o.a);
        add(p.a, r.give(k, "--pass", "--keyfile", "--askpass", p.in));
        add(p.a, r.argon());
    }
    std::string t = cmd_text(p.a);
    c.step(t);
    size_t longest = longest_name(r);
    restore(r.dir, c.dir + "/keep-data");
    restore(c.dir + "/conf", c.dir + "/keep-conf");
    auto mine = [](const fault::Op& op) { return op.path.rfind("/data", 0) == 0 || op.path.rfind("/conf", 0) == 0 || op.path.rfind("/keys", 0) == 0; };
    // The whole command once, to know its operations.
    std::vector<std::string> ops;
    {
        fault::Armed a(c.dir,
                       [&](const fault::Op& op)
                       {
                           if (mine(op))
                               ops.push_back(std::string(fault::kind_name(op.kind)) + " " + op.path);
                           return fault::Verdict{};
                       });
        auto res = run_cmd(c.dir, p.a, p.in);
        if (res.rc != 0)
            fail(t + " returns " + str(res.rc));
    }
    Repo before = r;
    size_t tried = 0;
    std::vector<size_t> at;
    for (size_t i = 0; i < ops.size(); ++i)
        at.push_back(i);
    while (at.size() > 12)
        at.erase(at.begin() + (long)s.below(at.size()));
    for (size_t first : at)
    {
        restore(c.dir + "/keep-data", r.dir);
        restore(c.dir + "/keep-conf", c.dir + "/conf");
        auto snap0 = snap(before);
        size_t rounds = s.chance(1, 3) ? 2 : 1, k_at = first;
        bool ok = false;
        std::string story = t;
        for (size_t round = 0; round < rounds && !ok; ++round, k_at = s.below(ops.size()))
        {
            bool crash = s.coin();
            int err = s.pick({EIO, ENOSPC, EMFILE, EDQUOT});
            bool once = s.coin();
            size_t n = 0;
            std::string hit, cleanup;
            auto hook = [&](const fault::Op& op)
            {
                fault::Verdict v;
                if (!mine(op))
                    return v;
                if (n == k_at || (n > k_at && !once && !crash && op.kind != fault::UNLINK))
                {
                    if (n == k_at)
                        hit = std::string(fault::kind_name(op.kind)) + " " + op.path;
                    if (crash)
                        _exit(77);
                    v.err = err;
                }
                ++n;
                return v;
            };
            int rc = -1;
            if (crash)
            {
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0)
                {
                    fault::Armed a(c.dir, hook);
                    auto res = run_cmd(c.dir, p.a, p.in);
                    _exit(res.rc == 0 ? 0 : 1);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
                if (rc == 99)
                    fail(t + " crashes when interrupted");
                story += ", interrupted before operation " + str(k_at) + (k_at < ops.size() ? " (" + ops[k_at] + ")" : "");
            }
            else
            {
                fault::Armed a(c.dir, hook);
                rc = run_cmd(c.dir, p.a, p.in).rc;
                story += ", operation " + str(k_at) + " (" + hit + ")" + (once ? "" : " and all later ones") + " failing with " + strerror(err) + " (" + str(rc) + ")";
            }
            c.step(story);
            ok = rc == 0;
            ++tried;
            if (ok)
                break;
            c.label(crash ? "interrupted" : "failed");
            if (kind == 2)
            {
                std::string b;
                if (!crash)
                {
                    if (try_read_file(r.real, b))
                        fail(story + ": a config of " + str(b.size()) + " bytes is left although create failed");
                    continue;
                }
                stdfs::remove(r.real);
                rounds = 1;
                continue;
            }
            // The old config or the new one.
            std::string b;
            VREQ(try_read_file(r.real, b), story + ": the config is gone");
            RawParams got;
            bool isold = false, isnew = false;
            try
            {
                isold = x_config_open(b, before.sec.effective(), before.sec.has_key ? &before.sec.key : nullptr, got);
                isnew = !isold && kind == 0 && x_config_open(b, p.to.effective(), p.to.has_key ? &p.to.key : nullptr, got);
            }
            catch (DecodeError& e)
            {
                fail(story + ": the config is damaged: " + e.what());
            }
            if (!isold && !isnew)
                fail(story + ": the config opens neither with the old nor with the new secrets");
            if (kind == 0)
            {
                if (got.text() != before.par.text())
                    fail(story + ": the config holds " + got.text() + ", expected " + before.par.text());
                auto now = snap(before);
                std::string key = r.config.empty() ? r.real.substr(r.dir.size()) : "conf:" + r.real.substr((c.dir + "/conf").size());
                if (!crash)
                {
                    auto was = snap0;
                    was.erase(key);
                    now.erase(key);
                    // After an interruption of an earlier round its temporary file remains.
                    if (round == 0)
                        same(was, now, story);
                }
                auto dp = open_config(b, isold ? before.sec : p.to, c);
                VREQ(dp, story + ": the config does not open");
                if (tree(before, *dp) != before.dump)
                    fail(story + ": the tree is changed");
                if (!isold)
                    break;    // cannot be repeated with the old secrets
            }
            else if (got.text() != before.par.text())
            {
                RawParams want = before.par;
                want.suffix = p.suffix;
                want.has_threshold = true;
                if (before.par.threshold == 0)
                    want.threshold = got.threshold;
                if (got.text() != want.text())
                    fail(story + ": the config holds " + got.text() + ", expected " + before.par.text() + " or " + want.text());
            }
        }
        // Once nothing fails, the command can be repeated and gets to the same end.
        Repo now = before;
        if (!ok)
        {
            bool isnew = kind == 0 && [&] {
                RawParams g;
                return !(p.to == before.sec) && x_config_open(read_file(r.real), p.to.effective(), p.to.has_key ? &p.to.key : nullptr, g);
            }();
            if (!isnew)
            {
                int rc = run_cmd(c.dir, p.a, p.in).rc;
                if (rc != 0)
                    fail(story + ": then repeating the command returns " + str(rc));
            }
        }
        if (kind == 2)
        {
            now.exists = true;
            now.sec = k;
            now.par = o.want;
            std::string b;
            VREQ(try_read_file(r.real, b), story + ": no config after create succeeded");
            took_keys(now, b);
            now.dump = tree(now, *open_config(b, k, c));
        }
        else if (kind == 0)
            chpass_done(now, p);
        else
            migrate_done(now, p, longest);
        check(now, story);
    }
    c.label("fault points", tried);
    c.nontrivial = tried >= 3;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S13";
    p.rule = "commands: a case runs a generated sequence of create, chpass, info and migrate-long-name with generated options, password sources (argument or "
             "input) and key files, among changes of the tree, on one repository (also of the earlier JSON styles); after each command the config is opened by an "
             "independent reader with the right secrets and must refuse related and replaced ones, keys and settings must be as the model says, the tree must be "
             "unchanged, and a refused command must alter no byte on disk. Non-trivial: at least 2 commands took effect. faults: the operations on the disk of one "
             "command are counted, then it is run again and again from the same state with a failure or the end of the process at one of up to 12 of them, "
             "sometimes twice in a row, and repeated without. Non-trivial: at least 3 fault points. Distinct by choice sequence.";
    p.assumptions = {"argon2 and Crypto++ are right; cost settings are kept small", "a process that dies leaves the operations done so far in effect, in order"};
    p.quick_cases = 3000;
    p.thorough_cases = 100000;
    p.init = []
    {
        securefs::global_logger.reset();
        umask(0);
    };
    p.tests = {{"commands", commands, 4}, {"faults", faults, 1}};
    return run_main(argc, argv, p);
}
