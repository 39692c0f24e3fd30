#include "fsdrv.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>

static thread_local fuse_context t_ctx;
extern "C" struct fuse_context* fuse_get_context(void) { return &t_ctx; }

namespace vp
{
using namespace securefs;
std::string FsConfig::text() const
{
    std::string r = full ? "full" : "lite";
    r += " block=" + str(block) + " iv=" + str(iv) + " pad=" + str(pad);
    if (full)
        r += std::string(store_time ? " store_time" : "") + (legacy ? " legacy_table" : "") + (ci ? " case_insensitive" : "")
            + (un ? " uninorm" : "");
    else
        r += (threshold ? " threshold=" + str(*threshold) + " suffix=" + suffix : std::string(" legacy_names"))
            + (fold ? " casefold" : "") + (nfc ? " nfc" : "") + (plain ? " plain_names" : "");
    if (!verify)
        r += " noverify";
    if (readonly)
        r += " readonly";
    return r;
}
static std::string key_bytes(uint64_t seed, int which, size_t n)
{
    Rng g{mix(seed * 31 + (uint64_t)which)};
    std::string r;
    while (r.size() < n)
        r.push_back((char)(g.next() >> 17));
    return r;
}
DecryptedSecurefsParams make_params(const FsConfig& c)
{
    DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(c.block);
    p.mutable_size_params()->set_iv_size(c.iv);
    p.mutable_size_params()->set_max_padding_size(c.pad);
    if (c.full)
    {
        auto f = p.mutable_full_format_params();
        f->set_master_key(key_bytes(c.keyseed, 1, 32));
        f->set_store_time(c.store_time);
        f->set_legacy_file_table_io(c.legacy);
        f->set_case_insensitive(c.ci);
        f->set_unicode_normalization_agnostic(c.un);
    }
    else
    {
        auto l = p.mutable_lite_format_params();
        l->set_name_key(key_bytes(c.keyseed, 2, 32));
        l->set_content_key(key_bytes(c.keyseed, 3, 32));
        l->set_xattr_key(key_bytes(c.keyseed, 4, 32));
        if (c.pad)
            l->set_padding_key(key_bytes(c.keyseed, 5, 32));
        if (c.threshold)
            l->set_long_name_threshold(*c.threshold);
        l->set_long_name_suffix(c.suffix);
    }
    return p;
}
MountOptions make_mount_options(const FsConfig& c)
{
    MountOptions m;
    m.set_read_only(c.readonly);
    m.set_disable_verification(!c.verify);
    m.set_enable_xattr(c.xattr);
    m.set_case_fold(c.fold);
    m.set_unicode_normalize_nfc(c.nfc);
    m.set_plain_text_names(c.plain);
    if (c.uid)
        m.set_uid_override(*c.uid);
    if (c.gid)
        m.set_gid_override(*c.gid);
    return m;
}
FsConfig gen_config(Src& s, bool full)
{
    FsConfig c;
    c.full = full;
    c.block = s.pick({64u, 32u, 33u, 50u, 100u, 128u, 257u, 512u, 1024u, 4096u});
    c.iv = s.pick({12u, 12u, 16u, 13u, 20u, 32u});
    if (s.chance(1, 3))
        c.pad = s.pick({1u, 5u, 16u, 63u, 128u, 300u});
    c.keyseed = 1 + s.below(3);
    if (full)
    {
        c.store_time = s.coin();
        c.legacy = s.chance(1, 3);
        if (c.block < 32)
            c.block = 32;
    }
    else
    {
        if (s.chance(2, 3))
        {
            c.threshold = s.pick({128u, 100u, 20u, 8u, 1u, 143u});
            c.suffix = s.pick({std::string(".ll"), std::string(""), std::string("..."), std::string(".x")});
        }
    }
    return c;
}
void Mount::open(const std::string& dir, const DecryptedSecurefsParams& p, const MountOptions& m)
{
    close();
    os = std::make_shared<OSService>(dir);
    ops = make_fuse_high_level_ops(os, p, m);
    f = FuseHighLevelOpsBase::build_ops(ops.get());
}
void Mount::open(const std::string& dir, const FsConfig& c) { open(dir, make_params(c), make_mount_options(c)); }
void Mount::enter() const
{
    t_ctx.private_data = ops.get();
    t_ctx.uid = uid;
    t_ctx.gid = gid;
    t_ctx.pid = 1;
    t_ctx.umask = 022;
}
#define ENTER(op)                                                                                  \
    enter();                                                                                       \
    if (!f.op)                                                                                     \
    return -ENOSYS
int Mount::create(const std::string& p, mode_t m, fuse_file_info& fi)
{
    ENTER(create);
    memset(&fi, 0, sizeof fi);
    fi.flags = O_RDWR | O_CREAT | O_EXCL;
    return f.create(p.c_str(), S_IFREG | m, &fi);
}
int Mount::open(const std::string& p, int flags, fuse_file_info& fi)
{
    ENTER(open);
    memset(&fi, 0, sizeof fi);
    fi.flags = flags;
    return f.open(p.c_str(), &fi);
}
// libfuse passes no path with calls on handles, since the table of operations sets flag_nopath.
int Mount::release(const std::string& p, fuse_file_info& fi)
{
    ENTER(release);
    return f.release(nullptr, &fi);
}
int Mount::read(const std::string& p, std::string& out, size_t n, off_t off, fuse_file_info& fi)
{
    ENTER(read);
    // Exact-size heap buffer, so that the sanitizer sees any overrun.
    std::unique_ptr<char[]> b(new char[n ? n : 1]);
    memset(b.get(), 0x5A, n);
    int r = f.read(nullptr, b.get(), n, off, &fi);
    out.clear();
    if (r > 0)
    {
        if ((size_t)r > n)
            fail("read of " + str(n) + " bytes returned " + str(r));
        out.assign(b.get(), (size_t)r);
    }
    return r;
}
int Mount::write(const std::string& p, std::string_view d, off_t off, fuse_file_info& fi)
{
    ENTER(write);
    std::unique_ptr<char[]> b(new char[d.size() ? d.size() : 1]);
    memcpy(b.get(), d.data(), d.size());
    return f.write(nullptr, b.get(), d.size(), off, &fi);
}
int Mount::flush(const std::string& p, fuse_file_info& fi)
{
    ENTER(flush);
    return f.flush(nullptr, &fi);
}
int Mount::fsync(const std::string& p, bool ds, fuse_file_info& fi)
{
    ENTER(fsync);
    return f.fsync(nullptr, ds, &fi);
}
int Mount::ftruncate(const std::string& p, off_t n, fuse_file_info& fi)
{
    ENTER(ftruncate);
    return f.ftruncate(nullptr, n, &fi);
}
int Mount::fgetattr(const std::string& p, struct stat& st, fuse_file_info& fi)
{
    ENTER(fgetattr);
    memset(&st, 0, sizeof st);
    return f.fgetattr(nullptr, &st, &fi);
}
int Mount::truncate(const std::string& p, off_t n)
{
    ENTER(truncate);
    return f.truncate(p.c_str(), n);
}
int Mount::getattr(const std::string& p, struct stat& st)
{
    ENTER(getattr);
    memset(&st, 0, sizeof st);
    return f.getattr(p.c_str(), &st);
}
int Mount::mkdir(const std::string& p, mode_t m)
{
    ENTER(mkdir);
    return f.mkdir(p.c_str(), m);
}
int Mount::rmdir(const std::string& p)
{
    ENTER(rmdir);
    return f.rmdir(p.c_str());
}
int Mount::unlink(const std::string& p)
{
    ENTER(unlink);
    return f.unlink(p.c_str());
}
int Mount::symlink(const std::string& to, const std::string& p)
{
    ENTER(symlink);
    return f.symlink(to.c_str(), p.c_str());
}
int Mount::readlink(const std::string& p, std::string& out, size_t n)
{
    ENTER(readlink);
    std::unique_ptr<char[]> b(new char[n ? n : 1]);
    memset(b.get(), 0x5A, n);
    int r = f.readlink(p.c_str(), b.get(), n);
    out.clear();
    if (r == 0 && n)
    {
        if (!memchr(b.get(), 0, n))
            fail("readlink left its buffer unterminated");
        out = b.get();
    }
    return r;
}
int Mount::link(const std::string& a, const std::string& b)
{
    ENTER(link);
    return f.link(a.c_str(), b.c_str());
}
int Mount::rename(const std::string& a, const std::string& b)
{
    ENTER(rename);
    return f.rename(a.c_str(), b.c_str());
}
int Mount::chmod(const std::string& p, mode_t m)
{
    ENTER(chmod);
    return f.chmod(p.c_str(), m);
}
int Mount::chown(const std::string& p, uid_t u, gid_t g)
{
    ENTER(chown);
    return f.chown(p.c_str(), u, g);
}
int Mount::utimens(const std::string& p, const timespec ts[2])
{
    ENTER(utimens);
    return f.utimens(p.c_str(), ts);
}
int Mount::getpath(const std::string& p, std::string& out, size_t bufsize)
{
    enter();
    out.clear();
    std::unique_ptr<char[]> buf(new char[bufsize]);
    memset(buf.get(), 'Z', bufsize);
    int rc;
    try
    {
        rc = ops->vgetpath(p.c_str(), buf.get(), bufsize, nullptr, fuse_get_context());
    }
    catch (const securefs::ExceptionBase& e)
    {
        rc = -e.error_number();
    }
    if (rc == 0)
        out.assign(buf.get(), strnlen(buf.get(), bufsize));
    return rc;
}
int Mount::statfs(const std::string& p, struct statvfs& st)
{
    ENTER(statfs);
    memset(&st, 0, sizeof st);
    return f.statfs(p.c_str(), &st);
}
int Mount::setxattr(const std::string& p, const std::string& n, std::string_view v, int flags)
{
    ENTER(setxattr);
    std::unique_ptr<char[]> b(new char[v.size() ? v.size() : 1]);
    memcpy(b.get(), v.data(), v.size());
    return f.setxattr(p.c_str(), n.c_str(), b.get(), v.size(), flags);
}
int Mount::getxattr(const std::string& p, const std::string& n, std::string& out, size_t size)
{
    ENTER(getxattr);
    out.clear();
    if (size == 0)
        return f.getxattr(p.c_str(), n.c_str(), nullptr, 0);
    std::unique_ptr<char[]> b(new char[size]);
    int r = f.getxattr(p.c_str(), n.c_str(), b.get(), size);
    if (r > 0)
    {
        if ((size_t)r > size)
            fail("getxattr into " + str(size) + " bytes returned " + str(r));
        out.assign(b.get(), (size_t)r);
    }
    return r;
}
int Mount::listxattr(const std::string& p, std::vector<std::string>& out, size_t size)
{
    ENTER(listxattr);
    out.clear();
    if (size == 0)
        return f.listxattr(p.c_str(), nullptr, 0);
    std::unique_ptr<char[]> b(new char[size]);
    int r = f.listxattr(p.c_str(), b.get(), size);
    if (r > 0)
    {
        if ((size_t)r > size)
            fail("listxattr into " + str(size) + " bytes returned " + str(r));
        if (b[r - 1] != 0)
            fail("listxattr result is not NUL-terminated");
        for (int i = 0; i < r;)
        {
            out.emplace_back(b.get() + i);
            i += (int)out.back().size() + 1;
        }
    }
    return r;
}
int Mount::removexattr(const std::string& p, const std::string& n)
{
    ENTER(removexattr);
    return f.removexattr(p.c_str(), n.c_str());
}
int Mount::opendir(const std::string& p, fuse_file_info& fi)
{
    ENTER(opendir);
    memset(&fi, 0, sizeof fi);
    return f.opendir(p.c_str(), &fi);
}
static int fill(void* buf, const char* name, const struct stat* st, off_t)
{
    DirEnt e;
    e.name = name;
    if (st)
        e.st = *st;
    else
        memset(&e.st, 0, sizeof e.st);
    static_cast<std::vector<DirEnt>*>(buf)->push_back(e);
    return 0;
}
int Mount::readdir(const std::string& p, std::vector<DirEnt>& out, fuse_file_info& fi)
{
    ENTER(readdir);
    out.clear();
    return f.readdir(nullptr, &out, &fill, 0, &fi);
}
int Mount::releasedir(const std::string& p, fuse_file_info& fi)
{
    ENTER(releasedir);
    return f.releasedir(nullptr, &fi);
}
int Mount::ls(const std::string& p, std::vector<DirEnt>& out)
{
    fuse_file_info fi;
    int r = opendir(p, fi);
    if (r)
        return r;
    std::vector<DirEnt> all;
    r = readdir(p, all, fi);
    int r2 = releasedir(p, fi);
    out.clear();
    for (auto& e : all)
        if (e.name != "." && e.name != "..")
            out.push_back(e);
    return r ? r : r2;
}
int Mount::put(const std::string& p, std::string_view d)
{
    fuse_file_info fi;
    int r = create(p, 0644, fi);
    if (r == -EEXIST)
        r = open(p, O_RDWR | O_TRUNC, fi);
    if (r)
        return r;
    if (!d.empty())
    {
        r = write(p, d, 0, fi);
        r = r == (int)d.size() ? 0 : r < 0 ? r : -EIO;
    }
    int r2 = flush(p, fi);
    int r3 = release(p, fi);
    return r ? r : r2 ? r2 : r3;
}
int Mount::get(const std::string& p, std::string& out, size_t chunk)
{
    fuse_file_info fi;
    out.clear();
    int r = open(p, O_RDONLY, fi);
    if (r)
        return r;
    std::string part;
    while (true)
    {
        r = read(p, part, chunk, (off_t)out.size(), fi);
        if (r <= 0)
            break;
        out += part;
        if (out.size() > (size_t)1 << 28)
            fail("endless read of " + p);
    }
    int r2 = release(p, fi);
    return r < 0 ? r : r2;
}
static void dump(Mount& m, const std::string& p, bool contents, std::string& o)
{
    std::vector<DirEnt> es;
    int r = m.ls(p, es);
    if (r)
    {
        o += p + " ls error " + std::to_string(r) + "\n";
        return;
    }
    std::sort(es.begin(), es.end(), [](const DirEnt& a, const DirEnt& b) { return a.name < b.name; });
    for (auto& e : es)
    {
        std::string c = (p == "/" ? "" : p) + "/" + e.name;
        struct stat st;
        r = m.getattr(c, st);
        o += c;
        if (r)
        {
            o += " getattr error " + std::to_string(r) + "\n";
            continue;
        }
        if (S_ISDIR(st.st_mode))
        {
            o += " dir\n";
            dump(m, c, contents, o);
        }
        else if (S_ISLNK(st.st_mode))
        {
            std::string t;
            r = m.readlink(c, t);
            o += " link " + (r ? "error " + std::to_string(r) : t) + "\n";
        }
        else
        {
            o += " file " + std::to_string(st.st_size);
            if (contents)
            {
                std::string d;
                r = m.get(c, d);
                o += r ? " error " + std::to_string(r) : " " + hex(d, 1 << 20);
            }
            o += "\n";
        }
    }
}
std::string dump_tree(Mount& m, bool contents)
{
    std::string o;
    dump(m, "/", contents, o);
    return o;
}
}    // namespace vp
