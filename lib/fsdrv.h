// Drives a securefs file system exactly as libfuse would: through the fuse_operations table that
// FuseHighLevelOpsBase::build_ops hands to libfuse, with a harness-defined fuse_get_context().
#pragma once
#include "prop.h"

#include "fuse_high_level_ops_base.h"
#include "internal_mount.h"
#include "logger.h"
#include "params.pb.h"
#include "platform.h"

#include <memory>
#include <optional>
#include <string>
#include <sys/statvfs.h>
#include <vector>

namespace vp
{
struct FsConfig
{
    bool full = false;
    unsigned block = 64, iv = 12, pad = 0;
    uint64_t keyseed = 1;
    // full
    bool store_time = false, legacy = false, ci = false, un = false;
    // lite
    std::optional<unsigned> threshold;
    std::string suffix;
    bool fold = false, nfc = false, plain = false;
    // mount
    bool verify = true, xattr = true, readonly = false;
    std::optional<int> uid, gid;
    std::string text() const;
};
securefs::DecryptedSecurefsParams make_params(const FsConfig&);
securefs::MountOptions make_mount_options(const FsConfig&);
// Draws a configuration of the given format. block sizes are small so that a few KB span many blocks.
FsConfig gen_config(Src& s, bool full);

struct DirEnt
{
    std::string name;
    struct stat st;
};
// All calls return what the fuse_operations entry returned (0/positive or -errno).
class Mount
{
public:
    std::shared_ptr<securefs::OSService> os;
    std::shared_ptr<securefs::FuseHighLevelOpsBase> ops;
    fuse_operations f{};
    unsigned uid = 0, gid = 0;

    Mount() {}
    Mount(const std::string& dir, const FsConfig& c) { open(dir, c); }
    ~Mount() { close(); }
    void open(const std::string& dir, const FsConfig& c);
    void open(const std::string& dir, const securefs::DecryptedSecurefsParams& p, const securefs::MountOptions& m);
    void close()
    {
        ops.reset();
        os.reset();
    }
    bool is_open() const { return !!ops; }

    void enter() const;    // sets the context of this thread
    int create(const std::string& p, mode_t m, fuse_file_info& fi);
    int open(const std::string& p, int flags, fuse_file_info& fi);
    int release(const std::string& p, fuse_file_info& fi);
    int read(const std::string& p, std::string& out, size_t n, off_t off, fuse_file_info& fi);
    int write(const std::string& p, std::string_view d, off_t off, fuse_file_info& fi);
    int flush(const std::string& p, fuse_file_info& fi);
    int fsync(const std::string& p, bool datasync, fuse_file_info& fi);
    int ftruncate(const std::string& p, off_t n, fuse_file_info& fi);
    int fgetattr(const std::string& p, struct stat& st, fuse_file_info& fi);
    int truncate(const std::string& p, off_t n);
    int getattr(const std::string& p, struct stat& st);
    int mkdir(const std::string& p, mode_t m);
    int rmdir(const std::string& p);
    int unlink(const std::string& p);
    int symlink(const std::string& to, const std::string& p);
    int readlink(const std::string& p, std::string& out, size_t bufsize = 4097);
    int link(const std::string& a, const std::string& b);
    int rename(const std::string& a, const std::string& b);
    int chmod(const std::string& p, mode_t m);
    int chown(const std::string& p, uid_t u, gid_t g);
    int utimens(const std::string& p, const timespec ts[2]);
    int statfs(const std::string& p, struct statvfs& st);
    // The spelling under which the object is stored; only WinFsp asks for it, so it is not in fuse_operations here.
    int getpath(const std::string& p, std::string& out, size_t bufsize = 8192);
    int setxattr(const std::string& p, const std::string& n, std::string_view v, int flags = 0);
    int getxattr(const std::string& p, const std::string& n, std::string& out, size_t bufsize = 65536);
    int listxattr(const std::string& p, std::vector<std::string>& out, size_t bufsize = 65536);
    int removexattr(const std::string& p, const std::string& n);
    int opendir(const std::string& p, fuse_file_info& fi);
    int readdir(const std::string& p, std::vector<DirEnt>& out, fuse_file_info& fi);
    int releasedir(const std::string& p, fuse_file_info& fi);
    // Composites.
    int ls(const std::string& p, std::vector<DirEnt>& out);          // without . and ..
    int put(const std::string& p, std::string_view d);               // create + write + release
    int get(const std::string& p, std::string& out, size_t chunk = 1 << 16);
};
// Every path of the mounted tree with type, size, content/target: a canonical text.
std::string dump_tree(Mount& m, bool contents = true);
}    // namespace vp
