// The plain and the 64-bit functions are both defined here, so they have to be distinct.
#undef _FILE_OFFSET_BITS
#ifndef _LARGEFILE64_SOURCE
#define _LARGEFILE64_SOURCE
#endif
#include "fault.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/xattr.h>
#include <unistd.h>

namespace vp::fault
{
void (*volatile g_delay)() = nullptr;
namespace
{
    std::atomic<bool> g_on{false};
    std::string g_dir;
    Hook g_hook;
    std::mutex g_mu;
    thread_local bool g_busy = false;
    template <class F>
    F real(const char* name)
    {
        return (F)dlsym(RTLD_NEXT, name);
    }
    std::string link_of(int fd)
    {
        char p[64], b[4097];
        snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
        long n = syscall(SYS_readlink, p, b, sizeof b - 1);
        return n > 0 ? std::string(b, (size_t)n) : std::string();
    }
    bool below(std::string& p)
    {
        if (p.compare(0, g_dir.size(), g_dir) || (p.size() > g_dir.size() && p[g_dir.size()] != '/'))
            return false;
        p.erase(0, g_dir.size());
        return true;
    }
    bool ask(Kind k, std::string path, size_t size, bool mutates, Verdict& v)
    {
        if (!below(path))
            return false;
        std::lock_guard<std::mutex> lg(g_mu);
        g_busy = true;
        if (g_on)
            v = g_hook(Op{k, path, size, mutates});
        g_busy = false;
        if (v.err)
            errno = v.err;
        return v.err != 0;
    }
    // True when the operation has to fail with errno as set.
    bool at(Kind k, int dirfd, const char* path, bool mutates, size_t size = 0)
    {
        if (auto d = g_delay)
            d();
        if (!g_on.load(std::memory_order_relaxed) || g_busy || !path)
            return false;
        int e = errno;
        std::string p = path[0] == '/' ? path : dirfd == AT_FDCWD ? "" : link_of(dirfd) + "/" + path;
        errno = e;
        Verdict v;
        return ask(k, p, size, mutates, v);
    }
    bool on(Kind k, int fd, bool mutates, size_t size, Verdict& v)
    {
        if (auto d = g_delay)
            d();
        if (!g_on.load(std::memory_order_relaxed) || g_busy)
            return false;
        int e = errno;
        std::string p = link_of(fd);
        errno = e;
        return ask(k, p, size, mutates, v);
    }
    bool on(Kind k, int fd, bool mutates, size_t size = 0)
    {
        Verdict v;
        return on(k, fd, mutates, size, v);
    }
    bool open_mutates(int flags) { return flags & (O_CREAT | O_TRUNC); }
}    // namespace
const char* kind_name(Kind k)
{
    static const char* n[] = {"open", "read", "write", "resize", "sync", "mkdir", "unlink", "rmdir", "rename", "link", "symlink", "readlink", "utimens", "chmod", "chown",
                              "getxattr", "listxattr", "setxattr", "removexattr", "stat", "opendir", "readdir"};
    return n[k];
}
Armed::Armed(const std::string& dir, Hook h)
{
    g_dir = dir;
    g_hook = std::move(h);
    g_on = true;
}
Armed::~Armed()
{
    g_on = false;
    g_hook = {};
}
}    // namespace vp::fault
using namespace vp::fault;
#define REAL(f) \
    static auto r = real<decltype(&::f)>(#f)
extern "C"
{
int open64(const char* p, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return at(OPEN, AT_FDCWD, p, open_mutates(flags)) ? -1 : (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open(const char* p, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return at(OPEN, AT_FDCWD, p, open_mutates(flags)) ? -1 : (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int openat64(int d, const char* p, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return at(OPEN, d, p, open_mutates(flags)) ? -1 : (int)syscall(SYS_openat, d, p, flags, m);
}
int openat(int d, const char* p, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return at(OPEN, d, p, open_mutates(flags)) ? -1 : (int)syscall(SYS_openat, d, p, flags, m);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
    Verdict v;
    if (on(READ, fd, false, n, v))
        return -1;
    return syscall(SYS_pread64, fd, b, v.cut >= 0 ? (size_t)v.cut : n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n)
{
    Verdict v;
    if (on(READ, fd, false, n, v))
        return -1;
    return syscall(SYS_read, fd, b, v.cut >= 0 ? (size_t)v.cut : n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    Verdict v;
    if (on(WRITE, fd, true, n, v))
        return -1;
    return syscall(SYS_pwrite64, fd, b, v.cut >= 0 ? (size_t)v.cut : n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
    Verdict v;
    if (on(WRITE, fd, true, n, v))
        return -1;
    return syscall(SYS_write, fd, b, v.cut >= 0 ? (size_t)v.cut : n);
}
int ftruncate64(int fd, off64_t n) { return on(RESIZE, fd, true) ? -1 : (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) { return on(SYNC, fd, false) ? -1 : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return on(SYNC, fd, false) ? -1 : (int)syscall(SYS_fdatasync, fd); }
int mkdir(const char* p, mode_t m) { return at(MKDIR, AT_FDCWD, p, true) ? -1 : (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkdirat(int d, const char* p, mode_t m) { return at(MKDIR, d, p, true) ? -1 : (int)syscall(SYS_mkdirat, d, p, m); }
int unlink(const char* p) { return at(UNLINK, AT_FDCWD, p, true) ? -1 : (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rmdir(const char* p) { return at(RMDIR, AT_FDCWD, p, true) ? -1 : (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char* p, int fl) { return at(fl & AT_REMOVEDIR ? RMDIR : UNLINK, d, p, true) ? -1 : (int)syscall(SYS_unlinkat, d, p, fl); }
int rename(const char* a, const char* b) { return at(RENAME, AT_FDCWD, a, true) ? -1 : (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d, const char* a, int e, const char* b) { return at(RENAME, d, a, true) ? -1 : (int)syscall(SYS_renameat, d, a, e, b); }
int linkat(int d, const char* a, int e, const char* b, int fl) { return at(LINK, e, b, true) ? -1 : (int)syscall(SYS_linkat, d, a, e, b, fl); }
int symlinkat(const char* t, int d, const char* p) { return at(SYMLINK, d, p, true) ? -1 : (int)syscall(SYS_symlinkat, t, d, p); }
ssize_t readlinkat(int d, const char* p, char* b, size_t n) { return at(READLINK, d, p, false) ? -1 : syscall(SYS_readlinkat, d, p, b, n); }
int utimensat(int d, const char* p, const timespec* t, int fl) { return at(UTIMENS, d, p, true) ? -1 : (int)syscall(SYS_utimensat, d, p, t, fl); }
int futimens(int fd, const timespec* t) { return on(UTIMENS, fd, true) ? -1 : (int)syscall(SYS_utimensat, fd, nullptr, t, 0); }
int fchmodat(int d, const char* p, mode_t m, int fl)
{
    REAL(fchmodat);
    return at(CHMOD, d, p, true) ? -1 : r(d, p, m, fl);
}
int fchownat(int d, const char* p, uid_t u, gid_t g, int fl) { return at(CHOWN, d, p, true) ? -1 : (int)syscall(SYS_fchownat, d, p, u, g, fl); }
ssize_t lgetxattr(const char* p, const char* n, void* b, size_t s) { return at(XGET, AT_FDCWD, p, false) ? -1 : syscall(SYS_lgetxattr, p, n, b, s); }
ssize_t fgetxattr(int fd, const char* n, void* b, size_t s) { return on(XGET, fd, false) ? -1 : syscall(SYS_fgetxattr, fd, n, b, s); }
ssize_t llistxattr(const char* p, char* b, size_t s) { return at(XLIST, AT_FDCWD, p, false) ? -1 : syscall(SYS_llistxattr, p, b, s); }
ssize_t flistxattr(int fd, char* b, size_t s) { return on(XLIST, fd, false) ? -1 : syscall(SYS_flistxattr, fd, b, s); }
int lsetxattr(const char* p, const char* n, const void* b, size_t s, int fl) { return at(XSET, AT_FDCWD, p, true) ? -1 : (int)syscall(SYS_lsetxattr, p, n, b, s, fl); }
int fsetxattr(int fd, const char* n, const void* b, size_t s, int fl) { return on(XSET, fd, true) ? -1 : (int)syscall(SYS_fsetxattr, fd, n, b, s, fl); }
int lremovexattr(const char* p, const char* n) { return at(XDEL, AT_FDCWD, p, true) ? -1 : (int)syscall(SYS_lremovexattr, p, n); }
int fremovexattr(int fd, const char* n) { return on(XDEL, fd, true) ? -1 : (int)syscall(SYS_fremovexattr, fd, n); }
int fstat64(int fd, struct stat64* st)
{
    REAL(fstat64);
    return on(STAT, fd, false) ? -1 : r(fd, st);
}
int fstatat64(int d, const char* p, struct stat64* st, int fl)
{
    REAL(fstatat64);
    return at(STAT, d, p, false) ? -1 : r(d, p, st, fl);
}
DIR* opendir(const char* p)
{
    REAL(opendir);
    return at(OPENDIR, AT_FDCWD, p, false) ? nullptr : r(p);
}
struct dirent64* readdir64(DIR* d)
{
    REAL(readdir64);
    return on(READDIR, dirfd(d), false) ? nullptr : r(d);
}
}
