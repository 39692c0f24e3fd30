// Drives securefs through the fuse_operations table it hands to libfuse; nothing is mounted.
#pragma once
#include "fuse_high_level_ops_base.h"
#include "internal_mount.h"
#include "logger.h"
#include "params.pb.h"
#include "platform.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace securefs;
static thread_local fuse_context t_ctx;
extern "C" struct fuse_context* fuse_get_context(void) { return &t_ctx; }
#define REQ(c, m)                                                                                  \
    do                                                                                             \
    {                                                                                              \
        if (!(c))                                                                                  \
        {                                                                                          \
            fprintf(stderr, "DEMO FAILED line %d: %s (%s)\n", __LINE__, m, #c);                    \
            _exit(1);                                                                              \
        }                                                                                          \
    } while (0)
inline std::string kb(char c) { std::string r; for (int i = 0; i < 32; ++i) r.push_back((char)(c * 7 + i * 13)); return r; }
inline DecryptedSecurefsParams lite_p(unsigned block = 4096, unsigned iv = 12, unsigned pad = 0, int threshold = 128)
{
    DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(block);
    p.mutable_size_params()->set_iv_size(iv);
    p.mutable_size_params()->set_max_padding_size(pad);
    auto l = p.mutable_lite_format_params();
    l->set_name_key(kb('n'));
    l->set_content_key(kb('c'));
    l->set_xattr_key(kb('x'));
    if (pad)
        l->set_padding_key(kb('p'));
    if (threshold >= 0)
        l->set_long_name_threshold(threshold);
    return p;
}
inline DecryptedSecurefsParams full_p(unsigned block = 4096, unsigned iv = 12, unsigned pad = 0, bool store_time = false, bool legacy = false)
{
    DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(block);
    p.mutable_size_params()->set_iv_size(iv);
    p.mutable_size_params()->set_max_padding_size(pad);
    auto f = p.mutable_full_format_params();
    f->set_master_key(kb('m'));
    f->set_store_time(store_time);
    f->set_legacy_file_table_io(legacy);
    return p;
}
inline MountOptions mopts()
{
    MountOptions m;
    m.set_enable_xattr(true);
    return m;
}
struct M
{
    std::shared_ptr<OSService> os;
    std::shared_ptr<FuseHighLevelOpsBase> ops;
    fuse_operations f{};
    M(const std::string& dir, const DecryptedSecurefsParams& p, const MountOptions& m = mopts())
    {
        os = std::make_shared<OSService>(dir);
        ops = make_fuse_high_level_ops(os, p, m);
        f = FuseHighLevelOpsBase::build_ops(ops.get());
    }
    void e() const
    {
        t_ctx.private_data = ops.get();
        t_ctx.uid = getuid();
        t_ctx.gid = getgid();
        t_ctx.pid = 1;
        t_ctx.umask = 022;
    }
    int create(const char* p, mode_t m, fuse_file_info& fi) { e(); memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT | O_EXCL; return f.create(p, S_IFREG | m, &fi); }
    int open(const char* p, int fl, fuse_file_info& fi) { e(); memset(&fi, 0, sizeof fi); fi.flags = fl; return f.open(p, &fi); }
    int release(const char* p, fuse_file_info& fi) { e(); return f.release(p, &fi); }
    int write(const char* p, const std::string& d, off_t o, fuse_file_info& fi) { e(); return f.write(p, d.data(), d.size(), o, &fi); }
    int read(const char* p, std::string& d, size_t n, off_t o, fuse_file_info& fi)
    {
        e(); d.assign(n, 'Z'); int r = f.read(p, &d[0], n, o, &fi); d.resize(r > 0 ? r : 0); return r;
    }
    int getattr(const char* p, struct stat& st) { e(); memset(&st, 0, sizeof st); return f.getattr(p, &st); }
    int mkdir(const char* p, mode_t m = 0755) { e(); return f.mkdir(p, m); }
    int put(const char* p, const std::string& d)
    {
        fuse_file_info fi; int r = create(p, 0644, fi); if (r < 0) return r;
        r = write(p, d, 0, fi); int q = release(p, fi); return r < 0 ? r : q;
    }
    int get(const char* p, std::string& out)
    {
        fuse_file_info fi; int r = open(p, O_RDONLY, fi); if (r < 0) return r;
        out.clear(); std::string c;
        while ((r = read(p, c, 65536, out.size(), fi)) > 0) out += c;
        int q = release(p, fi); return r < 0 ? r : q;
    }
    int ls(const char* p, std::vector<std::string>& out)
    {
        e(); fuse_file_info fi; memset(&fi, 0, sizeof fi);
        int r = f.opendir(p, &fi); if (r < 0) return r;
        out.clear();
        r = f.readdir(p, &out, [](void* b, const char* n, const struct stat*, off_t) -> int {
            if (strcmp(n, ".") && strcmp(n, "..")) ((std::vector<std::string>*)b)->push_back(n); return 0; }, 0, &fi);
        f.releasedir(p, &fi); return r;
    }
};
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline void spew(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }
inline void files_in(const std::string& d, std::vector<std::string>& out)
{
    if (DIR* h = opendir(d.c_str()))
    {
        while (auto* x = readdir(h))
        {
            std::string n = x->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n; struct stat st;
            if (lstat(p.c_str(), &st)) continue;
            if (S_ISDIR(st.st_mode)) files_in(p, out); else out.push_back(p);
        }
        closedir(h);
    }
}
inline std::string pat(size_t n, unsigned k = 1) { std::string r(n, 0); unsigned x = k * 2654435761u; for (auto& c : r) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return r; }
// main(argc, argv): argv[1] is an empty scratch directory
