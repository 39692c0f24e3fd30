// A POSIX directory-tree reference model, and a history runner that applies the same generated calls
// to a mounted securefs and to the model and compares every result and the resulting tree.
#pragma once
#include "fsdrv.h"
#include <functional>
#include <map>

namespace vp
{
struct MNode
{
    char type = 'f';    // f d l
    std::string data;
    int nlink = 1;
    int opens = 0;
    unsigned mode = 0;
    unsigned uid = 0, gid = 0;
    bool mtime_set = false;
    timespec mtime{}, atime{};
    std::map<std::string, std::pair<std::string, int>> kids;    // key -> (stored name, node)
    std::map<std::string, std::string> xattr;
};
struct HistOpts
{
    // Weights of the operation groups.
    unsigned w_create = 8, w_mkdir = 5, w_symlink = 3, w_link = 3, w_unlink = 6, w_rmdir = 5, w_rename = 9, w_write = 6,
             w_trunc = 3, w_read = 3, w_stat = 2, w_chmod = 0, w_utimens = 0, w_chown = 0, w_open = 3, w_handle = 5, w_xattr = 0,
             w_remount = 1, w_verify = 1, w_ls = 2, w_dirh = 3;
    bool attrs = false;
    int max_ops = 40;
    unsigned max_file = 1500;
    unsigned max_depth = 4;
    int want_nontrivial = 8;    // successful mutations that make a case count
    int names = 7;
};
class Hist
{
public:
    struct H
    {
        std::string path;
        int node;
        fuse_file_info fi;
        bool write;
    };
    Ctx& c;
    FsConfig cfg;
    HistOpts o;
    Mount m;
    std::string store;
    std::map<int, MNode> nodes;
    int next_id = 1;
    std::vector<H> hs;
    std::vector<H> ds;    // open directories
    std::vector<std::string> pool;
    std::vector<std::string> xnames;
    std::function<std::string(const std::string&)> keyof = [](const std::string& s) { return s; };
    // How the mount stores a new name (lite name normalisation); identity by default.
    std::function<std::string(const std::string&)> stored = [](const std::string& s) { return s; };
    size_t max_name = 255;
    int muts = 0;

    Hist(Ctx& c_, FsConfig cf, HistOpts ho) : c(c_), cfg(cf), o(ho)
    {
        store = make_dir(c.dir + "/store");
        nodes[0].type = 'd';
        nodes[0].mode = 0755;
        if (!cfg.full && !cfg.threshold && !cfg.plain)
            max_name = 143;
    }
    ~Hist()
    {
        // Handles belong to the mount; on failure they are abandoned with the process.
    }
    void gen_pool();
    void run();
    void step();
    void verify(const char* when);
    void list_handle(H& h);
    void remount();
    void close_all();

    // model helpers
    int lookup(const std::string& path);    // node id or -1
    std::pair<int, std::string> parent_of(const std::string& path);
    int add(int dir, const std::string& name, char type);
    void drop(int id);
    std::vector<std::string> paths(char type);    // all live paths of that type ('*' any)
    std::string gen_new_path();                   // in an existing directory; may exist
    std::string gen_path(char type);              // existing of the type if any, else new
    std::string any_dir();
    // SQLite cannot open databases whose path exceeds 512 bytes, so long names do not work in
    // directories with longer backing paths (a known finding, shown by a test of its own).
    size_t phys_len(const std::string& dir) const;
    bool deep_ok(int node, const std::string& newpath);
    void check_node(const std::string& path, int id);
    void expect(const std::string& what, int got, std::initializer_list<int> ok);
    [[noreturn]] void bad(const std::string& what);
    std::string cases_text;
};
}    // namespace vp
