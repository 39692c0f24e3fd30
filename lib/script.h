// Short scripts of calls that all succeed by the model they are generated from, kept as data, so that the same script
// can be run again with faults or deaths at chosen points. Used by S16 and S17.
#pragma once
#include "fsdrv.h"
#include <functional>
#include <map>
#include <set>

namespace vp
{
struct SNode
{
    char type = 'f';    // f d l
    std::string data;
    std::map<std::string, std::string> xattr;
    std::map<std::string, int> kids;
    int nlink = 1, opens = 0;
    bool dirty = false;     // changed and not yet flushed, synced or closed
    bool tainted = false;   // a call changing it has failed: content open
};
struct SHandle
{
    std::string path;
    int node;
    bool write, dir;
};
struct SState
{
    std::map<int, SNode> n;
    std::map<int, SHandle> h;
    int next_node = 1, next_handle = 1;
    int lookup(const std::string& p) const;
    void drop(int id);
    std::vector<std::string> paths(char type) const;
    std::set<int> below(int id) const;    // with itself
};
enum SKind
{
    S_CREATE,
    S_OPEN,
    S_WRITE,
    S_FTRUNC,
    S_READ,
    S_FLUSH,
    S_FSYNC,
    S_RELEASE,
    S_TRUNC,
    S_UNLINK,
    S_MKDIR,
    S_RMDIR,
    S_RENAME,
    S_LINK,
    S_SYMLINK,
    S_READLINK,
    S_STAT,
    S_LS,
    S_CHMOD,
    S_UTIMENS,
    S_SETX,
    S_GETX,
    S_DELX,
    S_OPENDIR,
    S_RELEASEDIR,
    S_REMOUNT
};
struct SOp
{
    SKind kind;
    std::string a, b, data;
    off_t off = 0;
    size_t len = 0;
    int h = -1;
    int flags = 0;
    std::string text() const;
};
struct SOpts
{
    bool xattr = true, dirs = true, remount = true, long_names = false;
    unsigned max_file = 600;
    size_t max_path = 0;    // of the paths in the store, estimated; SQLite takes no longer ones (see S08)
    std::vector<std::string> pool;
};
using SHandles = std::map<int, fuse_file_info>;
void script_pool(Src& s, const FsConfig& cf, SOpts& o);
SOp gen_op(Src& s, const SState& st, const SOpts& o);
// The state after the call has succeeded; new handles get the number op.h.
void apply(SState& st, const SOp& op);
// Runs the call. Read results are compared with the state before the call (empty text: fine).
int exec(Mount& m, SHandles& hs, const SOp& op, const SState& before, std::string& wrong);
bool mutates(const SOp& op);
// Nodes and paths whose content or entry the call changes (or may have changed half-way).
struct STouched
{
    std::set<int> nodes;
    std::set<std::string> paths;
};
STouched touched(const SState& before, const SOp& op);
// Compares the mounted tree with the state. `skip(node)` leaves a node (and all below it) out, `open(path)` an entry.
std::string verify(Mount& m, const SState& st, const FsConfig& cf, const std::function<bool(int)>& skip, const std::function<bool(const std::string&)>& open_entry);
}    // namespace vp
