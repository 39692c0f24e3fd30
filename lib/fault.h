// Every operation on files below a given directory, by securefs or by SQLite, passes through a hook that may
// count it, make it fail, cut it short or end the process. The functions of libc are replaced at link time
// (lib/fault.cpp has to be linked in); nothing outside the directory is affected.
#pragma once
#include <functional>
#include <string>
#include <sys/types.h>

namespace vp::fault
{
enum Kind
{
    OPEN,
    READ,
    WRITE,
    RESIZE,
    SYNC,
    MKDIR,
    UNLINK,
    RMDIR,
    RENAME,
    LINK,
    SYMLINK,
    READLINK,
    UTIMENS,
    CHMOD,
    CHOWN,
    XGET,
    XLIST,
    XSET,
    XDEL,
    STAT,
    OPENDIR,
    READDIR,
    NKINDS
};
const char* kind_name(Kind k);
struct Op
{
    Kind kind;
    std::string path;    // relative to the directory watched
    size_t size;         // of a read or write
    bool mutates;        // may change the store
};
struct Verdict
{
    int err = 0;           // fail with this number
    ssize_t cut = -1;      // or transfer only that much
};
using Hook = std::function<Verdict(const Op&)>;
// Called instead of all this around operations anywhere on the store's kinds of calls, without any locking: for delays.
extern void (*volatile g_delay)();
// While an object of this lives, operations below `dir` go through the hook.
class Armed
{
public:
    Armed(const std::string& dir, Hook h);
    ~Armed();
    Armed(Armed&&) = delete;
};
}    // namespace vp::fault
