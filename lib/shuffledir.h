// Directory listings of the backing store in a generated order, as other file systems would give them.
// Link with -Wl,--wrap=readdir64 -Wl,--wrap=rewinddir -Wl,--wrap=closedir; include in one file.
#pragma once
#include "prop.h"
#include <dirent.h>
#include <map>
#include <mutex>
#include <vector>
extern "C"
{
    dirent* __real_readdir64(DIR*);
    void __real_rewinddir(DIR*);
    int __real_closedir(DIR*);
}
namespace vp
{
inline uint64_t g_dir_order = 0;    // 0: as the system gives them
struct ShuffledDir
{
    std::vector<std::vector<char>> v;
    size_t at = 0;
};
inline std::mutex g_dir_mu;
inline std::map<DIR*, ShuffledDir> g_dirs;
}    // namespace vp
extern "C" dirent* __wrap_readdir64(DIR* d)
{
    using namespace vp;
    if (!g_dir_order)
        return __real_readdir64(d);
    std::lock_guard<std::mutex> l(g_dir_mu);
    auto it = g_dirs.find(d);
    if (it == g_dirs.end())
    {
        it = g_dirs.emplace(d, ShuffledDir{}).first;
        auto& v = it->second.v;
        while (dirent* e = __real_readdir64(d))
            v.emplace_back((char*)e, (char*)e + e->d_reclen);
        // By name first, so that the order depends on the seed only.
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return strcmp(((dirent*)a.data())->d_name, ((dirent*)b.data())->d_name) < 0; });
        Rng r{g_dir_order};
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[r.next() % i]);
    }
    auto& s = it->second;
    if (s.at >= s.v.size())
        return nullptr;
    return (dirent*)s.v[s.at++].data();
}
extern "C" void __wrap_rewinddir(DIR* d)
{
    {
        std::lock_guard<std::mutex> l(vp::g_dir_mu);
        vp::g_dirs.erase(d);
    }
    __real_rewinddir(d);
}
extern "C" int __wrap_closedir(DIR* d)
{
    {
        std::lock_guard<std::mutex> l(vp::g_dir_mu);
        vp::g_dirs.erase(d);
    }
    return __real_closedir(d);
}
