// Runs securefs commands in-process (securefs::commands_main), with their standard output captured.
#pragma once
#include "fsdrv.h"
#include "prop.h"
#include "commands.h"
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vp
{
struct CmdResult
{
    int rc;
    std::string out;
};
inline std::string cmd_text(const std::vector<std::string>& a)
{
    std::string t;
    for (auto& x : a)
        t += (t.empty() ? "" : " ") + (x.find_first_of(" \t\n'\\\"") == std::string::npos && !x.empty() && x[0] > 32 ? x : q(x));
    return t;
}
// Standard input holds the given text and then ends, so a command asking for a password never waits.
inline CmdResult run_cmd(const std::string& scratch, const std::vector<std::string>& args, const std::string& input = "")
{
    std::vector<const char*> v = {"securefs"};
    for (auto& a : args)
        v.push_back(a.c_str());
    std::string cap = scratch + "/stdout";
    fflush(stdout);
    int keep = dup(1), keep0 = dup(0), fd = ::open(cap.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), nul = memfd_create("input", 0);
    if (::write(nul, input.data(), input.size()) != (ssize_t)input.size())
        throw std::runtime_error("memfd");
    lseek(nul, 0, SEEK_SET);
    __fpurge(stdin);
    clearerr(stdin);
    dup2(fd, 1);
    dup2(nul, 0);
    CmdResult r{securefs::commands_main((int)v.size(), v.data()), ""};
    fflush(stdout);
    dup2(keep, 1);
    dup2(keep0, 0);
    ::close(keep);
    ::close(keep0);
    ::close(nul);
    char buf[4096];
    ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = ::read(fd, buf, sizeof buf)) > 0)
        r.out.append(buf, (size_t)n);
    ::close(fd);
    unlink(cap.c_str());
    return r;
}
inline std::vector<std::string> cheap_argon() { return {"--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1"}; }
}    // namespace vp
