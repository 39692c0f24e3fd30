// A small property-testing engine: tests draw every choice from a recorded choice sequence, so one
// generic shrinker and one replay format serve all properties. Cases run in forked workers, so
// that sanitizer reports, crashes and hangs are failures like any other.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace vp
{
struct Violation : std::exception
{
    std::string msg;
    explicit Violation(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard
{
};
// Not derived from std::exception, so that code under test cannot swallow it.
struct Abort
{
};

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Rng
{
    uint64_t s;
    uint64_t next() { return mix(s += 0x9E3779B97F4A7C15ull); }
};

class Src
{
public:
    explicit Src(uint64_t seed) : rng_{mix(seed)} {}
    explicit Src(std::vector<uint64_t> fixed) : fixed_(std::move(fixed)), replay_(true) {}

    // Uniform in [0, n). 0 is the simplest choice.
    uint64_t below(uint64_t n)
    {
        if (n <= 1)
            return 0;
        uint64_t v;
        if (replay_)
            v = pos_ < fixed_.size() ? fixed_[pos_] % n : 0;
        else
            v = rng_.next() % n;
        ++pos_;
        rec_.push_back(v);
        if (rec_.size() > 2000000)
            throw Discard{};
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v)
    {
        return v.begin()[below(v.size())];
    }
    // Index by weight; earlier entries are simpler.
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t t = 0;
        for (auto x : w)
            t += x;
        uint64_t r = below(t);
        size_t i = 0;
        for (auto x : w)
        {
            if (r < x)
                return i;
            r -= x;
            ++i;
        }
        return 0;
    }
    // Size skewed to small values and to the neighbourhood of multiples of `unit`.
    uint64_t size_near(uint64_t max, uint64_t unit)
    {
        switch (weighted({3, 4, 3}))
        {
        case 0:
            return below(std::min<uint64_t>(max, 40) + 1);
        case 1:
        {
            uint64_t k = below(max / unit + 1);
            int64_t v = (int64_t)(k * unit) + range(-2, 2);
            return (uint64_t)std::max<int64_t>(0, std::min<int64_t>(v, (int64_t)max));
        }
        default:
            return below(max + 1);
        }
    }
    // Content bytes from one drawn seed: 0 gives a fixed simple pattern.
    std::string bytes(size_t n)
    {
        uint64_t k = below(6);
        std::string r(n, '\0');
        if (k == 0)
            for (size_t i = 0; i < n; ++i)
                r[i] = (char)('a' + i % 23);
        else if (k == 1)
            ;    // zeros
        else
        {
            Rng g{below(1u << 30)};
            for (size_t i = 0; i < n; ++i)
            {
                if (i % 8 == 0)
                    cur_ = g.next();
                r[i] = (char)(cur_ >> (8 * (i % 8)));
            }
        }
        return r;
    }
    const std::vector<uint64_t>& record() const { return rec_; }

private:
    Rng rng_{0};
    std::vector<uint64_t> fixed_, rec_;
    bool replay_ = false;
    size_t pos_ = 0;
    uint64_t cur_ = 0;
};

struct Ctx
{
    Src& s;
    std::string dir;    // empty scratch directory of this case
    bool verbose = false;
    bool nontrivial = false;
    std::string sample;
    std::map<std::string, uint64_t>* labels = nullptr;

    Ctx(Src& s_, std::string d) : s(s_), dir(std::move(d)) {}
    void label(const std::string& l, uint64_t n = 1)
    {
        if (labels)
            (*labels)[l] += n;
    }
    void step(const std::string& t)
    {
        if (sample.size() < 4000)
        {
            sample += t;
            sample += "; ";
        }
        if (verbose)
            fprintf(stderr, "    %s\n", t.c_str());
    }
};
[[noreturn]] inline void fail(const std::string& m) { throw Violation(m); }
inline void require(bool b, const std::string& m)
{
    if (!b)
        throw Violation(m);
}
#define VREQ(cond, msg)                                                                            \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
            ::vp::fail(msg);                                                                       \
    } while (0)

struct Test
{
    std::string name;
    std::function<void(Ctx&)> fn;
    unsigned weight;              // share of the cases
    unsigned timeout_s = 60;      // one case
    bool schedule = false;        // outcome depends on thread timing: more replays
};
struct Prop
{
    std::string id;
    std::string rule;
    std::vector<std::string> assumptions;
    uint64_t quick_cases, thorough_cases;
    unsigned quick_s = 35, thorough_s = 600;
    std::vector<Test> tests;
    // Runs once in each worker/replay process before the first case.
    std::function<void()> init;
    unsigned workers = 8;
    // Cases run as the user nobody, for code that may reach outside its scratch directory.
    bool unprivileged = false;
    std::string level = "exploration";
};
std::string hex(std::string_view v, size_t max = 64);
std::string str(uint64_t v);
std::string q(std::string_view v);    // quoted, escaped, shortened
int run_main(int argc, char** argv, const Prop& p);
std::string make_dir(const std::string& d);
void remove_tree(const std::string& d);
std::string read_file(const std::string& p);
bool try_read_file(const std::string& p, std::string& out);
void write_file(const std::string& p, std::string_view v);
std::vector<std::string> list_tree(const std::string& d);    // relative paths, files and dirs
}    // namespace vp
