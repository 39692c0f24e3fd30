// Stand-in for absl/strings/str_format.h: apt's abseil (20220623, built without
// std::string_view) has neither "%v" nor AbslStringify, which securefs uses.
#pragma once
#include <absl/strings/string_view.h>
#include <absl/time/time.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>
#include <type_traits>

namespace absl
{
namespace sf_shim
{
    struct Sink
    {
        std::string* out;
        void Append(size_t n, char c) { out->append(n, c); }
        void Append(std::string_view v) { out->append(v.data(), v.size()); }
    };
    struct Spec
    {
        std::string flags;
        int width = -1, prec = -1;
        char conv = 'v';
        std::string prefix() const
        {
            std::string r = "%" + flags;
            if (width >= 0)
                r += std::to_string(width);
            if (prec >= 0)
                r += "." + std::to_string(prec);
            return r;
        }
    };
    template <class... A>
    void raw(std::string& o, const std::string& f, A... a)
    {
        int n = snprintf(nullptr, 0, f.c_str(), a...);
        if (n <= 0)
            return;
        size_t at = o.size();
        o.resize(at + n + 1);
        snprintf(&o[at], n + 1, f.c_str(), a...);
        o.resize(at + n);
    }
    inline void pad(std::string& o, const Spec& s, std::string_view v)
    {
        if (s.prec >= 0 && s.conv == 's')
            v = v.substr(0, (size_t)s.prec);
        size_t w = s.width < 0 ? 0 : (size_t)s.width, p = v.size() < w ? w - v.size() : 0;
        bool left = s.flags.find('-') != std::string::npos;
        if (!left)
            o.append(p, ' ');
        o.append(v.data(), v.size());
        if (left)
            o.append(p, ' ');
    }
    template <class T, class = void>
    struct has_stringify : std::false_type
    {
    };
    template <class T>
    struct has_stringify<T,
                         std::void_t<decltype(AbslStringify(std::declval<Sink&>(),
                                                            std::declval<const T&>()))>>
        : std::true_type
    {
    };
    template <class T>
    void put(std::string& o, const Spec& s, const T& v)
    {
        using D = std::decay_t<T>;
        if constexpr (std::is_same_v<D, absl::Duration>)
            pad(o, s, absl::FormatDuration(v));
        else if constexpr (has_stringify<T>::value)
        {
            std::string t;
            Sink k{&t};
            AbslStringify(k, v);
            pad(o, s, t);
        }
        else if constexpr (std::is_same_v<D, bool>)
        {
            if (s.conv == 'v')
                pad(o, s, v ? "true" : "false");
            else
                raw(o, s.prefix() + s.conv, (int)v);
        }
        else if constexpr (std::is_enum_v<D>)
            put(o, s, static_cast<std::underlying_type_t<D>>(v));
        else if constexpr (std::is_integral_v<D>)
        {
            char c = s.conv;
            if (c == 'c')
                raw(o, s.prefix() + "c", (int)v);
            else
            {
                if (c == 'v' || c == 'i')
                    c = 'd';
                if ((c == 'd') && std::is_unsigned_v<D>)
                    c = 'u';
                if (c == 'u' && std::is_signed_v<D>)
                    raw(o, s.prefix() + "llu", (unsigned long long)(std::make_unsigned_t<D>)v);
                else if (std::is_signed_v<D> && c == 'd')
                    raw(o, s.prefix() + "lld", (long long)v);
                else
                    raw(o, s.prefix() + "ll" + c, (unsigned long long)(std::make_unsigned_t<D>)v);
            }
        }
        else if constexpr (std::is_floating_point_v<D>)
            raw(o, s.prefix() + (s.conv == 'v' ? 'g' : s.conv), (double)v);
        else if constexpr (std::is_same_v<D, std::nullptr_t>)
            pad(o, s, "(nil)");
        else if constexpr (std::is_same_v<D, const char*> || std::is_same_v<D, char*>)
        {
            if (s.conv == 'p')
                raw(o, s.prefix() + "p", (const void*)v);
            else
                pad(o, s, v ? std::string_view(v) : std::string_view(""));
        }
        else if constexpr (std::is_pointer_v<D>)
        {
            if constexpr (std::is_function_v<std::remove_pointer_t<D>>)
                raw(o, s.prefix() + "p", (const void*)(uintptr_t)v);
            else if (v == nullptr)
                pad(o, s, "(nil)");
            else
                raw(o, s.prefix() + "p", (const void*)v);
        }
        else
        {
            std::string_view t(v.data(), v.size());
            pad(o, s, t);
        }
    }
    struct Arg
    {
        const void* p;
        void (*f)(std::string&, const Spec&, const void*);
        long long (*asint)(const void*);
        template <class T>
        static Arg make(const T& v)
        {
            return {&v,
                    [](std::string& o, const Spec& s, const void* q)
                    { put(o, s, *static_cast<const T*>(q)); },
                    [](const void* q) -> long long
                    {
                        if constexpr (std::is_integral_v<T>)
                            return (long long)*static_cast<const T*>(q);
                        return 0;
                    }};
        }
        template <size_t N>
        static Arg make(const char (&v)[N])
        {
            return {&v,
                    [](std::string& o, const Spec& s, const void* q)
                    { put(o, s, static_cast<const char*>(q)); },
                    [](const void*) -> long long { return 0; }};
        }
    };
    inline void run(std::string& o, std::string_view f, std::initializer_list<Arg> args)
    {
        auto it = args.begin();
        for (size_t i = 0; i < f.size();)
        {
            if (f[i] != '%')
            {
                o.push_back(f[i++]);
                continue;
            }
            ++i;
            if (i < f.size() && f[i] == '%')
            {
                o.push_back('%');
                ++i;
                continue;
            }
            Spec s;
            while (i < f.size() && strchr("-+ #0", f[i]))
                s.flags.push_back(f[i++]);
            auto num = [&](int& v)
            {
                if (i < f.size() && f[i] == '*')
                {
                    ++i;
                    v = it != args.end() ? (int)it->asint(it->p) : 0;
                    if (it != args.end())
                        ++it;
                    return;
                }
                while (i < f.size() && f[i] >= '0' && f[i] <= '9')
                    v = (v < 0 ? 0 : v) * 10 + (f[i++] - '0');
            };
            num(s.width);
            if (i < f.size() && f[i] == '.')
            {
                ++i;
                s.prec = 0;
                num(s.prec);
            }
            while (i < f.size() && strchr("hlLqjzt", f[i]))
                ++i;
            if (i < f.size())
                s.conv = f[i++];
            if (it != args.end())
            {
                it->f(o, s, it->p);
                ++it;
            }
        }
    }
    struct FmtText
    {
        std::string_view v;
        FmtText(const char* s) : v(s) {}
        FmtText(std::string_view s) : v(s) {}
        FmtText(const std::string& s) : v(s) {}
    };
}    // namespace sf_shim

template <class...>
using FormatSpec = sf_shim::FmtText;

template <class... A>
std::string StrFormat(const FormatSpec<A...>& f, const A&... a)
{
    std::string r;
    sf_shim::run(r, f.v, {sf_shim::Arg::make(a)...});
    return r;
}
template <class... A>
int FPrintF(std::FILE* fp, const FormatSpec<A...>& f, const A&... a)
{
    std::string r;
    sf_shim::run(r, f.v, {sf_shim::Arg::make(a)...});
    return fwrite(r.data(), 1, r.size(), fp) == r.size() ? (int)r.size() : -1;
}
template <class... A>
int PrintF(const FormatSpec<A...>& f, const A&... a)
{
    return FPrintF(stdout, f, a...);
}
template <class S, class... A>
bool Format(S* sink, const FormatSpec<A...>& f, const A&... a)
{
    std::string r;
    sf_shim::run(r, f.v, {sf_shim::Arg::make(a)...});
    sink->Append(std::string_view(r));
    return true;
}
}    // namespace absl
