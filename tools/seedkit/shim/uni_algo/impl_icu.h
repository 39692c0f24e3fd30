// Stand-in for the uni-algo library (not installed here), on top of ICU.
// Only the functions securefs uses.
#pragma once
#include <string>
#include <string_view>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>

namespace una
{
namespace shim
{
    inline icu::UnicodeString from(std::string_view v)
    {
        return icu::UnicodeString::fromUTF8(icu::StringPiece(v.data(), (int32_t)v.size()));
    }
    inline std::string to(const icu::UnicodeString& u)
    {
        std::string r;
        u.toUTF8String(r);
        return r;
    }
}    // namespace shim
namespace cases
{
    inline std::string to_casefold_utf8(std::string_view v)
    {
        auto u = shim::from(v);
        u.foldCase(U_FOLD_CASE_DEFAULT);
        return shim::to(u);
    }
}    // namespace cases
namespace caseless
{
    inline int compare_utf8(std::string_view a, std::string_view b)
    {
        return cases::to_casefold_utf8(a).compare(cases::to_casefold_utf8(b));
    }
}    // namespace caseless
namespace norm
{
    inline std::string to_nfc_utf8(std::string_view v)
    {
        UErrorCode ec = U_ZERO_ERROR;
        return shim::to(icu::Normalizer2::getNFCInstance(ec)->normalize(shim::from(v), ec));
    }
    inline std::string to_nfd_utf8(std::string_view v)
    {
        UErrorCode ec = U_ZERO_ERROR;
        return shim::to(icu::Normalizer2::getNFDInstance(ec)->normalize(shim::from(v), ec));
    }
}    // namespace norm
}    // namespace una
