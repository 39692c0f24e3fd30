// Spellings with hand-made equivalence keys: exact spelling, key when case is ignored, key when Unicode
// normalisation is ignored, key when both are. Taken from the Unicode tables, not from any library.
#pragma once
#include <string>
#include <vector>
namespace vp
{
struct Spelling
{
    const char *text, *ci, *un, *both;
};
inline const std::vector<Spelling>& spellings()
{
    static const std::vector<Spelling> v = {
        {"a", "a", "a", "a"},
        {"A", "a", "A", "a"},
        {"readme.txt", "readme.txt", "readme.txt", "readme.txt"},
        {"README.TXT", "readme.txt", "README.TXT", "readme.txt"},
        {"ReadMe.txt", "readme.txt", "ReadMe.txt", "readme.txt"},
        {"stra\xC3\x9F" "e", "strasse", "stra\xC3\x9F" "e", "strasse"},
        {"STRASSE", "strasse", "STRASSE", "strasse"},
        {"strasse", "strasse", "strasse", "strasse"},
        {"\xC3\xA9", "e_acute", "e+acute", "e_acute*"},
        {"e\xCC\x81", "e+acute", "e+acute", "e_acute*"},
        {"\xC3\x89", "e_acute", "E+acute", "e_acute*"},
        {"E\xCC\x81", "e+acute", "E+acute", "e_acute*"},
        {"\xCE\xA3", "sigma", "SIGMA", "sigma"},
        {"\xCF\x83", "sigma", "sigma", "sigma"},
        {"\xCF\x82", "sigma", "finalsigma", "sigma"},
        {"\xC3\x85", "a_ring", "A+ring", "a_ring*"},
        {"\xE2\x84\xAB", "a_ring", "A+ring", "a_ring*"},
        {"A\xCC\x8A", "a+ring", "A+ring", "a_ring*"},
        {"a\xCC\x8A", "a+ring", "a+ring", "a_ring*"},
        {"K", "k", "K", "k"},
        {"k", "k", "k", "k"},
        {"\xE2\x84\xAA", "k", "K", "k"},
        {"\xED\x95\x9C", "han_c", "han", "han"},
        {"\xE1\x84\x92\xE1\x85\xA1\xE1\x86\xAB", "han_d", "han", "han"},
        {"\xEF\xAC\x81", "fi", "fi_lig", "fi"},
        {"fi", "fi", "fi", "fi"},
        {"FI", "fi", "FI", "fi"},
        {"q\xCC\xA3\xCC\x87", "q_below_above", "q+", "q+"},
        {"q\xCC\x87\xCC\xA3", "q_above_below", "q+", "q+"},
        {"Q\xCC\x87\xCC\xA3", "q_above_below", "Q+", "q+"},
        {"\xCE\xB1\xCD\x85\xCC\x81", "alpha_iota+acute", "alpha_sub", "alpha_acute_iota"},
        {"\xCE\xB1\xCC\x81\xCD\x85", "alpha+acute_iota", "alpha_sub", "alpha_acute_iota"},
        {"\xE1\xBE\xB4", "alpha_acute_iota", "alpha_sub", "alpha_acute_iota"},
        {"\xCE\x86\xCE\x99", "alpha_acute_iota", "ALPHA_ACUTE_IOTA", "alpha_acute_iota"},
        {"\xE5\x8A\xA0\xE5\xAF\x86", "jiami", "jiami", "jiami"},
        {"z", "z", "z", "z"},
        {"_", "_", "_", "_"},
    };
    return v;
}
// Names outside the table must be lower-case ASCII (their key is themselves).
inline std::string spelling_key(const std::string& s, bool ci, bool un)
{
    if (!ci && !un)
        return s;
    for (auto& x : spellings())
        if (s == x.text)
            return std::string("\x01") + (ci && un ? x.both : ci ? x.ci : x.un);
    return s;
}
}    // namespace vp
