// S11: the name comparison modes are total orders whose equality is the documented equivalence.
#include "decode.h"
#include "mystring.h"
#include "nameclasses.h"
using namespace vp;
using Cmp = int (*)(std::string_view, std::string_view);
struct Mode
{
    const char* name;
    Cmp f;
    bool ci, un;
};
static const Mode modes[] = {{"exact", securefs::binary_compare, false, false},
                             {"case-insensitive", securefs::case_insensitive_compare, true, false},
                             {"normalisation-insensitive", securefs::uni_norm_insensitive_compare, false, true},
                             {"case- and normalisation-insensitive", securefs::case_uni_norm_insensitve_compare, true, true}};
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
struct Name
{
    std::string s;
    bool known = true;    // composed of table pieces: has equivalence keys
    std::vector<size_t> pieces;
};
static std::string key(const Name& n, const Mode& m)
{
    std::string r;
    for (size_t i : n.pieces)
    {
        auto& x = spellings()[i];
        r += m.ci && m.un ? x.both : m.ci ? x.ci : m.un ? x.un : x.text;
        r += '\x01';
    }
    return r;
}
static Name gen(Src& s)
{
    Name n;
    switch (s.weighted({6, 2, 1}))
    {
    case 0:
        for (size_t k = 1 + s.below(4); k > 0; --k)
        {
            n.pieces.push_back(s.below(spellings().size()));
            n.s += spellings()[n.pieces.back()].text;
        }
        return n;
    case 1:
    {
        // Any valid Unicode text.
        n.known = false;
        for (size_t k = s.below(6); k > 0; --k)
        {
            uint32_t cp = s.pick({(uint32_t)('a' + s.below(26)), (uint32_t)(0x20 + s.below(0x5f)), (uint32_t)(0xa0 + s.below(0x400)),
                                  (uint32_t)(0x300 + s.below(0x70)), (uint32_t)(0x1e00 + s.below(0x200)), (uint32_t)(0xac00 + s.below(0x200)),
                                  (uint32_t)(0x10400 + s.below(0x50)), (uint32_t)(0x1f600 + s.below(0x40))});
            if (cp < 0x80)
                n.s += (char)cp;
            else if (cp < 0x800)
                (n.s += (char)(0xc0 | cp >> 6)) += (char)(0x80 | (cp & 63));
            else if (cp < 0x10000)
                ((n.s += (char)(0xe0 | cp >> 12)) += (char)(0x80 | (cp >> 6 & 63))) += (char)(0x80 | (cp & 63));
            else
                (((n.s += (char)(0xf0 | cp >> 18)) += (char)(0x80 | (cp >> 12 & 63))) += (char)(0x80 | (cp >> 6 & 63))) += (char)(0x80 | (cp & 63));
        }
        return n;
    }
    default:
        // Any bytes.
        n.known = false;
        n.s = s.bytes(s.below(8));
        return n;
    }
}
// Another spelling of the same pieces, where the table has one under the mode.
static Name respell(Src& s, const Name& n, const Mode& m)
{
    Name r;
    for (size_t i : n.pieces)
    {
        std::vector<size_t> same;
        Name a;
        a.pieces = {i};
        for (size_t j = 0; j < spellings().size(); ++j)
        {
            Name b;
            b.pieces = {j};
            if (key(a, m) == key(b, m))
                same.push_back(j);
        }
        r.pieces.push_back(s.pick(same));
        r.s += spellings()[r.pieces.back()].text;
    }
    return r;
}
static void laws(Ctx& c)
{
    Src& s = c.s;
    const Mode& m = modes[s.below(4)];
    std::vector<Name> v = {gen(s)};
    while (v.size() < 4)
    {
        const Name& o = v[s.below(v.size())];
        switch (s.below(3))
        {
        case 0:
            v.push_back(gen(s));
            break;
        case 1:
            v.push_back(o.known ? respell(s, o, m) : gen(s));
            break;
        default:
            if (o.known)
            {
                // A neighbour: one piece more, one less or one different.
                Name n = respell(s, o, modes[s.below(4)]);
                if (n.pieces.size() > 1 && s.coin())
                    n.pieces.pop_back();
                else if (s.coin())
                    n.pieces[s.below(n.pieces.size())] = s.below(spellings().size());
                else
                    n.pieces.push_back(s.below(spellings().size()));
                n.s.clear();
                for (size_t i : n.pieces)
                    n.s += spellings()[i].text;
                v.push_back(n);
            }
            else
                v.push_back(gen(s));
        }
    }
    std::string t = m.name;
    for (auto& n : v)
        t += " " + q(n.s);
    c.step(t);
    auto bad = [&](const std::string& w) { fail(std::string("[") + m.name + "] " + w); };
    size_t equal = 0;
    for (auto& a : v)
    {
        if (m.f(a.s, a.s) != 0)
            bad(q(a.s) + " does not equal itself");
        for (auto& b : v)
        {
            int ab = sgn(m.f(a.s, b.s)), ba = sgn(m.f(b.s, a.s));
            if (ab != -ba)
                bad("comparing " + q(a.s) + " and " + q(b.s) + " gives signs " + std::to_string(ab) + " and " + std::to_string(ba));
            if (a.known && b.known)
            {
                bool same = key(a, m) == key(b, m);
                if (same != (ab == 0))
                    bad(q(a.s) + " and " + q(b.s) + (same ? " differ but are spellings of one name" : " compare equal but are different names"));
                if (same && &a != &b)
                    ++equal;
            }
            if (!m.ci && !m.un)
            {
                int w = sgn(memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())));
                if (!w)
                    w = a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size();
                if (w != ab)
                    bad("the order of " + q(a.s) + " and " + q(b.s) + " is not that of their bytes");
            }
            for (auto& d : v)
            {
                int bd = sgn(m.f(b.s, d.s)), ad = sgn(m.f(a.s, d.s));
                if (ab <= 0 && bd <= 0 && (ad > 0 || (ad == 0 && (ab < 0 || bd < 0))))
                    bad(q(a.s) + " <= " + q(b.s) + " <= " + q(d.s) + " but the first and the last compare as " + std::to_string(ad));
            }
        }
    }
    c.nontrivial = v[0].s.size() + v[1].s.size() > 2;
    c.label("pairs of equal names", equal);
}
// ASCII names: the case-insensitive modes agree with comparing lower-cased text, the others with the bytes.
static void ascii(Ctx& c)
{
    Src& s = c.s;
    auto g = [&]
    {
        std::string r;
        for (size_t k = s.below(8); k > 0; --k)
            r += s.coin() ? s.pick({'a', 'A', 'z', 'Z', '_', '^', '[', '@', '`', '{', '.', '0'}) : (char)(1 + s.below(127));
        return r;
    };
    std::string a = g(), b = s.coin() ? a : g();
    if (!b.empty() && s.coin())
    {
        char& ch = b[s.below(b.size())];
        ch = (char)(isalpha((unsigned char)ch) ? ch ^ 32 : s.coin() ? ch ^ 32 : ch);
        if (!ch)
            ch = 'x';
    }
    auto low = [](std::string v)
    {
        for (char& ch : v)
            if (ch >= 'A' && ch <= 'Z')
                ch = (char)(ch + 32);
        return v;
    };
    c.step(q(a) + " " + q(b));
    for (auto& m : modes)
    {
        int got = sgn(m.f(a, b)), want = m.ci ? sgn(low(a).compare(low(b))) : sgn(a.compare(b));
        if (got != want)
            fail(std::string("[") + m.name + "] " + q(a) + " and " + q(b) + " compare as " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    c.nontrivial = a != b;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S11";
    p.rule = "A case draws a comparison mode and four names (compositions of spellings with hand-made equivalence keys, respellings, "
             "neighbours, random Unicode, random bytes) and checks reflexivity, antisymmetry, transitivity over all triples and equality against "
             "the keys; or two ASCII names compared with a byte-level reference. Non-trivial: the names are not all empty or single; distinct by "
             "choice sequence.";
    p.assumptions = {"the Unicode tables behind the case folding and normalisation functions (ICU stands in for uni-algo here) are right"};
    p.quick_cases = 600000;
    p.thorough_cases = 8000000;
    p.tests = {{"laws", laws, 5}, {"ascii", ascii, 2}};
    p.init = [] { securefs::global_logger.reset(); };
    return run_main(argc, argv, p);
}
