// S27: cryptographic primitives and encodings match their public definitions.
#include "crypto.h"
#include "decode.h"
#include "mystring.h"
#include "xattr_name.h"
using namespace vp;
static std::string unhex_(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static std::string gen_len_bytes(Src& s, size_t max) { return s.bytes(s.size_near(max, 16)); }

// The oracle itself against published vectors.
static void anchors(Ctx& c)
{
    std::string k = unhex_("fffefdfcfbfaf9f8f7f6f5f4f3f2f1f0f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff"), ad = unhex_("101112131415161718191a1b1c1d1e1f2021222324252627"),
                p = unhex_("112233445566778899aabbccddee");
    std::string want = unhex_("85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c");
    VREQ(x_siv_encrypt_ad(k, p, ad) == want, "the oracle fails RFC 5297 A.1");
    std::string out(p.size(), 0), siv(16, 0);
    securefs::AES_SIV a(k.data(), k.size());
    a.encrypt_and_authenticate(p.data(), p.size(), ad.data(), ad.size(), &out[0], &siv[0]);
    VREQ(siv + out == want, "AES-SIV fails RFC 5297 A.1");
    // RFC 5869 A.1.
    std::string ikm(22, '\x0b'), salt = unhex_("000102030405060708090a0b0c"), info = unhex_("f0f1f2f3f4f5f6f7f8f9"), okm(42, 0);
    std::string wk = unhex_("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865");
    securefs::hkdf(ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size(), &okm[0], okm.size());
    VREQ(okm == wk && x_hkdf_expand(x_hmac(salt, ikm), info, 42) == wk, "HKDF fails RFC 5869 A.1");
    c.nontrivial = true;
}
static void siv(Ctx& c)
{
    Src& s = c.s;
    size_t ks = s.pick({64u, 32u, 48u});
    std::string key = s.bytes(ks);
    securefs::AES_SIV a(key.data(), key.size());
    // The same object is used for several messages.
    for (int n = 1 + (int)s.below(4); n > 0; --n)
    {
        std::string p = gen_len_bytes(s, s.chance(1, 10) ? 5000 : 100), ad = s.coin() ? gen_len_bytes(s, 80) : "";
        c.step("siv key=" + str(ks) + " text=" + str(p.size()) + " ad=" + str(ad.size()));
        std::string out(p.size(), 0), iv(16, 0);
        std::vector<char> exact(p.begin(), p.end());
        a.encrypt_and_authenticate(p.data(), p.size(), ad.empty() ? nullptr : ad.data(), ad.size(), &out[0], &iv[0]);
        std::string want = ad.empty() ? x_siv_encrypt(key, p) : x_siv_encrypt_ad(key, p, ad);
        if (iv + out != want)
            fail("AES-SIV of " + str(p.size()) + " bytes with " + str(ad.size()) + " bytes of associated data is " + hex(iv + out) + ", RFC 5297 gives " + hex(want));
        std::string back(p.size(), 0);
        if (!a.decrypt_and_verify(out.data(), out.size(), ad.data(), ad.size(), &back[0], iv.data()) || back != p)
            fail("AES-SIV does not decrypt its own output of " + str(p.size()) + " bytes");
        // In place.
        std::string ip = out;
        if (!a.decrypt_and_verify(ip.data(), ip.size(), ad.data(), ad.size(), &ip[0], iv.data()) || ip != p)
            fail("AES-SIV does not decrypt in place");
        // Any alteration is refused.
        std::string t = iv + out, ad2 = ad;
        bool keymod = false;
        std::string k2 = key;
        switch (s.below(4))
        {
        case 0:
        case 1:
            t[s.below(t.size())] ^= (char)(1 << s.below(8));
            break;
        case 2:
            ad2 = ad.empty() ? s.bytes(1 + s.below(20)) : ad;
            if (!ad.empty())
                ad2[s.below(ad2.size())] ^= (char)(1 << s.below(8));
            break;
        default:
            k2[s.below(k2.size())] ^= (char)(1 << s.below(8));
            keymod = true;
        }
        bool refused;
        if (keymod)
        {
            securefs::AES_SIV b(k2.data(), k2.size());
            refused = !b.decrypt_and_verify(out.data(), out.size(), ad.data(), ad.size(), &back[0], iv.data());
            if (p.size() < 16 && k2.substr(0, ks / 2) == key.substr(0, ks / 2))
                refused = true;    // only the cipher key differs, and a short key stream may agree
        }
        else
            refused = !a.decrypt_and_verify(t.data() + 16, out.size(), ad2.data(), ad2.size(), &back[0], t.data());
        if (!refused)
            fail("AES-SIV accepts an altered message of " + str(p.size()) + " bytes");
    }
    c.nontrivial = true;
}
static std::string x_pbkdf2(const std::string& pw, const std::string& salt, unsigned it, size_t n)
{
    std::string r;
    for (uint32_t i = 1; r.size() < n; ++i)
    {
        std::string idx{(char)(i >> 24), (char)(i >> 16), (char)(i >> 8), (char)i};
        std::string u = x_hmac(pw, salt + idx), t = u;
        for (unsigned k = 1; k < it; ++k)
        {
            u = x_hmac(pw, u);
            for (size_t j = 0; j < 32; ++j)
                t[j] = (char)(t[j] ^ u[j]);
        }
        r += t;
    }
    return r.substr(0, n);
}
static void kdf(Ctx& c)
{
    Src& s = c.s;
    std::string key = s.bytes(1 + s.size_near(200, 64)), salt = s.coin() ? gen_len_bytes(s, 200) : "", info = gen_len_bytes(s, 100);
    size_t n = s.chance(1, 20) ? 8161 : 1 + s.size_near(s.chance(1, 5) ? 8159 : 300, 32);
    std::string out(n, 0);
    c.step("hkdf key=" + str(key.size()) + " salt=" + str(salt.size()) + " info=" + str(info.size()) + " out=" + str(n));
    bool threw = false;
    try
    {
        securefs::hkdf(key.data(), key.size(), salt.data(), salt.size(), info.data(), info.size(), &out[0], n);
    }
    catch (std::exception&)
    {
        threw = true;
    }
    if (threw != (n > 255 * 32))
        fail("HKDF of " + str(n) + " bytes " + (threw ? "is refused" : "is not refused"));
    if (!threw)
    {
        std::string want = x_hkdf_expand(salt.empty() ? key : x_hmac(salt, key), info, n);
        if (out != want)
            fail("HKDF output of " + str(n) + " bytes differs from RFC 5869");
    }
    // HMAC-SHA-256, full or truncated.
    std::string msg = gen_len_bytes(s, 300), mac(1 + s.below(32), 0);
    securefs::hmac_sha256_calculate(msg.data(), msg.size(), key.data(), key.size(), &mac[0], mac.size());
    if (mac != x_hmac(key, msg).substr(0, mac.size()))
        fail("HMAC-SHA-256 of " + str(msg.size()) + " bytes differs from RFC 2104");
    if (!securefs::hmac_sha256_verify(msg.data(), msg.size(), key.data(), key.size(), mac.data(), mac.size()))
        fail("HMAC verification refuses a right code");
    std::string bad = mac;
    bad[s.below(bad.size())] ^= (char)(1 << s.below(8));
    if (securefs::hmac_sha256_verify(msg.data(), msg.size(), key.data(), key.size(), bad.data(), bad.size()))
        fail("HMAC verification accepts a wrong code");
    if (s.chance(1, 4))
    {
        unsigned it = 1 + (unsigned)s.below(6);
        std::string d(1 + s.below(100), 0), ps = s.bytes(1 + s.below(40));
        securefs::pbkdf_hmac_sha256(key.data(), key.size(), ps.data(), ps.size(), it, 0, &d[0], d.size());
        if (d != x_pbkdf2(key, ps, it, d.size()))
            fail("PBKDF2-HMAC-SHA-256 differs from RFC 8018");
        c.step("pbkdf2");
    }
    c.nontrivial = true;
}
static void text(Ctx& c)
{
    Src& s = c.s;
    std::string v = s.bytes(s.size_near(200, 5)), e, d;
    c.step("encode " + hex(v));
    auto b = reinterpret_cast<const unsigned char*>(v.data());
    securefs::base32_encode(b, v.size(), e);
    if (e != x_b32_encode(v))
        fail("base32 of " + hex(v) + " is " + q(e) + ", expected " + q(x_b32_encode(v)));
    securefs::base32_decode(e.data(), e.size(), d);
    if (d != v)
        fail("base32 decoding of " + q(e) + " gives " + hex(d) + ", expected " + hex(v));
    std::string low = e;
    for (char& ch : low)
        ch = (char)tolower((unsigned char)ch);
    securefs::base32_decode(low.data(), low.size(), d);
    if (d != v)
        fail("base32 decoding of lower-case " + q(low) + " gives " + hex(d) + ", expected " + hex(v));
    std::string h = securefs::hexify(b, v.size()), hw;
    for (unsigned char ch : v)
    {
        hw += "0123456789abcdef"[ch >> 4];
        hw += "0123456789abcdef"[ch & 15];
    }
    if (h != hw)
        fail("hex of " + hex(v) + " is " + q(h));
    auto pb = securefs::parse_hex(h);
    if (std::string(pb.begin(), pb.end()) != v)
        fail("hex decoding does not invert encoding");
    // Text outside the alphabets is refused.
    if (!e.empty())
    {
        std::string bad = e, alphabet = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789abcdefghijkmnpqrstuvwxyz";
        char x = (char)s.below(256);
        if (alphabet.find(x) == std::string::npos)
        {
            bad[s.below(bad.size())] = x;
            bool threw = false;
            try
            {
                securefs::base32_decode(bad.data(), bad.size(), d);
            }
            catch (std::exception&)
            {
                threw = true;
            }
            if (!threw)
                fail("base32 decoding accepts the byte " + hex(std::string(1, x)));
        }
        char y = (char)s.below(256);
        if (!isxdigit((unsigned char)y))
        {
            bad = h;
            bad[s.below(bad.size())] = y;
            bool threw = false;
            try
            {
                securefs::parse_hex(bad);
            }
            catch (std::exception&)
            {
                threw = true;
            }
            if (!threw)
                fail("hex decoding accepts the byte " + hex(std::string(1, y)));
        }
        bool threw = false;
        try
        {
            securefs::parse_hex(h.substr(1));
        }
        catch (std::exception&)
        {
            threw = true;
        }
        if (!threw)
            fail("hex decoding accepts an odd length");
    }
    // Attribute names: encrypted, reversible, altered ones refused.
    std::string key = s.bytes(64), n = "n" + s.bytes(s.below(60));
    securefs::AES_SIV a(key.data(), key.size());
    std::string en = securefs::generic_xattr::encrypt_xattr_name(a, n);
    if (en != "user." + x_b64url_encode(x_siv_encrypt(key, n)))
        fail("the stored attribute name " + q(en) + " is not the documented encoding");
    auto back = securefs::generic_xattr::decrypt_xattr_name(a, en);
    if (!back || *back != n)
        fail("attribute name " + q(n) + " does not decode to itself");
    std::string sealed = x_siv_encrypt(key, n);
    sealed[s.below(sealed.size())] ^= (char)(1 << s.below(8));
    if (securefs::generic_xattr::decrypt_xattr_name(a, "user." + x_b64url_encode(sealed)))
        fail("an altered attribute name is accepted");
    c.nontrivial = v.size() > 1;
}
static void randomness(Ctx& c)
{
    size_t n = 12 + c.s.below(50);
    std::set<std::string> seen;
    for (int i = 0; i < 200; ++i)
    {
        std::string r(n, 0);
        securefs::generate_random(&r[0], n);
        if (!seen.insert(r).second)
            fail("generate_random repeated " + str(n) + " bytes within 200 calls");
        if (r.substr(n - 8) == std::string(8, 0))
            fail("generate_random left the end of " + str(n) + " bytes unset");
    }
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S27";
    p.rule = "A case draws keys, texts, associated data, salts and lengths around block boundaries and compares AES-SIV, HKDF, HMAC, PBKDF2, "
             "base32, hex and attribute-name encodings with independent implementations of their public definitions, then alters one input and "
             "requires refusal. Non-trivial: any case with a non-empty value; distinct by choice sequence.";
    p.assumptions = {"Crypto++'s AES, CMAC and SHA-256 are right", "no associated data and empty associated data mean the same; HKDF without salt is its expand step"};
    p.quick_cases = 700000;
    p.thorough_cases = 10000000;
    p.tests = {{"anchors", anchors, 1}, {"siv", siv, 20}, {"kdf", kdf, 15}, {"text", text, 15}, {"randomness", randomness, 1}};
    p.init = [] { securefs::global_logger.reset(); };
    return run_main(argc, argv, p);
}
