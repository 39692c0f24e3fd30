// S12: a repository config opens only with the right secret, unaltered.
#include "crypto.h"
#include "decode.h"
#include "params_io.h"
#include "streams.h"
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <fcntl.h>
using namespace vp;
using securefs::DecryptedSecurefsParams;
using securefs::EncryptedSecurefsParams;

static absl::Span<const unsigned char> sp(const std::string& v) { return {(const unsigned char*)v.data(), v.size()}; }
struct Secret
{
    std::string pw;
    bool has_key = false;
    std::string key;
    std::string text() const { return "password " + hex(pw, 40) + (has_key ? " key file of " + str(key.size()) + " bytes" : ""); }
};
static std::shared_ptr<securefs::StreamBase> key_stream(Ctx& c, const Secret& k)
{
    if (!k.has_key)
        return nullptr;
    write_file(c.dir + "/key", k.key);
    return securefs::maybe_open_key_stream(c.dir + "/key");
}
static Secret gen_secret(Src& s)
{
    Secret k;
    switch (s.below(4))
    {
    case 0:
        k.pw = "password";
        break;
    case 1:
        k.pw = s.bytes(1 + s.below(100));
        break;
    case 2:
        k.pw = s.pick({" ", "\xC3\xA9", "a", "abc\n", "pass word"});
        break;
    default:
        k.pw = std::string(1 + s.below(300), 'p');
    }
    if (s.coin())
    {
        k.has_key = true;
        k.key = s.bytes(s.size_near(9000, 4096));
    }
    return k;
}
static Secret other(Src& s, const Secret& k)
{
    Secret o = k;
    switch (s.below(8))
    {
    case 0:
        o.pw[s.below(o.pw.size())] ^= (char)(1 << s.below(8));
        break;
    case 1:
        o.pw.resize(s.below(o.pw.size()));
        break;
    case 2:
        o.pw += s.pick({std::string("x"), std::string(1, '\0'), std::string("\n")});
        break;
    case 3:
        o.has_key = !o.has_key;
        if (o.has_key)
            o.key = s.coin() ? "" : s.bytes(s.below(100));
        break;
    case 4:
        if (o.key.empty() || !o.has_key)
            o.pw += "k";
        else
            o.key[s.below(o.key.size())] ^= (char)(1 << s.below(8));
        break;
    case 5:
        if (o.key.empty() || !o.has_key)
            o.pw = "other";
        else
            o.key.resize(o.key.size() - 1 - s.below(std::min<size_t>(o.key.size(), 5000)));
        break;
    case 6:
        if (!o.has_key)
            o.pw = o.pw + o.pw;
        else
            o.key += s.bytes(1 + s.below(5000));
        break;
    default:
        o = gen_secret(s);
    }
    return o;
}
static DecryptedSecurefsParams gen_params(Src& s)
{
    DecryptedSecurefsParams p;
    auto z = p.mutable_size_params();
    z->set_block_size((uint32_t)s.pick({4096u, 32u, 65536u, 1048576u, 0xffffffffu}));
    z->set_iv_size((uint32_t)s.pick({12u, 16u, 32u, 0u}));
    z->set_max_padding_size((uint32_t)s.pick({0u, 1u, 300u, 0x7fffffffu}));
    if (s.coin())
    {
        auto f = p.mutable_full_format_params();
        f->set_master_key(s.bytes(s.pick({32u, 32u, 0u, 64u})));
        f->set_store_time(s.coin());
        f->set_legacy_file_table_io(s.coin());
        f->set_case_insensitive(s.coin());
        f->set_unicode_normalization_agnostic(s.coin());
    }
    else
    {
        auto l = p.mutable_lite_format_params();
        l->set_name_key(s.bytes(32));
        l->set_content_key(s.bytes(32));
        l->set_xattr_key(s.bytes(32));
        if (s.coin())
            l->set_padding_key(s.bytes(32));
        if (s.coin())
            l->set_long_name_threshold((uint32_t)s.pick({128u, 0u, 1u, 255u}));
        if (s.coin())
            l->set_long_name_suffix(s.pick({".ll", "...", "", "\xC3\xA9"}));
    }
    return p;
}
// Opens; empty when refused. Anything but an orderly refusal is a violation.
static std::optional<RawParams> open_with(Ctx& c, const std::string& bytes, const Secret& k)
{
    try
    {
        auto ks = key_stream(c, k);
        return raw_of(securefs::decrypt(std::string_view(bytes), sp(k.pw), ks.get()));
    }
    catch (std::exception&)
    {
        return {};
    }
}
static bool sane_cost(const std::string& bytes)
{
    EncryptedSecurefsParams e;
    if (!e.ParseFromString(bytes))
        return true;
    return e.argon2id_params().memory_cost() <= 4096 && e.argon2id_params().time_cost() <= 30 && e.argon2id_params().parallelism() <= 64;
}
static void altered(Ctx& c, const RawParams& want, const EncryptedSecurefsParams& enc, const std::string& bytes, const Secret& k)
{
    Src& s = c.s;
    std::string t = bytes;
    EncryptedSecurefsParams e = enc;
    auto blob = [&](std::string* f)
    {
        switch (s.below(5))
        {
        case 0:
            f->resize(s.below(f->size()));
            break;
        case 1:
            *f += s.bytes(1 + s.below(20));
            break;
        case 2:
            f->clear();
            break;
        default:
            (*f)[s.below(f->size())] ^= (char)(1 << s.below(8));
        }
    };
    switch (s.weighted({4, 4, 1, 3}))
    {
    case 0:
        for (size_t n = 1 + s.below(3); n > 0; --n)
            t[s.below(t.size())] ^= (char)(1 << s.below(8));
        break;
    case 1:
        // One field, or the code together with the ciphertext.
        switch (s.below(5))
        {
        case 0:
            blob(e.mutable_salt());
            break;
        case 1:
            blob(e.mutable_iv());
            break;
        case 2:
            blob(e.mutable_mac());
            break;
        case 3:
            blob(e.mutable_ciphertext());
            break;
        default:
            blob(e.mutable_mac());
            (*e.mutable_ciphertext())[s.below(e.ciphertext().size())] ^= (char)(1 << s.below(8));
        }
        t = e.SerializeAsString();
        break;
    case 2:
        switch (s.below(3))
        {
        case 0:
            e.mutable_argon2id_params()->set_time_cost(e.argon2id_params().time_cost() + 1);
            break;
        case 1:
            e.mutable_argon2id_params()->set_memory_cost(e.argon2id_params().memory_cost() + 8 * e.argon2id_params().parallelism());
            break;
        default:
            e.mutable_argon2id_params()->set_parallelism(e.argon2id_params().parallelism() + 1);
        }
        t = e.SerializeAsString();
        break;
    default:
        t.resize(s.below(t.size()));
    }
    EncryptedSecurefsParams now;
    bool same = now.ParseFromString(t) && now.salt() == enc.salt() && now.iv() == enc.iv() && now.mac() == enc.mac() && now.ciphertext() == enc.ciphertext()
        && now.argon2id_params().SerializeAsString() == enc.argon2id_params().SerializeAsString();
    if (same || !sane_cost(t))
        return;
    c.step("alter the sealed bytes");
    auto r = open_with(c, t, k);
    if (r)
        fail("an altered config (" + hex(t, 400) + ") opens" + (r->text() == want.text() ? "" : " as " + r->text()) + "; sealed were " + want.text()
             + ", original config " + hex(bytes, 400));
}
static void seal(Ctx& c)
{
    Src& s = c.s;
    DecryptedSecurefsParams p = gen_params(s);
    Secret k = gen_secret(s);
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_parallelism(1 + (uint32_t)s.below(3));
    a.set_memory_cost(8 * a.parallelism() + (uint32_t)s.below(40));
    a.set_time_cost(1 + (uint32_t)s.below(2));
    RawParams want = raw_of(p);
    c.step(want.text() + "; " + k.text());
    EncryptedSecurefsParams e;
    try
    {
        auto ks = key_stream(c, k);
        e = securefs::encrypt(p, a, sp(k.pw), ks.get());
    }
    catch (std::exception& x)
    {
        fail(std::string("sealing failed: ") + x.what());
    }
    std::string bytes = e.SerializeAsString();
    RawParams got;
    try
    {
        if (!x_config_open(bytes, k.pw, k.has_key ? &k.key : nullptr, got))
            fail("the independent reader cannot open the sealed config");
    }
    catch (DecodeError& x)
    {
        fail(std::string("the independent reader cannot open the sealed config: ") + x.what());
    }
    if (got.text() != want.text())
        fail("the independent reader opens the config as " + got.text() + ", sealed were " + want.text());
    auto r = open_with(c, bytes, k);
    if (!r || r->text() != want.text())
        fail("opening with the same secrets gives " + (r ? r->text() : "a refusal") + ", sealed were " + want.text());
    for (int n = 0; n < 3; ++n)
    {
        Secret o = other(s, k);
        if (o.pw == k.pw && o.has_key == k.has_key && o.key == k.key)
            continue;
        if (auto w = open_with(c, bytes, o))
            fail("the config sealed with " + k.text() + " opens with " + o.text());
    }
    for (int n = 0; n < 4; ++n)
        altered(c, want, e, bytes, k);
    auto ks = key_stream(c, k);
    auto e2 = securefs::encrypt(p, a, sp(k.pw), ks.get());
    if (e2.salt() == e.salt() || e2.iv() == e.iv() || e2.ciphertext() == e.ciphertext())
        fail("sealing twice repeats the salt, the nonce or the ciphertext");
    if (e.salt().size() < 16 || e.iv().size() < 12 || e.mac().size() < 16)
        fail("salt, nonce or code of the sealed config is too short");
    for (auto* key : {&want.master, &want.name, &want.content, &want.xattr, &want.padkey})
        if (key->size() >= 32 && key->find_first_not_of('\0') != std::string::npos && bytes.find(key->substr(0, 16)) != std::string::npos)
            fail("a data key is readable in the sealed config");
    c.nontrivial = true;
}
// Legacy JSON configs written here as the documented format says.
static void legacy(Ctx& c)
{
    Src& s = c.s;
    Secret k = gen_secret(s);
    unsigned ver = 1 + (unsigned)s.below(4);
    unsigned kdf = (unsigned)s.below(4);
    size_t n = ver == 4 ? s.pick({96u, 128u}) : 32;
    std::string master = s.bytes(n), salt = s.bytes(s.pick({32u, 16u, 8u})), iv = s.bytes(s.pick({32u, 12u}));
    unsigned it = kdf == 1 ? 1u << (1 + s.below(4)) : 1 + (unsigned)s.below(3);
    bool hasb = s.coin(), hasi = s.coin(), haspad = s.coin(), hasl = s.coin();
    bool old_way = s.coin();
    RawParams want;
    want.full = ver != 4;
    want.block = hasb ? 512 : 4096;
    want.iv = hasi ? 12 : 32;
    want.pad = haspad ? 77 : 0;
    auto hx = [](const std::string& v)
    {
        std::string r;
        char b[4];
        for (unsigned char ch : v)
        {
            snprintf(b, 4, "%02x", ch);
            r += b;
        }
        return r;
    };
    if (ver == 4)
    {
        want.name = master.substr(0, 32);
        want.content = master.substr(32, 32);
        want.xattr = master.substr(64, 32);
        if (n == 128)
            want.padkey = master.substr(96);
        want.has_threshold = hasl;
        want.threshold = hasl ? 128 : 0;
    }
    else
    {
        want.master = master;
        want.legacy = ver == 1;
        want.store_time = ver == 3;
    }
    std::string kd[] = {"argon2id", "scrypt", "pkcs5-pbkdf2-hmac-sha256", ""};
    std::string key = x_legacy_kdf(kd[kdf], k.pw, k.has_key && !old_way ? x_hmac(salt, k.key) : salt, it, kdf == 0 ? 16 : 0, kdf == 0 ? 1 : 0, kdf == 1 ? 2 : 0, kdf == 1 ? 1 : 0);
    if (k.has_key && old_way)
        key = x_hmac(key, k.key);
    std::string aad = ver == 4 ? "version=4" : "version=1", ct(n, 0), mac(16, 0);
    CryptoPP::GCM<CryptoPP::AES>::Encryption g;
    g.SetKeyWithIV((const CryptoPP::byte*)key.data(), 32, (const CryptoPP::byte*)iv.data(), iv.size());
    g.EncryptAndAuthenticate((CryptoPP::byte*)&ct[0], (CryptoPP::byte*)&mac[0], 16, (const CryptoPP::byte*)iv.data(), (int)iv.size(), (const CryptoPP::byte*)aad.data(),
                             aad.size(), (const CryptoPP::byte*)master.data(), n);
    auto json = [&](const std::string& iv_, const std::string& mac_, const std::string& ct_, const std::string& salt_)
    {
        std::string j = "{\n\t\"version\" : " + str(ver);
        if (hasb)
            j += ",\n\t\"block_size\" : 512";
        if (hasi)
            j += ",\n\t\"iv_size\" : 12";
        if (haspad)
            j += ",\n\t\"max_padding\" : 77";
        if (hasl)
            j += ",\n\t\"long_name_component\" : true";
        if (kdf < 3)
            j += ",\n\t\"pbkdf\" : \"" + kd[kdf] + "\"";
        j += ",\n\t\"iterations\" : " + str(it);
        if (kdf == 0)
            j += ",\n\t\"argon2_m_cost\" : 16,\n\t\"argon2_p\" : 1";
        if (kdf == 1)
            j += ",\n\t\"scrypt_r\" : 2,\n\t\"scrypt_p\" : 1";
        return j + ",\n\t\"salt\" : \"" + hx(salt_) + "\",\n\t\"encrypted_key\" :\n\t{\n\t\t\"IV\" : \"" + hx(iv_) + "\",\n\t\t\"MAC\" : \"" + hx(mac_)
            + "\",\n\t\t\"key\" : \"" + hx(ct_) + "\"\n\t}\n}\n";
    };
    std::string bytes = json(iv, mac, ct, salt);
    c.step("legacy version " + str(ver) + " " + kd[kdf] + " " + k.text() + (old_way ? " (old key file rule)" : ""));
    auto r = open_with(c, bytes, k);
    if (!r || r->text() != want.text())
        fail("the legacy config opens as " + (r ? r->text() : "a refusal") + ", expected " + want.text() + "\n" + bytes);
    for (int i = 0; i < 2; ++i)
    {
        Secret o = other(s, k);
        if (o.pw == k.pw && o.has_key == k.has_key && o.key == k.key)
            continue;
        // PBKDF2 and scrypt pad keys with zeros, as HMAC is defined.
        if (kdf >= 1 && o.has_key == k.has_key && o.key == k.key && (o.pw + std::string(64, '\0')).substr(0, 64) == (k.pw + std::string(64, '\0')).substr(0, 64)
            && o.pw.size() <= 64 && k.pw.size() <= 64)
            continue;
        if (open_with(c, bytes, o))
            fail("the legacy config sealed with " + k.text() + " opens with " + o.text());
    }
    for (int i = 0; i < 3; ++i)
    {
        std::string v[] = {iv, mac, ct, salt};
        auto mutate = [&](std::string& f)
        {
            switch (s.below(4))
            {
            case 0:
                f.resize(s.below(f.size()));
                break;
            case 1:
                f.clear();
                break;
            default:
                f[s.below(f.size())] ^= (char)(1 << s.below(8));
            }
        };
        size_t which = s.below(5);
        mutate(v[which % 4]);
        if (which == 4)
        {
            mutate(v[1]);
            v[2] = ct;
            v[2][s.below(n)] ^= (char)(1 << s.below(8));
        }
        if (v[0] == iv && v[1] == mac && v[2] == ct && v[3] == salt)
            continue;
        // A salt is only the key of an HMAC with PBKDF2's first rule when a key file is used: trailing zeros do not matter there.
        if (k.has_key && (v[3] + std::string(64, '\0')).substr(0, 64) == (salt + std::string(64, '\0')).substr(0, 64) && v[0] == iv && v[1] == mac && v[2] == ct)
            continue;
        c.step("alter the legacy config");
        auto w = open_with(c, json(v[0], v[1], v[2], v[3]), k);
        if (w)
            fail("an altered legacy config opens as " + w->text() + "; sealed were " + want.text() + "\n" + json(v[0], v[1], v[2], v[3]));
    }
    c.nontrivial = true;
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S12";
    p.rule = "A case draws parameters, a password, an optional key file and cost settings, seals them, opens the result with the repository's code "
             "and an independent reader, then tries related wrong secrets and altered bytes (bit flips, truncation, single fields cut, extended or "
             "emptied, changed costs); or writes a legacy JSON config of any version and derivation and does the same. All cases are non-trivial; "
             "distinct by choice sequence.";
    p.assumptions = {"argon2 and Crypto++ are right; cost settings are kept small"};
    p.quick_cases = 20000;
    p.thorough_cases = 1000000;
    p.tests = {{"seal", seal, 3}, {"legacy", legacy, 2}};
    p.init = [] { securefs::global_logger.reset(); };
    return run_main(argc, argv, p);
}
