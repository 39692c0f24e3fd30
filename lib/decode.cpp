#include "decode.h"
#include <cryptopp/aes.h>
#include <cryptopp/blake2.h>
#include <cryptopp/cmac.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/pwdbased.h>
#include <cryptopp/scrypt.h>
#include <cryptopp/sha.h>
#include <dirent.h>
#include <argon2.h>
#include <sqlite3.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <uni_algo/all.h>
#include <unistd.h>

namespace vp
{
namespace C = CryptoPP;
using B = C::byte;
static const B* u(std::string_view v) { return reinterpret_cast<const B*>(v.data()); }
static B* u(std::string& v) { return reinterpret_cast<B*>(&v[0]); }

std::string x_cmac(std::string_view key, std::string_view msg)
{
    C::CMAC<C::AES> m(u(key), key.size());
    std::string r(16, '\0');
    m.CalculateDigest(u(r), u(msg), msg.size());
    return r;
}
std::string x_aes_ecb(std::string_view key, std::string_view block)
{
    C::AES::Encryption e(u(key), key.size());
    std::string r(16, '\0');
    e.ProcessBlock(u(block), u(r));
    return r;
}
static std::string dbl(const std::string& b)
{
    std::string r(16, '\0');
    for (int i = 0; i < 16; ++i)
        r[i] = (char)(((unsigned char)b[i] << 1) | (i < 15 ? (unsigned char)b[i + 1] >> 7 : 0));
    if ((unsigned char)b[0] & 0x80)
        r[15] = (char)((unsigned char)r[15] ^ 0x87);
    return r;
}
static std::string sxor(std::string a, std::string_view b)
{
    for (size_t i = 0; i < 16; ++i)
        a[i] = (char)(a[i] ^ b[i]);
    return a;
}
// RFC 5297 section 2.4.
static std::string s2v(std::string_view k1, std::string_view plain, std::string_view ad, bool has_ad)
{
    std::string d = x_cmac(k1, std::string(16, '\0'));
    if (has_ad)
        d = sxor(dbl(d), x_cmac(k1, ad));
    std::string t(plain);
    if (t.size() >= 16)
    {
        for (size_t i = 0; i < 16; ++i)
            t[t.size() - 16 + i] = (char)(t[t.size() - 16 + i] ^ d[i]);
    }
    else
    {
        t += '\x80';
        t.resize(16, '\0');
        t = sxor(t, dbl(d));
    }
    return x_cmac(k1, t);
}
static std::string ctr(std::string_view k2, std::string iv, std::string_view in)
{
    iv[8] &= 0x7f;
    iv[12] &= 0x7f;
    std::string r(in);
    for (size_t i = 0; i < r.size(); i += 16)
    {
        std::string ks = x_aes_ecb(k2, iv);
        for (size_t j = i; j < r.size() && j < i + 16; ++j)
            r[j] = (char)(r[j] ^ ks[j - i]);
        for (int j = 15; j >= 0; --j)
            if (++iv[j] != 0)
                break;
    }
    return r;
}
std::string x_siv_encrypt(std::string_view key, std::string_view plain)
{
    auto k1 = key.substr(0, key.size() / 2), k2 = key.substr(key.size() / 2);
    std::string v = s2v(k1, plain, {}, false);
    return v + ctr(k2, v, plain);
}
std::string x_siv_encrypt_ad(std::string_view key, std::string_view plain, std::string_view ad)
{
    auto k1 = key.substr(0, key.size() / 2), k2 = key.substr(key.size() / 2);
    std::string v = s2v(k1, plain, ad, true);
    return v + ctr(k2, v, plain);
}
bool x_siv_decrypt(std::string_view key, std::string_view sealed, std::string& plain)
{
    if (sealed.size() < 16)
        return false;
    auto k1 = key.substr(0, key.size() / 2), k2 = key.substr(key.size() / 2);
    std::string v(sealed.substr(0, 16));
    plain = ctr(k2, v, sealed.substr(16));
    return s2v(k1, plain, {}, false) == v;
}
bool x_gcm_open(std::string_view key, std::string_view iv, std::string_view ct, std::string_view mac, std::string_view aad, std::string& plain)
{
    C::GCM<C::AES>::Decryption d;
    d.SetKeyWithIV(u(key), key.size(), u(iv), iv.size());
    plain.assign(ct.size(), '\0');
    static B none;
    return d.DecryptAndVerify(ct.empty() ? &none : u(plain), u(mac), mac.size(), u(iv), (int)iv.size(), aad.empty() ? nullptr : u(aad), aad.size(),
                              ct.empty() ? &none : u(ct), ct.size());
}
std::string x_hmac(std::string_view key, std::string_view msg)
{
    C::HMAC<C::SHA256> h(u(key), key.size());
    std::string r(32, '\0');
    h.CalculateDigest(u(r), u(msg), msg.size());
    return r;
}
std::string x_hkdf_expand(std::string_view prk, std::string_view info, size_t n)
{
    std::string r, t;
    for (int i = 1; r.size() < n; ++i)
    {
        t = x_hmac(prk, t + std::string(info) + (char)i);
        r += t;
    }
    return r.substr(0, n);
}
std::string x_blake2b(std::string_view key, std::string_view msg, size_t n)
{
    C::BLAKE2b b(u(key), key.size(), nullptr, 0, nullptr, 0, false, (unsigned)n);
    b.Update(u(msg), msg.size());
    std::string r(n, '\0');
    b.TruncatedFinal(u(r), n);
    return r;
}
static const char* kB32 = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
std::string x_b32_encode(std::string_view v)
{
    std::string r;
    unsigned acc = 0, n = 0;
    for (unsigned char c : v)
    {
        acc = (acc << 8) | c;
        n += 8;
        while (n >= 5)
        {
            n -= 5;
            r += kB32[(acc >> n) & 31];
        }
        acc &= (1u << n) - 1;
    }
    if (n)
        r += kB32[(acc << (5 - n)) & 31];
    return r;
}
bool x_b32_decode(std::string_view v, std::string& out)
{
    out.clear();
    unsigned acc = 0, n = 0;
    for (char c : v)
    {
        if (c >= 'a' && c <= 'z')
            c = (char)(c - 32);
        const char* p = c ? strchr(kB32, c) : nullptr;
        if (!p)
            return false;
        acc = (acc << 5) | (unsigned)(p - kB32);
        n += 5;
        if (n >= 8)
        {
            n -= 8;
            out += (char)(acc >> n);
            acc &= (1u << n) - 1;
        }
    }
    return true;
}
static const char* kB64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
std::string x_b64url_encode(std::string_view v)
{
    std::string r;
    unsigned acc = 0, n = 0;
    for (unsigned char c : v)
    {
        acc = (acc << 8) | c;
        n += 8;
        while (n >= 6)
        {
            n -= 6;
            r += kB64[(acc >> n) & 63];
        }
        acc &= (1u << n) - 1;
    }
    if (n)
        r += kB64[(acc << (6 - n)) & 63];
    return r;
}
bool x_b64url_decode(std::string_view v, std::string& out)
{
    out.clear();
    unsigned acc = 0, n = 0;
    for (char c : v)
    {
        if (c == '=')
            break;
        const char* p = c ? strchr(kB64, c) : nullptr;
        if (!p)
            return false;
        acc = (acc << 6) | (unsigned)(p - kB64);
        n += 6;
        if (n >= 8)
        {
            n -= 8;
            out += (char)(acc >> n);
            acc &= (1u << n) - 1;
        }
    }
    return true;
}
unsigned x_mod(std::string_view be, unsigned m)
{
    uint64_t r = 0;
    for (unsigned char c : be)
        r = (r * 256 + c) % m;
    return (unsigned)r;
}
int bin_cmp(const std::string& a, const std::string& b) { return a.compare(b); }

Keys keys_of(const securefs::DecryptedSecurefsParams& p)
{
    Keys k;
    if (p.has_full_format_params())
        k.master = p.full_format_params().master_key();
    else
    {
        k.name = p.lite_format_params().name_key();
        k.content = p.lite_format_params().content_key();
        k.xattr = p.lite_format_params().xattr_key();
        k.pad = p.lite_format_params().padding_key();
    }
    return k;
}
static uint32_t le32(std::string_view v, size_t at)
{
    if (at + 4 > v.size())
        throw DecodeError("field beyond the end");
    uint32_t r = 0;
    for (int i = 3; i >= 0; --i)
        r = r << 8 | (unsigned char)v[at + i];
    return r;
}
static uint32_t le16(std::string_view v, size_t at)
{
    if (at + 2 > v.size())
        throw DecodeError("field beyond the end");
    return (uint32_t)((unsigned char)v[at] | (unsigned char)v[at + 1] << 8);
}
static std::string hexs(std::string_view v)
{
    std::string r;
    char b[4];
    for (unsigned char c : v)
    {
        snprintf(b, 4, "%02x", c);
        r += b;
    }
    return r;
}
static bool zeros(std::string_view v)
{
    for (char c : v)
        if (c)
            return false;
    return true;
}
std::map<std::string, std::string> raw_xattrs(const std::string& p)
{
    std::map<std::string, std::string> r;
    ssize_t n = llistxattr(p.c_str(), nullptr, 0);
    if (n <= 0)
        return r;
    std::string l((size_t)n, '\0');
    n = llistxattr(p.c_str(), &l[0], l.size());
    for (size_t i = 0; (ssize_t)i < n;)
    {
        std::string name = l.c_str() + i;
        i += name.size() + 1;
        ssize_t k = lgetxattr(p.c_str(), name.c_str(), nullptr, 0);
        if (k < 0)
            throw DecodeError("cannot read a raw extended attribute");
        std::string v((size_t)k, '\0');
        if (k)
            lgetxattr(p.c_str(), name.c_str(), &v[0], v.size());
        r[name] = v;
    }
    return r;
}
static std::string xattr_name(const std::string& key, const std::string& raw)
{
    std::string sealed, name;
    if (raw.compare(0, 5, "user.") != 0 || !x_b64url_decode(raw.substr(5), sealed) || sealed.size() <= 16
        || !x_siv_decrypt(key, sealed, name))
        throw DecodeError("extended attribute name " + q(raw) + " does not decode");
    return name;
}

FullReader::FullReader(const std::string& s, const FsConfig& c)
    : FullReader(s, make_params(c))
{
}
FullReader::FullReader(const std::string& s, const securefs::DecryptedSecurefsParams& p)
    : store(s), master(p.full_format_params().master_key()), block(p.size_params().block_size()), iv(p.size_params().iv_size()),
      pad(p.size_params().max_padding_size()), store_time(p.full_format_params().store_time()),
      legacy(p.full_format_params().legacy_file_table_io())
{
}
std::vector<std::string> raw_file_list(const std::string& dir)
{
    std::vector<std::string> r, todo = {dir};
    while (!todo.empty())
    {
        std::string d = todo.back();
        todo.pop_back();
        DIR* h = opendir(d.c_str());
        if (!h)
            continue;
        while (auto e = readdir(h))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            r.push_back(d + "/" + n);
            struct stat st;
            if (!lstat(r.back().c_str(), &st) && S_ISDIR(st.st_mode))
                todo.push_back(r.back());
        }
        closedir(h);
    }
    std::sort(r.begin(), r.end());
    return r;
}
std::vector<Seal> FullReader::seals(std::vector<std::string>* keys) const
{
    std::vector<Seal> r;
    for (auto& h : ids_on_disk())
    {
        std::string id;
        for (size_t i = 0; i < h.size(); i += 2)
            id.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
        std::string p = path_of(id), data, meta, ks = x_hkdf_expand(master, id, pad ? 128 : 96);
        std::string dk = ks.substr(0, 32), xk = ks.substr(64, 32);
        if (keys)
            for (size_t i = 0; i < ks.size(); i += 32)
                keys->push_back(ks.substr(i, 32));
        if (!try_read_file(p, data) || !try_read_file(p + ".meta", meta))
            continue;
        size_t hs = store_time ? 80 : 32, ms = iv + 16;
        if (meta.size() >= 32 + ms + hs && !zeros(std::string_view(meta).substr(32, ms + hs)))
            r.push_back({h + " header", dk, meta.substr(32, iv), meta.substr(32 + iv, 16 + hs)});
        for (size_t i = 0; i * block < data.size() && 32 + ms + hs + (i + 1) * ms <= meta.size(); ++i)
        {
            std::string m = meta.substr(32 + ms + hs + i * ms, ms), d = data.substr(i * block, block);
            if (zeros(m) && zeros(d))
                continue;
            r.push_back({h + " block " + str(i), dk, m.substr(0, iv), d + m.substr(iv)});
        }
        auto dx = raw_xattrs(p), mx = raw_xattrs(p + ".meta");
        for (auto& x : dx)
        {
            auto it = mx.find(x.first);
            if (it != mx.end() && it->second.size() == 32)
                r.push_back({h + " attribute " + x.first, xk, it->second.substr(0, 16), x.second + it->second.substr(16)});
        }
    }
    return r;
}
std::vector<Seal> LiteReader::seals(std::vector<std::string>* keys) const
{
    std::vector<Seal> r;
    std::set<ino_t> seen;
    for (auto& p : raw_file_list(store))
    {
        struct stat st;
        if (lstat(p.c_str(), &st) || S_ISLNK(st.st_mode))
            continue;
        std::string base = p.substr(p.rfind('/') + 1), tag = std::to_string(st.st_ino);
        for (auto& x : raw_xattrs(p))
            if (x.second.size() >= iv + 16)
                r.push_back({tag + " attribute " + x.first, k.xattr, x.second.substr(0, iv), x.second.substr(iv)});
        if (!S_ISREG(st.st_mode) || (!plain && base[0] == '.') || !seen.insert(st.st_ino).second)
            continue;
        std::string raw = read_file(p);
        if (raw.size() < 16)
            continue;
        std::string id = raw.substr(0, 16), key = x_aes_ecb(k.content, id);
        if (keys)
            keys->push_back(key);
        unsigned pd = pad ? x_mod(x_aes_ecb(k.pad, id), pad + 1) : 0;
        size_t ub = block + iv + 16, i = 0;
        for (size_t at = 16 + pd; at + iv + 16 < raw.size(); at += ub, ++i)
        {
            std::string b = raw.substr(at, ub);
            if (!zeros(b))
                r.push_back({hexs(id) + " block " + str(i), key, b.substr(0, iv), b.substr(iv)});
        }
    }
    return r;
}
std::string FullReader::root_id() { return std::string(32, '\0'); }
std::string FullReader::path_of(const std::string& id) const
{
    std::string h = hexs(id);
    if (legacy)
        return store + "/" + h.substr(0, 2) + "/" + h.substr(2, 10) + "/" + h.substr(12);
    return store + "/" + h.substr(0, 2) + "/" + h.substr(2);
}
FObj FullReader::read(const std::string& id) const
{
    FObj o;
    o.id = id;
    std::string p = path_of(id), data, meta, keys, plain;
    if (!try_read_file(p, data))
        throw DecodeError("object " + hexs(id) + " has no data file");
    if (!try_read_file(p + ".meta", meta))
        throw DecodeError("object " + hexs(id) + " has no metadata file");
    o.data_size = data.size();
    o.meta_size = meta.size();
    keys = x_hkdf_expand(master, id, pad ? 128 : 96);
    std::string dk = keys.substr(0, 32), mk = keys.substr(32, 32), xk = keys.substr(64, 32);
    if (pad)
        o.padding = x_mod(std::string_view(keys).substr(96, 32), pad + 1);
    if (meta.empty() && data.empty())
        throw DecodeError("object " + hexs(id) + " is empty");
    if (meta.size() < 32)
        throw DecodeError("metadata of " + hexs(id) + " is cut");
    if (x_hmac(mk, id + meta.substr(32)) != meta.substr(0, 32))
        throw DecodeError("metadata HMAC of " + hexs(id) + " is wrong");
    size_t hs = store_time ? 80 : 32, ms = iv + 16;
    if (meta.size() < 32 + ms + hs)
        throw DecodeError("header of " + hexs(id) + " is cut");
    std::string_view mv(meta);
    mv.remove_prefix(32);
    o.ivs.emplace_back(mv.substr(0, iv));
    if (!x_gcm_open(dk, mv.substr(0, iv), mv.substr(ms, hs), mv.substr(iv, 16), id, plain))
        throw DecodeError("header of " + hexs(id) + " does not verify");
    for (int i = 0; i < 8; ++i)
        o.flags[i] = le32(plain, 4 * (size_t)i);
    if (store_time)
    {
        DTime* t[] = {&o.at, &o.mt, &o.ct, &o.bt};
        for (int i = 0; i < 4; ++i)
        {
            size_t at = 28 + 12 * (size_t)i;
            t[i]->sec = le32(plain, at) | (uint64_t)le32(plain, at + 4) << 32;
            t[i]->nsec = le32(plain, at + 8);
        }
    }
    mv.remove_prefix(ms + hs);
    size_t nb = (data.size() + block - 1) / block;
    if (mv.size() != nb * ms)
        throw DecodeError("object " + hexs(id) + " has " + str(data.size()) + " data bytes but " + str(mv.size()) + " bytes of block metadata");
    std::string content;
    for (size_t i = 0; i < nb; ++i)
    {
        std::string_view d = std::string_view(data).substr(i * block, block), m = mv.substr(i * ms, ms);
        if (zeros(m) && zeros(d))
        {
            content.append(d.size(), '\0');
            continue;
        }
        if (!x_gcm_open(dk, m.substr(0, iv), d, m.substr(iv), id, plain))
            throw DecodeError("block " + str(i) + " of " + hexs(id) + " does not verify");
        o.ivs.emplace_back(m.substr(0, iv));
        content += plain;
    }
    if (content.size() < o.padding)
        throw DecodeError("object " + hexs(id) + " holds " + str(content.size()) + " bytes, less than its padding of " + str(o.padding));
    o.data = content.substr(o.padding);
    auto dx = raw_xattrs(p), mx = raw_xattrs(p + ".meta");
    for (auto& x : dx)
    {
        std::string n = xattr_name(xk, x.first);
        auto it = mx.find(x.first);
        if (it == mx.end() || it->second.size() != 32)
            throw DecodeError("extended attribute " + q(n) + " lacks its metadata");
        if (!x_gcm_open(xk, it->second.substr(0, 16), x.second, it->second.substr(16), id + x.first, plain))
            throw DecodeError("extended attribute " + q(n) + " does not verify");
        o.xattr[n] = plain;
    }
    if (mx.size() != dx.size())
        throw DecodeError("object " + hexs(id) + " has " + str(dx.size()) + " extended attributes and metadata of " + str(mx.size()));
    return o;
}
BTree FullReader::tree(const FObj& dir, const std::function<int(const std::string&, const std::string&)>& cmp) const
{
    BTree t;
    constexpr size_t P = 4096;
    const std::string& d = dir.data;
    if (d.size() % P)
        throw DecodeError("directory of " + str(d.size()) + " bytes is not made of whole pages");
    t.pages = d.size() / P;
    std::vector<int> seen(t.pages, 0);
    auto page = [&](uint32_t n)
    {
        if (n >= t.pages)
            throw DecodeError("page " + str(n) + " beyond the " + str(t.pages) + " pages of the directory");
        if (seen[n]++)
            throw DecodeError("page " + str(n) + " is used twice");
        std::string_view v = std::string_view(d).substr(n * P, P);
        BPage p;
        uint32_t f = le32(v, 0);
        if (f > 1)
            throw DecodeError("page " + str(n) + " has the unknown kind " + str(f));
        p.node = f == 1;
        if (!p.node)
        {
            p.next = le32(v, 4);
            p.prev = le32(v, 8);
            return p;
        }
        uint32_t nc = le16(v, 4), ne = le16(v, 6);
        size_t at = 8;
        for (uint32_t i = 0; i < nc; ++i, at += 4)
            p.kids.push_back(le32(v, at));
        for (uint32_t i = 0; i < ne; ++i, at += 292)
        {
            if (at + 292 > v.size())
                throw DecodeError("page " + str(n) + " overflows");
            BPage::E e;
            e.name = std::string(v.substr(at, 256)).c_str();
            e.id = std::string(v.substr(at + 256, 32));
            e.type = le32(v, at + 288);
            p.ents.push_back(e);
        }
        return p;
    };
    std::set<size_t> leaf_depths;
    std::function<void(uint32_t, size_t, bool)> visit = [&](uint32_t n, size_t depth, bool root)
    {
        if (depth > 32)
            throw DecodeError("directory index is too deep");
        BPage p = page(n);
        if (!p.node)
            throw DecodeError("index refers to the free page " + str(n));
        ++t.used;
        if (p.ents.size() > 13)
            throw DecodeError("index page holds " + str(p.ents.size()) + " entries");
        if (!root && p.ents.size() < 6)
            throw DecodeError("index page " + str(n) + " is under-full with " + str(p.ents.size()) + " entries");
        if (!p.kids.empty() && p.kids.size() != p.ents.size() + 1)
            throw DecodeError("index page " + str(n) + " has " + str(p.ents.size()) + " entries and " + str(p.kids.size()) + " children");
        if (p.kids.empty())
        {
            leaf_depths.insert(depth);
            for (auto& e : p.ents)
                t.ents.push_back(e);
            return;
        }
        for (size_t i = 0; i < p.kids.size(); ++i)
        {
            visit(p.kids[i], depth + 1, false);
            if (i < p.ents.size())
                t.ents.push_back(p.ents[i]);
        }
    };
    uint32_t root = dir.flags[4], fr = dir.flags[5], nfree = dir.flags[6];
    if (root != 0xFFFFFFFFu)
        visit(root, 0, true);
    if (leaf_depths.size() > 1)
        throw DecodeError("index leaves lie at different depths");
    t.depth = leaf_depths.empty() ? 0 : *leaf_depths.begin() + 1;
    for (size_t i = 1; i < t.ents.size(); ++i)
        if (cmp(t.ents[i - 1].name, t.ents[i].name) >= 0)
            throw DecodeError("index entries " + q(t.ents[i - 1].name) + " and " + q(t.ents[i].name) + " are out of order or equal");
    uint32_t prev = 0xFFFFFFFFu;
    for (uint32_t n = fr; n != 0xFFFFFFFFu;)
    {
        BPage p = page(n);
        if (p.node)
            throw DecodeError("free list holds the index page " + str(n));
        if (p.prev != prev)
            throw DecodeError("free page " + str(n) + " has a wrong back link");
        ++t.free;
        prev = n;
        n = p.next;
    }
    if (t.free != nfree)
        throw DecodeError("free list has " + str(t.free) + " pages, the header says " + str(nfree));
    if (t.used + t.free != t.pages)
        throw DecodeError(str(t.pages) + " pages, but " + str(t.used) + " in the index and " + str(t.free) + " in the free list");
    return t;
}
std::map<std::string, FullReader::Node> FullReader::walk(const std::function<int(const std::string&, const std::string&)>& cmp) const
{
    std::map<std::string, Node> r;
    std::vector<std::pair<std::string, std::string>> todo = {{"", root_id()}};
    std::set<std::string> dirs;
    while (!todo.empty())
    {
        auto [p, id] = todo.back();
        todo.pop_back();
        if (!dirs.insert(id).second)
            throw DecodeError("directory " + p + " is reachable twice");
        Node n{'d', read(id)};
        if ((n.obj.flags[0] & S_IFMT) != S_IFDIR)
            throw DecodeError("directory " + p + " has mode " + str(n.obj.flags[0]));
        BTree t = tree(n.obj, cmp);
        for (auto& e : t.ents)
        {
            std::string cp = p + "/" + e.name;
            unsigned type = e.type << 12;
            if (type == S_IFDIR)
                todo.push_back({cp, e.id});
            else if (type == S_IFREG || type == S_IFLNK)
            {
                Node k{type == S_IFREG ? 'f' : 'l', read(e.id)};
                if ((k.obj.flags[0] & S_IFMT) != type)
                    throw DecodeError(cp + " has entry type " + str(e.type) + " but mode " + str(k.obj.flags[0]));
                r.emplace(cp, std::move(k));
            }
            else
                throw DecodeError(cp + " has the unknown entry type " + str(e.type));
        }
        r.emplace(p.empty() ? "/" : p, std::move(n));
    }
    return r;
}
std::vector<std::string> FullReader::ids_on_disk() const
{
    std::map<std::string, int> have;
    for (auto& f : list_tree(store))
    {
        if (f[0] == '.')
            continue;
        struct stat st;
        lstat((store + "/" + f).c_str(), &st);
        if (S_ISDIR(st.st_mode))
            continue;
        std::string n = f;
        int bit = 1;
        if (n.size() > 5 && n.substr(n.size() - 5) == ".meta")
        {
            bit = 2;
            n.resize(n.size() - 5);
        }
        std::string h;
        for (char c : n)
            if (c != '/')
                h += c;
        std::string raw;
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            raw += (char)strtoul(h.substr(i, 2).c_str(), nullptr, 16);
        if (h.size() != 64 || path_of(raw) != store + "/" + n)
            throw DecodeError("stray file " + f);
        have[h] |= bit;
    }
    std::vector<std::string> r;
    for (auto& x : have)
    {
        if (x.second != 3)
            throw DecodeError("object " + x.first + " has only its " + (x.second == 1 ? "data" : "metadata") + " file");
        r.push_back(x.first);
    }
    return r;
}

LiteReader::LiteReader(const std::string& s, const FsConfig& c) : LiteReader(s, make_params(c), c.plain) {}
LiteReader::LiteReader(const std::string& s, const securefs::DecryptedSecurefsParams& p, bool pl)
    : store(s), k(keys_of(p)), block(p.size_params().block_size()), iv(p.size_params().iv_size()), pad(p.size_params().max_padding_size()),
      threshold(p.lite_format_params().long_name_threshold()), suffix(p.lite_format_params().long_name_suffix()), plain(pl)
{
    if (suffix.empty())
        suffix = "...";
}
std::string LiteReader::file(const std::string& phys, LNode* n) const
{
    std::string raw = read_file(phys), out, pl;
    if (n)
        n->phys_size = raw.size();
    if (raw.empty())
        return "";
    if (raw.size() < 16)
        throw DecodeError("file " + phys + " is shorter than its id");
    std::string id = raw.substr(0, 16), key = x_aes_ecb(k.content, id);
    unsigned pd = pad ? x_mod(x_aes_ecb(k.pad, id), pad + 1) : 0;
    if (n)
    {
        n->padding = pd;
        n->session_key = key;
    }
    if (raw.size() < 16 + pd)
        throw DecodeError("file " + phys + " is shorter than its padding");
    std::string padding = raw.substr(16, pd);
    std::string_view v = std::string_view(raw).substr(16 + pd);
    size_t ub = block + iv + 16;
    for (uint32_t i = 0; !v.empty(); ++i)
    {
        std::string_view b = v.substr(0, ub);
        v.remove_prefix(b.size());
        if (b.size() <= iv + 16)
            throw DecodeError("file " + phys + " ends with a fragment of " + str(b.size()) + " bytes");
        if (zeros(b))
        {
            out.append(b.size() - iv - 16, '\0');
            continue;
        }
        std::string aad;
        for (int j = 0; j < 4; ++j)
            aad += (char)(i >> (8 * j));
        aad += padding;
        if (!x_gcm_open(key, b.substr(0, iv), b.substr(iv, b.size() - iv - 16), b.substr(b.size() - 16), aad, pl))
            throw DecodeError("block " + str(i) + " of " + phys + " does not verify");
        if (n)
            n->ivs.emplace_back(b.substr(0, iv));
        out += pl;
    }
    return out;
}
std::string LiteReader::enc_name(const std::string& n) const
{
    if (plain)
        return n;
    if (!threshold || n.size() <= threshold)
        return x_b32_encode(x_siv_encrypt(k.name, n));
    return x_b32_encode(x_siv_encrypt(k.name, x_blake2b(k.name, n, 32))) + suffix;
}
std::string LiteReader::target(const std::string& raw) const
{
    if (plain)
        return raw;
    std::string b, out;
    if (threshold)
    {
        std::string t;
        for (size_t i = 0; i < raw.size(); ++i)
        {
            if (i % 97 == 0)
            {
                if (raw[i] != '/')
                    throw DecodeError("link target is not cut into components of 96 characters");
                continue;
            }
            t += raw[i];
        }
        if (!x_b32_decode(t, b) || !x_siv_decrypt(k.name, b, out))
            throw DecodeError("link target does not decode");
        return out;
    }
    if (raw == ".")
        return "/";
    std::string part;
    for (size_t i = 0; i <= raw.size(); ++i)
        if (i == raw.size() || raw[i] == '/')
        {
            if (!part.empty())
            {
                std::string pl;
                if (!x_b32_decode(part, b) || !x_siv_decrypt(k.name, b, pl))
                    throw DecodeError("link target component does not decode");
                out += pl;
            }
            part.clear();
            if (i < raw.size())
                out += '/';
        }
        else
            part += raw[i];
    return out;
}
static std::map<std::string, std::string> long_table(const std::string& dir)
{
    std::map<std::string, std::string> r;
    std::string p = dir + "/.long_names.db";
    if (access(p.c_str(), F_OK))
        return r;
    // Read a copy, because opening the original may write next to it.
    sqlite3* db = nullptr;
    if (sqlite3_open_v2(("file:" + p + "?immutable=1").c_str(), &db, SQLITE_OPEN_READONLY | SQLITE_OPEN_URI, nullptr))
        throw DecodeError("long name table of " + dir + " does not open");
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(db, "select keyed_hash, encrypted_name from encrypted_mappings", -1, &s, nullptr))
    {
        std::string e = sqlite3_errmsg(db);
        sqlite3_close(db);
        throw DecodeError("long name table of " + dir + ": " + e);
    }
    while (sqlite3_step(s) == SQLITE_ROW)
        r[(const char*)sqlite3_column_text(s, 0)] = (const char*)sqlite3_column_text(s, 1);
    sqlite3_finalize(s);
    sqlite3_close(db);
    return r;
}
std::map<std::string, LNode> LiteReader::walk() const
{
    std::map<std::string, LNode> r;
    std::vector<std::pair<std::string, std::string>> todo = {{"", store}};
    while (!todo.empty())
    {
        auto [vp_, pp] = todo.back();
        todo.pop_back();
        auto table = plain ? std::map<std::string, std::string>() : long_table(pp);
        DIR* d = opendir(pp.c_str());
        if (!d)
            throw DecodeError("cannot list " + pp);
        std::vector<std::string> names;
        while (auto e = readdir(d))
            names.emplace_back(e->d_name);
        closedir(d);
        size_t longs = 0;
        for (auto& n : names)
        {
            if (n == "." || n == ".." || (!plain && (n == ".long_names.db" || n.rfind(".config", 0) == 0 || n.rfind(".securefs", 0) == 0)))
                continue;
            std::string name, b, full = pp + "/" + n;
            if (plain)
                name = n;
            else if (threshold && n.size() > suffix.size() && n.substr(n.size() - suffix.size()) == suffix)
            {
                auto it = table.find(n);
                if (it == table.end())
                    throw DecodeError("long name " + n + " is not in the table of its directory");
                ++longs;
                if (!x_b32_decode(it->second, b) || !x_siv_decrypt(k.name, b, name))
                    throw DecodeError("long name of " + n + " does not decode");
                if (name.size() <= threshold)
                    throw DecodeError("name of " + str(name.size()) + " bytes stored as a long name");
            }
            else
            {
                if (!x_b32_decode(n, b) || !x_siv_decrypt(k.name, b, name))
                    throw DecodeError("stored name " + q(n) + " does not decode");
            }
            if (enc_name(name) != n)
                throw DecodeError("stored name " + q(n) + " is not the encryption of " + q(name));
            LNode x;
            x.phys = full;
            struct stat st;
            if (lstat(full.c_str(), &st))
                throw DecodeError("cannot stat " + full);
            x.type = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
            std::string cp = vp_ + "/" + name;
            if (x.type == 'd')
                todo.push_back({cp, full});
            else if (x.type == 'l')
            {
                std::string t(8192, '\0');
                ssize_t m = ::readlink(full.c_str(), &t[0], t.size());
                t.resize((size_t)std::max<ssize_t>(0, m));
                x.data = target(t);
            }
            else
                x.data = file(full, &x);
            if (x.type != 'l')
                for (auto& a : raw_xattrs(full))
                {
                    std::string an = xattr_name(k.xattr, a.first), pl;
                    if (a.second.size() < iv + 16
                        || !x_gcm_open(k.xattr, a.second.substr(0, iv), a.second.substr(iv, a.second.size() - iv - 16), a.second.substr(a.second.size() - 16), "", pl))
                        throw DecodeError("extended attribute " + q(an) + " does not verify");
                    x.xattr[an] = pl;
                    x.xattr_ivs.push_back(a.second.substr(0, iv));
                }
            if (!r.emplace(cp, std::move(x)).second)
                throw DecodeError("name " + q(cp) + " is stored twice");
        }
        // A call that failed may leave the row of its name.
        if (longs > table.size())
            throw DecodeError("long name table of " + pp + " has " + str(table.size()) + " rows for " + str(longs) + " long names");
    }
    return r;
}
static std::string line(const std::string& p, char type, const std::string& data)
{
    if (type == 'd')
        return p + " dir\n";
    if (type == 'l')
        return p + " link " + data + "\n";
    return p + " file " + str(data.size()) + " " + hex(data, 1 << 20) + "\n";
}
std::string dump_of(const std::map<std::string, LNode>& t)
{
    std::set<std::string> r;
    for (auto& x : t)
        r.insert(line(x.first, x.second.type, x.second.data));
    std::string o;
    for (auto& l : r)
        o += l;
    return o;
}
std::string dump_of(const std::map<std::string, FullReader::Node>& t)
{
    std::set<std::string> r;
    for (auto& x : t)
        if (x.first != "/")
            r.insert(line(x.first, x.second.type, x.second.obj.data));
    std::string o;
    for (auto& l : r)
        o += l;
    return o;
}
std::string dump_of(Mount& m)
{
    std::string o;
    std::set<std::string> r;
    std::function<void(const std::string&)> go = [&](const std::string& p)
    {
        std::vector<DirEnt> es;
        int rc = m.ls(p.empty() ? "/" : p, es);
        if (rc)
            fail("listing " + q(p) + " returned " + std::to_string(rc));
        for (auto& e : es)
        {
            std::string c = p + "/" + e.name, d;
            struct stat st;
            rc = m.getattr(c, st);
            if (rc)
                fail("getattr " + q(c) + " returned " + std::to_string(rc));
            char ty = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
            if (ty == 'l')
                rc = m.readlink(c, d);
            else if (ty == 'f')
                rc = m.get(c, d);
            if (rc)
                fail("reading " + q(c) + " returned " + std::to_string(rc));
            r.insert(line(c, ty, d));
            if (ty == 'd')
                go(c);
        }
    };
    go("");
    for (auto& l : r)
        o += l;
    return o;
}

namespace
{
struct Field
{
    unsigned no;
    uint64_t v = 0;
    std::string s;
};
std::vector<Field> wire(std::string_view b)
{
    std::vector<Field> r;
    size_t i = 0;
    auto varint = [&]
    {
        uint64_t v = 0;
        for (unsigned sh = 0;; sh += 7)
        {
            if (i >= b.size() || sh > 63)
                throw DecodeError("bad varint");
            unsigned char c = (unsigned char)b[i++];
            v |= (uint64_t)(c & 127) << sh;
            if (!(c & 128))
                return v;
        }
    };
    while (i < b.size())
    {
        uint64_t k = varint();
        Field f;
        f.no = (unsigned)(k >> 3);
        if ((k & 7) == 0)
            f.v = varint();
        else if ((k & 7) == 2)
        {
            uint64_t n = varint();
            if (n > b.size() - i)
                throw DecodeError("field beyond the end");
            f.s = b.substr(i, n);
            i += n;
        }
        else
            throw DecodeError("unexpected wire type");
        r.push_back(f);
    }
    return r;
}
// Just enough JSON for the legacy config: an object of strings, numbers, booleans and one nested object.
std::map<std::string, std::string> json_flat(const std::string& t)
{
    std::map<std::string, std::string> r;
    std::string prefix;
    size_t i = 0;
    auto ws = [&] { while (i < t.size() && isspace((unsigned char)t[i])) ++i; };
    auto word = [&]
    {
        std::string w;
        if (i < t.size() && t[i] == '"')
        {
            for (++i; i < t.size() && t[i] != '"'; ++i)
                w += t[i];
            ++i;
        }
        else
            while (i < t.size() && !strchr(",}] \n\r\t", t[i]))
                w += t[i++];
        return w;
    };
    for (;;)
    {
        ws();
        if (i >= t.size())
            break;
        if (t[i] == '{' || t[i] == ',')
        {
            ++i;
            continue;
        }
        if (t[i] == '}')
        {
            prefix.clear();
            ++i;
            continue;
        }
        if (t[i] != '"')
            throw DecodeError("not the legacy JSON config");
        std::string k = word();
        ws();
        if (i >= t.size() || t[i] != ':')
            throw DecodeError("not the legacy JSON config");
        ++i;
        ws();
        if (t[i] == '{')
            prefix = k + ".";
        else
            r[prefix + k] = word();
    }
    return r;
}
std::string unhex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
std::string argon(const std::string& pw, const std::string& salt, unsigned t, unsigned m, unsigned p)
{
    std::string k(32, '\0');
    if (argon2id_hash_raw(t, m, p, pw.data(), pw.size(), salt.data(), salt.size(), &k[0], 32))
        throw DecodeError("argon2id refused the parameters");
    return k;
}
}    // namespace
std::string RawParams::text() const
{
    return "block=" + str(block) + " iv=" + str(iv) + " pad=" + str(pad) + (full ? " full key=" + hex(master) + " st=" + str(store_time) + " leg="
        + str(legacy) + " ci=" + str(ci) + " un=" + str(un)
        : " lite keys=" + hex(name) + "/" + hex(content) + "/" + hex(xattr) + "/" + hex(padkey) + " thr="
          + (has_threshold ? str(threshold) : "-") + " suffix=" + q(suffix));
}
RawParams raw_of(const securefs::DecryptedSecurefsParams& p)
{
    RawParams r;
    r.block = p.size_params().block_size();
    r.iv = p.size_params().iv_size();
    r.pad = p.size_params().max_padding_size();
    r.full = p.has_full_format_params();
    if (r.full)
    {
        auto& f = p.full_format_params();
        r.master = f.master_key();
        r.store_time = f.store_time();
        r.legacy = f.legacy_file_table_io();
        r.ci = f.case_insensitive();
        r.un = f.unicode_normalization_agnostic();
    }
    else
    {
        auto& l = p.lite_format_params();
        r.name = l.name_key();
        r.content = l.content_key();
        r.xattr = l.xattr_key();
        r.padkey = l.padding_key();
        r.suffix = l.long_name_suffix();
        r.has_threshold = l.has_long_name_threshold();
        r.threshold = l.long_name_threshold();
    }
    return r;
}
static bool config_pb(const std::string& bytes, const std::string& pw, const std::string* kf, RawParams& o)
{
    std::string salt, iv, mac, ct;
    unsigned t = 0, m = 0, p = 0;
    for (auto& f : wire(bytes))
    {
        if (f.no == 1)
            salt = f.s;
        else if (f.no == 2)
            iv = f.s;
        else if (f.no == 3)
            mac = f.s;
        else if (f.no == 4)
            ct = f.s;
        else if (f.no == 5)
            for (auto& g : wire(f.s))
                (g.no == 1 ? t : g.no == 2 ? m : p) = (unsigned)g.v;
    }
    std::string key = argon(pw, kf ? x_hmac(salt, *kf) : salt, t, m, p), plain;
    if (!x_gcm_open(key, iv, ct, mac, "", plain))
        return false;
    for (auto& f : wire(plain))
    {
        if (f.no == 1)
        {
            for (auto& g : wire(f.s))
                (g.no == 1 ? o.block : g.no == 2 ? o.iv : o.pad) = (unsigned)g.v;
        }
        else if (f.no == 2)
        {
            for (auto& g : wire(f.s))
                switch (g.no)
                {
                case 1: o.name = g.s; break;
                case 2: o.content = g.s; break;
                case 3: o.xattr = g.s; break;
                case 4: o.padkey = g.s; break;
                case 5: o.has_threshold = true; o.threshold = (unsigned)g.v; break;
                case 6: o.suffix = g.s; break;
                default: throw DecodeError("unknown lite parameter");
                }
        }
        else if (f.no == 3)
        {
            o.full = true;
            for (auto& g : wire(f.s))
                switch (g.no)
                {
                case 1: o.master = g.s; break;
                case 2: o.store_time = g.v; break;
                case 3: o.legacy = g.v; break;
                case 4: o.ci = g.v; break;
                case 5: o.un = g.v; break;
                default: throw DecodeError("unknown full parameter");
                }
        }
        else
            throw DecodeError("unknown parameter group");
    }
    return true;
}
std::string x_legacy_kdf(const std::string& pb, const std::string& pw, const std::string& s, unsigned it, unsigned m, unsigned p, unsigned sr, unsigned sp)
{
    std::string k(32, '\0');
    if (pb == "argon2id")
        return argon(pw, s, it, m, p);
    if (pb == "scrypt")
        C::Scrypt().DeriveKey(u(k), 32, u(pw), pw.size(), u(s), s.size(), it, sr, sp);
    else
        C::PKCS5_PBKDF2_HMAC<C::SHA256>().DeriveKey(u(k), 32, 0, u(pw), pw.size(), u(s), s.size(), it);
    return k;
}
static bool config_json(const std::string& bytes, const std::string& pw, const std::string* kf, RawParams& o)
{
    auto j = json_flat(bytes);
    auto num = [&](const char* k, unsigned d) { return j.count(k) ? (unsigned)std::stoul(j[k]) : d; };
    unsigned ver = num("version", 0);
    std::string salt = unhex(j["salt"]), pb = j["pbkdf"], plain;
    auto derive = [&](const std::string& s)
    {
        return x_legacy_kdf(pb, pw, s, num("iterations", 0), num("argon2_m_cost", 0), num("argon2_p", 0), num("scrypt_r", 0), num("scrypt_p", 0));
    };
    std::string e = "encrypted_key.";
    if (j.count("encryptedKey.IV"))
        e = "encryptedKey.";
    std::string iv = unhex(j[e + "IV"]), mac = unhex(j[e + "MAC"]), ct = unhex(j[e + "key"]), aad = ver == 4 ? "version=4" : "version=1";
    bool good = false;
    if (!kf)
        good = x_gcm_open(derive(salt), iv, ct, mac, aad, plain);
    else
        good = x_gcm_open(derive(x_hmac(salt, *kf)), iv, ct, mac, aad, plain) || x_gcm_open(x_hmac(derive(salt), *kf), iv, ct, mac, aad, plain);
    if (!good)
        return false;
    auto either = [&](const char* a, const char* b) { return j.count(a) ? a : b; };
    o.block = num(either("block_size", "blockSize"), 4096);
    o.iv = num(either("iv_size", "ivSize"), 32);
    o.pad = num(either("max_padding", "maxPadding"), 0);
    if (ver == 4)
    {
        o.name = plain.substr(0, 32);
        o.content = plain.substr(32, 32);
        o.xattr = plain.substr(64, 32);
        if (plain.size() > 96)
            o.padkey = plain.substr(96);
        std::string l = j[either("long_name_component", "longNameComponent")];
        if (l == "true")
        {
            o.has_threshold = true;
            o.threshold = 128;
        }
    }
    else
    {
        o.full = true;
        o.master = plain;
        o.legacy = ver == 1;
        o.store_time = ver == 3;
    }
    return true;
}
bool x_config_open(const std::string& bytes, const std::string& pw, const std::string* kf, RawParams& o)
{
    o = RawParams();
    if (!bytes.empty() && bytes[0] == '{')
        return config_json(bytes, pw, kf, o);
    return config_pb(bytes, pw, kf, o);
}
std::function<int(const std::string&, const std::string&)> x_name_cmp(bool ci, bool un)
{
    return [=](const std::string& a, const std::string& b)
    {
        auto key = [&](std::string v)
        {
            if (un)
                v = una::norm::to_nfd_utf8(v);
            if (ci)
                v = una::cases::to_casefold_utf8(v);
            return v;
        };
        return key(a).compare(key(b));
    };
}
}    // namespace vp
