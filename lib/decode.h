// An independent reader of both on-disk formats, written from the documented layouts on Crypto++
// primitives (AES, GCM, CMAC, HMAC, SHA-256, BLAKE2b) and SQLite; it uses no code of the repository.
#pragma once
#include "fsdrv.h"
#include <map>
#include <string>
#include <vector>

namespace vp
{
struct DecodeError : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
// Primitives.
std::string x_cmac(std::string_view key, std::string_view msg);
std::string x_siv_encrypt(std::string_view key, std::string_view plain);    // 16-byte SIV, then ciphertext
bool x_siv_decrypt(std::string_view key, std::string_view sealed, std::string& plain);
std::string x_siv_encrypt_ad(std::string_view key, std::string_view plain, std::string_view ad);
bool x_gcm_open(std::string_view key, std::string_view iv, std::string_view ct, std::string_view mac, std::string_view aad, std::string& plain);
std::string x_hmac(std::string_view key, std::string_view msg);
std::string x_hkdf_expand(std::string_view prk, std::string_view info, size_t n);
std::string x_aes_ecb(std::string_view key, std::string_view block);
std::string x_blake2b(std::string_view key, std::string_view msg, size_t n);
std::string x_b32_encode(std::string_view v);
bool x_b32_decode(std::string_view v, std::string& out);
bool x_b64url_decode(std::string_view v, std::string& out);
std::string x_b64url_encode(std::string_view v);
unsigned x_mod(std::string_view be, unsigned m);    // big-endian integer modulo m

struct Keys
{
    std::string master;                        // full
    std::string name, content, xattr, pad;    // lite
};
Keys keys_of(const securefs::DecryptedSecurefsParams& p);

struct DTime
{
    uint64_t sec = 0;
    uint32_t nsec = 0;
};
// One full-format object.
struct FObj
{
    std::string id;    // 32 raw bytes
    uint32_t flags[8] = {};
    DTime at, mt, ct, bt;
    std::string data;    // logical content
    unsigned padding = 0;
    uint64_t data_size = 0, meta_size = 0;    // of the backing files
    std::vector<std::string> ivs;             // every nonce in use, with the key implied by the object
    std::map<std::string, std::string> xattr;
};
struct BPage
{
    bool node = false;
    std::vector<uint32_t> kids;
    struct E
    {
        std::string name, id;
        uint32_t type;
    };
    std::vector<E> ents;
    uint32_t next = 0, prev = 0;
};
struct BTree
{
    std::vector<BPage::E> ents;    // in order
    size_t pages = 0, used = 0, free = 0, depth = 0;
};
// One sealed unit in the backing store, found by position only (nothing is verified).
struct Seal
{
    std::string where;    // file and position, the same for later versions of the unit
    std::string key, iv, sealed;
};
std::vector<std::string> raw_file_list(const std::string& dir);    // absolute paths of everything below dir
std::map<std::string, std::string> raw_xattrs(const std::string& p);
struct FullReader
{
    std::string store, master;
    unsigned block, iv, pad;
    bool store_time, legacy;
    FullReader(const std::string& store, const FsConfig& c);
    FullReader(const std::string& store, const securefs::DecryptedSecurefsParams& p);
    std::string path_of(const std::string& id) const;    // data file; the meta file has ".meta" added
    FObj read(const std::string& id) const;
    // Decodes the directory's index and checks it fully: order under cmp (<0, 0, >0), node sizes, page
    // graph, free list; throws DecodeError.
    BTree tree(const FObj& dir, const std::function<int(const std::string&, const std::string&)>& cmp) const;
    static std::string root_id();
    std::vector<Seal> seals(std::vector<std::string>* keys = nullptr) const;
    // path -> object; links show up several times. Directories keep their listing in `ents`.
    struct Node
    {
        char type;    // f d l
        FObj obj;
    };
    std::map<std::string, Node> walk(const std::function<int(const std::string&, const std::string&)>& cmp) const;
    std::vector<std::string> ids_on_disk() const;    // hex ids that have a data or a meta file; throws on strays
};
struct LNode
{
    char type;
    std::string data;    // content or target
    std::string phys;    // backing path
    unsigned padding = 0;
    uint64_t phys_size = 0;
    std::vector<std::string> ivs;
    std::string session_key;
    std::map<std::string, std::string> xattr;
    std::vector<std::string> xattr_ivs;
};
struct LiteReader
{
    std::string store;
    Keys k;
    unsigned block, iv, pad, threshold;
    std::string suffix;
    bool plain;
    LiteReader(const std::string& store, const FsConfig& c);
    LiteReader(const std::string& store, const securefs::DecryptedSecurefsParams& p, bool plain_names);
    std::string file(const std::string& phys, LNode* n) const;
    std::string enc_name(const std::string& n) const;
    std::string target(const std::string& raw) const;
    std::map<std::string, LNode> walk() const;    // virtual path -> node
    std::vector<Seal> seals(std::vector<std::string>* keys = nullptr) const;
};
int bin_cmp(const std::string& a, const std::string& b);
// One text per path, comparable with dump_of(Mount).
std::string dump_of(const std::map<std::string, LNode>&);
std::string dump_of(const std::map<std::string, FullReader::Node>&);
std::string dump_of(Mount& m);
// Opens a config file (protobuf wire format or legacy JSON) without the repository's code: raw fields.
struct RawParams
{
    unsigned block = 0, iv = 0, pad = 0;
    bool full = false;
    std::string master;
    bool store_time = false, legacy = false, ci = false, un = false;
    std::string name, content, xattr, padkey, suffix;
    bool has_threshold = false;
    unsigned threshold = 0;
    std::string text() const;
};
bool x_config_open(const std::string& bytes, const std::string& password, const std::string* keyfile, RawParams& out);
RawParams raw_of(const securefs::DecryptedSecurefsParams& p);
// The documented name order: by the case-folded and/or decomposed spelling, bytewise.
std::function<int(const std::string&, const std::string&)> x_name_cmp(bool ci, bool un);
std::string x_legacy_kdf(const std::string& kdf, const std::string& pw, const std::string& salt, unsigned it, unsigned argon_m, unsigned argon_p,
                         unsigned scrypt_r, unsigned scrypt_p);
}    // namespace vp
