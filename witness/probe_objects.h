// Algorithms whose whole behaviour is a record of what was asked of them.
// The object holds one number naming its history, so copies keep working.
#pragma once
#include "milo/internal.h"

extern "C" uint64_t probe_init(uint64_t kind) noexcept;
extern "C" uint64_t probe_init_key(uint64_t kind, const void* key, size_t n) noexcept;
extern "C" uint64_t probe_init_key_iv(uint64_t kind, const void* key, size_t n, const void* iv, size_t m) noexcept;
extern "C" uint64_t probe_update(uint64_t id, const void* p, size_t n) noexcept;
extern "C" uint64_t probe_finalize(uint64_t id) noexcept;
extern "C" void probe_digest(uint64_t id, void* p, size_t n) noexcept;
extern "C" uint64_t probe_crypt(uint64_t id, uint64_t decrypt, const void* src, size_t n, void* dst) noexcept;

template<size_t t_block, size_t t_digest>
struct probe_hash
{
    struct properties { using hash = int; };
    static constexpr size_t block_size = t_block;
    static constexpr size_t digest_size = t_digest;
    uint64_t id = 0;
    constexpr probe_hash() noexcept(true) = default;
    constexpr ~probe_hash() noexcept(true) = default;
    constexpr probe_hash(const probe_hash&) noexcept(true) = default;
    constexpr probe_hash& operator=(const probe_hash&) noexcept(true) = default;
    auto initialize() noexcept(true) -> void { id = probe_init(1); }
    template<milo::meta::byte T>
    auto update(const T* p, size_t n) noexcept(true) -> void { id = probe_update(id, p, n); }
    auto finalize() noexcept(true) -> void { id = probe_finalize(id); }
    template<milo::meta::byte T>
    auto digest(T* p, size_t n = digest_size) const noexcept(true) -> size_t
    {
        if (n > digest_size) { n = digest_size; }
        probe_digest(id, p, n);
        return n;
    }
};

template<uint64_t t_kind, size_t t_key, size_t t_digest>
struct probe_keyed
{
    static constexpr size_t key_size = t_key;
    static constexpr size_t digest_size = t_digest;
    uint64_t id = 0;
    constexpr probe_keyed() noexcept(true) = default;
    constexpr ~probe_keyed() noexcept(true) = default;
    constexpr probe_keyed(const probe_keyed&) noexcept(true) = default;
    constexpr probe_keyed& operator=(const probe_keyed&) noexcept(true) = default;
    template<milo::meta::byte T>
    auto initialize(const T* p, size_t n) noexcept(true) -> void { id = probe_init_key(t_kind, p, n); }
    template<milo::meta::byte T>
    auto update(const T* p, size_t n) noexcept(true) -> void { id = probe_update(id, p, n); }
    auto finalize() noexcept(true) -> void { id = probe_finalize(id); }
    template<milo::meta::byte T>
    auto digest(T* p, size_t n = digest_size) const noexcept(true) -> size_t
    {
        if (n > digest_size) { n = digest_size; }
        probe_digest(id, p, n);
        return n;
    }
};

template<size_t t_digest>
struct probe_hmac : probe_keyed<2, 0, t_digest>
{
    struct properties { using mac = int; using mac_hmac = int; using prf = int; };
};

struct probe_poly : probe_keyed<3, 32, 16>
{
    struct properties { using mac = int; using mac_poly_1305 = int; };
};

struct probe_chacha
{
    struct properties { using cipher = int; using cipher_stream = int; using cipher_chacha_20 = int; };
    static constexpr size_t key_size = 32;
    static constexpr size_t iv_size = 16;
    static constexpr size_t block_size = 64;
    uint64_t id = 0;
    constexpr probe_chacha() noexcept(true) = default;
    constexpr ~probe_chacha() noexcept(true) = default;
    constexpr probe_chacha(const probe_chacha&) noexcept(true) = default;
    constexpr probe_chacha& operator=(const probe_chacha&) noexcept(true) = default;
    template<milo::meta::byte K, milo::meta::byte I>
    auto initialize(const K* k, size_t n, const I* i, size_t m) noexcept(true) -> void { id = probe_init_key_iv(4, k, n, i, m); }
    template<milo::meta::byte S, milo::meta::byte D>
    auto encrypt(const S* s, size_t n, D* d) noexcept(true) -> size_t { id = probe_crypt(id, 0, s, n, d); return n; }
    template<milo::meta::byte S, milo::meta::byte D>
    auto decrypt(const S* s, size_t n, D* d) noexcept(true) -> size_t { id = probe_crypt(id, 1, s, n, d); return n; }
    template<milo::meta::byte S>
    auto encrypt_size(const S*, size_t n) noexcept(true) -> size_t { return n; }
    template<milo::meta::byte S>
    auto decrypt_size(const S*, size_t n) noexcept(true) -> size_t { return n; }
};

// A growing container whose storage is handed out by the analysis.
extern "C" void* probe_resize(void* p, size_t n, size_t k);

template<typename T>
struct dyn
{
    using value_type = T;
    T* p = nullptr;
    size_t n = 0;
    auto data() noexcept -> T* { return p; }
    auto data() const noexcept -> const T* { return p; }
    auto size() const noexcept -> size_t { return n; }
    auto reserve(size_t) -> void {}
    auto resize(size_t k, T = T()) -> void { p = static_cast<T*>(probe_resize(p, n, k)); n = k; }
};

// Something to read: bytes and how many.
template<typename T>
struct bytes_view
{
    using value_type = T;
    const T* p;
    size_t n;
    auto data() const noexcept -> const T* { return p; }
    auto size() const noexcept -> size_t { return n; }
};

extern "C" uint64_t probe_kdf(uint64_t kind, const void* i, size_t in, const void* s, size_t sn, const void* x, size_t xn, uint64_t count) noexcept;
extern "C" uint64_t probe_derive(uint64_t id, void* p, size_t n) noexcept;

struct probe_hkdf
{
    struct properties { using kdf = int; using kdf_hkdf = int; };
    uint64_t id = 0;
    constexpr probe_hkdf() noexcept(true) = default;
    constexpr ~probe_hkdf() noexcept(true) = default;
    constexpr probe_hkdf(const probe_hkdf&) noexcept(true) = default;
    constexpr probe_hkdf& operator=(const probe_hkdf&) noexcept(true) = default;
    template<milo::meta::byte I, milo::meta::byte S, milo::meta::byte X>
    auto initialize(const I* i, size_t in, const S* s, size_t sn, const X* x, size_t xn) noexcept(true) -> void
    {
        id = probe_kdf(5, i, in, s, sn, x, xn, 0);
    }
    template<milo::meta::byte K>
    auto derive(K* p, size_t n) noexcept(true) -> size_t { id = probe_derive(id, p, n); return n; }
};

struct probe_pbkdf
{
    struct properties { using kdf = int; using kdf_pbkdf_2 = int; };
    uint64_t id = 0;
    constexpr probe_pbkdf() noexcept(true) = default;
    constexpr ~probe_pbkdf() noexcept(true) = default;
    constexpr probe_pbkdf(const probe_pbkdf&) noexcept(true) = default;
    constexpr probe_pbkdf& operator=(const probe_pbkdf&) noexcept(true) = default;
    template<milo::meta::byte I, milo::meta::byte S>
    auto initialize(const I* i, size_t in, const S* s, size_t sn, uint32_t count) noexcept(true) -> void
    {
        id = probe_kdf(6, i, in, s, sn, nullptr, 0, count);
    }
    template<milo::meta::byte K>
    auto derive(K* p, size_t n) noexcept(true) -> size_t { id = probe_derive(id, p, n); return n; }
};

// A codec: results are up to the analysis, within what the size functions promise.
extern "C" size_t probe_codec(uint64_t op, const void* p, size_t n, void* q, int* code) noexcept;

struct probe_base
{
    struct properties { using codec = int; };
    static constexpr size_t ratio_bytes_size = 3;
    static constexpr size_t ratio_chars_size = 4;
    template<milo::meta::byte F, milo::meta::byte T>
    static auto encode(const F* p, size_t n, T* q) noexcept(true) -> size_t { return probe_codec(1, p, n, q, nullptr); }
    template<milo::meta::byte F>
    static auto encode_size(const F* p, size_t n) noexcept(true) -> size_t { return probe_codec(2, p, n, nullptr, nullptr); }
    template<milo::meta::byte F, milo::meta::byte T>
    static auto decode(const F* p, size_t n, T* q, milo::error& e) noexcept(true) -> size_t
    {
        int c;
        size_t r = probe_codec(3, p, n, q, &c);
        e = milo::error(milo::error::code(c));
        return r;
    }
    template<milo::meta::byte F>
    static auto decode_size(const F* p, size_t n) noexcept(true) -> size_t { return probe_codec(4, p, n, nullptr, nullptr); }
};
