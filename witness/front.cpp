// Everything the public classes and one-call functions add on top of the algorithms.
#include "milo/primitive/hash/apie.h"
#include "milo/primitive/mac/apie.h"
#include "milo/primitive/cipher/apie.h"
#include "milo/primitive/kdf/apie.h"
#include "milo/primitive/codec/apie.h"
#include "probe_objects.h"

using namespace milo;
using namespace milo::primitive;
using u8 = unsigned char;
using view = bytes_view<u8>;
using grow = dyn<u8>;
using span = container::view_dynamic<u8>;
template<size_t N> using arr = container::bytes_static<N>;

#define CLASS(x, W) \
    void x##_copy(W* h, const W* g) { new (h) W(*g); } \
    void x##_move(W* h, W* g) { new (h) W(static_cast<W&&>(*g)); } \
    void x##_assign(W* h, const W* g) { *h = *g; } \
    extern const size_t x##_sizeof = sizeof(W);

#define DIGEST(x, W) \
    void x##_update(W* h, const u8* p, size_t n) { h->update(p, n); } \
    void x##_update_c(W* h, const u8* p, size_t n) { h->update(view{p, n}); } \
    size_t x##_digest(W* h, u8* p, size_t n) { return h->digest(p, n); } \
    size_t x##_digest_0(W* h, u8* p) { return h->digest(p); } \
    size_t x##_digest_c(W* h, grow* d, size_t n) { return h->digest(*d, n); } \
    size_t x##_digest_c0(W* h, grow* d) { return h->digest(*d); } \
    size_t x##_digest_v(W* h, u8* p, size_t m, size_t n) { span s(p, m); return h->digest(s, n); } \
    size_t x##_digest_v0(W* h, u8* p, size_t m) { span s(p, m); return h->digest(s); } \
    size_t x##_digest_a(W* h, arr<7>* d, size_t n) { return h->digest(*d, n); } \
    void x##_digest_r(W* h, grow* d, size_t n) { *d = h->digest<grow>(n); } \
    void x##_digest_s(W* h, arr<W::digest_size>* d) { *d = h->digest(); } \
    void x##_digest_s5(W* h, arr<5>* d) { *d = h->digest<arr<5>>(); }

extern "C" {

// hash
using HI = probe_hash<64, 32>;
using H = hash::apie<HI>;
void hash_make(H* h) { new (h) H; }
void hash_initialize(H* h) { h->initialize(); }
CLASS(hash, H)
DIGEST(hash, H)
size_t hash_one(const u8* p, size_t n, u8* d, size_t m) { return hash::digest<HI>(p, n, d, m); }
size_t hash_one_0(const u8* p, size_t n, u8* d) { return hash::digest<HI>(p, n, d); }
size_t hash_one_c(const u8* p, size_t n, grow* d, size_t m) { return hash::digest<HI>(view{p, n}, *d, m); }
size_t hash_one_c0(const u8* p, size_t n, grow* d) { return hash::digest<HI>(view{p, n}, *d); }
void hash_one_r(const u8* p, size_t n, grow* d, size_t m) { *d = hash::digest<HI, grow>(view{p, n}, m); }
void hash_one_s(const u8* p, size_t n, arr<32>* d) { *d = hash::digest<HI>(view{p, n}); }
void hash_one_s5(const u8* p, size_t n, arr<5>* d) { *d = hash::digest<HI, arr<5>>(view{p, n}); }

// mac
using MI = probe_hmac<32>;
using M = mac::apie<MI>;
void mac_make(M* h, const u8* k, size_t n) { new (h) M; h->initialize(k, n); }
void mac_construct(M* h, const u8* k, size_t n) { new (h) M(k, n); }
void mac_construct_c(M* h, const u8* k, size_t n) { new (h) M(view{k, n}); }
void mac_initialize(M* h, const u8* k, size_t n) { h->initialize(k, n); }
void mac_initialize_c(M* h, const u8* k, size_t n) { h->initialize(view{k, n}); }
CLASS(mac, M)
DIGEST(mac, M)
size_t mac_one(const u8* k, size_t l, const u8* p, size_t n, u8* d, size_t m) { return mac::digest<MI>(k, l, p, n, d, m); }
size_t mac_one_0(const u8* k, size_t l, const u8* p, size_t n, u8* d) { return mac::digest<MI>(k, l, p, n, d); }
size_t mac_one_c(const u8* k, size_t l, const u8* p, size_t n, grow* d, size_t m) { return mac::digest<MI>(view{k, l}, view{p, n}, *d, m); }
size_t mac_one_c0(const u8* k, size_t l, const u8* p, size_t n, grow* d) { return mac::digest<MI>(view{k, l}, view{p, n}, *d); }
void mac_one_r(const u8* k, size_t l, const u8* p, size_t n, grow* d, size_t m) { *d = mac::digest<MI, grow>(view{k, l}, view{p, n}, m); }
void mac_one_s(const u8* k, size_t l, const u8* p, size_t n, arr<32>* d) { *d = mac::digest<MI>(view{k, l}, view{p, n}); }
void mac_one_s5(const u8* k, size_t l, const u8* p, size_t n, arr<5>* d) { *d = mac::digest<MI, arr<5>>(view{k, l}, view{p, n}); }

// cipher
using CI = probe_chacha;
using C = cipher::apie<CI>;
void cipher_make(C* h, const u8* k, size_t n, const u8* v, size_t m) { new (h) C; h->initialize(k, n, v, m); }
void cipher_construct(C* h, const u8* k, size_t n, const u8* v, size_t m) { new (h) C(k, n, v, m); }
void cipher_construct_c(C* h, const u8* k, size_t n, const u8* v, size_t m) { new (h) C(view{k, n}, view{v, m}); }
void cipher_initialize(C* h, const u8* k, size_t n, const u8* v, size_t m) { h->initialize(k, n, v, m); }
void cipher_initialize_c(C* h, const u8* k, size_t n, const u8* v, size_t m) { h->initialize(view{k, n}, view{v, m}); }
CLASS(cipher, C)
#define CRYPT(f) \
    size_t cipher_##f(C* h, const u8* p, size_t n, u8* q) { return h->f(p, n, q); } \
    size_t cipher_##f##_c(C* h, const u8* p, size_t n, grow* q) { return h->f(view{p, n}, *q); } \
    size_t cipher_##f##_i(C* h, grow* q) { return h->f(*q, *q); } \
    size_t cipher_##f##_v(C* h, const u8* p, size_t n, u8* q, size_t m) { span s(q, m); return h->f(view{p, n}, s); } \
    void cipher_##f##_r(C* h, const u8* p, size_t n, grow* q) { *q = h->f<grow>(view{p, n}); } \
    size_t cipher_##f##_size(C* h, const u8* p, size_t n) { return h->f##_size(p, n); } \
    size_t cipher_##f##_size_c(C* h, const u8* p, size_t n) { return h->f##_size(view{p, n}); } \
    size_t cipher_one_##f(const u8* k, size_t kn, const u8* v, size_t vn, const u8* p, size_t n, u8* q) { return cipher::f<CI>(k, kn, v, vn, p, n, q); } \
    size_t cipher_one_##f##_c(const u8* k, size_t kn, const u8* v, size_t vn, const u8* p, size_t n, grow* q) { return cipher::f<CI>(view{k, kn}, view{v, vn}, view{p, n}, *q); } \
    void cipher_one_##f##_r(const u8* k, size_t kn, const u8* v, size_t vn, const u8* p, size_t n, grow* q) { *q = cipher::f<CI, grow>(view{k, kn}, view{v, vn}, view{p, n}); }
CRYPT(encrypt)
CRYPT(decrypt)

// kdf
using XI = probe_hkdf;
using X = kdf::apie<XI>;
void hkdf_make(X* h, const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn) { new (h) X; h->initialize(i, in, s, sn, x, xn); }
void hkdf_construct(X* h, const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn) { new (h) X(i, in, s, sn, x, xn); }
void hkdf_construct_c(X* h, const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn) { view a{i, in}, b{s, sn}, c{x, xn}; new (h) X(a, b, c); }
void hkdf_initialize(X* h, const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn) { h->initialize(i, in, s, sn, x, xn); }
void hkdf_initialize_c(X* h, const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn) { view a{i, in}, b{s, sn}, c{x, xn}; h->initialize(a, b, c); }
CLASS(hkdf, X)
size_t hkdf_one(const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn, u8* d, size_t m) { return kdf::derive<XI>(i, in, s, sn, x, xn, d, m); }
size_t hkdf_one_c(const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn, grow* d, size_t m) { return kdf::derive<XI>(view{i, in}, view{s, sn}, view{x, xn}, *d, m); }
void hkdf_one_r(const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn, grow* d, size_t m) { *d = kdf::derive<XI, grow>(view{i, in}, view{s, sn}, view{x, xn}, m); }
void hkdf_one_s(const u8* i, size_t in, const u8* s, size_t sn, const u8* x, size_t xn, arr<21>* d) { *d = kdf::derive<XI, arr<21>>(view{i, in}, view{s, sn}, view{x, xn}); }
using BI = probe_pbkdf;
using B = kdf::apie<BI>;
void pbkdf_make(B* h, const u8* i, size_t in, const u8* s, size_t sn, uint32_t c) { new (h) B; h->initialize(i, in, s, sn, c); }
void pbkdf_construct(B* h, const u8* i, size_t in, const u8* s, size_t sn, uint32_t c) { new (h) B(i, in, s, sn, c); }
void pbkdf_construct_c(B* h, const u8* i, size_t in, const u8* s, size_t sn, uint32_t c) { view a{i, in}, b{s, sn}; new (h) B(a, b, c); }
void pbkdf_initialize(B* h, const u8* i, size_t in, const u8* s, size_t sn, uint32_t c) { h->initialize(i, in, s, sn, c); }
void pbkdf_initialize_c(B* h, const u8* i, size_t in, const u8* s, size_t sn, uint32_t c) { view a{i, in}, b{s, sn}; h->initialize(a, b, c); }
CLASS(pbkdf, B)
size_t pbkdf_one(const u8* i, size_t in, const u8* s, size_t sn, uint32_t c, u8* d, size_t m) { return kdf::derive<BI>(i, in, s, sn, c, d, m); }
size_t pbkdf_one_c(const u8* i, size_t in, const u8* s, size_t sn, uint32_t c, grow* d, size_t m) { return kdf::derive<BI>(view{i, in}, view{s, sn}, c, *d, m); }
void pbkdf_one_r(const u8* i, size_t in, const u8* s, size_t sn, uint32_t c, grow* d, size_t m) { *d = kdf::derive<BI, grow>(view{i, in}, view{s, sn}, c, m); }
void pbkdf_one_s(const u8* i, size_t in, const u8* s, size_t sn, uint32_t c, arr<21>* d) { *d = kdf::derive<BI, arr<21>>(view{i, in}, view{s, sn}, c); }
#define DERIVE(x, W) \
    size_t x##_derive(W* h, u8* d, size_t m) { return h->derive(d, m); } \
    size_t x##_derive_c(W* h, grow* d, size_t m) { return h->derive(*d, m); } \
    size_t x##_derive_v(W* h, u8* d, size_t l, size_t m) { span s(d, l); return h->derive(s, m); } \
    void x##_derive_r(W* h, grow* d, size_t m) { *d = h->derive<grow>(m); } \
    void x##_derive_s(W* h, arr<21>* d) { *d = h->derive<arr<21>>(); }
DERIVE(hkdf, X)
DERIVE(pbkdf, B)

// codec
using DI = probe_base;
using D = codec::apie<DI>;
size_t codec_encode(const u8* p, size_t n, u8* q) { return D::encode(p, n, q); }
size_t codec_encode_c(const u8* p, size_t n, grow* q) { return D::encode(view{p, n}, *q); }
void codec_encode_r(const u8* p, size_t n, grow* q) { *q = D::encode<grow>(view{p, n}); }
size_t codec_encode_size(const u8* p, size_t n) { return D::encode_size(p, n); }
size_t codec_encode_size_c(const u8* p, size_t n) { return D::encode_size(view{p, n}); }
size_t codec_decode(const u8* p, size_t n, u8* q, int* r) { error e(error::size); size_t k = D::decode(p, n, q, e); *r = int(error::code(e)); return k; }
size_t codec_decode_t(const u8* p, size_t n, u8* q) { return D::decode(p, n, q); }
size_t codec_decode_c(const u8* p, size_t n, grow* q, int* r) { error e(error::size); size_t k = D::decode(view{p, n}, *q, e); *r = int(error::code(e)); return k; }
size_t codec_decode_ct(const u8* p, size_t n, grow* q) { return D::decode(view{p, n}, *q); }
void codec_decode_r(const u8* p, size_t n, grow* q) { *q = D::decode<grow>(view{p, n}); }
size_t codec_decode_size(const u8* p, size_t n) { return D::decode_size(p, n); }
size_t codec_decode_size_c(const u8* p, size_t n) { return D::decode_size(view{p, n}); }
size_t codec_one_encode(const u8* p, size_t n, u8* q) { return codec::encode<DI>(p, n, q); }
size_t codec_one_encode_c(const u8* p, size_t n, grow* q) { return codec::encode<DI>(view{p, n}, *q); }
void codec_one_encode_r(const u8* p, size_t n, grow* q) { *q = codec::encode<DI, grow>(view{p, n}); }
size_t codec_one_decode(const u8* p, size_t n, u8* q, int* r) { error e(error::size); size_t k = codec::decode<DI>(p, n, q, e); *r = int(error::code(e)); return k; }
size_t codec_one_decode_t(const u8* p, size_t n, u8* q) { return codec::decode<DI>(p, n, q); }
size_t codec_one_decode_c(const u8* p, size_t n, grow* q, int* r) { error e(error::size); size_t k = codec::decode<DI>(view{p, n}, *q, e); *r = int(error::code(e)); return k; }
size_t codec_one_decode_ct(const u8* p, size_t n, grow* q) { return codec::decode<DI>(view{p, n}, *q); }
void codec_one_decode_r(const u8* p, size_t n, grow* q) { *q = codec::decode<DI, grow>(view{p, n}); }

}
