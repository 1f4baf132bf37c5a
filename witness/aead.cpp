// AEAD over a recording cipher and a recording mac.
#include "life.h"
#include "milo/primitive/aead/apie.h"
#include "milo/primitive/aead/chacha.h"
#include "probe_objects.h"

using namespace milo;
using namespace milo::primitive;

using A = detail::aead_chacha_20_poly_1305<probe_chacha, probe_poly>;
using W = aead::apie<A>;
using u8 = unsigned char;
using view = container::view_dynamic<const u8>;
using span = container::view_dynamic<u8>;

LIFE(aead, A)

extern "C" {

// the algorithm
void aead_make(A* h) { new (h) A(); }
void aead_initialize(A* h, const u8* k, size_t n, const u8* v, size_t m) { h->initialize(k, n, v, m); }
void aead_aad(A* h, const u8* p, size_t n) { h->aad(p, n); }
void aead_aadover(A* h) { h->aadover(); }
size_t aead_encrypt(A* h, const u8* p, size_t n, u8* c) { return h->encrypt(p, n, c); }
size_t aead_decrypt(A* h, const u8* p, size_t n, u8* c) { return h->decrypt(p, n, c); }
size_t aead_encrypt_char(A* h, const char* p, size_t n, char* c) { return h->encrypt(p, n, c); }
size_t aead_decrypt_char(A* h, const char* p, size_t n, char* c) { return h->decrypt(p, n, c); }
void aead_finalize(A* h) { h->finalize(); }
size_t aead_digest(const A* h, u8* p, size_t n) { return h->digest(p, n); }
extern const size_t aead_sizeof = sizeof(A);

// the class built on it
void wrap_make(W* h) { new (h) W(); }
void wrap_construct(W* h, const u8* k, size_t n, const u8* v, size_t m) { new (h) W(k, n, v, m); }
void wrap_construct_c(W* h, const u8* k, size_t n, const u8* v, size_t m) { new (h) W(view(k, n), view(v, m)); }
void wrap_initialize(W* h, const u8* k, size_t n, const u8* v, size_t m) { h->initialize(k, n, v, m); }
void wrap_initialize_c(W* h, const u8* k, size_t n, const u8* v, size_t m) { h->initialize(view(k, n), view(v, m)); }
void wrap_aad(W* h, const u8* p, size_t n) { h->aad(p, n); }
void wrap_aad_c(W* h, const u8* p, size_t n) { h->aad(view(p, n)); }
size_t wrap_encrypt(W* h, const u8* p, size_t n, u8* c) { return h->encrypt(p, n, c); }
size_t wrap_decrypt(W* h, const u8* p, size_t n, u8* c) { return h->decrypt(p, n, c); }
size_t wrap_encrypt_c(W* h, const u8* p, size_t n, u8* c) { span s(c, n); return h->encrypt(view(p, n), s); }
size_t wrap_decrypt_c(W* h, const u8* p, size_t n, u8* c) { span s(c, n); return h->decrypt(view(p, n), s); }
size_t wrap_digest(W* h, u8* p, size_t n) { return h->digest(p, n); }
size_t wrap_digest_c(W* h, u8* p, size_t n) { span s(p, n); return h->digest(s, n); }
void wrap_digest_s(W* h, u8* p) { auto d = h->digest(); for (size_t i = 0; i < 16; i += 1) { p[i] = d[i]; } }
int wrap_verify(W* h, const u8* p, size_t n) { error e(error::size); h->verify(p, n, e); return int(error::code(e)); }
int wrap_verify_c(W* h, const u8* p, size_t n) { error e(error::size); h->verify(view(p, n), e); return int(error::code(e)); }
void wrap_verify_t(W* h, const u8* p, size_t n) { h->verify(p, n); }
void wrap_verify_ct(W* h, const u8* p, size_t n) { h->verify(view(p, n)); }
void wrap_copy(W* h, const W* g) { new (h) W(*g); }
void wrap_move(W* h, W* g) { new (h) W(static_cast<W&&>(*g)); }
void wrap_assign(W* h, const W* g) { *h = *g; }
extern const size_t wrap_sizeof = sizeof(W);

// the functions that do everything at once
size_t one_encrypt(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* p, size_t pn, u8* c, u8* d)
{
    auto r = aead::encrypt<A>(k, kn, v, vn, a, an, p, pn, c, d);
    return r.item_0 + r.item_1 - 16;
}
size_t one_encrypt_c(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* p, size_t pn, u8* c, u8* d)
{
    span cs(c, pn), ds(d, 16);
    auto r = aead::encrypt<A>(view(k, kn), view(v, vn), view(a, an), view(p, pn), cs, ds);
    return r.item_0 + r.item_1 - 16;
}
size_t one_decrypt(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, u8* p, int* r)
{
    error e(error::size);
    size_t n = aead::decrypt<A>(k, kn, v, vn, a, an, c, cn, d, dn, p, e);
    *r = int(error::code(e));
    return n;
}
size_t one_decrypt_t(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, u8* p, int*)
{
    return aead::decrypt<A>(k, kn, v, vn, a, an, c, cn, d, dn, p);
}
size_t one_decrypt_c(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, u8* p, int* r)
{
    error e(error::size);
    span ps(p, cn);
    size_t n = aead::decrypt<A>(view(k, kn), view(v, vn), view(a, an), view(c, cn), view(d, dn), ps, e);
    *r = int(error::code(e));
    return n;
}
size_t one_decrypt_ct(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, u8* p, int*)
{
    span ps(p, cn);
    return aead::decrypt<A>(view(k, kn), view(v, vn), view(a, an), view(c, cn), view(d, dn), ps);
}

// with containers that grow, and the ones returned
using grow = dyn<u8>;
size_t wrap_encrypt_g(W* h, const u8* p, size_t n, grow* c) { return h->encrypt(view(p, n), *c); }
size_t wrap_decrypt_g(W* h, const u8* p, size_t n, grow* c) { return h->decrypt(view(p, n), *c); }
void wrap_encrypt_r(W* h, const u8* p, size_t n, grow* c) { *c = h->encrypt<grow>(view(p, n)); }
void wrap_decrypt_r(W* h, const u8* p, size_t n, grow* c) { *c = h->decrypt<grow>(view(p, n)); }
size_t wrap_encrypt_size(W* h, const u8* p, size_t n) { return h->encrypt_size(p, n); }
size_t wrap_decrypt_size(W* h, const u8* p, size_t n) { return h->decrypt_size(p, n); }
size_t wrap_encrypt_size_c(W* h, const u8* p, size_t n) { return h->encrypt_size(view(p, n)); }
size_t wrap_decrypt_size_c(W* h, const u8* p, size_t n) { return h->decrypt_size(view(p, n)); }
size_t wrap_digest_g(W* h, grow* d, size_t n) { return h->digest(*d, n); }
size_t wrap_digest_g0(W* h, grow* d) { return h->digest(*d); }
size_t wrap_digest_0(W* h, u8* p) { return h->digest(p); }
size_t wrap_digest_v(W* h, u8* p, size_t m, size_t n) { span s(p, m); return h->digest(s, n); }
void wrap_digest_r(W* h, grow* d, size_t n) { *d = h->digest<grow>(n); }
void wrap_digest_s5(W* h, container::bytes_static<5>* d) { *d = h->digest<container::bytes_static<5>>(); }
size_t one_encrypt_g(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* p, size_t pn, grow* c, grow* d)
{
    auto r = aead::encrypt<A>(view(k, kn), view(v, vn), view(a, an), view(p, pn), *c, *d);
    return r.item_0 + r.item_1 - 16;
}
void one_encrypt_r(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* p, size_t pn, grow* c, container::bytes_static<16>* d)
{
    auto r = aead::encrypt<A, grow>(view(k, kn), view(v, vn), view(a, an), view(p, pn));
    *c = r.item_0;
    *d = r.item_1;
}
size_t one_decrypt_g(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, grow* p, int* r)
{
    error e(error::size);
    size_t n = aead::decrypt<A>(view(k, kn), view(v, vn), view(a, an), view(c, cn), view(d, dn), *p, e);
    *r = int(error::code(e));
    return n;
}
size_t one_decrypt_gt(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, grow* p, int*)
{
    return aead::decrypt<A>(view(k, kn), view(v, vn), view(a, an), view(c, cn), view(d, dn), *p);
}
void one_decrypt_r(const u8* k, size_t kn, const u8* v, size_t vn, const u8* a, size_t an, const u8* c, size_t cn, const u8* d, size_t dn, grow* p, int*)
{
    *p = aead::decrypt<A, grow>(view(k, kn), view(v, vn), view(a, an), view(c, cn), view(d, dn));
}

}
