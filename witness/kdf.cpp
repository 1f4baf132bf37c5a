// HKDF and PBKDF2 over a recording keyed function.
#include "life.h"
#include "milo/primitive/kdf/apie.h"
#include "milo/primitive/detail/kdf/hkdf.h"
#include "milo/primitive/detail/kdf/pbkdf_2.h"
#include "probe_objects.h"

using namespace milo::primitive;

#define KDF(d) \
    using K_##d = detail::kdf_hkdf<probe_hmac<d>>; \
    using B_##d = detail::kdf_pbkdf_2<probe_hmac<d>>; \
    LIFE(hkdf_##d, K_##d) \
    LIFE(pbkdf_##d, B_##d) \
    extern "C" void hkdf_##d##_construct(K_##d* h) { new (h) K_##d; } \
    extern "C" void pbkdf_##d##_construct(B_##d* h) { new (h) B_##d; } \
    extern "C" void hkdf_##d##_initialize(K_##d* h, const unsigned char* a, size_t n, const unsigned char* b, size_t m, const unsigned char* c, size_t l) { h->initialize(a, n, b, m, c, l); } \
    extern "C" size_t hkdf_##d##_derive(K_##d* h, unsigned char* p, size_t n) { return h->derive(p, n); } \
    extern "C" const size_t hkdf_##d##_sizeof = sizeof(K_##d); \
    extern "C" void pbkdf_##d##_initialize(B_##d* h, const unsigned char* a, size_t n, const unsigned char* b, size_t m, uint32_t i) { h->initialize(a, n, b, m, i); } \
    extern "C" size_t pbkdf_##d##_derive(B_##d* h, unsigned char* p, size_t n) { return h->derive(p, n); } \
    extern "C" const size_t pbkdf_##d##_sizeof = sizeof(B_##d);

KDF(20)
KDF(28)
KDF(32)
KDF(48)
KDF(64)
