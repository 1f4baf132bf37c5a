// HMAC over a recording hash.
#include "life.h"
#include "milo/primitive/mac/apie.h"
#include "milo/primitive/detail/mac/hmac.h"
#include "probe_objects.h"
#include "milo/option.h"

using namespace milo::primitive;

#define HMAC(b, d) \
    using H_##b##_##d = detail::mac_hmac<probe_hash<b, d>>; \
    LIFE(hmac_##b##_##d, H_##b##_##d) \
    extern "C" void hmac_##b##_##d##_construct(H_##b##_##d* h) { new (h) H_##b##_##d; } \
    extern "C" void hmac_##b##_##d##_initialize(H_##b##_##d* h, const unsigned char* k, size_t n) { h->initialize(k, n); } \
    extern "C" void hmac_##b##_##d##_update(H_##b##_##d* h, const unsigned char* k, size_t n) { h->update(k, n); } \
    extern "C" void hmac_##b##_##d##_finalize(H_##b##_##d* h) { h->finalize(); } \
    extern "C" size_t hmac_##b##_##d##_digest(const H_##b##_##d* h, unsigned char* k, size_t n) { return h->digest(k, n); } \
    extern "C" const size_t hmac_##b##_##d##_sizeof = sizeof(H_##b##_##d);

HMAC(64, 20)
HMAC(64, 28)
HMAC(64, 32)
HMAC(128, 28)
HMAC(128, 32)
HMAC(128, 48)
HMAC(128, 64)

// with a digest size of the user's
#define CUT(b, d, o) \
    using H_##b##_##d##_##o = detail::mac_hmac<probe_hash<b, d>, milo::option::digest_size<o>>; \
    extern "C" void hmac_##b##_##d##_##o##_construct(H_##b##_##d##_##o* h) { new (h) H_##b##_##d##_##o; } \
    extern "C" void hmac_##b##_##d##_##o##_initialize(H_##b##_##d##_##o* h, const unsigned char* k, size_t n) { h->initialize(k, n); } \
    extern "C" void hmac_##b##_##d##_##o##_update(H_##b##_##d##_##o* h, const unsigned char* k, size_t n) { h->update(k, n); } \
    extern "C" void hmac_##b##_##d##_##o##_finalize(H_##b##_##d##_##o* h) { h->finalize(); } \
    extern "C" size_t hmac_##b##_##d##_##o##_digest(const H_##b##_##d##_##o* h, unsigned char* k, size_t n) { return h->digest(k, n); } \
    extern "C" const size_t hmac_##b##_##d##_##o##_sizeof = sizeof(H_##b##_##d##_##o);

CUT(64, 32, 10)
CUT(128, 64, 33)
