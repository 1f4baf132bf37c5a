// Poly1305 object with an opaque block backend; sizes are symbolic.
#include "life.h"
#include "milo/primitive/mac/apie.h"
#include "milo/primitive/mac/poly.h"
#include "milo/option.h"

using namespace milo;
using namespace milo::primitive;

extern "C" void probe_process(size_t blocks, const void* key, void* acc, unsigned add, const void* src) noexcept;

struct probe_backend
{
    static constexpr size_t block_size = 16;
    template<typename t_src>
    static void process(size_t a_blocks, const uint32_t a_key[8], uint32_t a_acc[5], uint32_t a_add, const t_src* a_src) noexcept
    {
        probe_process(a_blocks, a_key, a_acc, a_add, a_src);
    }
};

using P = mac::poly_1305<option::impl_enforce<probe_backend>>;

LIFE(poly, P)
extern "C" void poly_construct(P* h) { new (h) P; }
extern "C" void poly_initialize(P* h, const unsigned char* k, size_t n) { h->initialize(k, n); }
extern "C" void poly_update(P* h, const unsigned char* p, size_t n) { h->update(p, n); }
extern "C" void poly_update_char(P* h, const char* p, size_t n) { h->update(p, n); }
extern "C" void poly_finalize(P* h) { h->finalize(); }
extern "C" size_t poly_digest(const P* h, unsigned char* p, size_t n) { return h->digest(p, n); }
extern "C" const size_t poly_sizeof = sizeof(P);

// with a digest size of the user's
using Q = mac::poly_1305<option::impl_enforce<probe_backend>, option::digest_size<7>>;
extern "C" void poly_cut_construct(Q* h) { new (h) Q; }
extern "C" void poly_cut_initialize(Q* h, const unsigned char* k, size_t n) { h->initialize(k, n); }
extern "C" void poly_cut_update(Q* h, const unsigned char* p, size_t n) { h->update(p, n); }
extern "C" void poly_cut_finalize(Q* h) { h->finalize(); }
extern "C" size_t poly_cut_digest(const Q* h, unsigned char* p, size_t n) { return h->digest(p, n); }
extern "C" const size_t poly_cut_sizeof = sizeof(Q);
