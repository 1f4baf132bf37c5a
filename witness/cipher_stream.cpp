// ChaCha20 object with an opaque keystream backend; sizes are symbolic.
#include "life.h"
#include "milo/primitive/cipher/apie.h"
#include "milo/primitive/cipher/chacha.h"
#include "milo/option.h"

using namespace milo;
using namespace milo::primitive;

extern "C" size_t probe_transform(size_t ratio, size_t blocks, const void* state, void* dst, const void* src) noexcept;
extern "C" size_t probe_generate(size_t ratio, size_t blocks, const void* state, void* dst) noexcept;

template<size_t t_ratio>
struct probe_backend
{
    static constexpr size_t block_size = 64;
    static constexpr size_t block_ratio = t_ratio;
    template<typename t_dst, typename t_src>
    static size_t transform(size_t a_blocks, const uint32_t* a_state, t_dst* a_dst, const t_src* a_src) noexcept
    {
        return probe_transform(t_ratio, a_blocks, a_state, a_dst, a_src);
    }
    template<typename t_dst>
    static size_t generate(size_t a_blocks, const uint32_t* a_state, t_dst* a_dst) noexcept
    {
        return probe_generate(t_ratio, a_blocks, a_state, a_dst);
    }
};

template<size_t t_ratio>
using C = cipher::chacha_20<option::impl_enforce<probe_backend<t_ratio>>>;

#define STREAM(name, ratio) \
    LIFE(name, C<ratio>) \
    extern "C" void name##_construct(C<ratio>* h) { new (h) C<ratio>; } \
    extern "C" void name##_initialize(C<ratio>* h, const unsigned char* k, size_t kn, const unsigned char* v, size_t vn) { h->initialize(k, kn, v, vn); } \
    extern "C" size_t name##_encrypt(C<ratio>* h, const unsigned char* p, size_t n, unsigned char* c) { return h->encrypt(p, n, c); } \
    extern "C" size_t name##_decrypt(C<ratio>* h, const unsigned char* p, size_t n, unsigned char* c) { return h->decrypt(p, n, c); } \
    extern "C" size_t name##_encrypt_char(C<ratio>* h, const char* p, size_t n, char* c) { return h->encrypt(p, n, c); } \
    extern "C" const size_t name##_sizeof = sizeof(C<ratio>);

STREAM(ratio_1, 1)
STREAM(ratio_2, 2)
STREAM(ratio_4, 4)
STREAM(ratio_8, 8)
