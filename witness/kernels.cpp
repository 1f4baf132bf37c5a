// The portable block functions, over any number of blocks.
#include "milo/internal.h"
#include "milo/primitive/detail/alias.h"

using namespace milo;
using namespace milo::primitive;

#define HASH(name, word) \
    extern "C" void name##_uchar(size_t n, word* state, const unsigned char* p) { detail::name##_impl_sw::blocks(n, state, p); } \
    extern "C" void name##_char(size_t n, word* state, const char* p) { detail::name##_impl_sw::blocks(n, state, p); } \
    extern "C" const size_t name##_block = detail::name##_impl_sw::block_size;

HASH(hash_sha_1_160, uint32_t)
HASH(hash_sha_2_256, uint32_t)
HASH(hash_sha_2_512, uint64_t)

using chacha = detail::cipher_chacha_impl_sw_ietf;
extern "C" size_t chacha_transform_uchar(size_t n, const uint32_t* state, unsigned char* dst, const unsigned char* src) { return chacha::transform(n, state, dst, src); }
extern "C" size_t chacha_transform_char(size_t n, const uint32_t* state, char* dst, const char* src) { return chacha::transform(n, state, dst, src); }
extern "C" size_t chacha_generate_uchar(size_t n, const uint32_t* state, unsigned char* dst) { return chacha::generate(n, state, dst); }
extern "C" const size_t chacha_block = chacha::block_size;
extern "C" const size_t chacha_ratio = chacha::block_ratio;

extern "C" void poly_process_uchar(size_t n, const uint32_t* key, uint32_t* acc, uint32_t add, const unsigned char* src) { detail::mac_poly_1305_impl_sw::process(n, key, acc, add, src); }
extern "C" void poly_process_char(size_t n, const uint32_t* key, uint32_t* acc, uint32_t add, const char* src) { detail::mac_poly_1305_impl_sw::process(n, key, acc, add, src); }
