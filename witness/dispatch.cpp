// Which implementation carries out a request at run time.
#include <milo/primitive/detail/alias.h>

using namespace milo;
using namespace milo::primitive::detail;
using u8 = unsigned char;

#define HASH(N, W, ...) \
    extern "C" void d_##N(size_t n, W* s, const u8* p) { __VA_ARGS__::impl_type::template invoke<0>(n, s, p); } \
    extern "C" void d_##N##_char(size_t n, W* s, const char* p) { __VA_ARGS__::impl_type::template invoke<0>(n, s, p); }
#define CIPHER(N, ...) \
    extern "C" size_t d_##N##_size() { return __VA_ARGS__::impl_type::template invoke<0>(); } \
    extern "C" size_t d_##N##_transform(size_t n, const uint32_t* s, u8* d, const u8* p) { return __VA_ARGS__::impl_type::template invoke<1>(n, s, d, p); } \
    extern "C" size_t d_##N##_transform_char(size_t n, const uint32_t* s, char* d, const char* p) { return __VA_ARGS__::impl_type::template invoke<1>(n, s, d, p); } \
    extern "C" size_t d_##N##_generate(size_t n, const uint32_t* s, u8* d) { return __VA_ARGS__::impl_type::template invoke<2>(n, s, d); }

HASH(sha_1, uint32_t, hash_sha_1_160<160>)
HASH(sha_224, uint32_t, hash_sha_2_256<224>)
HASH(sha_256, uint32_t, hash_sha_2_256<256>)
HASH(sha_512, uint64_t, hash_sha_2_512<512>)
CIPHER(chacha, cipher_chacha<>)

#define SIZE(N, C) extern "C" const size_t d_bytes_##N = C::block_size * C::block_ratio;
SIZE(sw, cipher_chacha_impl_sw_ietf)

#if MILO_INTERNAL_ASM
using sse = cipher_chacha_impl_hw_x86_64_ssse_3_ietf;
using avx = cipher_chacha_impl_hw_x86_64_avx_2_ietf;
using ni1 = hash_sha_1_160_impl_hw_x86_64_ni;
using ni2 = hash_sha_2_256_impl_hw_x86_64_ni;
SIZE(ssse_3, sse)
SIZE(avx_2, avx)
using sw2 = hash_sha_2_256_impl_sw;

// preferred: used when the processor has what it needs
CIPHER(chacha_prefer_sse, cipher_chacha<option::impl_runtime<sse>>)
HASH(sha_256_prefer_sw, uint32_t, hash_sha_2_256<256, option::impl_runtime<sw2>>)
HASH(sha_256_prefer_ni, uint32_t, hash_sha_2_256<256, option::impl_runtime<ni2>>)

// insisted on by the caller
CIPHER(chacha_force_avx, cipher_chacha<option::impl_enforce<avx>>)
HASH(sha_1_force_ni, uint32_t, hash_sha_1_160<160, option::impl_enforce<ni1>>)
#endif
