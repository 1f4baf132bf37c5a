// The C++ side of the assembly functions.
#include <milo/primitive/detail/alias.h>

using namespace milo;
using namespace milo::primitive::detail;
using u8 = unsigned char;

#define HASH(N, C) \
    extern "C" void hw_##N(size_t a, uint32_t* s, const u8* p) { C::blocks(a, s, p); } \
    extern "C" void hw_##N##_char(size_t a, uint32_t* s, const char* p) { C::blocks(a, s, p); } \
    extern "C" const size_t hw_##N##_block = C::block_size;
#define CHACHA(N, C) \
    extern "C" size_t hw_##N##_transform(size_t a, const uint32_t* s, u8* d, const u8* p) { return C::transform(a, s, d, p); } \
    extern "C" size_t hw_##N##_transform_char(size_t a, const uint32_t* s, char* d, const char* p) { return C::transform(a, s, d, p); } \
    extern "C" size_t hw_##N##_generate(size_t a, const uint32_t* s, u8* d) { return C::generate(a, s, d); } \
    extern "C" const size_t hw_##N##_block = C::block_size; \
    extern "C" const size_t hw_##N##_ratio = C::block_ratio;

HASH(sha_1_160, hash_sha_1_160_impl_hw_x86_64_ni)
HASH(sha_2_256, hash_sha_2_256_impl_hw_x86_64_ni)
CHACHA(ssse_3, cipher_chacha_impl_hw_x86_64_ssse_3_ietf)
CHACHA(avx_2, cipher_chacha_impl_hw_x86_64_avx_2_ietf)

extern "C" void hw_cpuid(uint32_t* p, uint32_t a, uint32_t c) { internal::arch_x86_64_cpuid(p, a, c); }
extern "C" void hw_cpuid_leaf(uint32_t* p, uint32_t a) { internal::arch_x86_64_cpuid(p, a); }
