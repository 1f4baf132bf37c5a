// Hash streaming: the block backend is opaque, message sizes are symbolic.
#include "life.h"
#include "milo/primitive/hash/apie.h"
#include "milo/primitive/hash/sha.h"
#include "milo/option.h"

using namespace milo;
using namespace milo::primitive;

extern "C" void probe_blocks(size_t blocks, void* state, const void* src) noexcept;

template<size_t t_block>
struct probe_backend
{
    static constexpr size_t block_size = t_block;
    template<typename t_state, typename t_src>
    static void blocks(size_t a_blocks, t_state* a_state, const t_src* a_src) noexcept
    {
        probe_blocks(a_blocks, a_state, a_src);
    }
};

template<template<typename...> typename t_hash, size_t t_block, typename... t_options>
using H = t_hash<option::impl_enforce<probe_backend<t_block>>, t_options...>;

#define STREAM(name, hash, ...) \
    LIFE(name, H<hash, __VA_ARGS__>) \
    extern "C" void name##_construct(H<hash, __VA_ARGS__>* h) { new (h) H<hash, __VA_ARGS__>; } \
    extern "C" void name##_initialize(H<hash, __VA_ARGS__>* h) { h->initialize(); } \
    extern "C" void name##_update(H<hash, __VA_ARGS__>* h, const unsigned char* p, size_t n) { h->update(p, n); } \
    extern "C" void name##_update_char(H<hash, __VA_ARGS__>* h, const char* p, size_t n) { h->update(p, n); } \
    extern "C" void name##_finalize(H<hash, __VA_ARGS__>* h) { h->finalize(); } \
    extern "C" size_t name##_digest(const H<hash, __VA_ARGS__>* h, unsigned char* p, size_t n) { return h->digest(p, n); } \
    extern "C" const size_t name##_sizeof = sizeof(H<hash, __VA_ARGS__>); \
    extern "C" const size_t name##_block = H<hash, __VA_ARGS__>::block_size; \
    extern "C" const size_t name##_size = H<hash, __VA_ARGS__>::digest_size;

STREAM(sha_1_160, hash::sha_1_160, 64)
STREAM(sha_2_224, hash::sha_2_224, 64)
STREAM(sha_2_256, hash::sha_2_256, 64)
STREAM(sha_2_384, hash::sha_2_384, 128)
STREAM(sha_2_512, hash::sha_2_512, 128)
STREAM(sha_2_512_224, hash::sha_2_512_224, 128)
STREAM(sha_2_512_256, hash::sha_2_512_256, 128)

// with a digest size of the user's
STREAM(sha_1_160_cut, hash::sha_1_160, 64, option::digest_size<13>)
STREAM(sha_2_256_cut, hash::sha_2_256, 64, option::digest_size<9>)
STREAM(sha_2_384_cut, hash::sha_2_384, 128, option::digest_size<48>)
STREAM(sha_2_512_cut, hash::sha_2_512, 128, option::digest_size<21>)
