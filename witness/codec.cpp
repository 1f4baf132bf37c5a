// Codecs, pointer and container forms.
#include "milo/primitive/codec/apie.h"
#include "milo/primitive/codec/base.h"

using namespace milo;
using namespace milo::primitive;
using u8 = unsigned char;
using view = container::view_dynamic<const u8>;
using span = container::view_dynamic<u8>;

#define CODEC(b) \
    using C_##b = codec::base_##b<>; \
    extern "C" size_t base_##b##_encode(const u8* p, size_t n, char* o) { return codec::encode<C_##b>(p, n, o); } \
    extern "C" size_t base_##b##_encode_size(const u8* p, size_t n) { return codec::apie<C_##b>::encode_size(p, n); } \
    extern "C" size_t base_##b##_decode(const char* p, size_t n, u8* o, int* r) { error e(error::size); auto k = codec::decode<C_##b>(p, n, o, e); *r = int(error::code(e)); return k; } \
    extern "C" size_t base_##b##_decode_u(const u8* p, size_t n, u8* o, int* r) { error e(error::size); auto k = codec::decode<C_##b>(p, n, o, e); *r = int(error::code(e)); return k; } \
    extern "C" size_t base_##b##_decode_t(const char* p, size_t n, u8* o, int*) { return codec::decode<C_##b>(p, n, o); } \
    extern "C" size_t base_##b##_decode_size(const char* p, size_t n) { return codec::apie<C_##b>::decode_size(p, n); }

CODEC(16)
CODEC(64)
