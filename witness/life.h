// Copies and the end of an object.
#pragma once
#include <new>

#define LIFE(name, ...) \
    extern "C" void name##_copy(__VA_ARGS__* h, const __VA_ARGS__* g) { new (h) __VA_ARGS__(*g); } \
    extern "C" void name##_move(__VA_ARGS__* h, __VA_ARGS__* g) { new (h) __VA_ARGS__(static_cast<__VA_ARGS__&&>(*g)); } \
    extern "C" void name##_assign(__VA_ARGS__* h, const __VA_ARGS__* g) { *h = *g; } \
    extern "C" void name##_destroy(__VA_ARGS__* h) { using T = __VA_ARGS__; h->~T(); }
