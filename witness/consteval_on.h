#pragma once
// The branches for constant evaluation, compiled as ordinary code.
#include "milo/meta.h"
#undef MILO_INTERNAL_CONSTEVAL
#define MILO_INTERNAL_CONSTEVAL (true)
