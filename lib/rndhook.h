// Included before every file of the implementation (checks/C26.cpp): the random numbers it draws come from the check.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#define FORCE_INLINE static inline
#define NOINLINE __attribute__((noinline, weak))
#define HASH_C 1
#define POPC(X) __builtin_popcountll(X)
#include "utils/wyhash.h"
#undef FORCE_INLINE
#undef NOINLINE
#undef HASH_C
#undef POPC
extern uint64_t verif_rand(uint64_t* seed, uint64_t (*real)(uint64_t*));
extern uint64_t verif_below(uint64_t r, uint64_t k, uint64_t (*real)(uint64_t, uint64_t));
__attribute__((unused)) static uint64_t verif_realRand(uint64_t* seed) { return wyrand(seed); }
__attribute__((unused)) static uint64_t verif_realBelow(uint64_t r, uint64_t k) { return wy2u0k(r, k); }
#define wyrand(S) verif_rand(S, verif_realRand)
#define wy2u0k(R, K) verif_below(R, K, verif_realBelow)
