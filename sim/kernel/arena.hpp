#pragma once
#include <cstdint>
#include <cstddef>
namespace sim
{
const uintptr_t ARENA0_BASE = 0x100000000000ULL;
const uintptr_t ARENA_BASE  = 0x110000000000ULL;
const size_t    ARENA_SIZE  = size_t(1) << 30;
const uintptr_t SHADOW_BASE = 0x120000000000ULL;   // 1/8: addressability
const uintptr_t RACE_BASE   = 0x130000000000ULL;   // race cells, one per 8 bytes
const int NBINS = 128;
const size_t QUARANTINE = 64;                      // blocks per size class kept before reuse
extern uint8_t * g_shadow;
void shadow_reset(const void * p, size_t n);       // forget access history (new block)
void mem_free_check(const void * p, size_t n);     // a free is a write of the whole block
bool arena_checking();
void arena_describe(uintptr_t a, char * buf, size_t n);
inline bool in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
}
