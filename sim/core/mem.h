#pragma once
#include <cstdint>
namespace sim {
constexpr uintptr_t ARENA = 0x200000000000ULL;
constexpr uintptr_t ARENA_SZ = 4ULL << 30;
constexpr uintptr_t SHADOW = 0x210000000000ULL;
constexpr uint8_t SH_FREED = 0xFD;
extern uint8_t* g_shadow;
} // namespace sim
