// os_unfair_lock for building the macOS wrappers on Linux; implemented by the simulator (sim/os_apple.cpp).
#pragma once
#include <stdint.h>
#include <stdbool.h>
typedef struct os_unfair_lock_s { uint32_t _os_unfair_lock_opaque; } os_unfair_lock, *os_unfair_lock_t;
#define OS_UNFAIR_LOCK_INIT {0}
extern "C" {
void os_unfair_lock_lock(os_unfair_lock_t);
bool os_unfair_lock_trylock(os_unfair_lock_t);
void os_unfair_lock_unlock(os_unfair_lock_t);
void os_unfair_lock_assert_owner(os_unfair_lock_t);
void os_unfair_lock_assert_not_owner(os_unfair_lock_t);
}
