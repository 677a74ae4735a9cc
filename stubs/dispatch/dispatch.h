// GCD subset for building the macOS wrappers on Linux; implemented by the simulator (sim/os_apple.cpp).
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
typedef uint64_t dispatch_time_t;
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;
typedef void* dispatch_object_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define NSEC_PER_SEC 1000000000ull
#define NSEC_PER_MSEC 1000000ull
#define NSEC_PER_USEC 1000ull
#define KERN_SUCCESS 0
#define KERN_ABORTED 14
#define KERN_OPERATION_TIMED_OUT 49
extern "C" {
dispatch_semaphore_t dispatch_semaphore_create(long value);
long dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t);
long dispatch_semaphore_signal(dispatch_semaphore_t);
void dispatch_release(dispatch_object_t);
void dispatch_retain(dispatch_object_t);
dispatch_time_t dispatch_time(dispatch_time_t, int64_t);
dispatch_time_t dispatch_walltime(const struct timespec*, int64_t);
void sim_free(void*);
}
