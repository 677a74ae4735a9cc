#pragma once
#include "locks.h"
struct SpinIf { virtual void lock() = 0; virtual bool try_lock() = 0; virtual void unlock() = 0; virtual void destroy() = 0; };
struct SpinType { const char* name; int init; SpinIf* (*make)(); };   // init: configured initial count, -1: yields at every attempt
void add_spin_types(const SpinType* t, int n);
