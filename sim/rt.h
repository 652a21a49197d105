// internal interface between the runtime's files
#pragma once
#include "sim.h"
#include <stdio.h>
namespace simrt {
extern int g_inrt;        // >0: runtime code is running (no hooks, system allocations)
extern int g_quiet;       // >0: no preemption
extern bool g_active;     // a simulated run is in progress
struct In { In() { ++g_inrt; } ~In() { --g_inrt; } };
void sync_point(const char* what);      // scheduling point at a synchronisation or system call
bool in_sim();                          // active, and called from code under test or harness
void sleep_until(uint64_t t);           // park the current thread in simulated time
void* sys_malloc(size_t);
void sys_free(void*);
void* real_sym(const char* name);
[[noreturn]] void crash_now();          // abandon every thread but thread 0
void on_free_range(uintptr_t lo, uintptr_t hi);
}
