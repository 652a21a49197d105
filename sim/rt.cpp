// Deterministic simulation runtime: choice tape, baton scheduler, memory-access hooks
// (the compiler's thread-sanitizer instrumentation calls, answered here), checked arena, driver.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <sys/personality.h>
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <math.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include <exception>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include <cxxabi.h>
#include <execinfo.h>

namespace simrt {

int g_inrt = 0;
int g_quiet = 0;
bool g_active = false;

void* real_sym(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    return p;
}

// ================================================================ shared result block
enum { TAPE_CAP = 1 << 19, TXT = 4096, NCNT = 192, CNAME = 40 };
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2, ST_RUNNING = 3 };
struct Counter { char name[CNAME]; uint64_t n; };
struct Shm {
    int status;
    char cls[160];
    char msg[TXT];
    char sample[TXT];
    char scenario[64];
    uint64_t hash, steps, switches, syncs, simtime, allocs;
    uint64_t nprobe, nfault;
    Counter probes[NCNT];
    Counter faults[NCNT];
    int nontrivial;
    uint32_t tlen[sim::NSTREAM];
    uint32_t overflow;
    uint32_t tape[sim::NSTREAM][TAPE_CAP];
};
static Shm* S = nullptr;
static int g_trace_fd = -1;

static void sysgetnano(uint64_t& t) {
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    t = (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
static uint64_t wall_ns() { uint64_t t; sysgetnano(t); return t; }

// ================================================================ tape
static uint64_t rng_state[sim::NSTREAM];
static bool g_replay = false;
static const std::vector<uint32_t>* g_in[sim::NSTREAM];
static uint32_t g_pos[sim::NSTREAM];

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void mixh(uint64_t v) {
    S->hash = (S->hash ^ v) * 1099511628211ull;
    S->hash ^= S->hash >> 29;
}

static uint32_t tape_next(int st, uint32_t lo, uint32_t n) { // value in [lo, n)  (replay: anything < n)
    uint32_t v;
    if (g_replay) {
        uint32_t p = g_pos[st]++;
        v = p < g_in[st]->size() ? (*g_in[st])[p] : 0;
        if (n && v >= n) v = n ? v % n : 0;
    } else {
        uint64_t r = splitmix(rng_state[st]);
        v = n > lo ? lo + (uint32_t)((unsigned __int128)r * (n - lo) >> 64) : lo;
    }
    uint32_t k = S->tlen[st];
    if (k < TAPE_CAP) { S->tape[st][k] = v; S->tlen[st] = k + 1; }
    else S->overflow = 1;
    return v;
}

// ================================================================ arena
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 6ull << 30;
static const uintptr_t SHADOW = 0x110000000000ull;
static uint8_t* g_shadow = nullptr;      // 1 byte / 8 bytes: 0..8 = addressable prefix, else poison
enum { SH_NONE = 0xFF, SH_FREED = 0xFD, SH_RZ = 0xFA };
struct Hdr { uint64_t magic; uint32_t id; uint32_t cls; uint64_t size; void* caller; };  // 32 bytes
static const uint64_t MAG_LIVE = 0x51a71ebeef51a71eull, MAG_FREE = 0xdeadf1eedeadf1eeull;
static uintptr_t g_bump = 0;
static uint64_t g_live_blocks = 0, g_live_bytes = 0, g_alloc_id = 0, g_allocs = 0;
static uint64_t g_failat = 0; static bool g_failsticky = false, g_failfired = false;
static int g_fill = 0xA5;
static const int NCLS = 160;
static std::vector<uintptr_t>* g_freelist[NCLS];
static uint64_t g_quar_bytes = 0;
struct QNode { uintptr_t p; };
static std::vector<uintptr_t>* g_quar; static size_t g_quar_head = 0;
static const uint64_t QUAR_CAP = 48ull << 20;

static void arena_init() {
    if (g_shadow) return;
    void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap((void*)SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void*)ARENA || b != (void*)SHADOW) { const char m[] = "sim: cannot map arena\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
    g_shadow = (uint8_t*)SHADOW;
    g_bump = ARENA + 4096;
}
static inline bool in_arena(uintptr_t p) { return p - ARENA < ARENA_SZ; }
// shadow encoding stored inverted so that fresh zero pages mean "never allocated":
// stored = 0 -> NONE; 1..8 -> prefix; 0xFD freed; 0xFA redzone
static inline uint8_t& sh(uintptr_t p) { return g_shadow[(p - ARENA) >> 3]; }

static int size_cls(size_t n, size_t& rounded) {
    if (n <= 1024) { size_t r = (n + 15) & ~size_t(15); if (!r) r = 16; rounded = r; return (int)(r / 16); } // 1..64
    int c = 65; size_t r = 1024;
    while (r < n) { size_t q = r / 4; for (int i = 1; i <= 4; i++) { if (r + q * i >= n) { rounded = r + q * i; return c + i - 1; } } r *= 2; c += 4; }
    rounded = r; return c;
}

static void* arena_alloc(size_t n, void* caller) {
    In in;
    arena_init();
    size_t r; int c = size_cls(n, r);
    uintptr_t blk = 0;
    if (c < NCLS && g_freelist[c] && !g_freelist[c]->empty()) { blk = g_freelist[c]->back(); g_freelist[c]->pop_back(); }
    else {
        if (g_bump + r + 64 > ARENA + ARENA_SZ) return nullptr;
        blk = g_bump; g_bump += r + 64;     // header 32 + payload + red zone >= 32
        g_bump = (g_bump + 15) & ~uintptr_t(15);
    }
    Hdr* h = (Hdr*)blk; uintptr_t u = blk + 32;
    h->magic = MAG_LIVE; h->id = (uint32_t)++g_alloc_id; h->cls = c; h->size = n; h->caller = caller;
    for (int i = 0; i < 4; i++) sh(blk + 8 * i) = SH_RZ;
    size_t full = n / 8;
    memset(&sh(u), 8, full);
    size_t k = full;
    if (n & 7) { g_shadow[((u - ARENA) >> 3) + k] = n & 7; k++; }
    size_t tot = (r + 32) / 8;
    if (tot > k) memset(&g_shadow[((u - ARENA) >> 3) + k], SH_RZ, tot - k);
    memset((void*)u, g_fill, n);
    memset((void*)(u + n), 0xEE, r + 32 - n);
    g_live_blocks++; g_live_bytes += n; g_allocs++;
    return (void*)u;
}
static std::string sym(void* pc) {
    char b[64]; snprintf(b, sizeof b, "%p", pc); return b;
}
static void check_rz(Hdr* h, const char* where) {
    uintptr_t u = (uintptr_t)h + 32;
    for (int i = 0; i < 8; i++) if (*(uint8_t*)(u + h->size + i) != 0xEE)
        sim::fail("heap-overflow", "%s: bytes past a %zu-byte block were overwritten (allocated at %s)", where, (size_t)h->size, sym(h->caller).c_str());
}
static void arena_free(void* p) {
    In in;
    uintptr_t u = (uintptr_t)p; Hdr* h = (Hdr*)(u - 32);
    if ((u & 15) || h->magic != MAG_LIVE) {
        if (!(u & 15) && h->magic == MAG_FREE) sim::fail("double-free", "block of %zu bytes allocated at %s freed twice", (size_t)h->size, sym(h->caller).c_str());
        sim::fail("bad-free", "free of a pointer that is not a live block");
    }
    check_rz(h, "free");
    on_free_range(u, u + h->size);
    h->magic = MAG_FREE;
    size_t r; size_cls(h->size, r);
    memset((void*)u, 0xDD, h->size);
    memset(&sh(u), SH_FREED, (r + 7) / 8);
    g_live_blocks--; g_live_bytes -= h->size;
    if (!g_quar) g_quar = new std::vector<uintptr_t>();
    g_quar->push_back(u - 32); g_quar_bytes += r;
    while (g_quar_bytes > QUAR_CAP && g_quar_head < g_quar->size()) {
        uintptr_t b = (*g_quar)[g_quar_head++]; Hdr* o = (Hdr*)b; size_t rr; int c = size_cls(o->size, rr);
        g_quar_bytes -= rr;
        if (c < NCLS) { if (!g_freelist[c]) g_freelist[c] = new std::vector<uintptr_t>(); g_freelist[c]->push_back(b); }
    }
}
static __thread int dummy_tls;

} // namespace simrt
using namespace simrt;

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __real_calloc(size_t, size_t);
namespace simrt {
void* sys_malloc(size_t n) { return __real_malloc(n); }
void sys_free(void* p) { __real_free(p); }

static bool alloc_should_fail() {
    if (!g_failat) return false;
    if (g_failfired && g_failsticky) return true;
    if (--g_failat == 0) { g_failfired = true; if (g_failsticky) g_failat = 1; sim::fault("alloc-failure"); return true; }
    return false;
}
static void* code_alloc(size_t n, void* caller) {
    if (g_inrt) return __real_malloc(n ? n : 1);
    if (alloc_should_fail()) return nullptr;
    if (n > (16u << 20)) { sim::fault("memory-limit"); return nullptr; }      // simulated machine: no block above 16 MB
    return arena_alloc(n, caller);
}
}

extern "C" void* __wrap_malloc(size_t n) {
    void* p = code_alloc(n, __builtin_return_address(0));
    if (!p) errno = ENOMEM;
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p); else __real_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    void* p = code_alloc(a * b, __builtin_return_address(0));
    if (p) memset(p, 0, a * b); else errno = ENOMEM;
    return p;
}
extern "C" void* __wrap_realloc(void* o, size_t n) {
    if (!o) return __wrap_malloc(n);
    if (!in_arena((uintptr_t)o)) return __real_realloc(o, n);
    if (!n) { arena_free(o); return nullptr; }
    Hdr* h = (Hdr*)((uintptr_t)o - 32);
    if (h->magic != MAG_LIVE) sim::fail("use-after-free", "realloc of a freed block");
    void* p = code_alloc(n, __builtin_return_address(0));
    if (!p) { errno = ENOMEM; return nullptr; }
    memcpy(p, o, h->size < n ? h->size : n);
    arena_free(o);
    return p;
}
void* operator new(size_t n) { void* p = code_alloc(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = code_alloc(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return code_alloc(n, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return code_alloc(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// ================================================================ scheduler
namespace simrt {

enum TState { T_FREE = 0, T_READY, T_BLOCKED, T_SLEEP, T_DONE, T_DEAD };
enum { MAXT = 96 };
struct Thr {
    int state; int id;
    int futex;
    uint64_t wake;              // T_SLEEP or timed block
    bool timed;                 // blocked with timeout in 'wake'
    bool timedout;
    const void* waitobj;
    int waitkind;
    uint64_t stall_until;       // not chosen before this step unless nothing else can run
    std::function<void()>* fn;
    char name[24];
    void* (*start)(void*); void* arg; void* ret; bool detached;
    pthread_t real;
};
static Thr T[MAXT];
static int g_nt = 0, g_cur = -1;
static uint64_t g_seq = 0, g_steps = 0, g_switches = 0, g_syncs = 0, g_budget = 0;
static uint64_t g_now = 0, g_elapsed = 0, g_tick = 0; 
static sim::SchedCfg g_cfg;
static uint64_t g_mem_left = 0, g_conf_left = 0, g_sync_left = 0; // 0 = never
static __thread int tl_tid = -1;

static const char* tname(int t) { return t >= 0 ? T[t].name : "?"; }

static void fwait(int* f) {
    int e = errno;
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
    errno = e;
}
static void fwake(int* f) {
    int e = errno;
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    errno = e;
}

static void redraw(uint64_t& left, uint32_t mean) {
    if (!mean) { left = 0; return; }
    left = tape_next(sim::SC, 1, 2 * mean + 1);
}

static void tracef(const char* fmt, ...) {
    if (g_trace_fd < 0) return;
    char b[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, a); va_end(a);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    syscall(SYS_write, g_trace_fd, b, n);
}

static int saved_inrt[MAXT], saved_quiet[MAXT];

static void switch_to(int t) {            // caller has set its own state
    int me = g_cur;
    if (t == me) return;
    saved_inrt[me] = g_inrt; saved_quiet[me] = g_quiet;
    g_cur = t; g_switches++;
    mixh(0x5151 + t * 131 + g_seq);
    g_inrt = saved_inrt[t]; g_quiet = saved_quiet[t];
    fwake(&T[t].futex);
    if (T[me].state != T_DONE) { fwait(&T[me].futex); }
}

// choose among ready threads; -1 if none. 'prefer_other': exclude current
static int choose_ready(bool exclude_cur) {
    int c[MAXT], n = 0, cs[MAXT], ns = 0;
    for (int i = 0; i < g_nt; i++) {
        int t = (g_cur + 1 + i) % g_nt;
        if (T[t].state != T_READY) continue;
        if (exclude_cur && t == g_cur) continue;
        if (T[t].stall_until > g_steps) cs[ns++] = t; else c[n++] = t;
    }
    if (!n && ns) { for (int i = 0; i < ns; i++) c[i] = cs[i]; n = ns; }
    if (!n) return -1;
    if (n == 1) return c[0];
    return c[tape_next(sim::SC, 0, n)];
}
static void wake_due() {
    for (int i = 0; i < g_nt; i++) {
        if (T[i].state == T_SLEEP && T[i].wake <= g_now) T[i].state = T_READY;
        if (T[i].state == T_BLOCKED && T[i].timed && T[i].wake <= g_now) { T[i].timed = false; T[i].timedout = true; T[i].state = T_READY; }
    }
}
static void report_deadlock() {
    std::string d;
    for (int i = 0; i < g_nt; i++) if (T[i].state == T_BLOCKED) { char b[128]; snprintf(b, sizeof b, " %s waits on %s %p;", T[i].name, T[i].waitkind == 1 ? "mutex" : T[i].waitkind == 2 ? "join" : T[i].waitkind == 3 ? "condition" : "lock", T[i].waitobj); d += b; }
    sim::fail("deadlock", "no thread can run:%s", d.c_str());
}
// current thread cannot continue: hand over
static void block_and_switch() {
    for (;;) {
        wake_due();
        if (T[g_cur].state == T_READY && false) return;
        int t = choose_ready(false);
        if (t >= 0) { if (t == g_cur) return; switch_to(t); return; }
        // jump the clock
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < g_nt; i++)
            if (T[i].state == T_SLEEP || (T[i].state == T_BLOCKED && T[i].timed)) if (T[i].wake < best) best = T[i].wake;
        if (best == UINT64_MAX) report_deadlock();
        if (best > g_now) { g_elapsed += best - g_now; g_now = best; }
    }
}
static void preempt(const char* why, const void* addr, void* pc) {
    int t = choose_ready(true);
    if (t < 0) return;
    if (g_cfg.stall) {
        uint32_t k = tape_next(sim::SC, 0, 4);
        if (k >= 2) T[g_cur].stall_until = g_steps + (k == 2 ? 200 : (uint64_t)g_cfg.stall);
    }
    mixh(0xABCD0000 + (uint64_t)g_cur);
    if (g_trace_fd >= 0) tracef("  [%s] preempted (%s) at pc=%p -> %s", tname(g_cur), why, pc, tname(t));
    switch_to(t);
}

void release_dead_locks();
bool in_sim() { return g_active && !g_inrt && tl_tid >= 0 && g_cur == tl_tid; }

static void check_budget() {
    if (g_budget && g_steps > g_budget) { g_budget = 0; sim::fail("hang", "no completion within %llu steps", (unsigned long long)g_steps); }
}
void sync_point(const char* what) {
    if (!g_active || g_inrt || g_quiet || tl_tid < 0) return;
    In in;
    g_steps += 16; g_syncs++;
    check_budget();
    if (g_sync_left && --g_sync_left == 0) {
        redraw(g_sync_left, g_cfg.sync);
        preempt(what, nullptr, nullptr);
    }
}
void sleep_until(uint64_t t) {
    In in;
    if (t <= g_now) return;
    T[g_cur].state = T_SLEEP; T[g_cur].wake = t;
    block_and_switch();
    // may be resumed only once ready
}
[[noreturn]] void crash_now() {
    In in;
    sim::ev("process crash");
    for (int i = 1; i < g_nt; i++) if (T[i].state != T_DONE && T[i].state != T_FREE) T[i].state = T_DEAD;
    release_dead_locks();
    if (T[0].state == T_BLOCKED || T[0].state == T_SLEEP) T[0].state = T_READY;
    T[0].timed = false;
    int me = g_cur;
    (void)me;
    switch_to(0);
    for (;;) pause();
}

// ---- conflict shadow
struct Cell { uintptr_t a; int8_t wr; int8_t rd; uint16_t gen; };
enum { NCELL = 1 << 16 };
static Cell cells[NCELL];

static void mem_report(uintptr_t a, size_t n, bool w, uint8_t s, void* pc) {
    In in;
    const char* k = s == SH_FREED ? "use-after-free" : s == SH_RZ ? "heap-overflow" : "wild-heap-access";
    // locate owning block for freed
    sim::fail(k, "%s of %zu bytes at arena+0x%lx, pc=%p", w ? "write" : "read", n, (unsigned long)(a - ARENA), pc);
}
static inline void mem_check(uintptr_t a, size_t n, bool w, void* pc) {
    uintptr_t g = a & ~uintptr_t(7), e = a + n;
    for (; g < e; g += 8) {
        uint8_t s = sh(g);
        if (s == 8) continue;
        if (s >= 1 && s < 8) { if (e - g <= s) continue; s = SH_RZ; }
        mem_report(a, n, w, s, pc);
    }
}
// conflicts are tracked only where addresses are the same in every execution (arena, program image, thread stacks):
// the real heap and shared libraries are placed at random, and a hash collision with them would not be repeatable
extern "C" char __executable_start, _end;
static const uintptr_t STK_LO = 0x120000000000ull, STK_HI = STK_LO + ((uintptr_t)1 << 30);
static inline bool fixed_addr(uintptr_t a) { return in_arena(a) || (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end) || (a >= STK_LO && a < STK_HI); }
static inline __attribute__((always_inline)) void access_hook(uintptr_t a, size_t n, bool w, void* pc) {
    if (!g_active || g_inrt) return;
    if (in_arena(a)) mem_check(a, n, w, pc);
    if (g_quiet || tl_tid < 0) return;
    g_steps++;
    if (__builtin_expect((g_steps & 0xFFFF) == 0, 0)) { In in; check_budget(); }
    if (g_nt < 2) return;
    bool conf = false;
    if (g_cfg.conflict && fixed_addr(a)) {
        uintptr_t k = a >> 3;
        Cell& c = cells[(k * 0x9E3779B97F4A7C15ull) >> 48];
        int me = tl_tid;
        if (c.a != k) { c.a = k; c.wr = -1; c.rd = -1; }
        if (w) { if ((c.wr >= 0 && c.wr != me) || (c.rd >= 0 && c.rd != me)) conf = true; }
        else if (c.wr >= 0 && c.wr != me) conf = true;
        if (conf && g_conf_left && --g_conf_left == 0) {
            In in;
            redraw(g_conf_left, g_cfg.conflict);
            preempt(w ? "conflicting write" : "conflicting read", (void*)a, pc);
            c.a = k;
        }
        if (w) { c.wr = (int8_t)me; c.rd = -1; } else c.rd = (c.rd == -1 || c.rd == me) ? (int8_t)me : (int8_t)(MAXT + 1);
    }
    if (g_mem_left && --g_mem_left == 0) {
        In in;
        redraw(g_mem_left, g_cfg.mem);
        preempt("memory access", (void*)a, pc);
    }
}
static void range_hook(const void* p, size_t n, bool w, void* pc) {
    if (!g_active || g_inrt || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (in_arena(a)) mem_check(a, n, w, pc);
    access_hook(a, n < 8 ? n : 8, w, pc);
}
} // namespace simrt

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access_hook((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_write##N(void* p) { access_hook((uintptr_t)p, N, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_read##N(void* p) { access_hook((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_write##N(void* p) { access_hook((uintptr_t)p, N, true, __builtin_return_address(0)); } \
    void __tsan_volatile_read##N(void* p) { access_hook((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_volatile_write##N(void* p) { access_hook((uintptr_t)p, N, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access_hook((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access_hook((uintptr_t)p, N, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { range_hook(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { range_hook(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void* p, void*) { access_hook((uintptr_t)p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void* p) { access_hook((uintptr_t)p, 8, false, __builtin_return_address(0)); }

#define AT(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY* a, int) { access_hook((uintptr_t)a, B / 8, false, __builtin_return_address(0)); return *a; } \
    void __tsan_atomic##B##_store(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); *a = v; } \
    TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = v; return o; } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = o + v; return o; } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = o - v; return o; } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = o & v; return o; } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = o | v; return o; } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = o ^ v; return o; } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; *a = ~(o & v); return o; } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY v, int, int) { access_hook((uintptr_t)a, B / 8, true, __builtin_return_address(0)); TY o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (g_active && !g_inrt && n) { void* pc = __builtin_return_address(0); range_hook(s, n, false, pc); range_hook(d, n, true, pc); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (g_active && !g_inrt && n) { void* pc = __builtin_return_address(0); range_hook(s, n, false, pc); range_hook(d, n, true, pc); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (g_active && !g_inrt && n) range_hook(d, n, true, __builtin_return_address(0));
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (g_active && !g_inrt && n) { void* pc = __builtin_return_address(0); range_hook(a, 1, false, pc); range_hook(b, 1, false, pc); }
    return __real_memcmp(a, b, n);
}
}

// ================================================================ synchronisation primitives
namespace simrt {
struct Mx { const void* addr; int owner; int count; int readers; bool wr; };  // owner -1 = free
enum { NMX = 4096 };
static Mx mxs[NMX]; static int g_nmx = 0;      // dense
static Mx* mx_find(const void* m, bool create) {
    for (int i = g_nmx - 1; i >= 0; i--) if (mxs[i].addr == m) return &mxs[i];
    if (!create) return nullptr;
    if (g_nmx >= NMX) { const char msg[] = "sim: mutex table full\n"; syscall(SYS_write, 2, msg, sizeof msg - 1); _exit(98); }
    Mx* x = &mxs[g_nmx++]; x->addr = m; x->owner = -1; x->count = 0; x->readers = 0; x->wr = false;
    return x;
}
static void mx_drop(int i) { mxs[i] = mxs[--g_nmx]; mxs[g_nmx].addr = nullptr; }
static void mx_reset(const void* m) { for (int i = 0; i < g_nmx; i++) if (mxs[i].addr == m) { mx_drop(i); return; } }
void on_free_range(uintptr_t lo, uintptr_t hi) {
    if (!g_active || hi - lo < sizeof(pthread_mutex_t)) return;
    for (int i = 0; i < g_nmx; i++) {
        uintptr_t a = (uintptr_t)mxs[i].addr;
        if (a >= lo && a < hi) {
            for (int t = 0; t < g_nt; t++) if (T[t].state == T_BLOCKED && T[t].waitobj == mxs[i].addr)
                sim::fail("lock-freed-in-use", "memory of a lock that %s waits on is released", T[t].name);
            mx_drop(i); i--;
        }
    }
}
void release_dead_locks() {
    g_nmx = 0;
}
static int cur_tid() { return tl_tid >= 0 ? tl_tid : 0; }
static void unblock_waiters(const void* o) {
    for (int i = 0; i < g_nt; i++) if (T[i].state == T_BLOCKED && T[i].waitobj == o && T[i].waitkind != 3) { T[i].state = T_READY; T[i].timed = false; }
}
static void block_on(const void* o, int kind, bool timed = false, uint64_t until = 0) {
    T[g_cur].state = T_BLOCKED; T[g_cur].waitobj = o; T[g_cur].waitkind = kind; T[g_cur].timed = timed; T[g_cur].wake = until; T[g_cur].timedout = false;
    block_and_switch();
}
static int mkind(const pthread_mutex_t* m) { return m->__data.__kind & 3; }
// the memory of the lock itself must be alive
static void mx_mem(const void* m, void* pc) { if (g_active && !g_inrt && in_arena((uintptr_t)m)) mem_check((uintptr_t)m, 8, true, pc); }

static int mx_lock(pthread_mutex_t* m, bool try_, bool timed, uint64_t until, void* pc) {
    mx_mem(m, pc);
    if (g_active) sync_point("lock");
    In in;
    Mx* x = mx_find(m, true);
    int me = cur_tid();
    for (;;) {
        if (x->owner < 0) { x->owner = me; x->count = 1; if (g_active) mixh(0x10c0 + me); return 0; }
        if (x->owner == me && mkind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
        if (x->owner == me && mkind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        if (try_) return EBUSY;
        if (!g_active) { const char msg[] = "sim: lock held outside a run\n"; syscall(SYS_write, 2, msg, sizeof msg - 1); _exit(96); }
        block_on(m, 1, timed, until);
        if (timed && T[g_cur].timedout) return ETIMEDOUT;
        x = mx_find(m, true);
    }
}
static int mx_unlock(pthread_mutex_t* m, void* pc) {
    mx_mem(m, pc);
    {
        In in;
        Mx* x = mx_find(m, true);
        if (x->owner < 0) { return mkind(m) == PTHREAD_MUTEX_ERRORCHECK_NP ? EPERM : 0; }
        if (--x->count > 0) return 0;
        x->owner = -1; x->count = 0;
        if (g_active) unblock_waiters(m);
    }
    if (g_active) sync_point("unlock");
    return 0;
}
static uint64_t abs_to_now(const timespec* ts) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    static int (*real)(pthread_mutex_t*, const pthread_mutexattr_t*) = nullptr;
    if (!real) { In in; real = (decltype(real))real_sym("pthread_mutex_init"); }
    In in; mx_reset(m); return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) { In in; mx_reset(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock(m, false, false, 0, __builtin_return_address(0)); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mx_lock(m, true, false, 0, __builtin_return_address(0)); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return mx_lock(m, false, true, abs_to_now(t), __builtin_return_address(0)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return mx_lock(m, false, true, abs_to_now(t), __builtin_return_address(0)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mx_unlock(m, __builtin_return_address(0)); }

int pthread_spin_init(pthread_spinlock_t* m, int) { In in; mx_reset((void*)m); return 0; }
int pthread_spin_destroy(pthread_spinlock_t* m) { In in; mx_reset((void*)m); return 0; }
static pthread_mutex_t plain_kind = PTHREAD_MUTEX_INITIALIZER;
int pthread_spin_lock(pthread_spinlock_t* m) {
    sync_point("lock"); In in; Mx* x = mx_find((void*)m, true);
    while (x->owner >= 0) { block_on((void*)m, 1); x = mx_find((void*)m, true); }
    x->owner = cur_tid(); x->count = 1; return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    sync_point("lock"); In in; Mx* x = mx_find((void*)m, true);
    if (x->owner >= 0) return EBUSY;
    x->owner = cur_tid(); x->count = 1; return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) { { In in; Mx* x = mx_find((void*)m, true); x->owner = -1; unblock_waiters((void*)m); } sync_point("unlock"); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { In in; memset(m, 0, sizeof *m); mx_reset(m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { In in; mx_reset(m); return 0; }
static int rw_rd(pthread_rwlock_t* m, bool t) { sync_point("lock"); In in; Mx* x = mx_find(m, true); while (x->owner >= 0) { if (t) return EBUSY; block_on(m, 4); x = mx_find(m, true); } x->readers++; return 0; }
static int rw_wr(pthread_rwlock_t* m, bool t) { sync_point("lock"); In in; Mx* x = mx_find(m, true); while (x->owner >= 0 || x->readers) { if (t) return EBUSY; block_on(m, 4); x = mx_find(m, true); } x->owner = cur_tid(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_rd(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rw_rd(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_wr(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rw_wr(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    { In in; Mx* x = mx_find(m, true); if (x->owner >= 0) x->owner = -1; else if (x->readers) x->readers--; unblock_waiters(m); }
    sync_point("unlock"); return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { In in; memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until) {
    int r = 0;
    {
        In in;
        Mx* x = mx_find(m, true); x->owner = -1; x->count = 0; unblock_waiters(m);
        block_on(c, 3, timed, until);
        if (timed && T[g_cur].timedout) r = ETIMEDOUT;
        x = mx_find(m, true);
        while (x->owner >= 0) { block_on(m, 1); x = mx_find(m, true); }
        x->owner = cur_tid(); x->count = 1;
    }
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cond_wait_impl(c, m, true, abs_to_now(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cond_wait_impl(c, m, true, abs_to_now(t)); }
int pthread_cond_signal(pthread_cond_t* c) {
    { In in; int w[MAXT], n = 0; for (int i = 0; i < g_nt; i++) if (T[i].state == T_BLOCKED && T[i].waitkind == 3 && T[i].waitobj == c) w[n++] = i;
      if (n) { int k = n > 1 ? tape_next(sim::SC, 0, n) : 0; T[w[k]].state = T_READY; T[w[k]].timed = false; } }
    sync_point("signal"); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    { In in; for (int i = 0; i < g_nt; i++) if (T[i].state == T_BLOCKED && T[i].waitkind == 3 && T[i].waitobj == c) { T[i].state = T_READY; T[i].timed = false; } }
    sync_point("signal"); return 0;
}

int pthread_once(pthread_once_t* o, void (*f)(void)) {
    sync_point("once");
    for (;;) {
        if (*o == 2) return 0;
        if (*o == 0) { *o = 1; f(); *o = 2; { In in; unblock_waiters(o); } return 0; }
        In in; block_on(o, 4);
    }
}
// guards of function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    sync_point("static-init");
    for (;;) {
        if (*(char*)g) return 0;
        if (!((char*)g)[1]) { ((char*)g)[1] = 1; return 1; }
        if (!g_active) return 0;
        In in; block_on(g, 4);
    }
}
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; ((char*)g)[1] = 0; if (g_active) { In in; unblock_waiters(g); } }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; if (g_active) { In in; unblock_waiters(g); } }
}

// ================================================================ threads
namespace simrt {
static pthread_key_t g_exit_key;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static const uintptr_t STACKS = 0x120000000000ull;
static const size_t STACK_SZ = 2 << 20;

static void thread_finish(int t) {
    ++g_inrt;
    T[t].state = T_DONE;
    for (int i = 0; i < g_nt; i++) if (T[i].state == T_BLOCKED && T[i].waitkind == 2 && T[i].waitobj == &T[t]) T[i].state = T_READY;
    tracef("  [%s] finished", tname(t));
    bool any = false;
    for (int i = 0; i < g_nt; i++) if (T[i].state == T_READY || T[i].state == T_SLEEP || T[i].state == T_BLOCKED) any = true;
    if (!any) return;
    tl_tid = -1;
    block_and_switch();
}
static void exit_key_dtor(void* v) {
    intptr_t x = (intptr_t)v;                 // (tid+1)*8 + rounds left
    int tid = (int)(x / 8) - 1, left = (int)(x % 8);
    if (left > 0) { pthread_setspecific(g_exit_key, (void*)((intptr_t)(tid + 1) * 8 + left - 1)); return; }
    thread_finish(tid);
}
static void* tramp(void* a) {
    int t = (int)(intptr_t)a;
    fwait(&T[t].futex);
    tl_tid = t;
    // key destructors of the thread run before the baton is handed over (4 rounds in glibc)
    pthread_setspecific(g_exit_key, (void*)((intptr_t)(t + 1) * 8 + 3));
    g_inrt = 0; g_quiet = 0;
    if (T[t].start) T[t].ret = T[t].start(T[t].arg);
    else (*T[t].fn)();
    return nullptr;
}
static int new_thread(const char* name) {
    if (g_nt >= MAXT) { sim::fail("harness-limit", "too many threads"); }
    int t = g_nt;
    memset((void*)&T[t], 0, sizeof(Thr));
    T[t].id = t; T[t].state = T_READY;
    snprintf(T[t].name, sizeof T[t].name, "%s%d", name, t);
    return t;
}
static void launch(int t) {
    saved_inrt[t] = 0; saved_quiet[t] = 0;
    pthread_attr_t at; pthread_attr_init(&at);
    uintptr_t st = STACKS + (size_t)t * (STACK_SZ + 65536);
    void* p = mmap((void*)st, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)st) _exit(95);
    pthread_attr_setstack(&at, p, STACK_SZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t tid;
    if (real_create(&tid, &at, tramp, (void*)(intptr_t)t)) _exit(94);
    T[t].real = tid;
    g_nt = t + 1;
}
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    if (!real_create) { In in; real_create = (decltype(real_create))real_sym("pthread_create"); }
    if (!g_active || tl_tid < 0) return real_create(out, at, f, arg);
    {
        In in;
        int t = new_thread("p");
        T[t].start = f; T[t].arg = arg;
        int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds);
        launch(t);
        *out = T[t].real;
    }
    sync_point("create");
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    sync_point("join");
    In in;
    for (int i = 0; i < g_nt; i++) if (T[i].real == th) {
        while (T[i].state != T_DONE && T[i].state != T_DEAD) block_on(&T[i], 2);
        if (ret) *ret = T[i].ret;
        return 0;
    }
    return ESRCH;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { sync_point("yield"); if (in_sim()) sim::yield(); return 0; }
}

// ================================================================ public API
namespace sim {
static void count(Counter* c, uint64_t& total, const char* name, uint64_t n) {
    for (int i = 0; i < NCNT; i++) {
        if (!c[i].name[0]) { strncpy(c[i].name, name, CNAME - 1); }
        if (!strncmp(c[i].name, name, CNAME - 1)) { c[i].n += n; total += n; return; }
    }
}
uint32_t draw(Stream s, uint32_t n) { In in; if (n <= 1) return 0; return tape_next(s, 0, n); }
bool chance(Stream s, uint32_t num, uint32_t den) { if (!num) return false; return draw(s, den) >= den - num; }
int64_t range(Stream s, int64_t lo, int64_t hi) { if (hi <= lo) return lo; return lo + (int64_t)draw(s, (uint32_t)(hi - lo + 1)); }
double unit(Stream s) { return draw(s, 1u << 24) / (double)(1u << 24); }
double uniform(Stream s, double lo, double hi) { return lo + (hi - lo) * unit(s); }
double gauss(Stream s) { double a = 0; for (int i = 0; i < 12; i++) a += draw(s, 1u << 12) / 4096.0; return a - 6 + 12 * 0.5 / 4096.0; }

uint64_t fnv(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

[[noreturn]] static void finish(int status) {
    S->status = status; S->steps = g_steps; S->switches = g_switches; S->syncs = g_syncs; S->simtime = g_elapsed; S->allocs = g_allocs;
    syscall(SYS_exit_group, 0);
    for (;;) {}
}
void fail(const char* cls, const char* f, ...) {
    ++g_inrt;
    if (S->status == ST_VIOL) finish(ST_VIOL);
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    va_list a; va_start(a, f); vsnprintf(S->msg, sizeof S->msg, f, a); va_end(a);
    tracef("VIOLATION %s: %s", S->cls, S->msg);
    mixh(fnv(S->cls, strlen(S->cls)));
    mixh(fnv(S->msg, strlen(S->msg)));
    if (g_trace_fd >= 0) {
        void* bt[40]; int n = backtrace(bt, 40);
        std::string s = "  backtrace:";
        for (int i = 0; i < n; i++) { char b[32]; snprintf(b, sizeof b, " %p", bt[i]); s += b; }
        tracef("%s", s.c_str());
    }
    finish(ST_VIOL);
}
void ev(const char* f, ...) {
    In in;
    char b[1024]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    g_seq++;
    mixh(fnv(b, n));
    if (g_trace_fd >= 0) tracef("%6llu [%s] %s", (unsigned long long)g_seq, tname(g_cur), b);
}
void mix(uint64_t h) { mixh(h); }
void probe(const char* name, uint64_t n) { In in; count(S->probes, S->nprobe, name, n); }
void fault(const char* kind) { In in; count(S->faults, S->nfault, kind, 1); g_seq++; mixh(fnv(kind, strlen(kind))); if (g_trace_fd >= 0) tracef("%6llu [%s] fault: %s", (unsigned long long)g_seq, tname(g_cur), kind); }
void nontrivial() { S->nontrivial = 1; }
void sample(const std::string& s) { In in; snprintf(S->sample, sizeof S->sample, "%s", s.c_str()); if (g_trace_fd >= 0) tracef("case: %s", s.c_str()); }
bool tracing() { return g_trace_fd >= 0; }

void sched_set(const SchedCfg& c) {
    In in; g_cfg = c; redraw(g_mem_left, c.mem); redraw(g_conf_left, c.conflict); redraw(g_sync_left, c.sync);
}
void sched_random() {
    static const uint32_t mem[] = {0, 0, 3000, 500, 80, 20}, conf[] = {0, 1, 2, 4, 12, 40}, sync[] = {0, 1, 2, 4, 10, 30}, stall[] = {0, 0, 2000, 50000};
    SchedCfg c;
    c.mem = mem[draw(SC, 6)]; c.conflict = conf[draw(SC, 6)]; c.sync = sync[draw(SC, 6)]; c.stall = stall[draw(SC, 4)];
    sched_set(c);
}
int spawn(std::function<void()> f, const char* name) {
    In in;
    int t = new_thread(name);
    T[t].fn = new std::function<void()>(std::move(f));
    launch(t);
    return t;
}
void join(int t) {
    In in;
    while (T[t].state != T_DONE && T[t].state != T_DEAD) block_on(&T[t], 2);
}
void join_all() { for (int i = 0; i < g_nt; i++) if (i != g_cur) join(i); }
void yield() { In in; if (!g_active || tl_tid < 0) return; g_steps++; int t = choose_ready(true); if (t >= 0) switch_to(t); }
int self() { return g_cur; }
uint64_t seq() { return ++g_seq; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
void step_budget(uint64_t n) { g_budget = n ? g_steps + n : 0; }
Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }
Rt::Rt() { ++g_inrt; }
Rt::~Rt() { --g_inrt; }
void crash_others() { In in; for (int i = 0; i < g_nt; i++) if (i != g_cur && T[i].state != T_DONE) T[i].state = T_DEAD; release_dead_locks(); }

uint64_t live_blocks() { return g_live_blocks; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t alloc_count() { return g_allocs; }
void fail_alloc(uint64_t nth, bool sticky) { g_failat = nth; g_failsticky = sticky; g_failfired = false; }
bool alloc_fault_fired() { return g_failfired; }
void fill_byte(int b) { g_fill = b & 255; }
uint64_t mark() { return g_alloc_id + 1; }
template<class F> static void walk_blocks(F f) {
    // walk bump region: blocks are contiguous
    uintptr_t p = ARENA + 4096;
    while (p < g_bump) {
        Hdr* h = (Hdr*)p; size_t r; 
        if (h->magic != MAG_LIVE && h->magic != MAG_FREE) break;
        size_cls(h->size, r);
        // reused blocks of the same class keep their rounded size
        f(h);
        p += (r + 64 + 15) & ~size_t(15);
    }
}
std::string live_since(uint64_t m, size_t* n) {
    In in; std::string s; size_t k = 0;
    walk_blocks([&](Hdr* h) { if (h->magic == MAG_LIVE && h->id >= m) { if (k < 6) s += fmt(" [%zu bytes allocated at %s]", (size_t)h->size, sym(h->caller).c_str()); k++; } });
    if (n) *n = k;
    return s;
}
void heap_check() { In in; walk_blocks([&](Hdr* h) { if (h->magic == MAG_LIVE) check_rz(h, "heap check"); }); }

uint64_t now_ns() { return g_now; }
void set_now(uint64_t t) { g_now = t; if (g_nt) wake_due(); }
void advance(uint64_t d) { g_now += d; g_elapsed += d; if (g_nt) wake_due(); }
void clock_tick(uint64_t d) { g_tick = d; }
uint64_t sim_elapsed() { return g_elapsed; }

static std::vector<Scenario>& scns() { static std::vector<Scenario> v; return v; }
void register_scenario(const char* n, ScenarioFn f, int w) { In in; scns().push_back(Scenario{n, f, w}); }
}
namespace simrt {
uint64_t clock_read() { if (g_tick) { g_now += g_tick; g_elapsed += g_tick; } return g_now; }
}

// ================================================================ running one simulated run in a child
namespace simrt {
extern void vfs_reset();

static void on_signal(int sig, siginfo_t* si, void*) {
    ++g_inrt;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGNAL";
    char c[64]; snprintf(c, sizeof c, "crash-%s", n);
    sim::fail(c, "the process received %s", n);
}
static void on_terminate() {
    ++g_inrt;
    std::string what = "no exception";
    if (std::type_info* ti = abi::__cxa_current_exception_type()) what = ti->name();
    sim::fail("terminate", "std::terminate called (active exception: %s)", what.c_str());
}
static sim::ScenarioFn g_fn;
static char g_altstack[65536];
static void* run_main(void*) {
    fwait(&T[0].futex);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
    tl_tid = 0;
    g_inrt = 0; g_quiet = 0;
    try { g_fn(); }
    catch (const std::exception& e) { sim::fail("escaped-exception", "an exception reached the harness: %s", e.what()); }
    catch (...) { sim::fail("escaped-exception", "an unknown exception reached the harness"); }
    ++g_inrt;
    sim::finish(ST_OK);
}
struct RunCfg { const sim::Scenario* scn; uint64_t seed; bool replay; std::vector<uint32_t> tape[sim::NSTREAM]; int wall_s; std::string trace; };

static void child(const RunCfg& rc) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    In in;
    memset(S->cls, 0, sizeof S->cls);
    g_replay = rc.replay;
    uint64_t s = rc.seed;
    for (int i = 0; i < sim::NSTREAM; i++) { rng_state[i] = splitmix(s); g_in[i] = &rc.tape[i]; g_pos[i] = 0; }
    if (!rc.trace.empty()) { g_trace_fd = (int)syscall(SYS_openat, AT_FDCWD, rc.trace.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); }
    int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
    if (dn >= 0 && !getenv("SIM_KEEP_OUT")) { dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
    for (int x : sigs) sigaction(x, &sa, nullptr);
    std::set_terminate(on_terminate);
    // the wall-clock watchdog is the parent's
    g_nt = 0; g_cur = 0; g_steps = 0; g_seq = 0; g_switches = 0; g_now = 1500000000ull * 1000000000ull; g_elapsed = 0; g_tick = 1000;
    S->hash = 1469598103934665603ull;
    g_budget = 80000000ull;
    vfs_reset();
    for (int i = 0; i < NCELL; i++) { cells[i].wr = -1; cells[i].rd = -1; }
    pthread_key_create(&g_exit_key, exit_key_dtor);
    if (!real_create) real_create = (decltype(real_create))real_sym("pthread_create");
    g_fn = rc.scn->fn;
    int t = new_thread("main");
    saved_inrt[t] = 0; saved_quiet[t] = 0;
    pthread_attr_t at; pthread_attr_init(&at);
    size_t msz = 8 << 20; uintptr_t st = STACKS - (64 << 20);
    mmap((void*)st, msz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    pthread_attr_setstack(&at, (void*)st, msz);
    pthread_t th;
    if (real_create(&th, &at, run_main, nullptr)) _exit(94);
    T[0].real = th; g_nt = 1; g_cur = 0;
    g_allocs = 0;
    g_active = true;
    fwake(&T[0].futex);
    for (;;) pause();
}

// returns status; wall limit enforced here
static int run_one(const RunCfg& rc, std::string* err = nullptr) {
    size_t keep = offsetof(Shm, tape);
    memset(S, 0, keep);
    S->status = ST_RUNNING;
    snprintf(S->scenario, sizeof S->scenario, "%s", rc.scn->name);
    pid_t p = fork();
    if (p == 0) { child(rc); _exit(99); }
    uint64_t t0 = wall_ns();
    int st = 0; 
    useconds_t nap = 50;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (wall_ns() - t0 > (uint64_t)rc.wall_s * 1000000000ull) {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            if (S->status == ST_RUNNING) { S->status = ST_VIOL; snprintf(S->cls, sizeof S->cls, "wall-hang"); snprintf(S->msg, sizeof S->msg, "run did not finish within %d s of real time", rc.wall_s); S->hash = 0; }
            return S->status;
        }
        timespec ts = {0, (long)nap * 1000}; syscall(SYS_nanosleep, &ts, nullptr);
        if (nap < 1000) nap += nap / 4 + 1;
    }
    if (S->status == ST_RUNNING) {
        S->status = ST_VIOL;
        if (WIFSIGNALED(st)) snprintf(S->cls, sizeof S->cls, "crash-signal-%d", WTERMSIG(st));
        else snprintf(S->cls, sizeof S->cls, "exit-%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        snprintf(S->msg, sizeof S->msg, "the simulated process ended without a result (status %d)", st);
    }
    return S->status;
}
} // namespace simrt

static std::string jesc(const char* s) {
    std::string o;
    for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static bool load_tape(const char* file, std::string& scn, std::string& cls, uint64_t& seed, std::vector<uint32_t>* tape) {
    FILE* f = fopen(file, "r"); if (!f) return false;
    static char line[1 << 16]; bool ok = false;
    int cur = -1;
    while (fgets(line, sizeof line, f)) {
        char a[256]; unsigned long long v; int k;
        if (sscanf(line, "scenario %255s", a) == 1) { scn = a; ok = true; }
        else if (sscanf(line, "class %255s", a) == 1) cls = a;
        else if (sscanf(line, "seed %llu", &v) == 1) seed = v;
        else if (sscanf(line, "stream %d", &k) == 1) cur = k;
        else if (!strncmp(line, "end", 3)) cur = -1;
        else if (cur >= 0 && line[0] != '#') { char* p = line; char* e; for (;;) { unsigned long x = strtoul(p, &e, 10); if (e == p) break; tape[cur].push_back((uint32_t)x); p = e; } }
    }
    fclose(f);
    return ok;
}
static void save_tape(const char* file, const char* scn, const char* cls, uint64_t seed, const std::vector<uint32_t>* tape, uint64_t hash, const char* msg) {
    FILE* f = fopen(file, "w"); if (!f) return;
    std::string m = jesc(msg);
    fprintf(f, "# deterministic simulation replay file\nscenario %s\nclass %s\nseed %llu\n# message %s\n# hash %016llx\n", scn, cls, (unsigned long long)seed, m.c_str(), (unsigned long long)hash);
    for (int s = 0; s < sim::NSTREAM; s++) {
        fprintf(f, "stream %d\n", s);
        for (size_t i = 0; i < tape[s].size(); i++) fprintf(f, "%u%c", tape[s][i], i % 24 == 23 ? '\n' : ' ');
        fprintf(f, "\nend\n");
    }
    fclose(f);
}
static void copy_tape(std::vector<uint32_t>* t) { for (int s = 0; s < sim::NSTREAM; s++) t[s].assign(S->tape[s], S->tape[s] + S->tlen[s]); }

static uint64_t run_seed(uint64_t base, uint64_t idx, int scn) {
    uint64_t s = base * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + scn * 0x2545F4914F6CDD1Dull; splitmix(s); return splitmix(s);
}

int main(int argc, char** argv) {
    In in;
    // libraries at the same addresses in every execution, where that may be asked for
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_EXECED") && personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_EXECED", "1", 1); execv("/proc/self/exe", argv); }
    arena_init();
    S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->status = ST_NONE;
    std::vector<sim::Scenario>& sc = sim::scns();
    std::sort(sc.begin(), sc.end(), [](const sim::Scenario& a, const sim::Scenario& b) { return strcmp(a.name, b.name) < 0; });
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "list";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.substr(0, 2) == "--" && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
    auto num = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    // pin to one cpu: hand-over between parked threads is cheapest there
    if (o.count("cpu")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET((int)num("cpu", 0) % CPU_SETSIZE, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    int wall = (int)num("wall", 30);
    if (mode == "list") { for (auto& s : sc) printf("%s %d\n", s.name, s.weight); return 0; }
    if (mode == "batch" || mode == "det") {
        uint64_t base = num("seed", 1), first = num("first", 0), cnt = num("count", 1000000000), stride = num("stride", 1);
        double tlim = o.count("time") ? atof(o["time"].c_str()) : 1e9;
        std::string only = o.count("scenario") ? o["scenario"] : "";
        std::string outdir = o.count("out") ? o["out"] : "/tmp";
        std::vector<const sim::Scenario*> wheel;
        for (auto& s : sc) if (only.empty() || only == s.name) for (int i = 0; i < s.weight; i++) wheel.push_back(&s);
        if (wheel.empty()) return 2;
        uint64_t t0 = wall_ns(); 
        std::map<std::string, uint64_t> probes, faults, perscn; std::map<std::string, std::pair<uint64_t, std::string>> viols;
        std::vector<uint64_t> hashes; uint64_t runs = 0, nontriv = 0, steps = 0, sw = 0, syncs = 0, simt = 0, allocs = 0, ovf = 0;
        std::vector<std::string> samples; uint64_t nviol = 0;
        uint64_t idx = first; double maxms = 0;
        for (uint64_t k = 0; k < cnt; k++, idx += stride) {
            if ((wall_ns() - t0) / 1e9 > tlim) break;
            RunCfg rc; uint64_t wv = run_seed(base, idx, 0x77);
            rc.scn = wheel[wv % wheel.size()]; rc.seed = run_seed(base, idx, 1); rc.replay = false; rc.wall_s = wall;
            uint64_t r0 = wall_ns();
            int st = run_one(rc);
            double ms = (wall_ns() - r0) / 1e6; if (ms > maxms) maxms = ms;
            runs++; perscn[rc.scn->name]++;
            if (mode == "det") { printf("%llu %s %016llx %d %s\n", (unsigned long long)idx, rc.scn->name, (unsigned long long)S->hash, st, S->cls); continue; }
            steps += S->steps; sw += S->switches; syncs += S->syncs; simt += S->simtime / 1000; allocs += S->allocs; ovf += S->overflow;
            for (int i = 0; i < NCNT && S->probes[i].name[0]; i++) probes[S->probes[i].name] += S->probes[i].n;
            for (int i = 0; i < NCNT && S->faults[i].name[0]; i++) faults[S->faults[i].name] += S->faults[i].n;
            if (S->nontrivial || S->switches > 2 || S->nfault) { nontriv++; hashes.push_back(S->hash); }
            if (samples.size() < 3 && S->sample[0] && (S->nontrivial || S->nfault || S->switches > 2)) samples.push_back(std::string(rc.scn->name) + ": " + S->sample);
            if (st == ST_VIOL) {
                nviol++;
                std::string key = std::string(rc.scn->name) + "|" + S->cls;
                size_t& c = (size_t&)viols[key].first;
                if (c == 0) {
                    std::vector<uint32_t> tp[sim::NSTREAM]; copy_tape(tp);
                    char fn[512]; snprintf(fn, sizeof fn, "%s/viol-%llu.tape", outdir.c_str(), (unsigned long long)idx);
                    save_tape(fn, rc.scn->name, S->cls, rc.seed, tp, S->hash, S->msg);
                    viols[key].second = std::string(fn) + "|" + S->msg;
                }
                c++;
                if (num("stop", 0) && nviol >= num("stop", 0)) break;
            }
        }
        if (mode == "det") return 0;
        printf("{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"syncs\":%llu,\"simtime_us\":%llu,\"allocs\":%llu,\"overflow\":%llu,\"wall\":%.3f,\"max_run_ms\":%.1f,\n",
            (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)syncs, (unsigned long long)simt, (unsigned long long)allocs, (unsigned long long)ovf, (wall_ns() - t0) / 1e9, maxms);
        auto dump = [&](const char* n, std::map<std::string, uint64_t>& m) { printf("\"%s\":{", n); bool f = true; for (auto& e : m) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(e.first.c_str()).c_str(), (unsigned long long)e.second); f = false; } printf("},\n"); };
        dump("probes", probes); dump("faults", faults); dump("scenarios", perscn);
        printf("\"samples\":["); for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i].c_str()).c_str()); printf("],\n");
        printf("\"violations\":["); bool f = true;
        for (auto& v : viols) { size_t b = v.second.second.find('|'); printf("%s{\"key\":\"%s\",\"count\":%llu,\"tape\":\"%s\",\"msg\":\"%s\"}", f ? "" : ",", jesc(v.first.c_str()).c_str(), (unsigned long long)v.second.first, jesc(v.second.second.substr(0, b).c_str()).c_str(), jesc(v.second.second.substr(b + 1).c_str()).c_str()); f = false; }
        printf("],\n\"hashes\":\"");
        std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        std::string hf = outdir + "/hashes-" + std::to_string(first); FILE* h = fopen(hf.c_str(), "w"); if (h) { fwrite(hashes.data(), 8, hashes.size(), h); fclose(h); }
        printf("%s\"}\n", jesc(hf.c_str()).c_str());
        return 0;
    }
    // modes on a tape file
    std::string scn, cls; uint64_t seed = 0; std::vector<uint32_t> tape[sim::NSTREAM];
    if (pos.empty() || !load_tape(pos[0].c_str(), scn, cls, seed, tape)) { fprintf(stderr, "cannot load tape\n"); return 2; }
    const sim::Scenario* s = nullptr; for (auto& x : sc) if (scn == x.name) s = &x;
    if (!s) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 2; }
    if (mode == "seedrun") {   // same seed again, from the generator rather than the tape
        RunCfg rc; rc.scn = s; rc.seed = seed; rc.replay = false; rc.wall_s = wall;
        int st = run_one(rc); printf("%d %016llx %s %s\n", st, (unsigned long long)S->hash, S->cls, jesc(S->msg).c_str()); return 0;
    }
    if (mode == "replay") {
        RunCfg rc; rc.scn = s; rc.seed = seed; rc.replay = true; rc.wall_s = wall; for (int i = 0; i < sim::NSTREAM; i++) rc.tape[i] = tape[i];
        if (o.count("trace")) rc.trace = o["trace"];
        int st = run_one(rc); printf("%d %016llx %s %s\n", st, (unsigned long long)S->hash, S->cls[0] ? S->cls : "-", jesc(S->msg).c_str());
        return st == ST_VIOL ? 1 : 0;
    }
    if (mode == "shrink") {
        double tlim = o.count("time") ? atof(o["time"].c_str()) : 20; uint64_t t0 = wall_ns();
        auto left = [&]() { return (wall_ns() - t0) / 1e9 < tlim; };
        std::vector<uint32_t> best[sim::NSTREAM]; for (int i = 0; i < sim::NSTREAM; i++) best[i] = tape[i];
        uint64_t tries = 0; std::string bmsg; uint64_t bhash = 0;
        auto attempt = [&](std::vector<uint32_t>* cand) -> bool {
            RunCfg rc; rc.scn = s; rc.seed = seed; rc.replay = true; rc.wall_s = wall; for (int i = 0; i < sim::NSTREAM; i++) rc.tape[i] = cand[i];
            tries++;
            int st = run_one(rc);
            if (st == ST_VIOL && cls == S->cls) {
                for (int i = 0; i < sim::NSTREAM; i++) {
                    // keep only what was consumed, drop trailing zeros
                    best[i].assign(S->tape[i], S->tape[i] + S->tlen[i]);
                    while (!best[i].empty() && best[i].back() == 0) best[i].pop_back();
                }
                bmsg = S->msg; bhash = S->hash; return true;
            }
            return false;
        };
        if (!attempt(tape)) { printf("not-reproduced\n"); return 3; }
        bool prog = true;
        static const int order[3] = {sim::SC, sim::FA, sim::WL};
        while (prog && left()) {
            prog = false;
            for (int oi = 0; oi < 3 && left(); oi++) {
                int st = order[oi];
                { std::vector<uint32_t> c[3]; for (int i = 0; i < 3; i++) c[i] = best[i]; if (!c[st].empty()) { c[st].clear(); if (attempt(c)) { prog = true; continue; } } }
                for (int pass = 0; pass < 2; pass++)         // 0: delete, 1: zero
                    for (size_t len = std::max<size_t>(1, best[st].size() / 2); len >= 1 && left(); len /= 2) {
                        for (size_t at = 0; at + 1 <= best[st].size() && left();) {
                            std::vector<uint32_t> c[3]; for (int i = 0; i < 3; i++) c[i] = best[i];
                            size_t e = std::min(best[st].size(), at + len);
                            if (pass == 0) c[st].erase(c[st].begin() + at, c[st].begin() + e);
                            else { bool any = false; for (size_t i = at; i < e; i++) { any |= c[st][i] != 0; c[st][i] = 0; } if (!any) { at += len; continue; } }
                            size_t before = best[st].size(); std::vector<uint32_t> bb = best[st];
                            if (attempt(c) && (best[st].size() < before || best[st] != bb)) { prog = true; if (pass == 1) at += len; }
                            else at += len;
                        }
                        if (len == 1) break;
                    }
                for (size_t at = 0; at < best[st].size() && left(); at++) {  // reduce values
                    uint32_t v = best[st][at];
                    while (v > 1 && left()) { std::vector<uint32_t> c[3]; for (int i = 0; i < 3; i++) c[i] = best[i]; c[st][at] = v / 2; size_t sz = best[st].size(); if (attempt(c) && at < best[st].size() && best[st].size() <= sz) { prog = prog || false; v = best[st][at]; } else break; }
                }
            }
            if (tries > 20000) break;
        }
        attempt(best);
        save_tape(pos[1].c_str(), scn.c_str(), cls.c_str(), seed, best, bhash, bmsg.c_str());
        printf("ok tries=%llu draws=%zu/%zu/%zu\n", (unsigned long long)tries, best[0].size(), best[1].size(), best[2].size());
        return 0;
    }
    return 2;
}
