// Deterministic simulation runtime: public interface used by the harnesses.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices: every random decision of a run comes from one of these streams -------------------
enum Stream { WL = 0, SC = 1, FA = 2, NSTREAM = 3 };   // workload, schedule, faults
uint32_t draw(Stream s, uint32_t n);                    // uniform in [0,n); 0 is the simplest choice
inline uint32_t wl(uint32_t n) { return draw(WL, n); }
bool chance(Stream s, uint32_t num, uint32_t den);      // true with probability num/den; tape 0 = false
int64_t range(Stream s, int64_t lo, int64_t hi);        // inclusive, lo is simplest
double unit(Stream s);                                  // [0,1) with 2^-24 resolution
double uniform(Stream s, double lo, double hi);
double gauss(Stream s);                                 // approximately N(0,1), bounded |x|<6
template<class T> const T& pick(Stream s, const std::vector<T>& v) { return v[draw(s, (uint32_t)v.size())]; }

// ---- outcome -----------------------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // recorded event (hashed, traced)
void mix(uint64_t h);                                   // add to the run's history hash
void probe(const char* name, uint64_t n = 1);           // "this rare condition was reached"
void fault(const char* kind);                           // "this fault kind actually fired"
void nontrivial();                                      // mark the run as non-trivial
void sample(const std::string& s);                      // describe the case (kept for a few runs)
bool tracing();

// ---- threads and schedule ----------------------------------------------------------------------
struct SchedCfg { uint32_t mem, conflict, sync, stall; };  // mean distances, 0 = off
void sched_random();                                    // swarm: draw a schedule style for this run
void sched_set(const SchedCfg& c);
int spawn(std::function<void()> f, const char* name = "t");
void join(int t);
void join_all();
void yield();                                           // explicit scheduling point
int self();
uint64_t seq();                                         // global event sequence number (monotone)
uint64_t steps();
uint64_t switches();
void step_budget(uint64_t n);
struct Quiet { Quiet(); ~Quiet(); };                    // no preemption while alive
struct Rt { Rt(); ~Rt(); };                             // no preemption, allocations outside the arena
void crash_others();                                    // threads other than the caller never run again
// a crash point armed by the harness: the calling process "dies" at a chosen simulated system call;
// implemented by unwinding the crashing thread with CrashNow and abandoning the others
struct CrashNow {};

// ---- memory ------------------------------------------------------------------------------------
uint64_t live_blocks();
uint64_t live_bytes();
uint64_t alloc_count();                                 // allocations made so far by code under test
void fail_alloc(uint64_t nth, bool sticky);             // nth (1 = next) arena allocation fails; 0 disarms
bool alloc_fault_fired();
void fill_byte(int b);                                  // pattern for fresh memory
uint64_t mark();                                        // allocation id of the next block
std::string live_since(uint64_t mark, size_t* n);       // description of blocks allocated since mark
void heap_check();                                      // verify red zones (raises fail)

// ---- clock -------------------------------------------------------------------------------------
uint64_t now_ns();                                      // simulated real-time clock (never advances itself)
void set_now(uint64_t ns);
void advance(uint64_t ns);
void clock_tick(uint64_t ns);                           // advance per clock read
uint64_t sim_elapsed();                                 // total simulated time advanced
void eintr_rate(uint32_t num, uint32_t den);            // sleeps are interrupted with this probability
void mono_offset(int64_t ns);                           // CLOCK_MONOTONIC = now - base + offset

// ---- scenarios ---------------------------------------------------------------------------------
typedef void (*ScenarioFn)();
struct Scenario { const char* name; ScenarioFn fn; int weight; };
void register_scenario(const char* name, ScenarioFn fn, int weight);
struct Reg { Reg(const char* n, ScenarioFn f, int w) { register_scenario(n, f, w); } };
#define SCENARIO(name, weight) static void scn_##name(); static ::sim::Reg reg_##name(#name, scn_##name, weight); static void scn_##name()

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
