// Runtime of the model checker: allocation ledger and fault injection, host
// lock automaton, exhaustive job runner (forked workers), failure reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>

#include "projectm-eval.h"
typedef PRJM_EVAL_F F;
typedef struct projectm_eval_context Ctx;
typedef struct projectm_eval_code Code;

static const int BLOCK = 65536;
static const int SLOTS = 128 * 65536;

namespace vf {

// ---- failure reporting -----------------------------------------------------
// Ends the current worker process and reports a violation for the current case.
// In safety mode it only ends the current case: there, comparisons with an
// oracle decide nothing, only crashes, sanitizer reports, exits and hangs do.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Reports a violation in every mode.
[[noreturn]] void hard_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool safety;
// Text shown with a failure (program, history, ...); kept as a pointer to a buffer.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_str(const std::string& s);
extern bool verbose;   // replaying: narrate

// ---- allocation ledger -----------------------------------------------------
struct Ledger {
    int64_t live;        // blocks allocated by the library and not released
    int64_t bytes;
    uint64_t allocs;     // number of allocation calls so far
    uint64_t frees;
};
extern Ledger led;
// Buffers are tables of block pointers. With this on, no table may change
// outside of the host lock, and no block a table refers to may be released.
extern bool recycle;                // released memory is given out again at once, most recent first
extern bool watch_tables;
extern size_t big_size;             // allocations of at least this size are buffer storage
struct Big { void* p; size_t n; };
extern std::vector<Big> bigs;       // live buffer storage
// Fault injection: fail allocations whose running number (counted over those of
// at least fault_min bytes) is in [fault_from, fault_to).
extern uint64_t fault_count, fault_from, fault_to;
extern size_t fault_min;
extern uint64_t faults_hit;
void fault_off();
void fault_on(uint64_t from, uint64_t to, size_t min);

// ---- host lock automaton ---------------------------------------------------
extern int lock_held;
extern uint64_t lock_count;
extern bool check_locks;
// Called when the library asks for the lock, before it gets it, and after it has released it:
// what is run there is what another thread may have done at this point.
extern std::function<void(bool after)> lock_point;
void lock_idle(const char* where);   // fail if the lock is held

// ---- statistics ------------------------------------------------------------
void st_transitions(uint64_t n = 1);   // steps of the explored system (executions, API calls, accesses)
void st_trace(uint64_t n = 1);         // executions compared with the oracle
void st_state(uint64_t hash);          // a state reached (distinct ones are counted)
void st_nontrivial(uint64_t n = 1);
void st_sample(const std::string& s);  // keeps a few
void st_skip(uint64_t n = 1);

// ---- standard streams ------------------------------------------------------
void out_check(const char* where);     // fail if anything was written to stdout/stderr

// ---- jobs ------------------------------------------------------------------
struct Job {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
    uint64_t chunk = 0;                 // 0: automatic
    std::function<void()> init;         // in every worker process, before its chunk
    int hang_cpu = 12;                  // seconds of CPU without progress
};
void add(Job j);
void add_reused(Job j);                  // the same with released memory given out again at once
extern bool thorough;
extern bool small_bounds, finite_values;
inline int lim(int quick, int thor, int safe) { return safety || small_bounds ? safe + (thorough ? 1 : 0) : thorough ? thor : quick; }
extern uint64_t seed;
typedef void (*Builder)();
struct Reg { Reg(const char* mode, Builder b); };

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string show(F v);
std::string quote(const std::string& s);
inline bool same(F a, F b) { return a == b || (a != a && b != b); }
// equal up to rounding differences of library functions
bool close_to(F a, F b);
}
#define MODE(name) static void mode_##name(); static vf::Reg reg_##name(#name, mode_##name); static void mode_##name()
