#include "vf.hpp"
#include <cstdarg>
#include <unordered_map>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <map>
#include <memory>
#include <string>
#include <algorithm>
#include <limits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio_ext.h>

namespace vf {
bool verbose = false, thorough = false;
uint64_t seed = 1;

// ---------------------------------------------------------------------------
// shared memory
enum { NSLOT = 16, NSAMP = 24, SAMPLEN = 400, NSTATE = 1 << 22 };
struct Slot {
    volatile uint64_t cur;        // index being run
    volatile uint64_t begin, end; // chunk
    volatile int failed;          // 1: fail() was called
    char msg[32768];
    char note[32768];
};
struct Shared {
    uint64_t transitions, traces, nontrivial, skipped, evals, nstates, states_full;
    uint64_t nsamp;
    char samp[NSAMP][SAMPLEN];
    uint64_t states[NSTATE];
    Slot slot[NSLOT];
};
static Shared* sh;
static Slot* me;       // my slot when a worker
static Slot dummy_slot_storage;
static uint64_t l_trans, l_traces, l_nontriv, l_skip, l_evals;

static void flush_stats()
{
    __atomic_add_fetch(&sh->transitions, l_trans, __ATOMIC_RELAXED);
    __atomic_add_fetch(&sh->traces, l_traces, __ATOMIC_RELAXED);
    __atomic_add_fetch(&sh->nontrivial, l_nontriv, __ATOMIC_RELAXED);
    __atomic_add_fetch(&sh->skipped, l_skip, __ATOMIC_RELAXED);
    __atomic_add_fetch(&sh->evals, l_evals, __ATOMIC_RELAXED);
    l_trans = l_traces = l_nontriv = l_skip = l_evals = 0;
}
void st_transitions(uint64_t n) { l_trans += n; }
void st_trace(uint64_t n) { l_traces += n; }
void st_nontrivial(uint64_t n) { l_nontriv += n; }
void st_skip(uint64_t n) { l_skip += n; }
void st_state(uint64_t h)
{
    h = mix(h);
    if (!h) h = 1;
    if (sh->states_full) return;
    uint64_t i = h & (NSTATE - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (NSTATE - 1))
    {
        uint64_t v = __atomic_load_n(&sh->states[i], __ATOMIC_RELAXED);
        if (v == h) return;
        if (!v)
        {
            uint64_t e = 0;
            if (__atomic_compare_exchange_n(&sh->states[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            {
                uint64_t n = __atomic_add_fetch(&sh->nstates, 1, __ATOMIC_RELAXED);
                if (n > NSTATE * 3 / 4) sh->states_full = 1;
                return;
            }
            if (e == h) return;
        }
    }
}
void st_sample(const std::string& s)
{
    if (sh->nsamp >= NSAMP) return;
    uint64_t i = __atomic_fetch_add(&sh->nsamp, 1, __ATOMIC_RELAXED);
    if (i < NSAMP) snprintf(sh->samp[i], SAMPLEN, "%s", s.c_str());
}

std::string strf(const char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < (int)sizeof buf) return buf;
    std::string s(n + 1, 0);
    va_start(ap, fmt);
    vsnprintf(&s[0], n + 1, fmt, ap);
    va_end(ap);
    s.resize(n);
    return s;
}
std::string show(F v) { return strf(sizeof(F) == 4 ? "%.9g" : "%.17g", (double)v); }
std::string quote(const std::string& s)
{
    std::string o = "\"";
    size_t lim = 600;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s.size() > 2 * lim && i == lim) { o += strf("\"...(%zu more)...\"", s.size() - 2 * lim); i = s.size() - lim; }
        unsigned char c = s[i];
        if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) o += strf("\\%03o", c);
        else o += (char)c;
    }
    return o + "\"";
}
bool close_to(F a, F b)
{
    if (same(a, b)) return true;
    if (a != a || b != b) return false;
    double tol = sizeof(F) == 4 ? 4e-6 : 1e-11;
    double m = std::max(fabs((double)a), fabs((double)b));
    if (!(m < 1e300)) return false;
    return fabs((double)a - (double)b) <= tol * m + 4. * std::numeric_limits<F>::denorm_min();
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

void note(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->note, sizeof me->note, fmt, ap);
    va_end(ap);
}
void note_str(const std::string& s)
{
    size_t n = std::min(s.size(), sizeof me->note - 1);
    memcpy(me->note, s.data(), n);
    me->note[n] = 0;
}
struct Soft {};
bool safety = false;
bool small_bounds = false, finite_values = false;
static std::string skipped;
void fail(const char* fmt, ...)
{
    if (safety) throw Soft();
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    me->failed = 1;
    _exit(42);
}
void hard_fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    me->failed = 1;
    _exit(42);
}

// ---------------------------------------------------------------------------
// allocation ledger: open addressing table of live pointers
Ledger led;
bool recycle;
bool watch_tables = false;
size_t big_size = 65536 * sizeof(F);
std::vector<Big> bigs;
uint64_t fault_count, fault_from, fault_to, faults_hit;
size_t fault_min;
void fault_off() { fault_from = fault_to = 0; }
void fault_on(uint64_t from, uint64_t to, size_t min) { fault_count = 0; faults_hit = 0; fault_from = from; fault_to = to; fault_min = min; }

int lock_held;
uint64_t lock_count;
bool check_locks = true;
std::function<void(bool)> lock_point;
static void at_lock_point(bool after)
{
    if (!lock_point) return;
    auto f = std::move(lock_point);
    lock_point = nullptr;
    f(after);
    lock_point = f;
}

struct Ent { void* p; size_t n; };
static Ent* tab;
static size_t tab_cap, tab_n;
static inline size_t hp(void* p) { return mix((uint64_t)p) & (tab_cap - 1); }
static void tab_put(void* p, size_t n);
static void tab_grow()
{
    Ent* o = tab;
    size_t oc = tab_cap;
    tab_cap = oc ? oc * 2 : 1 << 14;
    tab = (Ent*)calloc(tab_cap, sizeof(Ent));
    tab_n = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].p) tab_put(o[i].p, o[i].n);
    free(o);
}
static void tab_put(void* p, size_t n)
{
    if (tab_n * 2 >= tab_cap) tab_grow();
    size_t i = hp(p);
    while (tab[i].p) i = (i + 1) & (tab_cap - 1);
    tab[i] = {p, n};
    tab_n++;
}
static Ent* tab_find(void* p)
{
    if (!tab_cap) return nullptr;
    for (size_t i = hp(p); tab[i].p; i = (i + 1) & (tab_cap - 1)) if (tab[i].p == p) return &tab[i];
    return nullptr;
}
static void tab_del(Ent* e)
{
    size_t i = e - tab, j = i;
    for (;;)
    {
        j = (j + 1) & (tab_cap - 1);
        if (!tab[j].p) break;
        size_t k = hp(tab[j].p);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        tab[i] = tab[j];
        i = j;
    }
    tab[i].p = nullptr;
    tab_n--;
}
// quarantine of released memory (plain build only; the ASan build has its own)
#ifndef VF_ASAN
enum { NQ = 512 };
static struct { unsigned char* p; size_t n; } quar[NQ];
static unsigned quar_pos;
#endif

// released memory that is given out again at once, to a request of the same size (see recycle)
#ifndef VF_ASAN
static std::unordered_map<size_t, std::vector<void*>> spare;
static void* again(size_t n)
{
    if (!recycle) return nullptr;
    auto i = spare.find(n);
    if (i == spare.end() || i->second.empty()) return nullptr;
    void* p = i->second.back();
    i->second.pop_back();
    return p;
}
#else
static void* again(size_t) { return nullptr; }
#endif
static bool want_fault(size_t n)
{
    if (fault_from >= fault_to || n < fault_min) return false;
    uint64_t k = fault_count++;
    if (k >= fault_from && k < fault_to) { faults_hit++; return true; }
    return false;
}
struct Table { void** p; bool published; void* snap[128]; };
static std::vector<Table> tables;
static void tables_snap(bool publish)
{
    for (auto& t : tables) if (t.published || publish) { memcpy(t.snap, t.p, sizeof t.snap); t.published = true; }
}
static void tables_check(const char* where)
{
    for (auto& t : tables) if (t.published && memcmp(t.snap, t.p, sizeof t.snap)) hard_fail("the storage of a buffer was changed without holding the host lock (noticed %s)", where);
}
static void on_alloc(void* p, size_t n)
{
    if (watch_tables && n == 128 * sizeof(void*)) { tables.emplace_back(); tables.back().p = (void**)p; tables.back().published = false; }
    led.live++;
    led.bytes += n;
    led.allocs++;
    tab_put(p, n);
    if (n >= big_size)
    {
        bigs.push_back({p, n});
    }
}
}
using namespace vf;

extern "C" {
void* vf_malloc(size_t n)
{
    if (want_fault(n)) { errno = ENOMEM; return nullptr; }
    void* p = again(n);
    if (!p) p = malloc(n ? n : 1);
    if (!p) return p;
    memset(p, 0xA5, n < 65536 ? n : 65536);
    on_alloc(p, n);
    return p;
}
void* vf_calloc(size_t a, size_t b)
{
    if (want_fault(a * b)) { errno = ENOMEM; return nullptr; }
    void* p = again(a * b);
    if (p) memset(p, 0, a * b);
    else p = calloc(a ? a : 1, b ? b : 1);
    if (p) on_alloc(p, a * b);
    return p;
}
void vf_free(void* p)
{
    if (!p) return;
    Ent* e = tab_find(p);
    if (!e)
    {
#ifndef VF_ASAN
        for (unsigned i = 0; i < NQ; i++) if (quar[i].p == p) hard_fail("memory at %p (%zu bytes) is released twice", p, quar[i].n);
#endif
        free(p); // not ours (or, under ASan, a double free it reports)
        return;
    }
    size_t n = e->n;
    tab_del(e);
    if (watch_tables && n == 128 * sizeof(void*))
        for (size_t i = 0; i < tables.size(); i++) if (tables[i].p == p)
        {
            if (tables[i].published && !lock_held) tables_check("when the buffer is released");
            tables.erase(tables.begin() + i);
            break;
        }
    led.live--;
    led.bytes -= n;
    led.frees++;
    if (n >= big_size)
    {
        if (watch_tables && !lock_held)
            for (auto& t : tables) if (t.published) for (void* b : t.snap) if (b == p) hard_fail("storage of a buffer (%zu bytes) is released without holding the host lock", n);
        for (size_t i = 0; i < bigs.size(); i++) if (bigs[i].p == p) { bigs.erase(bigs.begin() + i); break; }
    }
#ifndef VF_ASAN
    if (recycle)
    {
        if (n <= 1 << 20) memset(p, 0xDD, n < 4096 ? n : 4096);
        spare[n].push_back(p);
        return;
    }
    if (n <= 1 << 20)
    {
        size_t w = n < 4096 ? n : 4096;
        memset(p, 0xDD, w);
        auto& q = quar[quar_pos++ % NQ];
        if (q.p)
        {
            size_t qw = q.n < 4096 ? q.n : 4096;
            for (size_t i = 0; i < qw; i++) if (q.p[i] != 0xDD) hard_fail("released memory (%zu bytes) was written to at offset %zu", q.n, i);
            free(q.p);
        }
        q.p = (unsigned char*)p;
        q.n = n;
        if (n > 65536)
        { // do not keep many large blocks
            static unsigned char* lastbig;
            if (lastbig) for (unsigned i = 0; i < NQ; i++) if (quar[i].p == lastbig && lastbig != p) { free(lastbig); quar[i].p = nullptr; }
            lastbig = (unsigned char*)p;
        }
        return;
    }
#endif
    free(p);
}
void* vf_realloc(void* p, size_t n)
{
    if (!p) return vf_malloc(n);
    if (!n) { vf_free(p); return nullptr; }
    Ent* e = tab_find(p);
    if (!e)
    {
#ifndef VF_ASAN
        for (unsigned i = 0; i < NQ; i++) if (quar[i].p == p) hard_fail("released memory at %p is reallocated", p);
#endif
        return realloc(p, n);
    }
    size_t o = e->n;
    void* q = vf_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    vf_free(p);
    return q;
}
void* vf_reallocarray(void* p, size_t a, size_t b) { return vf_realloc(p, a * b); }
void* vf_aligned_alloc(size_t a, size_t n)
{
    if (want_fault(n)) { errno = ENOMEM; return nullptr; }
    void* p = aligned_alloc(a, n);
    if (!p) return p;
    memset(p, 0xA5, n < 65536 ? n : 65536);
    on_alloc(p, n);
    return p;
}
void* vf_memalign(size_t a, size_t n) { return vf_aligned_alloc(a, n); }
int vf_posix_memalign(void** r, size_t a, size_t n)
{
    void* p = vf_aligned_alloc(a, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
int vf_vasprintf(char** r, const char* f, va_list ap)
{
    char* t = nullptr;
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    char* p = (char*)vf_malloc(n + 1);
    if (p) memcpy(p, t, n + 1);
    free(t);
    if (!p) return -1;
    *r = p;
    return n;
}
int vf_asprintf(char** r, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int n = vf_vasprintf(r, f, ap);
    va_end(ap);
    return n;
}
char* vf_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    char* p = (char*)vf_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char* vf_strndup(const char* s, size_t m)
{
    size_t n = strnlen(s, m);
    char* p = (char*)vf_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
void vf_exit(int rc) { hard_fail("the library calls exit(%d)", rc); }
void vf_abort(void) { hard_fail("the library calls abort()"); }
void vf_assert_fail(const char* e, const char* f, unsigned l, const char* fn) { hard_fail("assertion in the library fails: %s (%s:%u %s)", e, f, l, fn); }

#ifdef VF_SHIM
#define LOCKFN NSEEL_HOSTSTUB_EnterMutex
#define UNLOCKFN NSEEL_HOSTSTUB_LeaveMutex
#else
#define LOCKFN projectm_eval_memory_host_lock_mutex
#define UNLOCKFN projectm_eval_memory_host_unlock_mutex
#endif
#ifndef VF_SCHED
void LOCKFN()
{
    at_lock_point(false);
    lock_count++;
    if (check_locks && lock_held) hard_fail("the host lock function is called while the lock is held");
    lock_held++;
    if (watch_tables) tables_check("at the next lock");
}
void UNLOCKFN()
{
    if (check_locks && !lock_held) hard_fail("the host unlock function is called without holding the lock");
    lock_held--;
    if (watch_tables) tables_snap(false);
    at_lock_point(true);
}
#endif
#ifdef VF_ASAN
const char* __asan_default_options() { return "exitcode=43:detect_leaks=0:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=8:max_redzone=64:allocator_may_return_null=1:print_legend=0"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=43"; }
#endif
}

namespace vf {
void lock_idle(const char* where)
{
    if (check_locks && lock_held) hard_fail("%s returned while holding the host lock", where);
    if (watch_tables) { tables_check("after the call"); tables_snap(true); }
}

// ---------------------------------------------------------------------------
static int outfd[2] = {-1, -1};
static off_t outsize[2];
void out_check(const char* where)
{
    for (int k = 0; k < 2; k++)
    {
        FILE* f = k ? stderr : stdout;
        if (__fpending(f)) fflush(f);
        struct stat st;
        if (outfd[k] < 0) continue;
        fstat(outfd[k], &st);
        if (st.st_size > outsize[k])
        {
            char buf[200];
            int n = pread(outfd[k], buf, sizeof buf - 1, outsize[k]);
            buf[n > 0 ? n : 0] = 0;
            fail("%s wrote to %s: %s", where, k ? "stderr" : "stdout", quote(buf).c_str());
        }
    }
}

// ---------------------------------------------------------------------------
static std::map<std::string, Builder>& builders() { static std::map<std::string, Builder> b; return b; }
Reg::Reg(const char* m, Builder b) { builders()[m] = b; }
static std::vector<Job> jobs;
void add(Job j) { jobs.push_back(j); }
void add_reused(Job j)
{
    if (safety) return;
    j.name += "-reused";
    auto f = j.init;
    j.init = [f]() { recycle = true; if (f) f(); };
    jobs.push_back(j);
}

static volatile uint64_t tick_cur;
static volatile int tick_n;
static int tick_lim;
static void on_tick(int)
{
    if (me->cur != tick_cur) { tick_cur = me->cur; tick_n = 0; return; }
    if (++tick_n > tick_lim)
    {
        snprintf(me->msg, sizeof me->msg, "no return after more than %d s of CPU time", tick_lim);
        me->failed = 1;
        _exit(42);
    }
}

static std::string outdir;
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

[[noreturn]] static void worker(const Job& j, int s, uint64_t b, uint64_t e)
{
    me = &sh->slot[s];
    std::string o1 = outdir + strf("/out.%d", s), o2 = outdir + strf("/err.%d", s);
    outfd[0] = open(o1.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    outfd[1] = open(o2.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    fflush(stdout);
    dup2(outfd[0], 1);
    dup2(outfd[1], 2);
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    outsize[0] = outsize[1] = 0;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    tick_lim = j.hang_cpu;
    tick_cur = ~0ull;
    tick_n = 0;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    if (j.init) j.init();
    for (uint64_t i = b; i < e; i++)
    {
        me->cur = i;
        l_evals++;
        try
        {
            j.run(i);
            if (i == j.count / 2 && me->note[0]) st_sample(j.name + ": " + me->note);
        }
        catch (Soft&) { l_skip++; lock_held = 0; fault_off(); if (j.init) j.init(); }
        lock_idle("a library call");
    }
    flush_stats();
    me->note[0] = 0;
    _exit(0);
}

struct Outcome { bool ok = true; uint64_t idx = 0; uint64_t begin = 0; std::string msg, note; };

static Outcome collect(int s, int st)
{
    Outcome o;
    Slot& sl = sh->slot[s];
    o.idx = sl.cur;
    o.begin = sl.begin;
    o.note = sl.note;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.ok = false;
    if (sl.failed) { o.msg = sl.msg; return o; }
    if (WIFSIGNALED(st)) o.msg = strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else o.msg = strf("exits with status %d", WEXITSTATUS(st));
    std::string p = outdir + strf("/err.%d", s);
    if (FILE* f = fopen(p.c_str(), "r"))
    {
        char buf[6000];
        size_t n = fread(buf, 1, sizeof buf - 1, f);
        buf[n] = 0;
        fclose(f);
        o.msg += std::string("\n") + buf;
    }
    return o;
}

static pid_t start(const Job& j, int s, uint64_t b, uint64_t e)
{
    Slot& sl = sh->slot[s];
    sl.cur = b;
    sl.begin = b;
    sl.end = e;
    sl.failed = 0;
    sl.msg[0] = sl.note[0] = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) worker(j, s, b, e);
    return p;
}

// Runs [b,e) in one fresh process, with a generous wall clock limit.
static Outcome run_alone(const Job& j, uint64_t b, uint64_t e)
{
    pid_t p = start(j, NSLOT - 1, b, e);
    double t0 = now();
    int st;
    uint64_t last = ~0ull;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (sh->slot[NSLOT - 1].cur != last) { last = sh->slot[NSLOT - 1].cur; t0 = now(); }
        if (now() - t0 > std::max(150, 2 * j.hang_cpu))
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            Outcome o;
            o.ok = false;
            o.idx = sh->slot[NSLOT - 1].cur;
            o.begin = b;
            o.msg = "no return (blocked)";
            o.note = sh->slot[NSLOT - 1].note;
            return o;
        }
        usleep(500);
    }
    return collect(NSLOT - 1, st);
}

static std::vector<std::string> known;   // "job<TAB>note-substring"

static int main_run(const std::string& statfile, int nproc, const std::string& only)
{
    FILE* sf = fopen(statfile.c_str(), "w");
    if (!sf) { perror(statfile.c_str()); return 2; }
    std::string perjob;
    bool bad = false;
    std::vector<std::string> knownhits;
    for (auto& j : jobs)
    {
        if (!only.empty() && j.name.find(only) == std::string::npos) continue;
        if (("," + skipped + ",").find("," + j.name + ",") != std::string::npos) continue;
        double t0 = now();
        uint64_t ev0 = sh->evals;
        uint64_t chunk = j.chunk ? j.chunk : std::max<uint64_t>(1, std::min<uint64_t>(20000, j.count / (nproc * 6) + 1));
        uint64_t next = 0;
        std::vector<pid_t> pid(nproc, 0);
        std::vector<uint64_t> last(nproc, 0);
        std::vector<double> lastt(nproc, 0);
        std::vector<std::pair<uint64_t, uint64_t>> resume;
        Outcome first;
        int running = 0;
        while (true)
        {
            for (int s = 0; s < nproc && first.ok; s++)
            {
                if (pid[s]) continue;
                uint64_t b, e;
                if (!resume.empty()) { b = resume.back().first; e = resume.back().second; resume.pop_back(); }
                else if (next < j.count) { b = next; e = std::min(j.count, next + chunk); next = e; }
                else break;
                pid[s] = start(j, s, b, e);
                last[s] = b;
                lastt[s] = now();
                running++;
            }
            if (!running) break;
            bool progress = false;
            for (int s = 0; s < nproc; s++)
            {
                if (!pid[s]) continue;
                int st;
                pid_t r = waitpid(pid[s], &st, WNOHANG);
                if (r == pid[s])
                {
                    pid[s] = 0;
                    running--;
                    progress = true;
                    Outcome o = collect(s, st);
                    if (!o.ok)
                    {
                        bool isknown = false;
                        for (auto& k : known)
                        {
                            size_t t = k.find('\t');
                            if (k.substr(0, t) == j.name && o.note.find(k.substr(t + 1)) != std::string::npos) { isknown = true; knownhits.push_back(k); break; }
                        }
                        if (isknown)
                        {
                            if (o.idx + 1 < sh->slot[s].end) resume.push_back({o.idx + 1, (uint64_t)sh->slot[s].end});
                        }
                        else if (first.ok) first = o;
                    }
                    continue;
                }
                if (sh->slot[s].cur != last[s]) { last[s] = sh->slot[s].cur; lastt[s] = now(); }
                else if (now() - lastt[s] > std::max(120, 2 * j.hang_cpu)) kill(pid[s], SIGKILL);
                if (!first.ok) kill(pid[s], SIGKILL);
            }
            if (!progress) usleep(300);
        }
        double dt = now() - t0;
        perjob += strf("%s{\"job\":\"%s\",\"cases\":%llu,\"of\":%llu,\"wall_s\":%.2f}", perjob.empty() ? "" : ",", j.name.c_str(), (unsigned long long)(sh->evals - ev0), (unsigned long long)j.count, dt);
        if (!first.ok)
        {
            // Confirm: the single case alone, then with the history of its chunk.
            Outcome r;
            uint64_t b = first.idx, e = first.idx + 1;
            for (int k = 0; k < 3 && r.ok; k++) r = run_alone(j, b, e);
            bool history = false;
            if (r.ok)
            {
                b = first.begin;
                for (int k = 0; k < 2 && r.ok; k++) r = run_alone(j, b, e);
                history = true;
            }
            bool confirmed = !r.ok;
            if (!confirmed) r = first;
            fprintf(stdout, "%s job=%s case=%llu%s\n  %s\n  %s\n", confirmed ? "FAILURE" : "UNCONFIRMED", j.name.c_str(), (unsigned long long)r.idx,
                    history ? strf(" after the cases from %llu", (unsigned long long)b).c_str() : "", r.note.c_str(), r.msg.c_str());
            fprintf(sf, "FAIL\t%s\t%llu\t%llu\t%d\n", j.name.c_str(), (unsigned long long)b, (unsigned long long)(r.idx + 1), confirmed ? 1 : 0);
            bad = true;
            break;
        }
    }
    std::sort(knownhits.begin(), knownhits.end());
    knownhits.erase(std::unique(knownhits.begin(), knownhits.end()), knownhits.end());
    for (auto& k : knownhits) fprintf(sf, "KNOWN\t%s\n", k.c_str());
    fprintf(sf, "STAT\tevals\t%llu\nSTAT\ttransitions\t%llu\nSTAT\ttraces\t%llu\nSTAT\tnontrivial\t%llu\nSTAT\tskipped\t%llu\nSTAT\tstates\t%llu\nSTAT\tstates_full\t%llu\n",
            (unsigned long long)sh->evals, (unsigned long long)sh->transitions, (unsigned long long)sh->traces, (unsigned long long)sh->nontrivial,
            (unsigned long long)sh->skipped, (unsigned long long)sh->nstates, (unsigned long long)sh->states_full);
    fprintf(sf, "JOBS\t[%s]\n", perjob.c_str());
    for (uint64_t i = 0; i < sh->nsamp && i < NSAMP; i++) fprintf(sf, "SAMPLE\t%s\n", quote(sh->samp[i]).c_str());
    fclose(sf);
    return bad ? 1 : 0;
}
}

int main(int argc, char** argv)
{
    std::string mode, stat, only, rjob;
    uint64_t rb = 0, re = 0;
    int nproc = 8;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--mode") mode = val();
        else if (a == "--stat") stat = val();
        else if (a == "--dir") outdir = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "-j") nproc = atoi(argv[++i]);
        else if (a == "--only") only = val();
        else if (a == "--list") list = true;
        else if (a == "--skip") skipped = val();
        else if (a == "--small") small_bounds = true;
        else if (a == "--finite") finite_values = true;
        else if (a == "--light") { safety = true; check_locks = false; }
        else if (a == "--known") known.push_back(val());
        else if (a == "--replay") { rjob = val(); rb = strtoull(argv[++i], 0, 10); re = strtoull(argv[++i], 0, 10); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    me = &dummy_slot_storage;
    if (nproc > NSLOT - 1) nproc = NSLOT - 1;
    if (outdir.empty()) outdir = "/tmp";
    if (!builders().count(mode))
    {
        for (auto& b : builders()) printf("%s\n", b.first.c_str());
        return 2;
    }
    builders()[mode]();
    if (list) { for (auto& j : jobs) printf("%s %llu\n", j.name.c_str(), (unsigned long long)j.count); return 0; }
    if (!rjob.empty())
    {
        verbose = true;
        for (auto& j : jobs) if (j.name == rjob)
        {
            Outcome o = run_alone(j, rb, re);
            printf("%s job=%s case=%llu\n  %s\n  %s\n", o.ok ? "OK" : "FAILURE", j.name.c_str(), (unsigned long long)o.idx, o.note.c_str(), o.msg.c_str());
            return o.ok ? 0 : 1;
        }
        fprintf(stderr, "no such job\n");
        return 2;
    }
    return main_run(stat.empty() ? "/dev/null" : stat, nproc, only);
}
