#include "sched.hpp"
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <string>
using namespace vf;

extern char __start_vfdata[] __attribute__((weak)), __stop_vfdata[] __attribute__((weak));
extern char __start_vfbss[] __attribute__((weak)), __stop_vfbss[] __attribute__((weak));

namespace sched {
// ---- memory ------------------------------------------------------------------
// One arena per thread (and one for the main thread), small and large parts.
// Nothing is reused within a schedule, so addresses only depend on what the
// allocating thread did before, and released memory stays recognisable.
static const size_t SMALL = 4 << 20, LARGE = 12 << 20, PART = SMALL + LARGE;
static const size_t BIG = 65536;
static char* base;
static size_t total;
static unsigned char* alive;   // per granule of 8 bytes: 1 allocated, 2 released
static unsigned char* flags;   // per granule: low half: threads accessing it, high half: threads writing it
static std::vector<unsigned char> sflags[2];   // static data of the library
struct Arena { size_t small, large; };
static Arena ar[MAXT + 1], ar0;
static int64_t nlive, nlive0;
static int cur = -1;           // running thread, -1: main
static bool hooks;             // setup or schedule is running

static std::vector<char> snap_small, snap_large, snap_as, snap_al, snap_s[2];

static void init_mem()
{
    if (base) return;
    total = PART * (MAXT + 1);
    base = (char*)mmap((void*)0x200000000000, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    alive = (unsigned char*)mmap(nullptr, total / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    flags = (unsigned char*)mmap(nullptr, total / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || alive == MAP_FAILED || flags == MAP_FAILED) { perror("mmap"); _exit(3); }
    sflags[0].resize((__stop_vfdata - __start_vfdata) / 8 + 2);
    sflags[1].resize((__stop_vfbss - __start_vfbss) / 8 + 2);
}
struct Hdr { size_t n; size_t magic; };
static char* part(int t) { return base + (size_t)t * PART; }
static void* take(size_t n, bool zero, size_t align = 16)
{
    int t = cur + 1;
    if (align > 16)
    {
        size_t& used = n >= BIG ? ar[t].large : ar[t].small;
        char* p = part(t) + (n >= BIG ? SMALL : 0) + used + sizeof(Hdr);
        used += (align - (size_t)p % align) % align;
    }
    size_t need = ((n ? n : 1) + 15) / 16 * 16 + 2 * sizeof(Hdr);
    char* p;
    if (n >= BIG)
    {
        need = (need + 4095) / 4096 * 4096;
        if (ar[t].large + need > LARGE) hard_fail("the scenario allocates too much memory");
        p = part(t) + SMALL + ar[t].large;
        ar[t].large += need;
    }
    else
    {
        if (ar[t].small + need > SMALL) hard_fail("the scenario allocates too many blocks");
        p = part(t) + ar[t].small;
        ar[t].small += need;
    }
    Hdr* h = (Hdr*)p;
    h->n = n;
    h->magic = 0x1234567;
    p += sizeof(Hdr);
    memset(alive + (p - base) / 8, 1, ((n ? n : 1) + 7) / 8);
    if (!zero) memset(p, 0xA5, std::min<size_t>(n, 4096));
    else if (n < BIG) memset(p, 0, n);
    nlive++;
    return p;
}
static void drop(void* v)
{
    char* p = (char*)v;
    if (p < base || p >= base + total) hard_fail("memory that was not allocated (%p) is released", v);
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (alive[(p - base) / 8] == 2) hard_fail("memory of %zu bytes is released twice", h->n);
    if (h->magic != 0x1234567) hard_fail("memory that was not allocated (%p) is released", v);
    memset(alive + (p - base) / 8, 2, ((h->n ? h->n : 1) + 7) / 8);
    nlive--;
}
void* arena_alloc(size_t n) { int c = cur; cur = -1; void* p = take(n, true); memset(p, 0, n); nlive--; cur = c; return p; }
int64_t live() { return nlive; }

static char* sbeg(int k) { return k ? __start_vfbss : __start_vfdata; }
static char* send_(int k) { return k ? __stop_vfbss : __stop_vfdata; }
static std::vector<char> pristine[2];
static void save()
{
    ar0 = ar[0];
    nlive0 = nlive;
    snap_small.assign(part(0), part(0) + ar[0].small);
    snap_large.assign(part(0) + SMALL, part(0) + SMALL + ar[0].large);
    snap_as.assign((char*)alive, (char*)alive + ar[0].small / 8);
    snap_al.assign((char*)alive + SMALL / 8, (char*)alive + (SMALL + ar[0].large) / 8);
    for (int k = 0; k < 2; k++) snap_s[k].assign(sbeg(k), send_(k));
}
static void clean(int t, size_t small_from, size_t large_from)
{
    size_t g = (size_t)t * PART;
    memset(alive + (g + small_from) / 8, 0, (ar[t].small - small_from) / 8);
    if (ar[t].large > large_from)
    {
        memset(alive + (g + SMALL + large_from) / 8, 0, (ar[t].large - large_from) / 8);
        madvise(base + g + SMALL + large_from, ar[t].large - large_from, MADV_DONTNEED);
    }
}
static void restore()
{
    clean(0, ar0.small, ar0.large);
    for (int t = 1; t <= MAXT; t++) { clean(t, 0, 0); ar[t] = Arena(); }
    ar[0] = ar0;
    nlive = nlive0;
    memcpy(part(0), snap_small.data(), snap_small.size());
    memcpy(part(0) + SMALL, snap_large.data(), snap_large.size());
    memcpy(alive, snap_as.data(), snap_as.size());
    memcpy(alive + SMALL / 8, snap_al.data(), snap_al.size());
    for (int k = 0; k < 2; k++) memcpy(sbeg(k), snap_s[k].data(), snap_s[k].size());
}
uint64_t hash_state()
{
    uint64_t h = 1;
    for (int t = 0; t <= MAXT; t++) h = hash_bytes(part(t), std::min<size_t>(ar[t].small, 2048), h);
    return h;
}

// ---- scheduler -----------------------------------------------------------------
struct Fiber { ucontext_t uc; char* stack; bool done; void* waits; };
static Fiber fib[MAXT];
static int nthr;
static ucontext_t main_uc;
static const Scenario* scen;
struct Node { unsigned char chosen, enabled; signed char running; };   // running: -1 if it can not go on
static std::vector<Node> trace;
static std::vector<unsigned char> prefix;
static bool changed;           // the set of shared granules grew
static uint64_t nshared, stat_points;
static uint64_t spins;
static char hostlock;
struct Mutex { void* id; int owner; };
static std::vector<Mutex> mutexes;
static Mutex& mutex(void* id)
{
    for (auto& m : mutexes) if (m.id == id) return m;
    mutexes.push_back({id, -2});
    return mutexes.back();
}
static unsigned enabled()
{
    unsigned m = 0;
    for (int t = 0; t < nthr; t++) if (!fib[t].done && (!fib[t].waits || mutex(fib[t].waits).owner == -2)) m |= 1u << t;
    return m;
}
static void swtch(int to)
{
    int from = cur;
    if (to == from) return;
    cur = to;
    if (from < 0) swapcontext(&main_uc, &fib[to].uc);
    else if (to < 0) swapcontext(&fib[from].uc, &main_uc);
    else swapcontext(&fib[from].uc, &fib[to].uc);
}
static std::string schedule_text();
// running: thread that could go on, or -1
static int decide(int running)
{
    unsigned en = enabled();
    if (!en) return -1;
    stat_points++;
    if (!(en & (en - 1))) return __builtin_ctz(en);
    size_t k = trace.size();
    int c = running >= 0 ? running : __builtin_ctz(en);
    if (k < prefix.size())
    {
        if (en >> prefix[k] & 1) c = prefix[k];
        else if (!changed) hard_fail("internal: schedule can not be repeated");
    }
    trace.push_back({(unsigned char)c, (unsigned char)en, (signed char)running});
    if (trace.size() > 200000) hard_fail("a thread does not return");
    return c;
}
static void point()
{
    int c = decide(cur);
    if (c != cur) swtch(c);
}
static void block()            // the running thread can not go on
{
    int c = decide(-1);
    if (c < 0)
    {
        note("%s: %s", scen->name.c_str(), schedule_text().c_str());
        hard_fail("deadlock: all threads wait for the lock");
    }
    swtch(c);
}
static std::string schedule_text()
{
    std::string s = "switches (after decision: thread)";
    int last = -1;
    for (size_t i = 0; i < trace.size(); i++) if (trace[i].chosen != last) { last = trace[i].chosen; s += strf(" %zu:%d", i, last); }
    return s + strf(" of %zu", trace.size());
}
static void lock(void* id)
{
    if (!hooks) return;
    if (cur >= 0) point();
    if (mutex(id).owner == cur) { note("%s: %s", scen->name.c_str(), schedule_text().c_str()); hard_fail("deadlock: the lock function is called by the thread holding the lock"); }
    while (mutex(id).owner != -2)
    {
        if (cur < 0) hard_fail("the lock is still held after all threads returned");
        fib[cur].waits = id;
        block();
        fib[cur].waits = nullptr;
    }
    mutex(id).owner = cur;
}
static void unlock(void* id)
{
    if (!hooks) return;
    if (mutex(id).owner != cur) { note("%s: %s", scen->name.c_str(), schedule_text().c_str()); hard_fail("the unlock function is called by a thread not holding the lock"); }
    mutex(id).owner = -2;
    if (cur >= 0) point();
}
static inline bool touch(unsigned char& f, bool w)
{
    unsigned char n = f | (1u << cur) | (w ? 16u << cur : 0);
    if (n != f)
    {
        auto sh = [](unsigned char x) { unsigned a = (x | x >> 4) & 15; return (a & (a - 1)) && (x >> 4); };
        if (sh(n) && !sh(f)) { changed = true; nshared++; }
        f = n;
    }
    unsigned a = (n | n >> 4) & 15;
    return (a & (a - 1)) && (n >> 4);
}
static void access(const void* p, size_t n, bool w)
{
    if (!hooks || !n) return;
    const char* c = (const char*)p;
    if (c >= base && c < base + total)
    {
        size_t g = (c - base) / 8, e = (c + n - 1 - base) / 8;
        bool s = false;
        for (; g <= e; g++)
        {
            if (alive[g] != 1)
            {
                note("%s: %s", scen->name.c_str(), schedule_text().c_str());
                hard_fail("thread %d %s memory that is %s", cur, w ? "writes to" : "reads", alive[g] == 2 ? "released" : "not allocated");
            }
            if (cur >= 0) s |= touch(flags[g], w);
        }
        if (s) point();
        return;
    }
    if (cur < 0) return;
    for (int k = 0; k < 2; k++)
        if (c >= sbeg(k) && c < send_(k))
        {
            size_t g = (c - sbeg(k)) / 8, e = (c + n - 1 - sbeg(k)) / 8;
            bool s = false;
            for (; g <= e && g < sflags[k].size(); g++) s |= touch(sflags[k][g], w);
            if (s) point();
            return;
        }
}
static void entry(int t)
{
    scen->threads[t]();
    fib[t].done = true;
    int c = decide(-1);
    if (c < 0)
    {
        for (int k = 0; k < nthr; k++) if (!fib[k].done)
        {
            note("%s: %s", scen->name.c_str(), schedule_text().c_str());
            hard_fail("deadlock: thread %d waits for a lock nobody releases", k);
        }
    }
    cur = c;
    setcontext(c < 0 ? &main_uc : &fib[c].uc);
}
static void run_schedule()
{
    restore();
    mutexes.clear();
    trace.clear();
    changed = false;
    if (scen->reset) scen->reset();
    for (int t = 0; t < nthr; t++)
    {
        Fiber& f = fib[t];
        if (!f.stack) f.stack = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        f.done = false;
        f.waits = nullptr;
        getcontext(&f.uc);
        f.uc.uc_stack.ss_sp = f.stack;
        f.uc.uc_stack.ss_size = 1 << 20;
        f.uc.uc_link = nullptr;
        makecontext(&f.uc, (void (*)())entry, 1, t);
    }
    int c = decide(-1);
    swtch(c);
    cur = -1;
    note("%s: %s", scen->name.c_str(), schedule_text().c_str());
    scen->check();
    if (mutex(&hostlock).owner != -2) hard_fail("the lock is still held after all threads returned");
    if (nlive) hard_fail("%lld blocks of memory are leaked", (long long)nlive);
}

Result explore(const Scenario& s, int P, uint64_t max)
{
    init_mem();
    scen = &s;
    nthr = s.threads.size();
    Result r = {0, 0, 0, 0, 0, true};
    for (int k = 0; k < 2; k++)
    {   // the library's static data as the process found it
        if (pristine[k].empty()) pristine[k].assign(sbeg(k), send_(k));
        else memcpy(sbeg(k), pristine[k].data(), pristine[k].size());
        std::fill(sflags[k].begin(), sflags[k].end(), 0);
    }
    madvise(flags, total / 8, MADV_DONTNEED);
    madvise(alive, total / 8, MADV_DONTNEED);
    madvise(base, total, MADV_DONTNEED);
    for (auto& a : ar) a = Arena();
    nlive = 0;
    cur = -1;
    hooks = true;
    mutexes.clear();
    note("%s: setup", s.name.c_str());
    s.setup();
    save();
    nshared = 0;
    stat_points = 0;
restart:
    prefix.clear();
    r.restarts++;
    r.schedules = 0;
    for (;;)
    {
        run_schedule();
        r.schedules++;
        st_transitions(trace.size() + 1);
        r.maxpoints = std::max<uint64_t>(r.maxpoints, trace.size());
        if (getenv("VF_TRACE")) { std::string z; for (auto& n : trace) z += strf(" %d/%x/%d", n.chosen, n.enabled, n.running); FILE* f = fopen("/tmp/trace.log", "a"); fprintf(f, "%zu:%s\n", trace.size(), z.substr(0, 600).c_str()); fclose(f); }
        if (changed) goto restart;
        // next schedule: deepest decision with an untried alternative within the bound
        std::vector<int> pre(trace.size() + 1, 0);
        for (size_t i = 0; i < trace.size(); i++) pre[i + 1] = pre[i] + (trace[i].running >= 0 && trace[i].chosen != trace[i].running);
        bool found = false;
        for (size_t i = trace.size(); i-- > 0 && !found;)
        {
            const Node& n = trace[i];
            int dflt = n.running >= 0 ? n.running : __builtin_ctz(n.enabled);
            if (P >= 0 && n.running >= 0 && pre[i] + 1 > P) continue;
            // order: default, then ascending
            for (int t = n.chosen == dflt ? 0 : n.chosen + 1; t < nthr; t++)
            {
                if (t == dflt || !(n.enabled >> t & 1)) continue;
                prefix.resize(i);
                for (size_t k = 0; k < i; k++) prefix[k] = trace[k].chosen;
                prefix.push_back(t);
                found = true;
                break;
            }
        }
        if (!found) break;
        if (r.schedules >= max) { r.complete = false; break; }
    }
    hooks = false;
    r.points = stat_points;
    r.shared = nshared;
    return r;
}
}
using namespace sched;

extern "C" {
void projectm_eval_memory_host_lock_mutex() { lock(&hostlock); }
void projectm_eval_memory_host_unlock_mutex() { unlock(&hostlock); }

void* vs_malloc(size_t n) { return hooks ? take(n, false) : malloc(n); }
void* vs_calloc(size_t a, size_t b) { return hooks ? take(a * b, true) : calloc(a, b); }
void vs_free(void* p) { if (p) { if (hooks) drop(p); else free(p); } }
void* vs_realloc(void* p, size_t n)
{
    if (!hooks) return realloc(p, n);
    if (!p) return take(n, false);
    if (!n) { drop(p); return nullptr; }
    size_t o = ((Hdr*)((char*)p - sizeof(Hdr)))->n;
    void* q = take(n, false);
    memcpy(q, p, o < n ? o : n);
    drop(p);
    return q;
}
void* vs_reallocarray(void* p, size_t a, size_t b) { return vs_realloc(p, a * b); }
void* vs_aligned_alloc(size_t a, size_t n) { return hooks ? take(n, false, a) : aligned_alloc(a, n); }
void* vs_memalign(size_t a, size_t n) { return vs_aligned_alloc(a, n); }
int vs_posix_memalign(void** r, size_t a, size_t n) { void* p = vs_aligned_alloc(a, n); if (!p) return ENOMEM; access(r, sizeof *r, true); *r = p; return 0; }
int vs_vasprintf(char** r, const char* f, va_list ap)
{
    char* t = nullptr;
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    char* p = (char*)vs_malloc(n + 1);
    memcpy(p, t, n + 1);
    free(t);
    access(r, sizeof *r, true);
    *r = p;
    return n;
}
int vs_asprintf(char** r, const char* f, ...) { va_list ap; va_start(ap, f); int n = vs_vasprintf(r, f, ap); va_end(ap); return n; }
char* vs_strchr(const char* s, int c) { access(s, strlen(s) + 1, false); return strchr((char*)s, c); }
char* vs_strrchr(const char* s, int c) { access(s, strlen(s) + 1, false); return strrchr((char*)s, c); }
int vs_memcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); return memcmp(a, b, n); }
char* vs_stpcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access(s, n, false); access(d, n, true); return stpcpy(d, s); }
long vs_strtol(const char* a, char** e, int b) { access(a, strlen(a) + 1, false); return strtol(a, e, b); }
float vs_strtof(const char* a, char** e) { access(a, strlen(a) + 1, false); return strtof(a, e); }
char* vs_strdup(const char* s) { size_t n = strlen(s) + 1; access(s, n, false); char* p = (char*)vs_malloc(n); memcpy(p, s, n); return p; }
char* vs_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); access(s, n, false); char* p = (char*)vs_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

// library functions accessing memory on behalf of the library
void* vs_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* vs_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* vs_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
size_t vs_strlen(const char* s) { size_t n = strlen(s); access(s, n + 1, false); return n; }
char* vs_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access(s, n, false); access(d, n, true); return strcpy(d, s); }
char* vs_strncpy(char* d, const char* s, size_t m) { access(s, strnlen(s, m), false); access(d, m, true); return strncpy(d, s, m); }
char* vs_strcat(char* d, const char* s) { access(s, strlen(s) + 1, false); access(d, strlen(d) + strlen(s) + 1, true); return strcat(d, s); }
int vs_strcmp(const char* a, const char* b) { access(a, strlen(a) + 1, false); access(b, strlen(b) + 1, false); return strcmp(a, b); }
int vs_strncmp(const char* a, const char* b, size_t n) { access(a, strnlen(a, n), false); access(b, strnlen(b, n), false); return strncmp(a, b, n); }
int vs_strcasecmp(const char* a, const char* b) { access(a, strlen(a) + 1, false); access(b, strlen(b) + 1, false); return strcasecmp(a, b); }
int vs_atoi(const char* a) { access(a, strlen(a) + 1, false); return atoi(a); }
double vs_atof(const char* a) { access(a, strlen(a) + 1, false); return atof(a); }
double vs_strtod(const char* a, char** e) { access(a, strlen(a) + 1, false); return strtod(a, e); }
int vs_vsnprintf(char* d, size_t n, const char* f, va_list ap) { int r = vsnprintf(d, n, f, ap); if (n) access(d, std::min<size_t>(n, r + 1), true); return r; }
int vs_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); if (n) access(d, std::min<size_t>(n, r + 1), true); return r; }
int vs_vsprintf(char* d, const char* f, va_list ap) { int r = vsprintf(d, f, ap); access(d, r + 1, true); return r; }
int vs_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); access(d, r + 1, true); return r; }

// mutexes of the C library
#define MUTEX(p) \
    int p##_lock(void* m) { lock(m); return 0; } \
    int p##_unlock(void* m) { unlock(m); return 0; } \
    int p##_init(void*, void*) { return 0; } \
    int p##_destroy(void*) { return 0; }
MUTEX(vs_pthread_mutex)
MUTEX(vs_mtx)
int vs_pthread_once(int* c, void (*f)(void)) { lock(c); int d = *c; *c = 1; if (!d) f(); unlock(c); return 0; }
void vs_call_once(int* c, void (*f)(void)) { vs_pthread_once(c, f); }

// hooks of the instrumented code
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } \
    void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return vs_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return vs_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return vs_memset(d, c, n); }
// a thread that only spins on atomics lets the others run
static void spin() { if (cur >= 0 && ++spins % 64 == 0) { unsigned e = enabled() & ~(1u << cur); if (e) swtch(__builtin_ctz(e >> (cur + 1) ? e >> (cur + 1) << (cur + 1) : e)); } }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { access((void*)p, sizeof(T), false); spin(); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); spin(); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); spin(); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
