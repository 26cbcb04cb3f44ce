// The ns-eel2 shim (C20): every history through either interface, or mixed
// call by call, behaves the same and matches an explicit-state model.
#include "duo.hpp"
#include "gram.hpp"
#include <memory>
#include <malloc.h>
#include <climits>
#include "ns-eel.h"
using namespace vf;

static void idle(const char* w) { lock_idle(w); }
static Ctx* C(void* p) { return (Ctx*)p; }

// ---- one call through the native (0) or the shim (1) interface --------------
namespace api {
static void* alloc(int s) { return s ? NSEEL_VM_alloc() : (void*)projectm_eval_context_create(nullptr, nullptr); }
static void release(int s, void* c) { if (s) NSEEL_VM_free(c); else projectm_eval_context_destroy(C(c)); }
static F* var(int s, void* c, const char* n) { return s ? (F*)NSEEL_VM_regvar(c, n) : projectm_eval_context_register_variable(C(c), n); }
static void* compile(int s, void* c, const char* t, int off = 0)
{
    if (!s) return projectm_eval_code_compile(C(c), t);
    std::string b(t);
    void* h = NSEEL_code_compile(c, &b[0], off);
    if (b != t) fail("NSEEL_code_compile modifies the source text");
    return h;
}
static void exec(int s, void* h) { if (s) NSEEL_code_execute(h); else projectm_eval_code_execute((Code*)h); }
static void code_free(int s, void* h) { if (s) NSEEL_code_free(h); else projectm_eval_code_destroy((Code*)h); }
static void reset(int s, void* c) { if (s) NSEEL_VM_resetvars(c); else projectm_eval_context_reset_variables(C(c)); }
static void free_ram(int s, void* c) { if (s) NSEEL_VM_freeRAM(c); else projectm_eval_context_free_memory(C(c)); }
static void quit(int s) { if (s) NSEEL_quit(); else projectm_eval_memory_global_destroy(); }
static void free_gram(int s, projectm_eval_mem_buffer b) { if (s) NSEEL_VM_FreeGRAM((void**)b); else projectm_eval_memory_buffer_destroy(b); }
}

namespace c20 {
static const char* P = "A=a+1;b=B+a;megabuf(2)=megabuf(2)+a;gmem[3]=gmem[3]*2+a;reg07=reg07+1;n=rand(5)*0+a";
static const char* R = "x=gmem[3]+megabuf(2)*16;a=x+reg07;loop(2,b=b+1)";
static const char* broken1 = "a=50;reg07=60;gmem[3]=70;\n b=sin(2,3)+1;";
static const char* broken2 = "a=50;reg07=60;gmem[3]=70;\n\n  q=(1;2";
enum { PER = 14, NOPS = 2 * PER + 1 };
static const char* opname[] = {"alloc", "free", "regvar a, write 10", "compile P", "compile R", "compile a wrong call", "compile a syntax error", "execute P", "execute R", "free code P", "resetvars", "freeRAM", "SetGRAM(1)", "SetGRAM(2)"};
struct M { bool alive; F a, b, x, n, m2; int gm; int hgm[2]; bool h[2]; bool dead[2]; int err; };
struct Step { bool operator==(const Step& o) const { return live == o.live && bytes == o.bytes && locks == o.locks && err == o.err; } int64_t live, bytes; uint64_t locks; std::string err; };

// false: the history is not a legal one
static bool history(uint64_t ops, int depth, uint64_t mask, std::vector<Step>& trace, bool& known_trace)
{
    trace.clear();
    Ledger base = led;
    uint64_t locks0 = lock_count;
    std::string log;
    M m[2];
    memset(m, 0, sizeof m);
    void* c[2] = {nullptr, nullptr};
    F* pa[2];
    void* h[2][2] = {{nullptr, nullptr}, {nullptr, nullptr}};
    projectm_eval_mem_buffer gb[2];
    for (auto& g : gb) g = projectm_eval_memory_buffer_create();
    F g3[3] = {0, 0, 0}, reg7 = 0;
    int step = 0;
    auto s = [&]() { return int(mask >> (step % 60) & 1); };
    auto alloc = [&](int k) {
        c[k] = api::alloc(s());
        if (!c[k]) fail("allocating a context fails");
        pa[k] = api::var(s(), c[k], "a");
        m[k].alive = true;
        m[k].a = m[k].b = m[k].x = m[k].n = m[k].m2 = 0;
        m[k].gm = 0;
        m[k].err = 0;
    };
    auto record = [&]() {
        Step t;
        t.live = led.live - base.live;
        t.bytes = led.bytes - base.bytes;
        t.locks = lock_count - locks0;
        // the messages of both contexts are asked for before either is used
        const char* messages[2] = {nullptr, nullptr};
        for (int k = 0; k < 2; k++) if (m[k].alive) messages[k] = NSEEL_code_getcodeerror(c[k]);
        for (int k = 0; k < 2; k++)
        {
            if (!m[k].alive) continue;
            int line = -1, col = -1;
            const char* en = projectm_eval_get_error(C(c[k]), &line, &col);
            const char* es = messages[k];
            if (!en != !es || (en && strcmp(en, es))) fail("context %d: the shim reports the error %s, the native interface %s", k, es ? quote(es).c_str() : "none", en ? quote(en).c_str() : "none");
            if (!en != !m[k].err) fail("context %d: %s", k, en ? "an error is reported after a success" : "no error is reported");
            if (en) t.err += strf("%d:%d:%s|", line, col, en);
            if (m[k].err) { if (!*en) fail("the error message is empty"); }
            if (*pa[k] != m[k].a) fail("a of context %d is %s, expected %s", k, show(*pa[k]).c_str(), show(m[k].a).c_str());
        }
        trace.push_back(t);
    };
    note_str(log);
    alloc(0);
    alloc(1);
    // built-in registers start with the value earlier histories left
    {
        F* r = api::var(s(), c[0], "REG07");
        *r = 0;
        if (api::var(!s(), c[1], "reg07") != r) fail("reg07 of two contexts differ");
    }
    idle("allocating contexts");
    record();
    bool legal = true;
    for (int d = 0; d < depth && legal; d++)
    {
        step++;
        int o = ops % NOPS;
        ops /= NOPS;
        if (o == 2 * PER)
        {
            // only without any context that uses the built-in buffer
            for (int k = 0; k < 2; k++) if (m[k].alive) legal = false;
            if (!legal) break;
            log += strf("%s quit | ", s() ? "shim" : "native");
            note_str(log);
            api::quit(s());
            g3[0] = 0;
            idle("quit");
            record();
            continue;
        }
        int k = o / PER;
        o %= PER;
        if (!m[k].alive && o != 0 && o != 9) { legal = false; break; }
        log += strf("%s %d: %s | ", s() ? "shim" : "native", k, opname[o]);
        note_str(log);
        auto comp = [&](int q, const char* t) {
            if (h[k][q]) api::code_free(s(), h[k][q]);
            h[k][q] = api::compile(s(), c[k], t, d * 3);
            if (!h[k][q]) fail("a valid program is rejected");
            m[k].hgm[q] = m[k].gm;
            m[k].h[q] = true;
            m[k].dead[q] = false;
            m[k].err = 0;
        };
        switch (o)
        {
        case 0:
            if (m[k].alive) { api::release(s(), c[k]); m[k].dead[0] = m[k].dead[1] = true; }
            alloc(k);
            break;
        case 1: api::release(s(), c[k]); m[k].alive = false; m[k].dead[0] = m[k].dead[1] = true; break;
        case 2:
        {
            F* p = api::var(s(), c[k], d & 1 ? "A" : "a");
            if (p != pa[k]) fail("the variable a has moved");
            *p = 10;
            m[k].a = 10;
            break;
        }
        case 3: comp(0, P); break;
        case 4: comp(1, R); break;
        case 5: case 6:
            if (api::compile(s(), c[k], o == 5 ? broken1 : broken2, d * 5)) fail("an invalid program is accepted");
            m[k].err = o;
            break;
        case 7:
            if (!h[k][0] || m[k].dead[0]) { legal = false; break; }
            api::exec(s(), h[k][0]);
            m[k].a += 1; m[k].b += m[k].a; m[k].m2 += m[k].a; g3[m[k].hgm[0]] = g3[m[k].hgm[0]] * 2 + m[k].a; reg7 += 1; m[k].n = m[k].a;
            break;
        case 8:
            if (!h[k][1] || m[k].dead[1]) { legal = false; break; }
            api::exec(s(), h[k][1]);
            m[k].x = g3[m[k].hgm[1]] + m[k].m2 * 16; m[k].a = m[k].x + reg7; m[k].b += 2;
            break;
        case 9:
            if (!h[k][0]) { legal = false; break; }
            api::code_free(s(), h[k][0]);
            h[k][0] = nullptr;
            break;
        case 10: api::reset(s(), c[k]); m[k].a = m[k].b = m[k].x = m[k].n = 0; break;
        case 11: api::free_ram(s(), c[k]); m[k].m2 = 0; break;
        case 12: case 13: NSEEL_VM_SetGRAM(c[k], (void**)gb[o - 12]); m[k].gm = o - 11; break;
        }
        if (!legal) break;
        idle("a call");
        st_transitions();
        record();
    }
    if (legal)
        for (int k = 0; k < 2; k++)
        {
            if (!m[k].alive) continue;
            step++;
            static const char* names[] = {"b", "x", "N", "reg07", "v1", "v2", "v3"};
            void* q = api::compile(s(), c[k], "v1=megabuf(2);v2=gmem[3];v3=reg07");
            if (!q) fail("a valid program is rejected");
            api::exec(s(), q);
            api::code_free(s(), q);
            F want[] = {m[k].b, m[k].x, m[k].n, reg7, m[k].m2, g3[m[k].gm], reg7};
            note_str(log);
            for (int x = 0; x < 7; x++)
            {
                F v = *api::var(s(), c[k], names[x]);
                if (v != want[x]) fail("finally %s of context %d is %s, expected %s", names[x], k, show(v).c_str(), show(want[x]).c_str());
            }
            st_state(hash_bytes(want, sizeof want));
            m[k].err = 0;
            record();
        }
    note_str(log + "destroy everything");
    for (int k = 0; k < 2; k++) for (int q = 0; q < 2; q++) if (h[k][q] && (k ^ q)) { api::code_free(s(), h[k][q]); h[k][q] = nullptr; }
    for (int k = 0; k < 2; k++) if (m[k].alive) api::release(s(), c[k]);
    for (int k = 0; k < 2; k++) for (int q = 0; q < 2; q++) if (h[k][q]) api::code_free(s(), h[k][q]);
    for (auto g : gb) api::free_gram(s(), g);
    api::quit(s());
    idle("destroying everything");
    if (led.live != base.live || led.bytes != base.bytes) fail("%lld blocks (%lld bytes) remain allocated", (long long)(led.live - base.live), (long long)(led.bytes - base.bytes));
    known_trace = legal;
    if (legal) { st_nontrivial(); if (mask) st_sample(log); }
    return legal;
}
static void run(uint64_t ops, int depth, bool all_masks)
{
    std::vector<Step> t0, t1;
    bool k;
    if (ops % NOPS >= PER) { st_skip(); return; }   // the contexts are interchangeable: the first call is for context 0 (quit is illegal there)
    if (!history(ops, depth, 0, t0, k)) { st_skip(); return; }
    auto with = [&](uint64_t mask) {
        history(ops, depth, mask, t1, k);
        st_trace();
        if (t1.size() != t0.size()) fail("histories differ in length");
        for (size_t n = 0; n < t0.size(); n++)
            if (!(t1[n] == t0[n]))
                fail("after call %zu: through the shim %lld blocks, %lld bytes, %llu lock calls, errors %s; natively %lld, %lld, %llu, %s", n, (long long)t1[n].live, (long long)t1[n].bytes, (unsigned long long)t1[n].locks, quote(t1[n].err).c_str(),
                     (long long)t0[n].live, (long long)t0[n].bytes, (unsigned long long)t0[n].locks, quote(t0[n].err).c_str());
    };
    if (all_masks) for (uint64_t m = 1; m < (2ull << depth); m++) with(m | (m & 1) << (depth + 1) | ((m >> 1 & 1) << (depth + 2)));
    else { with(~0ull); with(ops & 1 ? 0x5555555555555555ull : 0xAAAAAAAAAAAAAAAAull); if (thorough) with(ops & 1 ? 0xAAAAAAAAAAAAAAAAull : 0x5555555555555555ull); }
}
static void jobs()
{
    watch_tables = true;
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_TOP_PAD, 16 << 20);
    int D = lim(4, 5, 3);
    for (int d = 1; d <= D; d++)
    {
        Job j;
        j.name = strf("histories%d", d);
        j.count = 1;
        for (int k = 0; k < d; k++) j.count *= NOPS;
        bool all = d <= 3;
        j.init = []() { watch_tables = true; };
        j.run = [=](uint64_t i) { run(i, d, all); };
        add(j);
        if (d <= lim(2, 3, 0)) add_reused(j);
    }
    // longer histories of one context: the first two steps compile
    for (int d = 5; d <= lim(5, 6, 0); d++)
    {
        Job j;
        j.name = strf("one%d", d);
        j.count = 1;
        for (int k = 0; k < d - 1; k++) j.count *= PER;
        j.init = []() { watch_tables = true; };
        j.run = [=](uint64_t i) {
            uint64_t ops = 3, pw = NOPS;   // compile P first
            for (int k = 0; k < d - 1; k++) { ops += pw * (i % PER); i /= PER; pw *= NOPS; }
            run(ops, d, false);
        };
        add(j);
    }
    // texts: every token string up to a length, compiled and executed by both
    static const char* alphabet[] = {"a", "b", "2", "sin", "if", "gmem", "(", ")", "[", "]", ",", ";", "=", "-", "\n", "@"};
    static const int NA = sizeof alphabet / sizeof *alphabet;
    struct W { void* c; F *a, *b; };
    static W w[2];
    auto open = []() {
        watch_tables = true;
        for (int s = 0; s < 2; s++) { w[s].c = api::alloc(s); w[s].a = api::var(s, w[s].c, "a"); w[s].b = api::var(s, w[s].c, "b"); }
        // separate global buffers
        NSEEL_VM_SetGRAM(w[1].c, (void**)projectm_eval_memory_buffer_create());
    };
    auto both = [](const std::string& t, int off) {
        note("text %s, line offset %d", quote(t).c_str(), off);
        void* h[2];
        int64_t live[2];
        for (int s = 0; s < 2; s++)
        {
            *w[s].a = 3;
            *w[s].b = 5;
            int64_t l = led.live;
            h[s] = api::compile(s, w[s].c, t.c_str(), off);
            live[s] = led.live - l;
        }
        if (!h[0] != !h[1]) fail("accepted by one interface only");
        if (live[0] != live[1]) fail("%lld blocks are allocated through the shim, %lld natively", (long long)live[1], (long long)live[0]);
        const char* e[2];
        int line[2], col[2];
        for (int s = 0; s < 2; s++)
        {
            e[s] = NSEEL_code_getcodeerror(w[s].c);
            const char* n = projectm_eval_get_error(C(w[s].c), &line[s], &col[s]);
            if (!e[s] != !n || (n && strcmp(n, e[s]))) fail("NSEEL_code_getcodeerror and projectm_eval_get_error differ");
            if (!e[s] != !!h[s]) fail("an error is reported exactly if the compilation succeeds");
        }
        if (e[0] && strcmp(e[0], e[1])) fail("errors %s and %s", quote(e[0]).c_str(), quote(e[1]).c_str());
        if (line[0] != line[1] || col[0] != col[1]) fail("the error is at line %d, column %d, through the shim at line %d, column %d", line[0], col[0], line[1], col[1]);
        for (int r = 0; r < 2 && h[0]; r++)
        {
            uint64_t n[2];
            for (int s = 0; s < 2; s++) { uint64_t l = lock_count; api::exec(s, h[s]); n[s] = lock_count - l; idle("executing"); }
            if (n[0] != n[1]) fail("%llu lock calls through the shim, %llu natively", (unsigned long long)n[1], (unsigned long long)n[0]);
            if (!same(*w[0].a, *w[1].a) || !same(*w[0].b, *w[1].b)) fail("a and b become %s and %s, through the shim %s and %s", show(*w[0].a).c_str(), show(*w[0].b).c_str(), show(*w[1].a).c_str(), show(*w[1].b).c_str());
            st_state(hash_bytes(w[0].a, sizeof(F), hash_bytes(w[0].b, sizeof(F))));
        }
        if (h[0]) st_nontrivial();
        for (int s = 0; s < 2; s++) if (h[s]) api::code_free(s, h[s]);
        st_trace();
    };
    int n = lim(5, 6, 3);
    uint64_t tot = 0, pw = 1;
    for (int l = 0; l <= n; l++) { tot += pw; pw *= NA; }
    Job t;
    t.name = "texts";
    t.count = tot;
    t.init = open;
    t.run = [=](uint64_t i) {
        int l = 0;
        uint64_t pw = 1;
        uint64_t i0 = i;
        while (i >= pw) { i -= pw; pw *= NA; l++; }
        std::string x;
        for (int k = 0; k < l; k++) { pw /= NA; if (k) x += ' '; x += alphabet[i / pw]; i %= pw; }
        static const int offs[] = {0, 1, -1, 2, INT_MAX, INT_MIN, 1000};
        both(x, offs[i0 % 7]);
    };
    add(t);
    // programs of a grammar
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "b", "2", "reg03", "gmem[2]", "megabuf(a)"}) g->add("E", 1, l);
    for (auto b : {"({E})=({E})", "({E})+=({E})", "({E})*({E})", "loop({E},{E})", "({E};{E})", "({E})||({E})"}) g->add("E", 1, b);
    g->add("E", 1, "if({E},{E},{E})");
    for (int z = 1; z <= lim(6, 6, 3); z++)
    {
        Job p;
        p.name = strf("programs%d", z);
        p.count = g->count("E", z);
        if (!p.count) continue;
        p.init = open;
        p.run = [=](uint64_t i) {
            // both worlds share the built-in registers: same value before each
            std::string x = g->text("E", z, i);
            F* r = api::var(0, w[0].c, "reg03");
            *r = 4;
            note("program %s", x.c_str());
            F res[2][6];
            for (int s = 0; s < 2; s++)
            {
                *r = 4;
                *w[s].a = 3;
                *w[s].b = 0;
                api::free_ram(s, w[s].c);
                void* z = api::compile(s, w[s].c, "gmem[2]=7;megabuf(3)=2", 0);
                api::exec(s, z);
                api::code_free(s, z);
                void* h = api::compile(s, w[s].c, x.c_str(), 3);
                if (!h) fail("is rejected");
                api::exec(s, h);
                api::exec(s, h);
                api::code_free(!s, h);
                z = api::compile(s, w[s].c, "v1=gmem[2];v2=megabuf(3);v3=megabuf(2)");
                api::exec(!s, z);
                api::code_free(s, z);
                res[s][0] = *w[s].a; res[s][1] = *w[s].b; res[s][2] = *r;
                for (int q = 1; q <= 3; q++) res[s][2 + q] = *api::var(s, w[s].c, strf("V%d", q).c_str());
            }
            st_trace();
            for (int q = 0; q < 6; q++) if (!same(res[0][q], res[1][q])) fail("value %d is %s, through the shim %s", q, show(res[0][q]).c_str(), show(res[1][q]).c_str());
            st_state(hash_bytes(res[0], sizeof res[0]));
            idle("executing");
        };
        add(p);
        if (z <= lim(4, 5, 0)) add_reused(p);
    }
    // failing allocations in NSEEL_VM_alloc, names, NULL arguments
    Job o;
    o.name = "alloc-failures";
    o.count = 400;
    o.init = []() { watch_tables = true; };
    o.run = [](uint64_t i) {
        int s = i & 1;
        bool after = i >> 1 & 1;
        uint64_t k = i >> 2;
        // 3 allocations per function are made: spread the points over the whole creation
        uint64_t total;
        {
            uint64_t a0 = led.allocs;
            void* c = api::alloc(s);
            total = led.allocs - a0;
            api::release(s, c);
            api::quit(s);
        }
        for (uint64_t p = k; p < total; p += 100)
        {
            note("%s: allocation %llu%s fails", s ? "NSEEL_VM_alloc" : "projectm_eval_context_create", (unsigned long long)p, after ? " and all later" : "");
            Ledger b = led;
            fault_on(p, after ? ~0ull : p + 1, 0);
            void* c = api::alloc(s);
            fault_off();
            idle("allocating a context");
            if (c) fail("yields a context");
            api::quit(s);
            if (led.live != b.live) fail("%lld blocks remain allocated", (long long)(led.live - b.live));
            st_trace();
            st_nontrivial();
        }
        st_state(i);
    };
    add(o);
    Job v;
    v.name = "names";
    static const std::vector<std::string> names = {"a", "A", "x", "X1", "_", "reg00", "REG00", "reg99", "Reg42", "reg0", "reg100", "reg4x", "q1", "Q32", "abc_DEF", std::string(300, 'v'), "regx1", "e", "pi"};
    v.count = names.size() * names.size() * 2;
    v.run = [](uint64_t i) {
        const std::string &p = names[i % names.size()], &q = names[i / names.size() % names.size()];
        int s = int(i / names.size() / names.size());
        note("names %s and %s", p.c_str(), q.c_str());
        void* c = api::alloc(s);
        F* a = api::var(1, c, p.c_str());
        F* b = api::var(0, c, q.c_str());
        if (a != api::var(0, c, p.c_str()) || b != api::var(1, c, q.c_str())) fail("the interfaces return different variables");
        if ((a == b) != (ref::lower(p) == ref::lower(q))) fail("%s storage", a == b ? "same" : "different");
        *a = 0;
        *b = 0;
        void* h = api::compile(s, c, (p + "=" + p + "+2;" + q + "=" + q + "+3").c_str());
        if (!h) fail("is rejected");
        api::exec(!s, h);
        if (a == b ? *a != 5 : *a != 2 || *b != 3) fail("values %s and %s", show(*a).c_str(), show(*b).c_str());
        bool reg[2] = {a >= b && false, false};
        (void)reg;
        api::code_free(!s, h);
        api::reset(s, c);
        bool ra = ref::lower(p).substr(0, 3) == "reg" && p.size() == 5 && ref::isdig(p[3]) && ref::isdig(p[4]);
        if (!ra && *a != 0) fail("resetting does not clear %s", p.c_str());
        if (ra && *a == 0) fail("resetting clears %s", p.c_str());
        *a = *b = 0;
        api::release(!s, c);
        api::quit(s);
        st_trace();
        st_state(i);
    };
    add(v);
    Job z;
    z.name = "null";
    z.count = 1;
    z.run = [](uint64_t) {
        note("NULL handles and buffers");
        NSEEL_code_execute(nullptr);
        NSEEL_code_free(nullptr);
        NSEEL_VM_FreeGRAM(nullptr);
        NSEEL_quit();
        NSEEL_quit();
        idle("calls with NULL");
        // a context whose buffer is unset reads 0
        void* c = NSEEL_VM_alloc();
        F* a = (F*)NSEEL_VM_regvar(c, "a");
        char t[] = "a=5;gmem[1]=7;a=gmem[1]";
        void* h = NSEEL_code_compile(c, t, 0);
        NSEEL_code_execute(h);
        if (*a != 7) fail("gmem[1] is %s", show(*a).c_str());
        NSEEL_code_free(h);
        NSEEL_VM_free(c);
        NSEEL_quit();
        st_trace();
    };
    add(z);
}
}
MODE(C20) { c20::jobs(); }
