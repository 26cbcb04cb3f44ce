// Buffers: addressing (C09), memset and memcpy (C10), locking (C18),
// allocation failures (C19).
#include "duo.hpp"
#include "special.hpp"
#include <map>
#include <memory>
using namespace vf;

static Duo duo;
static void fresh()
{
    if (duo.w.c) duo.w.close();
    duo.open();
}

// =============================================================================
// C09
namespace c09 {
// notations: text with the index in a variable i (and the split of it in o and p), value in v
struct Notation { bool g; const char* read; const char* write; };
static const Notation notations[] = {
    {false, "megabuf(i)", "megabuf(i)=v"}, {false, "_mem(i)", "_mem(i)=v"}, {false, "i[]", "i[]=v"}, {false, "o[p]", "o[p]=v"}, {false, "(i)[0]", "assign(i[0],v)"},
    {false, "0+megabuf(o+p)", "_set(MegaBuf(o+p),v)"}, {false, "if(1,i[],3)", "if(1,i[],3)=v"}, {false, "exec2(1,i[])", "exec2(1,i[])=v"},
    {true, "gmegabuf(i)", "gmegabuf(i)=v"}, {true, "_gmem(i)", "_gmem(i)=v"}, {true, "gmem[i]", "gmem[i]=v"}, {true, "0+gmem[o+p]", "assign(GMEM[o+p],v)"}, {true, "exec2(1,gmem[i])", "exec2(1,gmem[i])=v"},
};
static const int NN = sizeof notations / sizeof *notations;
static Code *rd[NN], *wr[NN], *fb;
static F *pi_, *po, *pp, *pv;
static void init()
{
    fresh();
    for (int k = 0; k < NN; k++)
    {
        rd[k] = projectm_eval_code_compile(duo.w.c, notations[k].read);
        wr[k] = projectm_eval_code_compile(duo.w.c, notations[k].write);
        if (!rd[k] || !wr[k]) { note("%s / %s", notations[k].read, notations[k].write); fail("does not compile"); }
    }
    fb = projectm_eval_code_compile(duo.w.c, "freembuf(i)");
    if (!fb) fail("freembuf(i) does not compile");
    pi_ = projectm_eval_context_register_variable(duo.w.c, "i");
    po = projectm_eval_context_register_variable(duo.w.c, "o");
    pp = projectm_eval_context_register_variable(duo.w.c, "p");
    pv = projectm_eval_context_register_variable(duo.w.c, "v");
}
static void index(double i)
{
    *pi_ = (F)i;
    double h = trunc(i / 2);
    if (!(fabs(i) < 1e9) || (F)h + (F)(i - h) != (F)i) h = 0;
    *po = (F)h;
    *pp = (F)(i - h);
}
static F get(int n, double i) { index(i); st_transitions(); return projectm_eval_code_execute(rd[n]); }
static F put(int n, double i, F v) { index(i); *pv = v; st_transitions(); return projectm_eval_code_execute(wr[n]); }
static int slot(double i) { double k = floor((double)(F)i + 0.0001); return k >= 0 && k < SLOTS ? (int)k : -1; }
static std::vector<double> edges()
{
    std::vector<double> v;
    for (int b = 0; b <= 128; b++) for (int d = -2; d <= 1; d++) v.push_back(b * 65536.0 + d);
    for (double d : {-3., -65535., -65536., -65537., -8388608., -8388607., 8388610., 16777216., 16777215., 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 4294967297., 4295032832., 1e10, -1e10, 9.3e18, -9.3e18, 1.8446744073709552e19, 1e30})
        v.push_back(d);
    if (sizeof(F) == 8) for (double d : {1e300, -1e300}) v.push_back(d);
    for (double d : {INFINITY, -INFINITY, NAN}) v.push_back(d);
    for (double d : {3., 100., 255., 256., 4095., 32768., 40000., 1000000., 5000000., 8000000.}) v.push_back(d);
    return v;
}
static std::vector<double> fractions()
{
    std::vector<double> v;
    std::vector<double> base = {-65537, -65536, -3, -2, -1, 0, 1, 2, 100, 65534, 65535, 65536, 131071, 131072};
    std::vector<double> frac = {0.0002, 0.001, 0.1, 0.25, 0.4999, 0.5, 0.5001, 0.75, 0.9, 0.99, 0.999, 0.9998, 0.9999001, 0.99991, 0.99995, 0.99999, 0.00001, 0.00009, 0.0001, 0.00011};
    if (sizeof(F) == 8) for (double b : {4194303., 8388605., 8388606., 8388607., 8388608.}) base.push_back(b);
    if (sizeof(F) == 8) for (double f : {0.99989, 0.999899, 0.99990001, 0.9999999, 0.999999999, 1e-9}) frac.push_back(f);
    for (double b : base) for (double f : frac)
    {
        double x = (double)(F)(b + f);
        double k = x + 0.0001;
        if (fabs(k - floor(k + 0.5)) < (sizeof(F) == 8 ? 1e-9 : 2e-3) && fabs(x - floor(x)) > 1e-9) continue; // too near to a change
        v.push_back(x);
    }
    return v;
}
// Writes at index i through notation w; checks it and everything around it.
static void single(double i, int w)
{
    bool g = notations[w].g;
    note("index %s, program %s", show((F)i).c_str(), notations[w].write);
    int k = slot(i);
    for (int n = 0; n < NN; n++) if (!same(get(n, i), 0)) fail("%s is not 0 before anything was written", notations[n].read);
    F r = put(w, i, F(7.5));
    if (r != F(7.5)) fail("the assignment yields %s", show(r).c_str());
    for (int n = 0; n < NN; n++)
    {
        F want = notations[n].g == g && k >= 0 ? F(7.5) : 0;
        F x = get(n, i);
        st_trace();
        if (!same(x, want)) fail("then %s yields %s, expected %s", notations[n].read, show(x).c_str(), show(want).c_str());
    }
    for (int n : {0, 8})
        for (int q : {k - 1, k + 1, k - 65536, k + 65536, k ^ 1, 0, 65535, SLOTS - 1})
        {
            if (q == k || k < 0) continue;
            if (get(n, q) != 0) fail("then %s with index %d yields %s, expected 0", notations[n].read, q, show(get(n, q)).c_str());
        }
    size_t nz = nonzero_slots();
    if (nz != (k >= 0 ? 1 : 0)) fail("%zu slots have become different from 0", nz);
    // freembuf exists for compatibility, and does nothing
    for (double q : {i, (double)(k & ~65535), 0., -1.})
    {
        index(q);
        projectm_eval_code_execute(fb);
        st_transitions();
        if (nonzero_slots() != nz) fail("freembuf(%s) changes a slot", show((F)q).c_str());
    }
    st_state((uint64_t)(k + 2) * 32 + w);
    if (k >= 0) { put(g ? 8 : 0, k, 0); if (nonzero_slots()) fail("writing 0 to the slot does not restore it"); }
    // keep the memory small
    projectm_eval_context_free_memory(duo.w.c);
    if (!notations[w].g || bigs.size() > 12) { }
    st_nontrivial(k >= 0);
}
// Both buffers of a fresh context
static void single_fresh(double i, int w)
{
    single(i, w);
    if (bigs.size() > 24)
    { // start over with new buffers
        for (int n = 0; n < NN; n++) { projectm_eval_code_destroy(rd[n]); projectm_eval_code_destroy(wr[n]); }
        projectm_eval_code_destroy(fb);
        init();
    }
}
static void jobs()
{
    auto e = std::make_shared<std::vector<double>>(edges());
    auto fr = std::make_shared<std::vector<double>>(fractions());
    for (int part = 0; part < 2; part++)
    {
        auto v = part ? fr : e;
        Job j;
        j.name = part ? "fractions" : "edges";
        j.count = v->size() * NN;
        j.init = init;
        j.run = [=](uint64_t i) { single_fresh((*v)[i / NN], int(i % NN)); };
        add(j);
    }
    // all pairs of slots: independent
    auto m = std::make_shared<std::vector<double>>();
    for (double d : *e) if (slot(d) >= 0 && (thorough || slot(d) < 65536 * 6 || slot(d) >= SLOTS - 65536 * 3)) m->push_back(d);
    std::sort(m->begin(), m->end());
    m->erase(std::unique(m->begin(), m->end()), m->end());
    for (double d : {-1., -2., 8388608., 8388609., 1e10}) m->push_back(d);
    size_t N = m->size();
    Job p;
    p.name = "pairs";
    p.count = N * N * 4;
    p.init = init;
    p.run = [=](uint64_t x) {
        double i = (*m)[x % N], j = (*m)[x / N % N];
        int gi = x / N / N & 1, gj = x / N / N >> 1;
        int ki = slot(i), kj = slot(j);
        note("%s slot %s = 3, then %s slot %s = 5", gi ? "gmegabuf" : "megabuf", show((F)i).c_str(), gj ? "gmegabuf" : "megabuf", show((F)j).c_str());
        put(gi ? 8 : 0, i, 3);
        put(gj ? 9 : 1, j, 5);
        F wi = ki < 0 ? 0 : ki == kj && gi == gj ? 5 : 3, wj = kj < 0 ? 0 : 5;
        F a = get(gi ? 10 : 2, i), b = get(gj ? 11 : 3, j);
        st_trace();
        if (!same(a, wi) || !same(b, wj)) fail("they read %s and %s, expected %s and %s", show(a).c_str(), show(b).c_str(), show(wi).c_str(), show(wj).c_str());
        if (ki >= 0) put(gi ? 8 : 0, i, 0);
        if (kj >= 0) put(gj ? 8 : 0, j, 0);
        if (ki >= 0 && get(gi ? 8 : 0, i) != 0) fail("writing 0 is lost");
        st_state(mix(ki + 5) * 3 + kj * 4 + gi * 2 + gj);
    };
    add(p);
    // every slot of both buffers: written once, then all read back
    Job s;
    s.name = "all";
    s.count = 2 * (thorough ? 128 : 16);
    s.chunk = 1;
    s.init = fresh;
    s.hang_cpu = 60;
    s.run = [](uint64_t i) {
        int g = i & 1;
        long step = thorough ? 65536 : 524288, b = long(i >> 1) * step;
        const char* n = g ? "gmegabuf" : "megabuf";
        long part = std::min<long>(step, 1000000);
        note("all slots %ld..%ld of %s", b, b + step - 1, n);
        std::string t = strf("k=%ld;e=0;loop(%ld,%s(k)=k*3+1;k=k+1);k=%ld;loop(%ld,e=e+(%s(k)!=k*3+1)+(%s(k)!=0);k=k+1);e", b, part, n, b, part, n, g ? "megabuf" : "gmegabuf");
        Handle h(duo.w.c, t);
        F r = h();
        st_trace(part);
        if (r != 0) fail("%s slots do not hold the value written to them, or the other buffer is changed", show(r).c_str());
        size_t nz = nonzero_slots();
        if ((long)nz != step) fail("%zu slots differ from 0, expected %ld", nz, step);
        st_nontrivial();
        st_state(i);
        fresh();
    };
    add(s);
    // histories over few slots: operations on 6 slots and 2 buffers against the model
    struct Op { const char* text; };
    static const Op ops[] = {{"megabuf(65535)=x"}, {"65536[]=x"}, {"gmem[65535]=x"}, {"gmegabuf(65536)=x"}, {"megabuf(65535)+=gmem[65535]"}, {"gmem[65536]=65536[]"}, {"_mem(-1)=x"}, {"x=x+8388607[]+1"}, {"8388607[]=x*2"}, {"8388608[]=x"}, {"x=gmem[8388608]+2"}, {"megabuf(0)=megabuf(65535.99995)+x"}, {"x=freembuf(65536)+freembuf(0)+2"}};
    static const int NO = sizeof ops / sizeof *ops;
    static Code* oph[NO];
    static ref::Program* opp[NO];
    static int vx;
    int D = lim(6, 7, 3);
    Job h;
    h.name = "histories";
    h.count = 1;
    for (int k = 0; k < D; k++) h.count *= NO;
    h.init = []() {
        fresh();
        vx = duo.var("x");
        for (int k = 0; k < NO; k++)
        {
            opp[k] = new ref::Program;
            if (!ref::parse(ops[k].text, *opp[k], duo.names)) fail("reference rejects %s", ops[k].text);
            oph[k] = projectm_eval_code_compile(duo.w.c, ops[k].text);
            if (!oph[k]) fail("%s does not compile", ops[k].text);
        }
    };
    h.run = [=](uint64_t i) {
        duo.set(vx, 3);
        std::string t;
        for (int d = 0; d < D; d++)
        {
            int k = i % NO;
            i /= NO;
            t += std::string(ops[k].text) + " | ";
            note_str("history x=3 | " + t);
            F want = duo.ev.run(*opp[k], duo.st, 1000);
            F got = projectm_eval_code_execute(oph[k]);
            st_transitions();
            st_trace();
            if (!same(got, want)) fail("last step yields %s, expected %s", show(got).c_str(), show(want).c_str());
            std::string how;
            if (duo.differs(how, 1)) fail("%s", how.c_str());
            uint64_t hs = hash_bytes(&duo.st.vars[0], sizeof(F));
            for (int g = 0; g < 2; g++) for (auto& e : (g ? duo.glob : duo.loc).m) if (e.second != 0) hs += mix(hash_bytes(&e.second, sizeof(F), e.first * 2 + g));
            st_state(hs);
        }
        duo.reset();
    };
    add(h);
    // every value is kept as it is
    Job sv;
    sv.name = "values";
    sv.count = (uint64_t)NN * special::N * special::N * 3;
    sv.init = init;
    sv.run = [](uint64_t n) {
        int w = n % NN, a = n / NN % special::N, b = n / NN / special::N % special::N;
        double at = n / NN / special::N / special::N == 0 ? 5 : n / NN / special::N / special::N == 1 ? 65535 : 8388607;
        for (int v : {a, b})
        {
            note("%s with i=%.0f and v=%s (then %s)", notations[w].write, at, special::text(special::value[a]).c_str(), special::text(special::value[b]).c_str());
            F got = put(w, at, special::value[v]);
            if (!special::equal(got, special::value[v])) fail("yields %s", special::text(got).c_str());
            for (int r = 0; r < NN; r++)
            {
                if (notations[r].g != notations[w].g || !strncmp(notations[r].read, "0+", 2)) continue;
                F x = get(r, at);
                if (!special::equal(x, special::value[v])) fail("is %s when read by %s", special::text(x).c_str(), notations[r].read);
                st_trace();
            }
        }
        put(w, at, 0);
        st_state(n % (NN * special::N * special::N));
    };
    add(sv);
}
}
MODE(C09) { c09::jobs(); }

// =============================================================================
// C10
namespace c10 {
static Code *hset, *hcpy, *hset2, *hcpy2;
static F *pd, *ps, *pn, *pv;
static void init()
{
    fresh();
    pd = projectm_eval_context_register_variable(duo.w.c, "d");
    ps = projectm_eval_context_register_variable(duo.w.c, "s");
    pn = projectm_eval_context_register_variable(duo.w.c, "n");
    pv = projectm_eval_context_register_variable(duo.w.c, "v");
    hset = projectm_eval_code_compile(duo.w.c, "memset(d,v,n)");
    hcpy = projectm_eval_code_compile(duo.w.c, "memcpy(d,s,n)");
    hset2 = projectm_eval_code_compile(duo.w.c, "MemSet(d+0,v*1,n+0)");
    hcpy2 = projectm_eval_code_compile(duo.w.c, "MEMCPY(d+0,s+0,n+0)");
    if (!hset || !hcpy || !hset2 || !hcpy2) fail("memset/memcpy programs do not compile");
}
// a full model of the buffer: F[SLOTS], compared block by block with the live storage
static F* model;
static std::vector<int> touched;     // slots of the pattern
static void pattern(const std::vector<long>& at)
{
    for (long k : at)
        for (long q = k - 3; q < k + 4; q++)
            if (q >= 0 && q < SLOTS && model[q] == 0) { model[q] = F(q % 1000003 + 1); touched.push_back((int)q); duo.w.poke(false, (int)q, model[q]); }
}
static bool live(F* const* table, int b, const F** p) { *p = table[b]; return true; }
// Compares all slots: those in the live storage by reading them through scripts
// at the interesting places, and the number and sum of nonzero slots.
static void compare(const char* what, const std::vector<std::pair<long, long>>& ranges)
{
    // every slot within the ranges (at most some thousand)
    for (auto& r : ranges)
        for (long q = r.first; q < r.second; q++)
        {
            if (q < 0 || q >= SLOTS) continue;
            F x = duo.w.peek(false, (int)q);
            if (!same(x, model[q])) fail("%s: slot %ld is %s, expected %s", what, q, show(x).c_str(), show(model[q]).c_str());
        }
}
static std::vector<F> sorted_storage()
{
    std::vector<F> v;
    for (auto& b : bigs) { const F* p = (const F*)b.p; for (size_t i = 0; i < b.n / sizeof(F); i++) if (p[i] != 0) v.push_back(p[i]); }
    return v;
}
static void model_set(double d, double v, double n)
{
    long lo, hi;
    if (!ref::Evaluator::range(d, d, n, lo, hi)) return;
    for (long i = lo; i < hi; i++) model[i] = (F)v;
}
static void model_cpy(double d, double s, double n)
{
    long lo, hi;
    if (!ref::Evaluator::range(d, s, n, lo, hi)) return;
    long off = (long)(floor(s + 0.0001) - floor(d + 0.0001));
    std::vector<F> c(model + lo + off, model + hi + off);
    std::copy(c.begin(), c.end(), model + lo);
}
// one call from an empty buffer with a pattern around the interesting places
static void call(bool cpy, double d, double s, double n)
{
    if (!model) model = (F*)calloc(SLOTS, sizeof(F));
    d = (F)d;
    s = (F)s;
    n = (F)n;
    note("%s(%s,%s,%s)", cpy ? "memcpy" : "memset", show((F)d).c_str(), show((F)s).c_str(), show((F)n).c_str());
    auto in = [](double x) { return x > -1e7 && x < 1e7; };
    std::vector<long> at = {0, SLOTS - 1, 65536};
    double fd = floor(d + 0.0001), fs = floor(s + 0.0001), fn = floor(n + 0.0001);
    for (double x : {fd, fd + fn, cpy ? fs : fd, cpy ? fs + fn : fd, fd + fn / 2, cpy ? fs + trunc(fn / 2) : fd}) if (in(x)) at.push_back((long)x);
    pattern(at);
    long lo = 0, hi = 0;
    bool any = ref::Evaluator::range(d, cpy ? s : d, n, lo, hi);
    *pd = (F)d;
    *ps = (F)s;
    *pv = (F)s;
    *pn = (F)n;
    st_transitions();
    F r = projectm_eval_code_execute(cpy ? hcpy : hset);
    if (!same(r, (F)d)) fail("yields %s", show(r).c_str());
    if ((d < -9e15 || (cpy && s < -9e15)) && n > 9e15)
    { // the end of the range depends on digits such numbers do not have
        st_skip();
        memset(model, 0, sizeof(F) * SLOTS);
        touched.clear();
        projectm_eval_context_free_memory(duo.w.c);
        return;
    }
    if (cpy) model_cpy(d, s, n); else model_set(d, (F)s, n);
    if (any) { at.push_back(lo); at.push_back(hi); at.push_back(lo + ((hi - lo) >> 1)); for (long q = (lo / 65536 + 1) * 65536; q < hi; q += 65536) at.push_back(q); }
    st_trace();
    // all slots, by the storage: the multiset of nonzero values must agree
    std::vector<std::pair<long, long>> rg;
    for (long k : at) rg.push_back({k - 6, k + 7});
    compare("after the call", rg);
    if (hi - lo <= 4000) { compare("after the call", {{lo, hi}}); }
    size_t nz = nonzero_slots(), mz = 0;
    {
        // slots outside of [lo,hi) are the pattern's
        for (long q = lo; q < hi; q++) mz += model[q] != 0;
        for (int q : touched) if (q < lo || q >= hi) mz += model[q] != 0;
    }
    if (nz != mz) fail("%zu slots differ from 0, expected %zu", nz, mz);
    if (hi - lo > 4000)
    {
        std::vector<F> a = sorted_storage(), b;
        for (long q = lo; q < hi; q++) if (model[q] != 0) b.push_back(model[q]);
        for (int q : touched) if ((q < lo || q >= hi) && model[q] != 0) b.push_back(model[q]);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) fail("the values in the buffer are not the expected ones");
    }
    st_state(hash_bytes(&lo, sizeof lo, hi * 2 + cpy) ^ mix((uint64_t)(any ? (long)floor(s + 0.0001) : 0)));
    st_nontrivial(any);
    // clean
    for (long q = lo; q < hi; q++) model[q] = 0;
    for (int q : touched) model[q] = 0;
    touched.clear();
    projectm_eval_context_free_memory(duo.w.c);
    if (nonzero_slots()) fail("free_memory leaves values");
}
// Which blocks have been written before: all subsets of the first blocks hold values, the others were never touched
static void occupancy(unsigned mask, bool cpy, long d, long s, F v, long n)
{
    if (!model) model = (F*)calloc(SLOTS, sizeof(F));
    note("blocks in use %x, %s(%ld,%s,%ld)", mask, cpy ? "memcpy" : "memset", d, cpy ? strf("%ld", s).c_str() : show(v).c_str(), n);
    std::vector<long> where;
    for (int b = 0; b < 5; b++) for (int k = 0; k < 5; k++) where.push_back(b * 65536L + k * 16384 - (k == 4));
    for (long q : where) if (mask >> (q / 65536) & 1) { model[q] = F(q + 1); duo.w.poke(false, (int)q, model[q]); }
    *pd = (F)d;
    *ps = (F)s;
    *pv = v;
    *pn = (F)n;
    st_transitions();
    F r = projectm_eval_code_execute(cpy ? hcpy : hset);
    if (!same(r, (F)d)) fail("yields %s", show(r).c_str());
    if (cpy) model_cpy(d, s, n); else model_set(d, v, n);
    st_trace();
    size_t live_values = 0;
    for (long q = 0; q < 6 * 65536; q++) live_values += model[q] != 0;
    if (nonzero_slots() != live_values) fail("%zu slots differ from 0, expected %zu", nonzero_slots(), live_values);
    auto look = [](long q) {
        if (q < 0 || q >= 6 * 65536) return;
        F x = duo.w.peek(false, (int)q);
        if (!same(x, model[q])) fail("slot %ld is %s, expected %s", q, show(x).c_str(), show(model[q]).c_str());
    };
    for (long q : where) { look(q); if (cpy) look(q - s + d); }
    for (long q : {d - 1, d, d + n - 1, d + n, s - 1, s, s + n - 1, s + n}) look(q);
    for (long q = 0; q <= 5 * 65536; q += 65536) { look(q - 1); look(q); }
    st_state(mask * 131 + hash_bytes(&d, sizeof d, n) + mix(cpy ? s : -1));
    st_nontrivial(mask != 0);
    memset(model, 0, sizeof(F) * 6 * 65536);
    projectm_eval_context_free_memory(duo.w.c);
}
static void occupancy_job()
{
    std::vector<long> ds = {0, 1, 65535, 65536, 131072}, ns = {1, 2, 65535, 65536, 65537, 131072};
    bool light = lim(0, 0, 1);
    if (thorough && !light) ds = {-65536, -1, 0, 1, 30000, 65535, 65536, 65537, 131071, 131072}, ns = {1, 2, 40000, 65535, 65536, 65537, 100000, 131071, 131072, 131073};
    else if (light) ds = {0, 65535, 65536}, ns = {2, 65536, 131072};
    int B = light ? 3 : 4;
    uint64_t D = ds.size(), N = ns.size(), M = 1u << B;
    Job j;
    j.name = "occupancy";
    j.count = M * D * N * (D + 2);
    j.init = init;
    j.hang_cpu = 30;
    j.run = [=](uint64_t i) {
        unsigned m = (unsigned)(i % M);
        i /= M;
        long d = ds[i % D];
        i /= D;
        long n = ns[i % N];
        i /= N;
        occupancy(m, i < D, d, i < D ? ds[i] : 0, i == D ? F(0) : F(5), n);
    };
    add(j);
}
static void job(const char* name, bool cpy, std::vector<double> ds, std::vector<double> ss, std::vector<double> ns)
{
    auto d = std::make_shared<std::vector<double>>(ds), s = std::make_shared<std::vector<double>>(ss), n = std::make_shared<std::vector<double>>(ns);
    Job j;
    j.name = name;
    j.count = ds.size() * ss.size() * ns.size();
    j.init = init;
    j.hang_cpu = 30;
    j.run = [=](uint64_t i) {
        double vd = (*d)[i % d->size()];
        i /= d->size();
        double vs = (*s)[i % s->size()];
        i /= s->size();
        call(cpy, vd, vs, (*n)[i]);
    };
    add(j);
}
static std::vector<double> around(std::initializer_list<double> c, int r)
{
    std::vector<double> v;
    for (double x : c) for (int k = -r; k <= r; k++) v.push_back(x + k);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
// Values are set and copied as they are
static Code *vput, *vget, *vset[2], *vcpy;
static F *vi, *vv, *vn_, *vs;
static void init_values()
{
    fresh();
    Ctx* c = duo.w.c;
    vi = projectm_eval_context_register_variable(c, "i");
    vv = projectm_eval_context_register_variable(c, "v");
    vn_ = projectm_eval_context_register_variable(c, "n");
    vs = projectm_eval_context_register_variable(c, "s");
    vput = projectm_eval_code_compile(c, "megabuf(i)=v");
    vget = projectm_eval_code_compile(c, "megabuf(i)");
    vset[0] = projectm_eval_code_compile(c, "memset(i,v,n)");
    vset[1] = projectm_eval_code_compile(c, "memset(i,megabuf(s),n)");
    vcpy = projectm_eval_code_compile(c, "memcpy(i,s,n)");
    if (!vput || !vget || !vset[0] || !vset[1] || !vcpy) fail("does not compile");
}
static void vwrite(double i, F v) { *vi = (F)i; *vv = v; projectm_eval_code_execute(vput); }
static F vread(double i) { *vi = (F)i; return projectm_eval_code_execute(vget); }
static void values()
{
    static const int len[] = {1, 2, 3, 8, 14};
    static const double pos[] = {5, 65530, 65535};
    Job j;
    j.name = "special-set";
    j.init = init_values;
    j.count = special::N * special::N * 5 * 3 * 2;
    j.run = [](uint64_t n) {
        F v = special::value[n % special::N], o = special::value[n / special::N % special::N];
        n /= special::N * special::N;
        int l = len[n % 5], how = n / 15;
        double p = pos[n / 5 % 3];
        note("%s with i=%.0f, value %s, n=%d over slots with %s", how ? "memset(i,megabuf(s),n)" : "memset(i,v,n)", p, special::text(v).c_str(), l, special::text(o).c_str());
        for (int k = -1; k <= l; k++) vwrite(p + k, o);
        vwrite(200000, v);
        *vi = (F)p; *vv = v; *vn_ = (F)l; *vs = 200000;
        projectm_eval_code_execute(vset[how]);
        st_transitions();
        if (!special::equal(*vv, v)) fail("v is %s afterwards", special::text(*vv).c_str());
        for (int k = -1; k <= l; k++)
        {
            F got = vread(p + k), want = k < 0 || k == l ? o : v;
            if (!special::equal(got, want)) fail("slot %.0f is %s, expected %s", p + k, special::text(got).c_str(), special::text(want).c_str());
        }
        st_trace();
        st_state(n);
        st_nontrivial();
    };
    add(j);
    Job c;
    c.name = "special-cpy";
    c.init = init_values;
    c.count = special::N * special::N * 5 * 3 * 9;
    c.run = [](uint64_t n) {
        int rs = n % special::N, rd = n / special::N % special::N;
        n /= special::N * special::N;
        int l = len[n % 5], shift = n / 15;
        double s = pos[n / 5 % 3], d = shift == 7 ? 131070 : shift == 8 ? 300000 : s + shift - 3;
        note("memcpy(%.0f,%.0f,%d), the special values from number %d on over those from number %d on", d, s, l, rs, rd);
        std::map<int, F> m;
        for (int k = -4; k <= l + 4; k++) m[int(d) + k] = special::value[(rd + k + 4) % special::N];
        for (int k = 0; k < l; k++) m[int(s) + k] = special::value[(rs + k) % special::N];
        for (auto& e : m) if (e.first >= 0) vwrite(e.first, e.second);
        auto was = m;
        for (int k = 0; k < l; k++) m[int(d) + k] = was[int(s) + k];
        *vi = (F)d; *vs = (F)s; *vn_ = (F)l;
        projectm_eval_code_execute(vcpy);
        st_transitions();
        for (auto& e : m)
        {
            if (e.first < 0) continue;
            F got = vread(e.first);
            if (!special::equal(got, e.second)) fail("slot %d is %s, expected %s", e.first, special::text(got).c_str(), special::text(e.second).c_str());
        }
        st_trace();
        st_state(n);
        st_nontrivial();
    };
    add(c);
}
// Operands which lie in the areas themselves
static void refs()
{
    static const int at[] = {65529, 65530, 65531, 65535, 65536, 65539, 131072};
    static const double lens[] = {1, 2, 5, 6, 7, 10, 70000};
    enum { NA = 7, NL = 7 };
    Job j;
    j.name = "refs";
    j.init = init_values;
    j.count = NA * NA * NA * NL * 2 * 3;
    j.chunk = 28;
    j.hang_cpu = 100;
    j.run = [](uint64_t n) {
        int cpy = n % 2, off = int(n / 2 % 3) - 1;
        n /= 6;
        int p = at[n % NA], q = at[n / NA % NA], r = at[n / NA / NA % NA];
        double l = lens[n / NA / NA / NA];
        if (l > 1000 && (p + q * 3 + r * 7) % 11 && !thorough) return;
        if (p == q || q == r || p == r) return;
        double d = 65530, v = cpy ? 65530 + off * 3 : off * 3;
        std::string t = cpy ? strf("memcpy(megabuf(%d),megabuf(%d),megabuf(%d))", p, q, r) : strf("memset(megabuf(%d),megabuf(%d),megabuf(%d))", p, q, r);
        note("%s with slots %d=%.0f, %d=%.0f, %d=%.0f", t.c_str(), p, d, q, v, r, l);
        Code* h = projectm_eval_code_compile(duo.w.c, t.c_str());
        if (!h) fail("is rejected");
        int end = int(d + l) + 8;
        std::map<int, F> m;
        for (int k = 65510; k < 65550; k++) m[k] = F(k - 65500) / 4;
        for (int k = std::max(65550, end - 20); k < end; k++) m[k] = F(k & 1023);
        for (int k = 131060; k < 131080; k++) m[k] = F(k & 511);
        m[p] = (F)d; m[q] = (F)v; m[r] = (F)l;
        for (auto& e : m) vwrite(e.first, e.second);
        auto was = m;
        auto old = [&](int k) { auto it = was.find(k); return it == was.end() ? F(0) : it->second; };
        for (int k = 0; k < (int)l; k++) m[int(d) + k] = cpy ? old(int(v) + k) : F(v);
        projectm_eval_code_execute(h);
        st_transitions();
        for (auto& e : m)
        {
            F got = vread(e.first);
            if (!special::equal(got, e.second)) fail("slot %d is %s, expected %s", e.first, special::text(got).c_str(), special::text(e.second).c_str());
        }
        projectm_eval_code_destroy(h);
        projectm_eval_context_free_memory(duo.w.c);
        st_trace();
        st_state(n);
        st_nontrivial();
    };
    add(j);
}
static void jobs()
{
    const double E = SLOTS;
    double huge = sizeof(F) == 8 ? 1e300 : 1e30;
    std::vector<double> ext = {-INFINITY, -huge, -1e19, -9.3e18, -4294967297., -4294967296., -2147483649., -2147483648., -2147483647., -E - 1, -E, -65536, -1, -0.5, 0, 0.5, 0.99995, 1, 65536, E - 1, E - 0.5, E, E + 1, 2147483646., 2147483647., 2147483648., 4294967295., 4294967296., 4294967297., 9.3e18, 1e19, huge, INFINITY, NAN};
    std::vector<double> ed;
    for (double x : ext) ed.push_back(x);
    bool T = thorough;
    int r = T ? 3 : 1;
    // memset: destination x count
    job("set-edges", false, around({0, 65536, 131072, E - 65536, E}, r + 1), {5.5}, around({-1, 0, 65536, 131072}, r + 1));
    std::vector<double> qd = {-INFINITY, -huge, -4294967296., -2147483648., -E, -1, -0.5, 0, 1.5, E - 1, E - 0.5, E, 2147483647., 2147483648., 4294967296., huge, INFINITY, NAN}, qn = {-INFINITY, -huge, -4294967296., -2147483648., -1, 0, 1.5, 2147483647., 2147483648., 4294967295., 4294967296., 4294967297., huge, INFINITY, NAN};
    if (T) qd = qn = ed;
    job("set-extremes", false, qd, {5.5}, qn);
    job("set-values", false, {0, 65535}, {0, -0.0, 1, -1, 1e-300, huge, INFINITY, -INFINITY}, {0, 1, 2, 3});
    job("set-fractions", false, {-1.5, -1, -0.99995, -0.5, 0.5, 1.5, 65535.5, 65535.99995, 65536.25, E - 1.5, E - 0.5, E - 0.00005}, {2}, {0.5, 0.99995, 1, 1.5, 2.99995, 3.7, -0.5, -0.00005});
    // memcpy
    job("cpy-small", true, around({65536}, T ? 9 : 6), around({65536}, T ? 9 : 6), around({T ? 9. : 6.}, T ? 10 : 7));
    job("cpy-start", true, around({0}, T ? 7 : 5), around({0}, T ? 7 : 5), around({T ? 7. : 5.}, T ? 8 : 6));
    job("cpy-end", true, around({E - 2}, T ? 7 : 5), around({E - 2}, T ? 7 : 5), around({T ? 7. : 5.}, T ? 8 : 6));
    job("cpy-blocks", true, around({0, 65536, 131072, 196608}, T ? 2 : 1), around({0, 65536, 131072, 196608}, T ? 2 : 1), around({1, 65536, 131072}, 1));
    job("cpy-far", true, T ? around({0, 65536, E - 131072, E - 65536, E}, 1) : std::vector<double>{-1, 0, 1, 65535, E - 65536, E - 1, E}, T ? around({0, 65536, E - 131072, E - 65536, E}, 1) : std::vector<double>{-1, 0, 1, 65535, E - 65536, E - 1, E}, {1, 2, 65535, 65537, 196608});
    std::vector<double> e2 = T ? ed : std::vector<double>{-INFINITY, -huge, -4294967296., -2147483648., -E, -1, 0, 1.5, E - 1, E, 2147483647., 4294967296., 4294967297., huge, INFINITY, NAN};
    {
        // counts that would copy everything are slow: few places only
        std::vector<double> small;
        for (double x : e2) small.push_back(x);
        job("cpy-extremes", true, small, small, {-INFINITY, -huge, -2147483648., -1, 0, 1, 3});
        job("cpy-huge", true, {-3, 0, 2, E - 5, E, huge, -4294967295., 2147483647.}, {-2, 0, 1, E - 7, E - 3, -huge, 4294967297., 2147483646.}, {2147483646., 2147483647., 2147483648., 4294967295., 4294967296., 4294967301., huge, INFINITY, NAN});
    }
    job("cpy-fractions", true, {-0.5, 0.5, 65535.5, 65535.99995, E - 1.5}, {-1.5, 0.25, 1.99995, 65536.5, E - 2.00005}, {0.5, 0.99995, 1.5, 2.99995, 4.25});
    occupancy_job();
    // sequences of calls on a small window, against the reference evaluator
    static std::vector<std::string>* ops;
    Job h;
    h.name = "histories";
    static std::vector<ref::Program*> progs;
    static std::vector<Code*> hs;
    auto mk = []() {
        auto o = new std::vector<std::string>;
        for (int d : {65534, 65535, 65537}) for (int n : {1, 3, 4})
        {
            o->push_back(strf("memset(%d,%d,%d)", d, d % 10 + n, n));
            for (int s : {65533, 65535, 65536}) o->push_back(strf("memcpy(%d,%d,%d)", d, s, n));
        }
        o->push_back("memcpy(-1,65535,3)");
        o->push_back("memcpy(65535,-1,3)");
        o->push_back("memset(-2,8,4)");
        o->push_back("memcpy(8388606,65534,5)");
        o->push_back("memcpy(65534,8388606,5)");
        o->push_back("megabuf(65536)=3");
        return o;
    };
    ops = mk();
    int D = lim(3, 4, 2);
    h.count = 1;
    for (int k = 0; k < D; k++) h.count *= ops->size();
    h.init = []() {
        fresh();
        progs.clear();
        hs.clear();
        for (auto& t : *ops)
        {
            progs.push_back(new ref::Program);
            if (!ref::parse(t, *progs.back(), duo.names)) fail("reference rejects %s", t.c_str());
            hs.push_back(projectm_eval_code_compile(duo.w.c, t.c_str()));
            if (!hs.back()) fail("%s does not compile", t.c_str());
        }
    };
    h.run = [=](uint64_t i) {
        for (int q = 65533; q <= 65540; q++) duo.slot(false, q, F(q - 65500));
        std::string t;
        for (int d = 0; d < D; d++)
        {
            size_t k = i % ops->size();
            i /= ops->size();
            t += (*ops)[k] + " | ";
            note_str("slots 65533..65540 = 33..40 | " + t);
            F want = duo.ev.run(*progs[k], duo.st, 1000);
            F got = projectm_eval_code_execute(hs[k]);
            st_transitions();
            st_trace();
            if (!same(got, want)) fail("last step yields %s, expected %s", show(got).c_str(), show(want).c_str());
        }
        std::string how;
        if (duo.differs(how, 1)) fail("%s", how.c_str());
        uint64_t hsum = 0;
        for (auto& e : duo.loc.m) if (e.second != 0) hsum += mix(hash_bytes(&e.second, sizeof(F), e.first));
        st_state(hsum);
        duo.reset();
    };
    add(h);
    values();
    refs();
}
}
MODE(C10) { c10::jobs(); }

// =============================================================================
// C18: on every path the host lock is taken and released in pairs
namespace c18 {
static std::vector<const char*> reads = {"megabuf(i)", "i[]", "gmegabuf(i)", "gmem[i]", "megabuf(i)=1", "gmem[i]=1", "gmem[i]+=1", "megabuf(i)=gmem[i]", "memset(i,1,2)", "memset(i,1,65537)", "memcpy(i,3,4)", "memcpy(3,i,4)", "memcpy(i,i+65536,65537)", "memcpy(i+65536,i,65537)", "freembuf(i)", "rand(i)", "loop(3,i[]=i[]+1)", "megabuf(gmem[megabuf(i)])=gmem[i]"};
static void idle(const char* w) { lock_idle(w); }
static void open()
{
    watch_tables = true;
    fresh();
    idle("creating a context");
}
static void jobs()
{
    // accesses: index x program x failing allocations
    static std::vector<double> ix;
    ix.clear();
    for (int b : {0, 1, 2, 63, 64, 126, 127, 128}) for (int d = -1; d <= 1; d++) ix.push_back(b * 65536.0 + d);
    for (double d : {-65536., 2147483647., 2147483648., -2147483648., 4294967296., 1e30, -1e30, (double)INFINITY, -(double)INFINITY, (double)NAN, 0.99995, 65535.5}) ix.push_back(d);
    // failing windows [from,to): none, only the k-th, all from the k-th
    static const uint64_t fw[][2] = {{0, 0}, {0, 1}, {1, 2}, {2, 3}, {3, 4}, {0, ~0ull}, {1, ~0ull}, {2, ~0ull}};
    Job a;
    a.name = "accesses";
    a.count = reads.size() * ix.size() * 8;
    a.init = open;
    a.run = [](uint64_t c) {
        const char* t = reads[c % reads.size()];
        c /= reads.size();
        double i = ix[c % ix.size()];
        c /= ix.size();
        note("i=%s, program %s, failing block allocations %llu..%lld", show((F)i).c_str(), t, (unsigned long long)fw[c][0], (long long)fw[c][1] - 1);
        Handle h(duo.w.c, t);
        idle("compiling");
        if (!h) fail("does not compile");
        uint64_t n0 = lock_count;
        for (int k = 0; k < 3; k++)
        {
            duo.set(duo.var("i"), (F)i);
            if (k < 2) fault_on(fw[c][0], fw[c][1], big_size); else fault_off();
            h();
            fault_off();
            idle("executing");
            st_trace();
        }
        st_state((lock_count - n0) * 64 + c);
        st_nontrivial(lock_count != n0);
        projectm_eval_context_free_memory(duo.w.c);
        idle("freeing the memory of the context");
        if (bigs.size() > 16)
        {
            duo.w.close();
            idle("destroying a context and a buffer");
            open();
        }
    };
    add(a);
    // histories of accesses, freeing and destroying
    static const char* ops[] = {"megabuf(0)=1", "65536[]=1", "gmem[0]=1", "gmem[70000]=2", "memset(65530,1,20)", "memcpy(131072,65536,3)", "megabuf(-1)=2", "gmegabuf(8388608)=1",
        "F", "G", "R", "X", "!", "."};   // free memory, global destroy, reset, context and buffer re-creation, failing on/off
    static const int NO = sizeof ops / sizeof *ops;
    int D = lim(5, 6, 3);
    Job h;
    h.name = "histories";
    h.count = 1;
    for (int k = 0; k < D; k++) h.count *= NO;
    h.count *= 2;
    h.init = []() { watch_tables = true; };
    h.run = [=](uint64_t c) {
        bool builtin = c & 1;
        c >>= 1;
        std::string s = builtin ? "context on the built-in buffer: " : "context with its own buffer: ";
        projectm_eval_mem_buffer gm = nullptr;
        Ctx* x = nullptr;
        auto mk = [&]() {
            if (!builtin) { gm = projectm_eval_memory_buffer_create(); idle("creating a buffer"); }
            x = projectm_eval_context_create(gm, nullptr);
            idle("creating a context");
            if (!x) fail("context creation fails");
        };
        auto rm = [&]() {
            projectm_eval_context_destroy(x);
            idle("destroying a context");
            if (gm) { projectm_eval_memory_buffer_destroy(gm); idle("destroying a buffer"); }
        };
        mk();
        uint64_t n0 = lock_count;
        for (int d = 0; d < D; d++)
        {
            const char* o = ops[c % NO];
            c /= NO;
            s += std::string(o) + " | ";
            note_str(s);
            st_transitions();
            if (o[1])
            {
                Code* k = projectm_eval_code_compile(x, o);
                idle("compiling");
                projectm_eval_code_execute(k);
                idle("executing");
                projectm_eval_code_destroy(k);
                idle("destroying code");
            }
            else if (*o == 'F') projectm_eval_context_free_memory(x);
            else if (*o == 'G') { if (builtin) { rm(); } projectm_eval_memory_global_destroy(); idle("destroying the global buffer"); if (builtin) mk(); }
            else if (*o == 'R') projectm_eval_context_reset_variables(x);
            else if (*o == 'X') { fault_off(); rm(); mk(); }
            else if (*o == '!') fault_on(0, ~0ull, big_size);
            else fault_off();
            idle("the call");
        }
        fault_off();
        rm();
        projectm_eval_memory_global_destroy();
        idle("destroying the global buffer");
        st_trace();
        st_state(lock_count - n0);
        st_nontrivial();
    };
    add(h);
}
// Another thread may do something whenever the lock is asked for or was released: all programs of a
// menu, at each of these points, in all combinations.
static void contended()
{
    static const char* mine[] = {"gmem[0]", "gmem[0]=1", "gmem[65535]+=1", "memset(0,1,3);gmem[1]=2", "gmem[65536]=gmem[0]", "loop(3,gmem[n*65536]=1;n+=1)", "gmegabuf(127*65536)=2", "rand(2)", "gmem[rand(0)]=1", "gmem[-1]=1;gmem[8388608]=2", "CREATE", "FREE"};
    static const char* theirs[] = {"gmem[0]", "gmem[0]=5", "gmem[65536]=6;gmem[0]=7", "gmem[131072]=4", "gmegabuf(127*65536)=3", "rand(2)", "CREATE", "FREE", "BUFFER", "memset(0,1,70000)"};
    static const int NM = sizeof mine / sizeof *mine, NT = sizeof theirs / sizeof *theirs;
    Job j;
    j.name = "contended";
    // both programs, number of the point (even: before, odd: after), whose lock is taken in the nested action too
    j.count = (uint64_t)NM * NT * NT * 8 * 2 * 2;
    j.init = []() { watch_tables = true; };
    j.run = [](uint64_t i) {
        std::string m = mine[i % NM];
        i /= NM;
        std::string t[2];
        t[0] = theirs[i % NT];
        i /= NT;
        t[1] = theirs[i % NT];
        i /= NT;
        int point = i % 8;
        i /= 8;
        bool builtin = i & 1, failing = i & 2;
        std::string s = strf("on %s buffer: %s; another thread runs %s and %s at lock point %d%s", builtin ? "the built-in" : "a shared", m.c_str(), t[0].c_str(), t[1].c_str(), point, failing ? ", block allocations fail first" : "");
        note_str(s);
        projectm_eval_mem_buffer gm = builtin ? nullptr : projectm_eval_memory_buffer_create();
        Ctx* theirs_c = nullptr;
        int seen = 0;
        bool hit = false;
        auto act = [&](Ctx* c, const std::string& x) {
            st_transitions();
            if (x == "CREATE")
            {
                Ctx* n = projectm_eval_context_create(gm, nullptr);
                if (!n) fail("a context is not created");
                projectm_eval_context_destroy(n);
            }
            else if (x == "FREE") projectm_eval_context_free_memory(c);
            else if (x == "BUFFER") projectm_eval_memory_buffer_destroy(projectm_eval_memory_buffer_create());
            else
            {
                Code* h = projectm_eval_code_compile(c, x.c_str());
                if (!h) fail("%s does not compile", x.c_str());
                projectm_eval_code_execute(h);
                projectm_eval_code_destroy(h);
            }
        };
        Ctx* mine_c = nullptr;
        lock_point = [&](bool) {
            if (seen++ != point) return;
            if (lock_held) hard_fail("the lock is held when it is asked for");
            hit = true;
            for (auto& x : t)
            {
                if (!theirs_c) { theirs_c = projectm_eval_context_create(gm, nullptr); if (!theirs_c) fail("a context is not created"); }
                act(theirs_c, x);
            }
            if (lock_held) hard_fail("a call of the other thread returned while holding the host lock");
        };
        mine_c = projectm_eval_context_create(gm, nullptr);
        idle("creating a context");
        if (!mine_c) fail("a context is not created");
        if (failing) fault_on(0, 1, big_size);
        act(mine_c, m);
        fault_off();
        idle("a call");
        lock_point = nullptr;
        act(mine_c, m);
        idle("a call");
        projectm_eval_context_destroy(mine_c);
        if (theirs_c) projectm_eval_context_destroy(theirs_c);
        if (gm) projectm_eval_memory_buffer_destroy(gm);
        projectm_eval_memory_global_destroy();
        idle("destroying everything");
        st_trace();
        st_nontrivial(hit);
        st_state(1000000 + point * 100 + seen);
    };
    add(j);
}
// Creating contexts and buffers with any of the allocations failing
static void creation()
{
    static const char* what[] = {"a context on the built-in buffer", "a context on the built-in buffer, which is there", "a context on its own buffer and registers", "a buffer"};
    Job j;
    j.name = "creation";
    j.count = 4 * 2 * 100;
    j.init = []() { watch_tables = true; };
    j.run = [](uint64_t i) {
        int w = i % 4;
        bool after = i / 4 % 2;
        uint64_t k = i / 8;
        static F rg[100];
        projectm_eval_mem_buffer own = nullptr;
        auto make = [&]() -> void* { return w == 3 ? (void*)projectm_eval_memory_buffer_create() : (void*)projectm_eval_context_create(w == 2 ? own : nullptr, w == 2 ? &rg : nullptr); };
        auto rm = [&](void* p) { if (w == 3) projectm_eval_memory_buffer_destroy((projectm_eval_mem_buffer)p); else projectm_eval_context_destroy((Ctx*)p); };
        auto start = [&]() {
            if (w == 1) projectm_eval_context_destroy(projectm_eval_context_create(nullptr, nullptr));
            if (w == 2) own = projectm_eval_memory_buffer_create();
        };
        auto end = [&]() {
            if (w == 2) projectm_eval_memory_buffer_destroy(own);
            projectm_eval_memory_global_destroy();
            idle("destroying the global buffer");
        };
        start();
        uint64_t a0 = led.allocs;
        rm(make());
        uint64_t total = led.allocs - a0;
        end();
        for (uint64_t p = k; p < total + 1; p += 100)
        {
            note("creating %s, allocation %llu of %llu%s fails", what[w], (unsigned long long)p, (unsigned long long)total, after ? " and all later" : "");
            start();
            uint64_t n0 = lock_count;
            fault_on(p, after ? ~0ull : p + 1, 0);
            void* x = make();
            fault_off();
            idle("creating");
            if (x) rm(x);
            idle("destroying");
            void* y = make();
            idle("creating again");
            if (!y) fail("cannot be created afterwards");
            if (w != 3)
            {
                Code* h = projectm_eval_code_compile((Ctx*)y, "gmem[3]=4");
                idle("compiling");
                projectm_eval_code_execute(h);
                idle("executing");
                projectm_eval_code_destroy(h);
            }
            rm(y);
            idle("destroying");
            end();
            st_trace();
            st_transitions(4);
            st_nontrivial(p < total);
            st_state((lock_count - n0) * 8 + w);
        }
    };
    add(j);
}
}
MODE(C18) { c18::jobs(); c18::contended(); c18::creation(); }

// =============================================================================
// C19: failing allocations of buffer storage and of contexts
namespace c19 {
static int va, vb, vx;
static void init()
{
    fresh();
    va = duo.var("a");
    vb = duo.var("b");
    vx = duo.var("x");
}
// programs touching several blocks, over a small grammar
static std::vector<std::string> programs()
{
    std::vector<std::string> leaf = {"megabuf(3)", "70000[]", "gmem[3]", "gmem[140000]", "megabuf(65536)", "a"};
    std::vector<std::string> st;
    for (auto& l : leaf)
    {
        st.push_back(l);
        st.push_back(l + "=x");
        st.push_back(l + "+=x+2");
        for (auto& r : leaf) { if (&r != &l) st.push_back(l + "=" + r + "+1"); if (thorough && &r != &l) st.push_back(l + "+=" + r); }
        st.push_back("if(" + l + ",a=1,b=b+1)");
        st.push_back("loop(2," + l + "=" + l + "+1)");
    }
    st.push_back("memset(65530,x,10)");
    st.push_back("memset(0,x,3)");
    st.push_back("memset(131070,x,70000);b=b+1");
    st.push_back("b=memset(2,7,2)");
    std::vector<std::string> v = st;
    for (auto& p : st) for (auto& q : st) v.push_back(p + ";" + q);
    return v;
}
static std::vector<std::string>* progs;
static bool matches(F want, F got, std::string& how)
{
    if (!same(want, got)) { how = strf("result %s, expected %s", show(got).c_str(), show(want).c_str()); return false; }
    return !duo.differs(how, 2);
}
static void clear()
{
    fault_off();
    duo.adopt();
    duo.reset();
    for (auto m : {&duo.loc, &duo.glob}) { m->faulty = false; m->blocks[0] = m->blocks[1] = 0; }
    // new storage everywhere
    duo.w.close();
    init();
}
static void jobs()
{
    progs = new std::vector<std::string>(programs());
    size_t N = progs->size();
    // every allocation window: before/while/after, by whole executions
    static const char* pre[] = {"0", "megabuf(3)=4", "gmem[3]=5;70000[]=6", "megabuf(3)=4;gmem[140000]=2;megabuf(65536)=1;gmem[3]=8"};
    Job w;
    w.name = "windows";
    w.count = N * 4;
    w.init = init;
    w.run = [=](uint64_t i) {
        const std::string& t = (*progs)[i % N];
        const char* p = pre[i / N];
        note("x=9; program %s executed while no buffer storage can be allocated, after %s; then again while it can", t.c_str(), p);
        ref::Program pp;
        if (!ref::parse(p, pp, duo.names) || !ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
        duo.sync_names();
        Handle hp(duo.w.c, p), h(duo.w.c, t);
        if (!hp || !h) fail("does not compile");
        // other storage: a slot of a block which exists
        duo.loc.faulty = duo.glob.faulty = true;
        duo.set(vx, 9);
        std::string how;
        for (int ph = 0; ph < 4; ph++)
        {
            bool fail_now = ph == 1 || ph == 2;
            duo.loc.ffrom = duo.glob.ffrom = 0;
            duo.loc.fto = duo.glob.fto = fail_now ? ~0ull : 0;
            ref::Program& pr = ph == 0 ? pp : duo.prog;
            F want = duo.ev.run(pr, duo.st, 100000);
            if (fail_now) fault_on(0, ~0ull, big_size); else fault_off();
            F got = ph == 0 ? hp() : h();
            uint64_t hit = faults_hit;
            fault_off();
            lock_idle("executing");
            st_trace();
            if (duo.ev.over || duo.ev.vague) fail("the reference run is not defined");
            if (!matches(want, got, how)) fail("%s: %s", ph == 0 ? "preparation" : fail_now ? "while failing" : "with memory available again", how.c_str());
            if (fail_now && hit) st_nontrivial();
        }
        clear();
    };
    add(w);
    // exactly one failing allocation, at every possible place
    Job s;
    s.name = "single";
    s.count = N * 6;
    s.init = init;
    s.run = [=](uint64_t i) {
        const std::string& t = (*progs)[i % N];
        int k = int(i / N);
        bool onward = k >= 3;
        uint64_t from = k % 3, to = onward ? ~0ull : from + 1;
        note("x=9; program %s, block allocation %llu%s fails", t.c_str(), (unsigned long long)from, onward ? " and all later ones" : "");
        if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
        duo.sync_names();
        Handle h(duo.w.c, t);
        if (!h) fail("does not compile");
        duo.set(vx, 9);
        fault_on(from, to, big_size);
        F got = h();
        uint64_t hit = faults_hit;
        fault_off();
        lock_idle("executing");
        // The outcome must be the one of failing at one of the first accesses to a block.
        std::vector<F> vars0;
        std::string how, first;
        bool ok = false;
        for (int m = 0; m < 8 && !ok; m++)
        {
            duo.loc.m.clear();
            duo.glob.m.clear();
            memset(duo.mregs, 0, sizeof duo.mregs);
            duo.st.vars.assign(duo.st.vars.size(), 0);
            duo.st.vars[vx - 100] = 9;
            // one counter for both buffers: run with the shared attempts
            struct Both { ref::Mem &l, &g; } both{duo.loc, duo.glob};
            (void)both;
            bool any = false;
            // the model counts per buffer: m enumerates (local, global) windows
            auto setw = [&](ref::Mem& x, bool f) { x.faulty = true; x.blocks[0] = x.blocks[1] = 0; x.attempts = 0; x.ffrom = f ? from : 0; x.fto = f ? to : 0; };
            setw(duo.loc, false);
            setw(duo.glob, false);
            // windows relative to the order of all attempts
            if (m == 0) { }                                   // nothing fails
            else if (m <= 3) { duo.loc.ffrom = m - 1; duo.loc.fto = onward ? ~0ull : m; if (onward) { } }
            else if (m <= 6) { duo.glob.ffrom = m - 4; duo.glob.fto = onward ? ~0ull : m - 3; }
            if (hit && m == 0) continue;
            if (!hit && m > 0) break;
            if (onward)
            { // all (local, global) starting points
                for (int l = 0; l <= 3 && !ok; l++) for (int g = 0; g <= 3 && !ok; g++)
                {
                    if (m) { if (m > 1) break; }
                    duo.loc.m.clear();
                    duo.glob.m.clear();
                    duo.st.vars.assign(duo.st.vars.size(), 0);
                    duo.st.vars[vx - 100] = 9;
                    setw(duo.loc, false);
                    setw(duo.glob, false);
                    if (m) { duo.loc.ffrom = l; duo.loc.fto = ~0ull; duo.glob.ffrom = g; duo.glob.fto = ~0ull; }
                    F want = duo.ev.run(duo.prog, duo.st, 100000);
                    ok = matches(want, got, how);
                    if (first.empty()) first = how;
                }
                continue;
            }
            (void)any;
            F want = duo.ev.run(duo.prog, duo.st, 100000);
            ok = matches(want, got, how);
            if (first.empty()) first = how;
        }
        st_trace();
        if (!ok) fail("the outcome is none of those of an access reading 0 (%s)", first.c_str());
        if (hit) st_nontrivial();
        clear();
    };
    add(s);
    // memset and memcpy over three blocks, every allocation failing alone or with all later ones
    static const double rg[][3] = {{65530, 200000, 10}, {65530, 65500, 20}, {65000, 65536, 1000}, {65536, 65000, 1000}, {131070, 3, 70000}, {3, 131070, 70000}, {0, 65536, 131072}, {65536, 0, 131072}, {10, 300000, 66000}, {300000, 10, 140000}, {8388600, 0, 20}, {0, 8388600, 8}};
    Job c;
    c.name = "ranges";
    c.count = 12 * 8 * 2 * 6 * 2;
    c.init = init;
    c.run = [=](uint64_t i) {
        bool onward = i & 1;
        bool cpy = i >> 1 & 1;
        i >>= 2;
        int k = i % 6;
        i /= 6;
        int existing = i % 8;   // which of the blocks 0, 1, 2 exist before
        i /= 8;
        double d = rg[i][0], s = rg[i][1], n = rg[i][2];
        std::string t = cpy ? strf("memcpy(%.0f,%.0f,%.0f)", d, s, n) : strf("memset(%.0f,7,%.0f)", d, n);
        note("%s, block allocation %d%s fails, existing blocks %d%d%d", t.c_str(), k, onward ? " and all later ones" : "", existing & 1, existing >> 1 & 1, existing >> 2);
        std::vector<long> at;
        for (double x : {d, d + n, s, s + n, d + n / 2, 65536., 131072., 0.}) for (int q = -2; q < 3; q++) if (x + q >= 0 && x + q < SLOTS) at.push_back((long)(x + q));
        std::sort(at.begin(), at.end());
        at.erase(std::unique(at.begin(), at.end()), at.end());
        std::unordered_map<long, F> old;
        for (long q : at) { int b = int(q >> 16); if (b < 3 && (existing >> b & 1)) { duo.w.poke(false, (int)q, F(q % 5000 + 1)); old[q] = F(q % 5000 + 1); } else old[q] = 0; }
        Handle h(duo.w.c, t);
        if (!h) fail("does not compile");
        fault_on(k, onward ? ~0ull : k + 1, big_size);
        F r = h();
        uint64_t hit = faults_hit;
        fault_off();
        lock_idle("executing");
        if (!same(r, (F)d)) fail("yields %s", show(r).c_str());
        long lo, hi;
        ref::Evaluator::range(d, cpy ? s : d, n, lo, hi);
        long off = cpy ? (long)(s - d) : 0;
        bool all = true;
        for (long q : at)
        {
            F x = duo.w.peek(false, (int)q), o = old[q];
            bool in = q >= lo && q < hi;
            if (!in) { if (!same(x, o)) fail("slot %ld outside of the range becomes %s (was %s)", q, show(x).c_str(), show(o).c_str()); continue; }
            F nv = F(7);
            if (cpy) { auto it = old.find(q + off); if (it == old.end()) nv = 0; else nv = it->second; }
            if (!same(x, nv)) all = false;
            if (!same(x, nv) && !same(x, o)) fail("slot %ld becomes %s (was %s, copied value %s)", q, show(x).c_str(), show(o).c_str(), show(nv).c_str());
        }
        if (!hit && !all) fail("no allocation failed, but not everything was stored");
        st_trace();
        if (hit) st_nontrivial();
        // afterwards everything works
        Handle z(duo.w.c, "memset(0,3,200000)");
        z();
        for (int q : {0, 65535, 65536, 131071, 131072, 199999}) if (duo.w.peek(false, q) != 3) fail("afterwards slot %d cannot be written", q);
        projectm_eval_context_free_memory(duo.w.c);
    };
    add(c);
    // creation: every allocation fails, alone or with all later ones
    Job o;
    o.name = "creation";
    o.count = 5 * 64 * 2 * 2;
    o.run = [](uint64_t i) {
        bool onward = i & 1;
        bool second = i >> 1 & 1;    // another context exists on the built-in buffer
        i >>= 2;
        int kind = i % 5, k = int(i / 5);
        static const char* kn[] = {"buffer", "context (built-in buffer and registers)", "context (own buffer)", "context (own registers)", "context (own buffer and registers)"};
        note("creating a %s%s, allocation %d%s fails", kn[kind], second ? " beside another context" : "", k, onward ? " and all later ones" : "");
        F regs[100];
        memset(regs, 0, sizeof regs);
        Ledger base = led;
        Ctx* other = second ? projectm_eval_context_create(nullptr, nullptr) : nullptr;
        projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
        Ledger l0 = led;
        fault_on(k, onward ? ~0ull : k + 1, 0);
        projectm_eval_mem_buffer b = nullptr;
        Ctx* c = nullptr;
        if (kind == 0) b = projectm_eval_memory_buffer_create();
        else c = projectm_eval_context_create(kind == 2 || kind == 4 ? gm : nullptr, kind >= 3 ? &regs : nullptr);
        uint64_t hit = faults_hit;
        fault_off();
        lock_idle("creation");
        bool made = kind == 0 ? b != nullptr : c != nullptr;
        if (hit && made) fail("creation succeeds although an allocation failed");
        if (!hit && !made) fail("creation fails although no allocation failed");
        if (!made)
        {
            if (!second && kind != 0) projectm_eval_memory_global_destroy();
            if (led.live != l0.live || led.bytes != l0.bytes) fail("%lld blocks (%lld bytes) are left behind", (long long)(led.live - l0.live), (long long)(led.bytes - l0.bytes));
        }
        auto use = [&](Ctx* x) {
            Handle h(x, "gmem[70000]=gmem[70000]+1;megabuf(5)=4;a=3;reg05=2;megabuf(5)+a+gmem[70000]+reg05");
            if (!h) fail("afterwards a program does not compile");
            if (h() != 10) fail("afterwards a program does not work");
        };
        if (c) { use(c); projectm_eval_context_destroy(c); }
        if (b) projectm_eval_memory_buffer_destroy(b);
        c = projectm_eval_context_create(gm, &regs);
        if (!c) fail("creating a context afterwards fails");
        projectm_eval_context_destroy(c);
        c = projectm_eval_context_create(nullptr, nullptr);
        if (!c) fail("creating a context afterwards fails");
        projectm_eval_memory_buffer_destroy(gm);
        projectm_eval_context_destroy(c);
        if (other) projectm_eval_context_destroy(other);
        projectm_eval_memory_global_destroy();
        if (led.live != base.live) fail("%lld blocks are left after destroying everything", (long long)(led.live - base.live));
        st_trace();
        if (hit) st_nontrivial();
    };
    add(o);
}
}
MODE(C19) { c19::jobs(); }
