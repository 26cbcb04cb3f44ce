// Evaluation: values (C04), storage (C05), control flow (C06), optimisation
// (C07), independence of handles (C08), the same with 4-byte numbers (C23).
#include "duo.hpp"
#include "gram.hpp"
#include "fam.hpp"
#include <memory>
using namespace vf;

static Duo duo;
static int va, vb, vc, vn, vt, vone, vzz;
static void fresh()
{
    if (duo.w.c) duo.w.close();
    duo.open();
    va = duo.var("a");
    vb = duo.var("b");
    vc = duo.var("c");
    vn = duo.var("n");
    vt = duo.var("t");
    vone = duo.var("one");
    vzz = duo.var("zz");
}

// =============================================================================
// C04
namespace c04 {
static std::vector<F> values()
{
    std::vector<double> v = {0, -0.0, 1, -1, 2, -2, 3, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 7, -7, 10, 63, 255, 256, 1e-5, 1.0001e-5, 0.9999e-5, -1.0001e-5, 1e-4, 0.1, -0.1,
        3.141592653589793, 1.5707963267948966, 2.718281828, 0.9999999, 1.0000001, 100.25, -100.75, 65535, 65536, -65536, 1e6, 123456789, 2147483646.0, -2147483647.0, 1e-20, -1e-20, 1e15, 0.3, -3.7, 4, 5, -5, 16, 1000};
    if (sizeof(F) == 8) for (double d : {1.0000000000000002, 1e16, 1.0000000000000002e16, 0.30000000000000004, 1e-299, -1e-299, 1e-200, 1e200, -1e200, 2147483647.5, 4294967296.0, -1e10, 9.007199254740993e15, 1.7e308}) v.push_back(d);
    else for (double d : {1.0000001192092896, 16777216.0, 1e-30, -1e-30, 1e30, -1e30, 3e38}) v.push_back(d);
    v.push_back(INFINITY);
    v.push_back(-INFINITY);
    v.push_back(NAN);
    std::vector<F> o;
    for (double d : v) o.push_back((F)d);
    return o;
}
static std::vector<F> vals;
static std::string lit(F x)
{
    if (x != x) return "(1e999-1e999)";
    std::string s = std::isinf((double)x) ? "1e999" : strf("%.17g", fabs((double)x));
    return std::signbit((double)x) ? "(-" + s + ")" : s;
}
// operand forms: 0 literal, 1 variable, 2 megabuf, 3 gmegabuf, 4 register, 5 computed value
static std::string operand(int form, int k, F x)
{
    switch (form)
    {
    case 0: return lit(x);
    case 1: return std::string(1, 'a' + k);
    case 2: return strf("%d[]", k + 1);
    case 3: return strf("gmem[%d]", k + 1);
    case 4: return strf("reg%02d", k + 1);
    default: return strf("(%c*one)", 'a' + k);
    }
}
static void place(int k, F x)
{
    duo.set(k == 0 ? va : k == 1 ? vb : vc, x);
    duo.slot(false, k + 1, x);
    duo.slot(true, k + 1, x);
    duo.set(k + 1, x);
}
struct Fn { std::string text; int n; };   // text with @0 @1 @2
static std::vector<Fn> fns()
{
    std::vector<Fn> f;
    for (auto& b : ref::builtins)
    {
        if (b.op == ref::O_RAND || b.op == ref::O_LOOP || b.op == ref::O_WHILE || b.op == ref::O_MEM || b.op == ref::O_GMEM || b.op == ref::O_MEMCPY || b.op == ref::O_MEMSET) continue;
        std::string t = std::string(b.name) + "(";
        for (int k = 0; k < b.arity; k++) t += strf("%s@%d", k ? "," : "", k);
        f.push_back({t + ")", b.arity});
    }
    for (auto o : {"=","+=","-=","*=","/=","%=","^=","|=","&=","||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^"}) f.push_back({std::string("@0 ") + o + " @1", 2});
    f.push_back({"@0?@1:@2", 3});
    f.push_back({"-@0", 1});
    f.push_back({"+@0", 1});
    f.push_back({"!@0", 1});
    f.push_back({"(@0;@1)", 2});
    f.push_back({"@0", 1});
    return f;
}
static std::vector<Fn> F_;
static void check(const std::string& t, const F* x, int n)
{
    duo.set(vone, 1);
    for (int k = 0; k < n; k++) place(k, x[k]);
    note("program %s, arguments %s %s %s", t.c_str(), show(x[0]).c_str(), n > 1 ? show(x[1]).c_str() : "", n > 2 ? show(x[2]).c_str() : "");
    if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
    Handle h(duo.w.c, t);
    if (!h) fail("is rejected");
    F want = duo.ev.run(duo.prog, duo.st, 1000);
    F got = h();
    st_trace();
    if (duo.ev.vague) { st_skip(); duo.adopt(); duo.reset(); return; }
    // only these two are approximations, computed in several steps
    bool exact = sizeof(F) == 8 && t.find("invsqrt") == t.npos && t.find("sigmoid") == t.npos;
    if (!(exact ? same(got, want) : close_to(got, want))) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    if (got == 0 && std::signbit(got) && t.compare(0, 4, "abs(") == 0) fail("result is a negative zero");
    std::string how;
    if (duo.differs(how, false, exact)) fail("%s", how.c_str());
    st_state(hash_bytes(&want, sizeof want));
    st_nontrivial();
    duo.reset();
}
static std::string inst(const Fn& f, const int* forms, const F* x)
{
    std::string t;
    for (size_t i = 0; i < f.text.size(); i++)
    {
        if (f.text[i] == '@') { int k = f.text[++i] - '0'; t += operand(forms[k], k, x[k]); }
        else t += f.text[i];
    }
    return t;
}
static void table(const char* name, bool thor)
{
    vals = values();
    F_ = fns();
    static const F small[] = {0, 1, -1, F(0.5), F(1e-5), 2, F(1e-20)};
    for (int n = 1; n <= 3; n++)
    {
        auto idx = std::make_shared<std::vector<int>>();
        for (size_t k = 0; k < F_.size(); k++) if (F_[k].n == n) idx->push_back((int)k);
        int nv = n == 3 ? 7 : (int)vals.size();
        uint64_t combos = 1, formc = 1;
        for (int k = 0; k < n; k++) combos *= nv;
        // forms: all operands alike (6), plus literal/variable mixed; every combination when thorough
        for (int k = 0; k < n; k++) formc *= thor || n == 3 ? 6 : 6;
        if (n == 3 && !thor) formc = 6 * 6;
        if (n == 2 && !thor) formc = 12;
        Job j;
        j.name = strf("%s%d", name, n);
        j.count = idx->size() * combos * formc;
        j.init = fresh;
        j.run = [=](uint64_t i) {
            const Fn& f = F_[(*idx)[i % idx->size()]];
            i /= idx->size();
            F x[3] = {0, 0, 0};
            for (int k = 0; k < n; k++) { x[k] = n == 3 ? small[i % nv] : vals[i % nv]; i /= nv; }
            int fm[3];
            if (n == 2 && !thor) { static const int mix[12][2] = {{0,0},{1,1},{2,2},{3,3},{4,4},{5,5},{0,1},{1,0},{1,2},{2,0},{5,1},{3,5}}; fm[0] = mix[i][0]; fm[1] = mix[i][1]; }
            else for (int k = 0; k < 3; k++) { fm[k] = i % 6; i /= 6; }
            check(inst(f, fm, x), x, n);
        };
        add(j);
    }
    // the same value twice: x op x
    Job s;
    s.name = strf("%s-same", name);
    s.count = F_.size() * vals.size() * 4;
    s.init = fresh;
    s.run = [=](uint64_t i) {
        const Fn& f = F_[i % F_.size()];
        i /= F_.size();
        F v = vals[i % vals.size()];
        i /= vals.size();
        std::string t;
        for (size_t q = 0; q < f.text.size(); q++)
        {
            if (f.text[q] == '@') { q++; t += operand((int)i + 1, 0, v); }
            else t += f.text[q];
        }
        F x[3] = {v, v, v};
        check(t, x, 3);
    };
    add(s);
    // an integer grid for the integer operators and comparisons
    static const char* iops[] = {"%","%=","&","&=","|","|=","==","!=","<","<=",">",">=","+","-","*","/","/=","min","max","^"};
    Job g;
    g.name = strf("%s-grid", name);
    int R = thor ? 40 : 17;
    int W = 2 * R + 1;
    g.count = 20ull * W * W * 3;
    g.init = fresh;
    g.run = [=](uint64_t i) {
        std::string o = iops[i % 20];
        i /= 20;
        int div = i % 3;
        i /= 3;
        F x[2] = {F(int(i % W) - R), F(int(i / W) - R)};
        if (div == 1) { x[0] += F(0.5); x[1] += F(0.75); }
        if (div == 2) { x[0] *= 1000003; x[1] *= 65537; }
        std::string t = o[0] == 'm' ? o + "(a,b)" : "a" + o + "b";
        check(t, x, 2);
    };
    add(g);
}
// Every construct with a construct in each argument: results of inner ones must
// survive until the outer one uses them.
static void compose(bool thor)
{
    F_ = fns();
    auto ok = std::make_shared<std::vector<int>>();
    for (size_t k = 0; k < F_.size(); k++) ok->push_back((int)k);
    static const F tuples[][6] = {{1, 2, 9, F(0.5), 4, 3}, {F(-1.5), 3, 2, 7, F(-0.25), 6}, {9, 1, F(0.25), 2, 0, 5}, {0, F(-3.5), 1, 1, 12, 2}, {2, 2, 2, 2, 2, 2}, {F(-9), F(8), F(-7), F(6), F(-5), F(4)}};
    // x op y, x, y in turn as the operands of the inner constructs
    Job j;
    j.name = "compose";
    j.init = fresh;
    uint64_t nf = F_.size(), np = 7, nt = thor ? 6 : 4;
    j.count = nf * nf * np * nt;
    j.run = [=](uint64_t i) {
        const Fn& f = F_[i % nf];
        i /= nf;
        const Fn& g = F_[i % nf];
        i /= nf;
        int mask = int(i % 7) + 1;
        const F* x = tuples[i / 7];
        if (f.n < 3 && mask >= (1 << f.n)) return;
        int next = 0;
        auto leaf = [&](bool computed) {
            int k = next++ % 6;
            std::string n = k < 3 ? std::string(1, "abc"[k]) : strf("reg%02d", k + 1);
            return computed ? "(" + n + "*one)" : n;
        };
        std::string t;
        for (size_t q = 0; q < f.text.size(); q++)
        {
            if (f.text[q] != '@') { t += f.text[q]; continue; }
            int k = f.text[++q] - '0';
            if (!(mask >> k & 1)) { t += leaf(true); continue; }
            t += "(";
            for (size_t r = 0; r < g.text.size(); r++)
            {
                if (g.text[r] != '@') { t += g.text[r]; continue; }
                r++;
                t += leaf(true);
            }
            t += ")";
        }
        duo.set(vone, 1);
        for (int k = 0; k < 3; k++) duo.set(k == 0 ? va : k == 1 ? vb : vc, x[k]);
        for (int k = 3; k < 6; k++) duo.set(k + 1, x[k]);
        note("program %s, a..c=%s %s %s, reg04..06=%s %s %s", t.c_str(), show(x[0]).c_str(), show(x[1]).c_str(), show(x[2]).c_str(), show(x[3]).c_str(), show(x[4]).c_str(), show(x[5]).c_str());
        if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
        Handle h(duo.w.c, t);
        if (!h) fail("is rejected");
        F want = duo.ev.run(duo.prog, duo.st, 1000);
        F got = h();
        st_trace();
        if (duo.ev.vague) { st_skip(); duo.adopt(); duo.reset(); return; }
        if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
        std::string how;
        if (duo.differs(how, false, false)) fail("%s", how.c_str());
        st_state(hash_bytes(&want, sizeof want));
        st_nontrivial();
        duo.reset();
    };
    add(j);
}
}
namespace c04 {
// Many values, each function compiled once: all magnitudes, and steps of 1/64 where the results of
// exp, sigmoid and the like have not left the range of numbers
static std::vector<F> dense(bool coarse)
{
    std::vector<F> v = values();
    int emin = sizeof(F) == 8 ? -1074 : -149, emax = sizeof(F) == 8 ? 1023 : 127;
    for (int e = emin; e <= emax; e += coarse ? (sizeof(F) == 8 ? 24 : 6) : 1)
        for (double m : {1., 1.5, 1. + 1. / (1 << 20), 1.9999999}) for (int s : {1, -1})
        {
            F x = (F)(s * ldexp(m, e));
            if (std::isfinite((double)x)) v.push_back(x);
            if (coarse) break;
        }
    if (!coarse) { int d = lim(64, 1024, 4); for (int k = -760 * d; k <= 760 * d; k++) v.push_back(F(k) / d); }
    else for (int k = -60; k <= 60; k++) v.push_back(F(k * 12.75));
    return v;
}
static std::vector<F> D1, D2;
static std::vector<ref::Program*> P_;
static std::vector<Code*> H_;
static void init_dense()
{
    fresh();
    P_.clear();
    H_.clear();
    for (auto& f : F_)
    {
        std::string t;
        for (size_t q = 0; q < f.text.size(); q++) { if (f.text[q] == '@') t += "abc"[f.text[++q] - '0']; else t += f.text[q]; }
        P_.push_back(new ref::Program);
        if (!ref::parse(t, *P_.back(), duo.names)) fail("the reference rejects %s", t.c_str());
        H_.push_back(projectm_eval_code_compile(duo.w.c, t.c_str()));
        if (!H_.back()) fail("%s is rejected", t.c_str());
    }
    duo.sync_names();
}
static void densely(size_t f, F a, F b)
{
    note("function %s, arguments %s %s", F_[f].text.c_str(), show(a).c_str(), show(b).c_str());
    duo.set(va, a);
    duo.set(vb, b);
    duo.set(vc, F(3));
    F want = duo.ev.run(*P_[f], duo.st, 1000);
    F got = projectm_eval_code_execute(H_[f]);
    st_trace();
    if (duo.ev.vague) { st_skip(); duo.adopt(); duo.reset(); return; }
    bool exact = sizeof(F) == 8 && F_[f].text.find("invsqrt") == std::string::npos && F_[f].text.find("sigmoid") == std::string::npos;
    if (!(exact ? same(got, want) : close_to(got, want))) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    for (int v : {va, vb, vc})
    {
        F x = *duo.ptr[v - 100], w = duo.st.vars[v - 100];
        if (!(exact ? same(x, w) : close_to(x, w))) fail("leaves %s in %c, expected %s", show(x).c_str(), v == va ? 'a' : v == vb ? 'b' : 'c', show(w).c_str());
    }
    st_nontrivial();
}
static void many()
{
    D1 = dense(false);
    D2 = dense(true);
    F_ = fns();
    auto add_ = [](const char* name, int from, int to, bool pairs) {
        auto idx = std::make_shared<std::vector<size_t>>();
        for (size_t k = 0; k < F_.size(); k++) if (F_[k].n >= from && F_[k].n <= to && F_[k].text.find("freembuf") == std::string::npos) idx->push_back(k);
        Job j;
        j.name = name;
        j.init = init_dense;
        const size_t B = 512;
        size_t n = pairs ? D2.size() * D2.size() : D1.size(), blocks = (n + B - 1) / B;
        j.count = idx->size() * blocks;
        j.run = [=](uint64_t i) {
            size_t f = (*idx)[i % idx->size()], k = i / idx->size() * B;
            for (size_t e = std::min(n, k + B); k < e; k++)
            {
                if (pairs) densely(f, D2[k % D2.size()], D2[k / D2.size()]);
                else densely(f, D1[k], F(2));
                st_transitions();
            }
            st_state(i);
            duo.reset();
        };
        add(j);
    };
    add_("dense", 1, 3, false);
    add_("dense-pairs", 2, 2, true);
}
}
MODE(C04) { c04::table("table", thorough); c04::compose(thorough); c04::many(); }

// =============================================================================
// A program against the reference, from one initial state, executed `times` times.
static bool run_checked(const std::string& t, Code* h, int times, int scan, bool exact)
{
    for (int k = 0; k < times; k++)
    {
        F want = duo.ev.run(duo.prog, duo.st, duo.budget);
        if (duo.ev.over || duo.ev.vague) { st_skip(); return false; }
        st_transitions();
        F got = projectm_eval_code_execute(h);
        st_trace();
        if (!(exact ? same(got, want) : close_to(got, want))) fail("execution %d: result %s, expected %s", k + 1, show(got).c_str(), show(want).c_str());
        std::string how;
        if (duo.differs(how, scan, exact)) fail("execution %d: %s", k + 1, how.c_str());
        uint64_t hs = hash_bytes(duo.st.vars.data(), duo.st.vars.size() * sizeof(F));
        hs = hash_bytes(&want, sizeof want, hs);
        hs = hash_bytes(duo.mregs, sizeof duo.mregs, hs);
        for (int g = 0; g < 2; g++) for (auto& e : (g ? duo.glob : duo.loc).m) if (e.second != 0) hs += mix(hash_bytes(&e.second, sizeof(F), e.first * 2 + g));
        st_state(hs);
    }
    return true;
}
typedef void (*Load)(int state);
static void program(const std::string& t, int states, Load load, int times, int scan, bool exact)
{
    note("program %s", t.c_str());
    if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
    duo.sync_names();
    Handle h(duo.w.c, t);
    if (!h) fail("is rejected");
    for (int s = 0; s < states; s++)
    {
        note("program %s, initial state %d", t.c_str(), s);
        load(s);
        // dry run: only programs whose executions all end within the budget
        bool full = run_checked(t, h.h, times, scan, exact);
        duo.reset();
        if (!full)
        { // the real state may differ: start over
            duo.adopt();
            duo.reset();
        }
    }
    st_nontrivial();
    st_sample(t);
}
static void gram_jobs(const char* name, std::shared_ptr<Gram> g, const char* start, int from, int to, int form, std::function<void(const std::string&, int)> f)
{
    int nt = g->nt(start);
    for (int s = from; s <= to; s++)
    {
        Job j;
        j.name = strf("%s%d", name, s);
        j.count = g->count(nt, s);
        if (!j.count) continue;
        j.init = fresh;
        j.run = [=](uint64_t i) {
            std::string t;
            int ord = 0;
            g->unrank(nt, s, i, form, t, ord);
            f(t, s);
        };
        add(j);
    }
}

// ---- C05 ---------------------------------------------------------------------
static void load5(int s)
{
    duo.budget = 3000;
    if (s == 0)
    {
        duo.set(va, 2); duo.set(vb, 5); duo.set(7, 3);
        duo.slot(false, 1, 4); duo.slot(true, 2, 6); duo.slot(false, 2, 8); duo.slot(false, 3, 9); duo.slot(false, 5, 1); duo.slot(true, 4, 7);
    }
    else if (s >= 10)
    { // special contents
        static const double x[][2] = {{1e-305, -1e-310}, {-0.0, 5e-324}, {INFINITY, -INFINITY}, {NAN, 2}, {1e-6, -1e-30}, {-1, -2.5}, {1e30, -1e300}};
        F p = (F)x[s - 10][0], q = (F)x[s - 10][1];
        if (sizeof(F) == 4 && s == 10) { p = F(1e-42); q = F(-3e-45); }
        duo.set(va, p); duo.set(vb, q); duo.set(7, p);
        duo.slot(false, 1, q); duo.slot(true, 2, p); duo.slot(false, 2, 4); duo.slot(true, 0, q);
    }
    else
    {
        duo.set(va, 0); duo.set(vb, 1); duo.set(7, 0);
        duo.slot(true, 2, 2); duo.slot(false, 0, 3); duo.slot(false, 4, 5); duo.slot(true, 0, 1);
    }
}
static std::shared_ptr<Gram> gram5()
{
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "b", "3", "reg07", "1[]", "gmem[2]"}) g->add("E", 1, l);
    for (auto u : {"-({E})", "megabuf({E})", "gmegabuf({E})", "while({E})", "abs({E})", "freembuf({E})", "sqr({E})"}) g->add("E", 1, u);
    for (auto b : {"({E})=({E})", "({E})+=({E})", "({E})*=({E})", "({E})+({E})", "({E})&&({E})", "exec2({E},{E})", "({E};{E})", "loop({E},{E})", "max({E},{E})", "({E})/=({E})"}) g->add("E", 1, b);
    for (auto t : {"if({E},{E},{E})", "exec3({E},{E},{E})", "memset({E},{E},{E})", "memcpy({E},{E},{E})"}) g->add("E", 1, t);
    return g;
}
// the same statement forms on few operands: deeper nesting of the reference passing constructs
static std::shared_ptr<Gram> gram5b()
{
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "b", "2", "1[]"}) g->add("E", 1, l);
    for (auto b : {"({E})=({E})", "({E})+=({E})", "exec2({E},{E})", "({E};{E})", "loop({E},{E})"}) g->add("E", 1, b);
    for (auto t : {"if({E},{E},{E})", "exec3({E},{E},{E})"}) g->add("E", 1, t);
    return g;
}
// every function and operator as the outer construct around small operands and as the operand of assigning constructs
static std::shared_ptr<Gram> gram5c()
{
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "b", "2", "reg07", "1[]", "gmem[2]", "if(a,b,1[])", "exec2(b,a)", "(1;a)", "(a=4)", "(b+=1)", "loop(1,b)", "exec3(a,b,1[])", "(5)"}) g->add("L", 1, l);
    for (auto& b : ref::builtins)
    {
        if (b.op == ref::O_RAND || b.op == ref::O_WHILE) continue;
        std::string t = std::string(b.name) + "(";
        for (int k = 0; k < b.arity; k++) t += k ? ",{L}" : "{L}";
        g->add("F", 0, t + ")");
    }
    for (auto o : {"=","+=","-=","*=","/=","%=","^=","|=","&=","||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^"}) g->add("F", 0, std::string("({L})") + o + "({L})");
    for (auto o : {"-({L})", "!({L})", "({L})[]", "({L})[{L}]", "gmem[{L}]", "({L})?({L}):({L})", "({L};{L};{L})"}) g->add("F", 0, o);
    for (auto w : {"{F}", "a={F}", "({F})=7", "({F})+=7", "exec3(a,({F}),b)", "exec2(({F}),a)", "b=({F});a", "loop(2,({F}))", "if(({F}),a,b)", "({F})&&({F2})", "a+({F})", "({F})+a"}) g->add("S", 0, w);
    g->add("F2", 0, "({L})=({L})");
    return g;
}
static void storage(bool thor, int cut)
{
    auto f = [](const std::string& t, int s) { program(t, 2, load5, 2, s <= 4 ? 2 : 1, true); };
    auto f1 = [](const std::string& t, int s) { program(t, 1, load5, 2, s <= 4 ? 2 : 1, true); };
    auto f3 = [](const std::string& t, int s) { program(t, 2, load5, 2, 1, false); };
    gram_jobs("ast", gram5(), "E", 1, (thor ? 6 : 5) - cut, 0, f);
    gram_jobs("ref", gram5b(), "E", 1, (thor ? 9 : 8) - cut, 0, f1);
    gram_jobs("forms", gram5c(), "S", 1, (thor ? 4 : 3) - cut, 0, f3);
    // the same with special values in all the places, where no large areas are set or copied
    auto f4 = [](const std::string& t, int s) {
        if (t.find("memset(") != t.npos || t.find("memcpy(") != t.npos || t.find("loop(") != t.npos) { st_skip(); return; }
        note("program %s", t.c_str());
        if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
        duo.sync_names();
        Handle h(duo.w.c, t);
        if (!h) fail("is rejected");
        for (int s = 10; s <= 16; s++)
        {
            note("program %s, initial state %d", t.c_str(), s);
            load5(s);
            if (run_checked(t, h.h, 1, 1, sizeof(F) == 8) || !duo.ev.vague) { duo.reset(); continue; }
            // The truth of some number is not defined: one of the ways to define it has to explain the outcome.
            bool ok = false;
            std::string how;
            duo.ev.branching = true;
            int most = 0;
            for (duo.ev.choices = 0;; duo.ev.choices++)
            {
                duo.reset();
                load5(s);
                F want = duo.ev.run(duo.prog, duo.st, duo.budget);
                if (duo.ev.over || duo.ev.vague || duo.ev.questions > 5) { ok = true; duo.reset(); st_skip(); break; }
                F got = projectm_eval_code_execute(h.h);
                st_trace();
                ok = (sizeof(F) == 8 ? same(got, want) : close_to(got, want)) && !duo.differs(how, 1, sizeof(F) == 8);
                if (!ok && how.empty()) how = "result " + show(got);
                duo.adopt();
                if (!ok) for (auto& b : bigs) memset(b.p, 0, b.n); // slots written in the other way
                most = std::max(most, duo.ev.questions);
                if (ok || duo.ev.choices + 1 >> most) break;
            }
            duo.ev.branching = false;
            if (!ok) fail("no choice of the truth of tiny numbers explains: %s", how.c_str());
            duo.reset();
        }
        st_nontrivial();
    };
    gram_jobs("special", gram5c(), "S", 1, (thor ? 3 : 3) - cut, 0, f4);
}
MODE(C05) { storage(thorough, lim(0, 0, 1)); }

// ---- C06 ---------------------------------------------------------------------
static void load6(int s)
{
    duo.budget = 6000;
    duo.set(vt, 0);
    duo.set(vn, s == 0 ? 3 : s == 1 ? 0 : -1);
}
static std::shared_ptr<Gram> gram6(bool deep)
{
    auto g = std::make_shared<Gram>();
    // leaves leave a mark that depends on their position and on everything executed before
    std::string m = "(t=(t*13+#)%100003;";
    for (auto l : {"0)", "2)", "n=n-1)"}) g->add("E", 1, m + l);
    for (auto u : {"while({E})"}) g->add("E", 1, u);
    if (!deep) for (auto u : {"!({E})", "megabuf({E})"}) g->add("E", 1, u);
    for (auto b : {"exec2({E},{E})", "({E};{E})", "loop({E},{E})", "({E})&&({E})", "({E})||({E})"}) g->add("E", 1, b);
    if (!deep) for (auto b : {"_and({E},{E})", "_or({E},{E})", "({E})+({E})", "band({E},{E})", "bor({E},{E})", "({E})=({E})", "pow({E},{E})", "atan2({E},{E})", "({E})[{E}]"}) g->add("E", 1, b);
    for (auto t : {"if({E},{E},{E})", "exec3({E},{E},{E})"}) g->add("E", 1, t);
    if (!deep) for (auto t : {"({E})?({E}):({E})", "_if({E},{E},{E})", "memset({E},{E},{E})", "({E};{E};{E})", "memcpy({E},{E},{E})"}) g->add("E", 1, t);
    return g;
}
static std::shared_ptr<Gram> gram6c()
{
    auto g = std::make_shared<Gram>();
    std::string m = "(t=(t*13+#)%100003;";
    for (auto l : {"0)", "2)", "n=n-1)", "n)"}) g->add("L", 1, m + l);
    for (auto& b : ref::builtins)
    {
        if (b.op == ref::O_RAND || b.op == ref::O_WHILE) continue;
        std::string t = std::string(b.name) + "(";
        for (int k = 0; k < b.arity; k++) t += k ? ",{L}" : "{L}";
        g->add("F", 0, t + ")");
    }
    for (auto o : {"=","+=","-=","*=","/=","%=","^=","|=","&=","||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^"}) g->add("F", 0, std::string("({L})") + o + "({L})");
    for (auto o : {"-({L})", "!({L})", "({L})[]", "({L})[{L}]", "gmem[{L}]", "({L})?({L}):({L})", "({L};{L};{L})"}) g->add("F", 0, o);
    for (auto w : {"{F}", "a={F}", "exec3({L},({F}),{L})", "exec2(({F}),{L})", "{F};({F})", "loop(2,({F}))", "if(({F}),{L},{L})", "({L})+({F})", "({F})||({F})", "({L})&&({F})", "while(({F})*(n=n-1))"}) g->add("S", 0, w);
    return g;
}
static double n_dummy(double v, double w) { return w < v ? 1 : 0; }
static void limits6()
{
    // iteration counts and limits
    static const char* counts[] = {"0", "-0", "0.9999999", "1", "1.9999999", "2", "-1", "-0.5", "1e-320", "100", "1048575", "1048575.9", "1048576", "1048577", "1048576.5", "2000000", "4294967296", "4294967297",
        "2147483647", "2147483648", "-2147483648", "-2147483649", "1e15", "1e300", "1e999", "-1e999", "9223372036854775807", "18446744073709551616", "-1e300", "65536", "131072", "1048574"};
    static const int NC = sizeof counts / sizeof *counts;
    struct T { std::string text; double result, n; };
    auto ts = std::make_shared<std::vector<T>>();
    const double M = 1048576;
    for (auto c : counts)
    {
        double v = strtod(c, nullptr), k = v >= 1 ? std::min(trunc(v), M) : 0;
        for (int form = 0; form < 4; form++)
        {
            std::string cnt = form == 0 ? c : form == 1 ? strf("(a=%s)", c) : form == 2 ? strf("exec2(a=%s,a)", c) : strf("(n=0;%s)", c);
            ts->push_back({"loop(" + cnt + ",n=n+1);n", k, k});
        }
        // the count is taken once, before the first iteration
        ts->push_back({strf("a=%s;loop(a,n=n+1;a=0);n", c), k, k});
        ts->push_back({strf("a=%s;loop(a,n=n+1;a=a+5);n", c), k, k});
        // while: c iterations wanted
        double w = v >= 1 ? std::min(ceil(v), M) : 1;
        if (v == v && fabs(v) < 1e14) ts->push_back({strf("while(n=n+1;n<%s)", c), n_dummy(v, w), w});
    }
    (void)NC;
    // endless loops end after 2^20 iterations, one after the other, nested in others
    ts->push_back({"while(n=n+1)", M, M});
    ts->push_back({"while(n=n+1;1)", 1, M});
    ts->push_back({"while(n=n+1;1);while(n=n+1;2)", 2, 2 * M});
    ts->push_back({"loop(3,while(n=n+1;1))", 1, 3 * M});
    ts->push_back({"while(n=n+1;a=a+1;1)+while(n=n+1;1)", 2, 2 * M});
    ts->push_back({"if(while(n=n+1;1),while(n=n+1;-1),7)", -1, 2 * M});
    ts->push_back({"loop(5,loop(300000,n=n+1));n", 1500000, 1500000});
    ts->push_back({"loop(2,loop(1e9,n=n+1));n", 2 * M, 2 * M});
    ts->push_back({"exec3(loop(1e9,n=n+1),loop(1e9,n=n+1),while(n=n+1;3))", 3, 3 * M});
    ts->push_back({"while(loop(1000,n=n+1);a=a+1;a<1500);n", 1500000, 1500000});
    ts->push_back({"loop(1500,a=2000;while(n=n+1;a=a-1));n", 3000000, 3000000});
    ts->push_back({"t=0;while(a=0;while(n=n+1;a=a+1;a<300000);t=t+1;t<5);n", 1500000, 1500000});
    ts->push_back({"t=0;while(while(n=n+1;1);t=t+1;t<3);n", 3 * M, 3 * M});
    ts->push_back({"t=0;while(a=0;while(zz=0;while(n=n+1;zz=zz+1;zz<20000);a=a+1;a<10);t=t+1;t<10);n", 2000000, 2000000});
    ts->push_back({"t=0;loop(3,a=0;while(loop(50000,n=n+1);a=a+1;a<10);t=t+1);n+t", 1500003, 1500000});
    ts->push_back({"while(n=n+1;n<1000000);while(n=n+1;n<2000000);loop(1000000,n=n+1);n", 3000000, 3000000});
    ts->push_back({"loop(1e9,0);loop(3,n=n+1);n", 3, 3});
    ts->push_back({"while(1);while(0);loop(2,n=n+1);n", 2, 2});
    Job j;
    j.name = "limits";
    j.count = ts->size();
    j.init = fresh;
    j.chunk = 4;
    j.hang_cpu = 30;
    j.run = [=](uint64_t i) {
        auto& t = (*ts)[i];
        note("program %s", t.text.c_str());
        Handle h(duo.w.c, t.text);
        if (!h) fail("is rejected");
        for (int k = 0; k < 2; k++)
        {
            duo.set(vn, 0);
            duo.set(va, 0);
            F r = h();
            st_trace();
            F n = *duo.ptr[vn - 100];
            if (n != (F)t.n) fail("%s iterations, expected %s", show(n).c_str(), show((F)t.n).c_str());
            if (r != (F)t.result) fail("result %s, expected %s", show(r).c_str(), show((F)t.result).c_str());
            st_state((uint64_t)(t.n * 16 + t.result));
        }
        duo.reset();
        st_nontrivial();
        st_sample(t.text);
    };
    add(j);
}
static void control(bool thor, int cut)
{
    auto f = [](const std::string& t, int s) { program(t, 3, load6, 1, false, true); };
    auto fc = [](const std::string& t, int s) { program(t, 1, load6, 1, false, false); };
    gram_jobs("ast", gram6(false), "E", 1, (thor ? 6 : 5) - cut, 0, f);
    gram_jobs("deep", gram6(true), "E", 1, (thor ? 8 : 7) - cut, 0, f);
    gram_jobs("forms", gram6c(), "S", 1, (thor ? 5 : 4) - cut, 0, fc);
}
// Which values count as true, for every construct with a condition
static void conditions6()
{
    static const char* txt[] = {"if(@,t=1,t=2)", "_if(@,t=1,t=2)", "@?(t=1):(t=2)", "@&&(t=1)", "_and(@,t=1)", "@||(t=1)", "_or(@,t=1)", "while(t=t+1;if(above(t,2),0,@))", "while(t=t+1;t<3&&@)", "while(t=t+1;(t<4)*(@))",
        "if(!(@),t=1,t=2)", "if(if(@,@,0),t=1,t=2)", "if(@,t=1,t=2)=5", "(@;@)&&(t=1)", "if((@)&&(@),t=1,t=2)", "if((@)||(@),t=1,t=2)", "if(exec2(t=3,@),t=t+1,t=t+2)", "loop(2,if(@,t=t+1,t=t+10))", "(@)&&(@)&&(t=1)", "(@)||(@)||(t=1)", "1&&(@)", "0||(@)", "if(a==b,t=1,t=2)", "if(@,if(@,t=1,t=2),t=3)"};
    static const int NX = sizeof txt / sizeof *txt;
    c04::vals = c04::values();
    auto vs = std::make_shared<std::vector<F>>(c04::vals);
    for (double d : {1e-6, -1e-6, 1e-7, 1e-9, -1e-10, 1e-12, 1e-15, 1e-16, 2.2e-16, 1e-18, 1e-30, -1e-35}) vs->push_back((F)d);
    if (sizeof(F) == 8) for (double d : {1e-40, 1e-100, -1e-150, 1e-250, 1e-298}) vs->push_back((F)d);
    Job j;
    j.name = "conditions";
    j.count = (uint64_t)NX * vs->size() * 6;
    j.init = fresh;
    j.run = [=](uint64_t i) {
        std::string f = txt[i % NX], t;
        i /= NX;
        F x[3] = {(*vs)[i % vs->size()], 1, 1};
        int form = int(i / vs->size());
        for (char c : f) if (c == '@') t += c04::operand(form, 0, x[0]); else t += c;
        duo.set(vt, 0);
        c04::check(t, x, 2);
    };
    add(j);
}
MODE(C06)
{
    control(thorough, lim(0, 0, 1));
    limits6();
    conditions6();
}

// ---- C07 ---------------------------------------------------------------------
// Form 1 of the grammar is the de-optimised program: literals are products of
// a variable, and all discarded list items are assigned to a variable.
static std::shared_ptr<Gram> gram7(bool wide)
{
    auto g = std::make_shared<Gram>();
    g->add("E", 1, "0", "(0*one)");
    g->add("E", 1, "2", "(2*one)");
    if (wide) g->add("E", 1, "0.5", "(0.5*one)");
    g->add("E", 1, "a");
    g->add("E", 1, "(a=a+1)", "(a=a+one)");
    g->add("E", 1, "megabuf(1)", "megabuf(1*one)");
    for (auto u : {"sin({E})", "-({E})"}) g->add("E", 1, u);
    if (wide) for (auto u : {"!({E})", "megabuf({E})", "while(({E})&&(n=n-1))", "sqr({E})", "invsqrt({E})", "floor({E})"}) g->add("E", 1, u);
    g->add("E", 1, "({E};{E})", "(zz=({E});{E})");
    g->add("E", 1, "({E};{E};{E})", "(zz=({E});zz=({E});{E})");
    for (auto b : {"({E})+({E})", "exec2({E},{E})", "loop({E},{E})"}) g->add("E", 1, b);
    if (wide) for (auto b : {"({E})/({E})", "({E})&&({E})", "({E})||({E})", "band({E},{E})", "({E})==({E})", "({E})^({E})", "({E})=({E})", "({E})%({E})", "({E})|({E})", "sigmoid({E},{E})", "({E})+=({E})"}) g->add("E", 1, b);
    g->add("E", 1, "if({E},{E},{E})");
    if (wide) for (auto t : {"exec3({E},{E},{E})", "memset({E},{E},{E})"}) g->add("E", 1, t);
    g->add("S", 0, "{E}");
    g->add("S", 0, "{E};{E}", "zz=({E});{E}");
    g->add("S", 0, "{E};({E};{E})", "zz=({E});(zz=({E});{E})");
    if (wide)
    {
        g->add("S", 0, "({E};{E});{E}", "(zz=({E});zz=({E}));{E}");
        g->add("S", 0, "{E};();{E};", "zz=({E});{E};");
        g->add("S", 0, "(({E};{E});{E});{E}", "((zz=({E});zz=({E}));zz=({E}));{E}");
        g->add("S", 0, "{E};(({E};{E});{E})", "zz=({E});((zz=({E});zz=({E}));{E})");
    }
    return g;
}
static void load7(int s)
{
    duo.budget = 3000;
    duo.set(vone, 1);
    duo.set(va, s == 0 ? 1 : 0);
    duo.set(vn, 3);
    duo.slot(false, 1, s == 0 ? 5 : 0);
    duo.slot(false, 0, F(0.25));
    // what differs from the state at compile time, so reading it too early is seen
    duo.slot(true, 0, s == 0 ? F(1.5) : 3);
    duo.slot(true, 1, s == 0 ? 0 : 6);
    duo.slot(false, 2, s == 0 ? 7 : 0);
    duo.set(7, s == 0 ? F(2.5) : 0);
}
static void pair7(const std::string& t, const std::string& u)
{
    note("program %s\n  de-optimised %s", t.c_str(), u.c_str());
    bool ok = ref::parse(t, duo.prog, duo.names);
    duo.sync_names();
    Handle h(duo.w.c, t), k(duo.w.c, u);
    if (!ok || !h || !k) fail("does not compile (%s %s %s)", ok ? "reference: yes" : "reference: no", h ? "program: yes" : "program: no", k ? "de-optimised: yes" : "de-optimised: no");
    for (int s = 0; s < 2; s++)
    {
        load7(s);
        F want = duo.ev.run(duo.prog, duo.st, duo.budget);
        if (duo.ev.over) { duo.reset(); st_skip(); continue; }
        bool vague = duo.ev.vague;
        F r = h();
        std::string how;
        if (!vague)
        {
            if (!close_to(r, want)) fail("result %s, unoptimised semantics give %s", show(r).c_str(), show(want).c_str());
            if (duo.differs(how, false, false)) fail("%s", how.c_str());
        }
        F fa = *duo.ptr[va - 100], fn = *duo.ptr[vn - 100];
        std::vector<std::pair<int, F>> sl;
        for (int g = 0; g < 2; g++) for (auto& e : (g ? duo.glob : duo.loc).m) sl.push_back({e.first * 2 + g, duo.w.peek(g, e.first)});
        F fr = duo.w.regs[7];
        duo.adopt();
        duo.reset();
        load7(s);
        F r2 = k();
        st_trace();
        if (!same(r, r2)) fail("result %s, de-optimised %s", show(r).c_str(), show(r2).c_str());
        if (!close_to(fa, *duo.ptr[va - 100]) || !close_to(fn, *duo.ptr[vn - 100])) fail("a,n become %s,%s, de-optimised %s,%s", show(fa).c_str(), show(fn).c_str(), show(*duo.ptr[va - 100]).c_str(), show(*duo.ptr[vn - 100]).c_str());
        for (auto& e : sl)
        {
            bool g = e.first & 1;
            F x = duo.w.peek(g, e.first / 2);
            if (!close_to(x, e.second)) fail("%s slot %d becomes %s, de-optimised %s", g ? "gmegabuf" : "megabuf", e.first / 2, show(e.second).c_str(), show(x).c_str());
            duo.w.poke(g, e.first / 2, 0);
        }
        if (!close_to(fr, duo.w.regs[7])) fail("reg07 becomes %s, de-optimised %s", show(fr).c_str(), show(duo.w.regs[7]).c_str());
        F key[3] = {r, fa, fn};
        st_state(hash_bytes(key, sizeof key));
        duo.adopt();
        duo.reset();
    }
    st_nontrivial();
    st_sample(t + "   ==   " + u);
}
// Algebraic identities do not hold for all numbers: every operation on a variable and literals, for all
// values of the variable, against the same operation on computed operands.
static void identities7()
{
    c04::vals = c04::values();
    auto fn = std::make_shared<std::vector<c04::Fn>>();
    for (auto& f : c04::fns()) if (f.n > 1 || f.text.find('(') != f.text.npos || f.text == "-@0" || f.text == "!@0") fn->push_back(f);
    static const char* arg[] = {"a", "0", "1", "2", "(-1)", "0.5", "$X2", "(2-1)"};
    static const F argv[] = {0, 0, 1, 2, -1, F(0.5), 2, 1};
    static const int NA = 8;
    auto pure = [](const std::string& t) { return t.find("=") == t.npos || t.find("==") != t.npos || t.find("!=") != t.npos || t.find("<=") != t.npos || t.find(">=") != t.npos; };
    Job j;
    j.name = "identities";
    j.count = fn->size() * c04::vals.size() * NA * NA * NA;
    j.init = fresh;
    j.run = [=](uint64_t i) {
        auto& f = (*fn)[i % fn->size()];
        i /= fn->size();
        F v = c04::vals[i % c04::vals.size()];
        i /= c04::vals.size();
        int k[3] = {int(i % NA), int(i / NA % NA), int(i / NA / NA)};
        bool var = false;
        for (int q = 0; q < 3; q++)
        {
            if (q >= f.n && k[q]) return;
            var |= q < f.n && k[q] == 0;
        }
        if (!var || !pure(f.text) || f.text.compare(0, 4, "_set") == 0 || f.text.compare(0, 6, "assign") == 0) return;
        if (f.text.size() > 3 && f.text[0] == '_' && f.text.find("op(") != f.text.npos) return;
        // as written, on computed operands, on operands which are all variables
        std::string p[3];
        for (int z = 0; z < 3; z++)
            for (size_t q = 0; q < f.text.size(); q++)
            {
                if (f.text[q] != '@') { p[z] += f.text[q]; continue; }
                int d = f.text[++q] - '0';
                std::string x = arg[k[d]];
                p[z] += z == 0 ? x : z == 1 ? "(" + x + "*one)" : k[d] == 0 ? x : strf("reg%02d", 50 + d);
            }
        note("program %s\n  de-optimised %s\n  and %s\n  a=%s", p[0].c_str(), p[1].c_str(), p[2].c_str(), show(v).c_str());
        F r[3];
        for (int z = 0; z < 3; z++)
        {
            Handle h(duo.w.c, p[z]);
            if (!h) fail("is rejected");
            duo.set(vone, 1);
            duo.set(va, v);
            for (int q = 0; q < f.n; q++) duo.set(50 + q, argv[k[q]]);
            r[z] = h();
            st_trace();
            std::string how;
            if (duo.differs(how, 0, true)) fail("%s", how.c_str());
        }
        for (int z = 1; z < 3; z++)
            if (!same(r[0], r[z])) fail("result %s, de-optimised %s", show(r[0]).c_str(), show(r[z]).c_str());
        st_state(hash_bytes(r, sizeof r));
        duo.reset();
        st_nontrivial();
    };
    add(j);
}
// Nothing may be regrouped, cancelled or distributed: all combinations of two operations, over variables and
// literals of very different magnitude, against the same program on computed operands and the reference.
static void combinations7()
{
    static const char* bin[] = {"(@)+(@)", "(@)-(@)", "(@)*(@)", "(@)/(@)", "(@)^(@)", "(@)%(@)", "(@)|(@)", "(@)&(@)", "(@)==(@)", "(@)<(@)", "(@)>=(@)", "(@)&&(@)", "(@)||(@)", "min(@,@)", "max(@,@)", "band(@,@)", "atan2(@,@)"};
    static const char* un[] = {"-(@)", "!(@)", "sqr(@)", "sqrt(@)", "abs(@)", "sin(@)", "asin(@)", "floor(@)", "ceil(@)", "exp(@)", "log(@)", "sign(@)", "bnot(@)", "+(@)", "log10(@)"};
    static const char* leaf[] = {"a", "b", "0", "1", "(-1)", "2", "3", "0.1", "1e16", "(-1e16)", "1e300", "1e-300"};
    static const int B = sizeof bin / sizeof *bin, U = sizeof un / sizeof *un, L = sizeof leaf / sizeof *leaf;
    static const int LV = lim(12, 12, 5);
    const double big = sizeof(F) == 8 ? 1e300 : 1e30, eps = sizeof(F) == 8 ? 1e16 : 1e8;
    static std::vector<std::pair<F, F>> states;
    states = {{3, F(0.1)}, {F(1), F(eps)}, {F(-0.5), F(-0.0)}, {F(big), F(-2.5)}};
    if (lim(1, 1, 0)) for (auto p : std::vector<std::pair<F, F>>{{0, 0}, {F(eps), F(-eps)}, {INFINITY, 1}, {F(big), F(big)}, {F(7), F(1e-5)}, {NAN, 2}}) states.push_back(p);
    enum { LEFT, RIGHT, OUTER, INNER_L, INNER_R, BOTH, NEST, SHAPES };
    static const char* names[] = {"left", "right", "outer", "inner-left", "inner-right", "inner-both", "nested"};
    auto put = [](const std::string& f, std::vector<std::string> x) {
        std::string t;
        size_t k = 0;
        for (char c : f) if (c == '@') t += x[k++]; else t += c;
        return t;
    };
    for (int shape = 0; shape < SHAPES; shape++)
    {
        Job j;
        j.name = strf("combine-%s", names[shape]);
        uint64_t n = shape == LEFT || shape == RIGHT ? (uint64_t)B * B * LV * LV * LV : shape == NEST ? (uint64_t)U * U * L : shape == BOTH ? (uint64_t)U * U * B * LV * LV : (uint64_t)U * B * LV * LV;
        j.count = n;
        j.init = fresh;
        j.run = [=](uint64_t i) {
            auto take = [&](int n) { int k = int(i % n); i /= n; return k; };
            int f = shape == LEFT || shape == RIGHT ? take(B) : take(U), g = shape == NEST ? take(U) : shape == BOTH ? take(U) : take(B), h = shape == BOTH ? take(B) : 0;
            int lv = shape == NEST ? L : LV;
            int x = take(lv), y = shape == NEST ? 0 : take(lv), z = shape == LEFT || shape == RIGHT ? take(lv) : 0;
            bool var = x < 2 || (shape != NEST && y < 2) || ((shape == LEFT || shape == RIGHT) && z < 2);
            if (!var) return;
            std::string p[2];
            for (int m = 0; m < 2; m++)
            {
                auto l = [&](int k) { return k < 2 || !m ? std::string(leaf[k]) : "(" + std::string(leaf[k]) + "*one)"; };
                switch (shape)
                {
                case LEFT: p[m] = put(bin[f], {put(bin[g], {l(x), l(y)}), l(z)}); break;
                case RIGHT: p[m] = put(bin[f], {l(x), put(bin[g], {l(y), l(z)})}); break;
                case OUTER: p[m] = put(un[f], {put(bin[g], {l(x), l(y)})}); break;
                case INNER_L: p[m] = put(bin[g], {put(un[f], {l(x)}), l(y)}); break;
                case INNER_R: p[m] = put(bin[g], {l(x), put(un[f], {l(y)})}); break;
                case BOTH: p[m] = put(bin[h], {put(un[f], {l(x)}), put(un[g], {l(y)})}); break;
                case NEST: p[m] = put(un[f], {put(un[g], {l(x)})}); break;
                }
            }
            note("program %s\n  de-optimised %s", p[0].c_str(), p[1].c_str());
            if (!ref::parse(p[0], duo.prog, duo.names)) fail("the reference rejects it");
            Handle h0(duo.w.c, p[0]), h1(duo.w.c, p[1]);
            if (!h0 || !h1) fail("is rejected");
            duo.set(vone, 1);
            for (auto& s : states)
            {
                duo.set(va, s.first);
                duo.set(vb, s.second);
                F want = duo.ev.run(duo.prog, duo.st, 1000);
                F r0 = h0(), r1 = h1();
                st_trace();
                if (!same(r0, r1)) fail("a=%s b=%s: result %s, de-optimised %s", show(s.first).c_str(), show(s.second).c_str(), show(r0).c_str(), show(r1).c_str());
                if (duo.ev.vague) st_skip();
                else if (!close_to(r0, want)) fail("a=%s b=%s: result %s, unoptimised semantics give %s", show(s.first).c_str(), show(s.second).c_str(), show(r0).c_str(), show(want).c_str());
                if (!same(*duo.ptr[va - 100], s.first) || !same(*duo.ptr[vb - 100], s.second)) fail("an operand is modified");
                st_state(hash_bytes(&r0, sizeof r0));
            }
            st_nontrivial();
            duo.reset();
        };
        add(j);
    }
    // three operations
    static const char* three[] = {"((@)%(@))%(@)%(@)", "((@)%(@))%((@)%(@))", "(@)%((@)%((@)%(@)))", "(@)%((@)%(@))%(@)", "(@)%(((@)%(@))%(@))"};
    static const char* op3[] = {"+", "-", "*", "/", "^", "&&", "||", "<", "=="};
    static const char* leaf3[] = {"a", "b", "1", "1e16", "0", "3", "(-1e16)", "0.1"};
    int O = lim(7, 9, 0), L3 = lim(5, 8, 0);
    if (!O) return;
    for (int shape = 0; shape < 5; shape++)
    {
        Job j;
        j.name = strf("combine-three%d", shape + 1);
        j.count = (uint64_t)O * O * O * L3 * L3 * L3 * L3;
        j.init = fresh;
        j.run = [=](uint64_t i) {
            int o[3], l[4];
            for (auto& k : o) { k = int(i % O); i /= O; }
            for (auto& k : l) { k = int(i % L3); i /= L3; }
            if (l[0] > 1 && l[1] > 1 && l[2] > 1 && l[3] > 1) return;
            std::string p[2];
            for (int m = 0; m < 2; m++)
            {
                int a = 0, b = 0;
                for (const char* s = three[shape]; *s; s++)
                    if (*s == '@') { int k = l[a++]; p[m] += k < 2 || !m ? std::string(leaf3[k]) : "(" + std::string(leaf3[k]) + "*one)"; }
                    else if (*s == '%') p[m] += op3[o[b++]];
                    else p[m] += *s;
            }
            note("program %s\n  de-optimised %s", p[0].c_str(), p[1].c_str());
            Handle h0(duo.w.c, p[0]), h1(duo.w.c, p[1]);
            if (!h0 || !h1) fail("is rejected");
            duo.set(vone, 1);
            for (auto& s : states)
            {
                duo.set(va, s.first);
                duo.set(vb, s.second);
                F r0 = h0(), r1 = h1();
                st_trace();
                if (!same(r0, r1)) fail("a=%s b=%s: result %s, de-optimised %s", show(s.first).c_str(), show(s.second).c_str(), show(r0).c_str(), show(r1).c_str());
                st_state(hash_bytes(&r0, sizeof r0));
            }
            st_nontrivial();
            duo.reset();
        };
        add(j);
    }
}
static void optim(bool thor, int cut)
{
    for (int wide = 0; wide < 2; wide++)
    {
        auto g = gram7(wide);
        int nt = g->nt("S");
        int to = (wide ? (thor ? 5 : 4) : (thor ? 8 : 7)) - cut;
        for (int s = 1; s <= to; s++)
        {
            Job j;
            j.name = strf("%s%d", wide ? "wide" : "lists", s);
            j.count = g->count(nt, s);
            j.init = fresh;
            if (!j.count) continue;
            j.run = [=](uint64_t i) {
                std::string t, u;
                int o = 0;
                g->unrank(nt, s, i, 0, t, o);
                o = 0;
                g->unrank(nt, s, i, 1, u, o);
                pair7(t, u);
            };
            add(j);
        }
    }
    // every function and operator over constant and non-constant arguments
    auto fn = std::make_shared<std::vector<c04::Fn>>(c04::fns());
    for (auto x : {"memset(@0,@1,@2)", "memcpy(@0,@1,@2)", "megabuf(@0)", "_mem(@0)", "gmegabuf(@0)", "_gmem(@0)", "@0[]", "@0[@1]", "gmem[@0]", "gmem[]", "loop(@0,@1)", "while((@0)&&(n=n-1))", "(@0;@1;@2)"})
    {
        std::string s = x;
        int n = s.find("@2") != s.npos ? 3 : s.find("@1") != s.npos ? 2 : s.find("@0") != s.npos ? 1 : 0;
        fn->push_back({s, n});
    }
    static const char* arg[][2] = {{"0", "(0*one)"}, {"1", "(1*one)"}, {"2.5", "(2.5*one)"}, {"a", "a"}, {"(a=a+1)", "(a=a+one)"}, {"-3", "(-(3*one))"}, {"(1;2)", "(zz=one;2*one)"}, {"(a=3;2)", "(a=3*one;2*one)"}, {"(2;a)", "(zz=2*one;a)"}, {"sin(1)", "sin(one)"}, {"reg07", "reg07"}, {"gmem[1]", "gmem[one]"}};
    static const char* ctx[][2] = {{"%", "%"}, {"%;a", "zz=(%);a"}, {"a;%;n", "zz=(a);zz=(%);n"}, {"1+(%)", "one+(%)"}, {"if(1,(%),2)", "if(one,(%),2*one)"}, {"loop(2,(%))", "loop(2*one,(%))"}, {"exec2((%),1)", "exec2((%),one)"}, {"(1;(%));2", "(zz=one;zz=(%));2*one"}, {"n=5;(1;%)", "n=5*one;(zz=one;%)"}, {"0&&(%)", "(0*one)&&(%)"}, {"(%)=7;a+reg07", "(%)=7*one;a+reg07"}, {"(%)+=2;a", "(%)+=2*one;a"}};
    Job j;
    j.name = "functions";
    j.count = fn->size() * 1728 * 12;
    j.init = fresh;
    j.run = [=](uint64_t i) {
        auto& f = (*fn)[i % fn->size()];
        i /= fn->size();
        int k[3] = {int(i % 12), int(i / 12 % 12), int(i / 144 % 12)};
        int c = i / 1728;
        for (int q = f.n; q < 3; q++) if (k[q]) return;
        std::string p[2];
        for (int z = 0; z < 2; z++)
        {
            std::string t;
            for (size_t q = 0; q < f.text.size(); q++)
            {
                if (f.text[q] == '@') { t += "("; t += arg[k[f.text[++q] - '0']][z]; t += ")"; }
                else t += f.text[q];
            }
            for (const char* s = ctx[c][z]; *s; s++)
                if (*s == '%') p[z] += t;
                else p[z] += *s;
        }
        pair7(p[0], p[1]);
    };
    add(j);
    identities7();
    combinations7();
}
MODE(C07) { optim(thorough, lim(0, 0, 1)); }

// ---- C23 -----------------------------------------------------------------------
MODE(C23)
{
    int cut = thorough ? 0 : 1;
    c04::table("table", false);
    storage(false, cut);
    control(false, cut);
    optim(false, cut);
}

// ---- C26 -----------------------------------------------------------------------
// Memory allocated and released by executions
namespace c26 {
static int64_t base;                  // bytes held without any storage of the buffers
static void untouch(ref::Mem& m) { m.touched[0] = m.touched[1] = 0; }
static void init()
{
    fresh();
    untouch(duo.loc);
    untouch(duo.glob);
    duo.budget = 4000;
    for (auto n : {"t", "n", "a", "b", "c"}) duo.var(n);
    base = led.bytes;
}
typedef void (*Load)(int);
static void prog(const std::string& t, Load load, int states)
{
    note("program %s", t.c_str());
    if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
    duo.sync_names();
    int64_t before = led.bytes;
    Code* h = projectm_eval_code_compile(duo.w.c, t.c_str());
    if (!h) fail("is rejected");
    int64_t code = led.bytes - before;
    bool unknown = false;
    for (int s = 0; s < states && !unknown; s++)
    {
        note("program %s, initial state %d", t.c_str(), s);
        load(s);
        duo.ev.run(duo.prog, duo.st, duo.budget);
        if (duo.ev.over) { st_skip(); duo.adopt(); duo.reset(); continue; }
        unknown = duo.ev.vague;
        bool big = false;
        for (int k = 0; k < 3; k++)
        {
            if (k) { duo.adopt(); duo.reset(); load(s); duo.ev.run(duo.prog, duo.st, duo.budget); }
            Ledger was = led;
            projectm_eval_code_execute(h);
            st_trace();
            st_transitions();
            if (led.frees != was.frees) fail("execution %d releases memory (%d times)", k + 1, int(led.frees - was.frees));
            if (duo.loc.m.size() > 3000) { big = true; break; } // is released by resetting the state
            if (k >= 1 && !unknown && led.allocs != was.allocs) fail("execution %d, from the same state as the one before, allocates %d bytes", k + 1, int(led.bytes - was.bytes));
        }
        int blocks = duo.loc.ntouched() + duo.glob.ntouched();
        if (unknown) break;
        int64_t more = led.bytes - base - code - int64_t(blocks) * BLOCK * sizeof(F);
        if (more > 0) fail("after accessing %d blocks of buffers, %lld bytes more than the storage of these blocks are held", blocks, (long long)more);
        st_state(mix(blocks * 1000003ull - more));
        duo.adopt();
        duo.reset();
        if (big) untouch(duo.loc);
    }
    projectm_eval_code_destroy(h);
    if (unknown) { duo.w.close(); init(); } // other slots may have been accessed
    else if (duo.loc.ntouched() + duo.glob.ntouched() > 40)
    {
        projectm_eval_context_free_memory(duo.w.c);
        untouch(duo.loc);
        if (duo.glob.ntouched() > 30) init();
    }
    else st_nontrivial();
}
static void load_mem(int s)
{
    duo.budget = 4000;
    duo.set(va, s == 0 ? 65536 : s == 1 ? 8388607 : 196607.5);
    duo.set(vb, s == 0 ? 131071 : s == 1 ? 3 : -2);
}
static std::shared_ptr<Gram> gram()
{
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "b", "0", "65535", "200000", "8388608", "1e30"}) g->add("E", 1, l);
    for (auto u : {"megabuf({E})", "gmegabuf({E})", "({E})[]", "freembuf({E})", "_mem({E})", "gmem[{E}]", "loop(3,{E})", "-({E})"}) g->add("E", 1, u);
    for (auto b : {"megabuf({E})=({E})", "gmegabuf({E})+=({E})", "({E})[{E}]=4", "({E};{E})", "({E})+({E})", "a=({E})+({E})"}) g->add("E", 1, b);
    for (auto b : {"memset({E},{E},{E})", "memcpy({E},{E},{E})", "if({E},{E},{E})"}) g->add("E", 1, b);
    return g;
}
static void repeated()
{
    // long executions
    static const char* body[] = {"a=a+1", "b=sin(a)*cos(b)", "megabuf(a)=b", "megabuf(a*65536)=b", "gmegabuf(a*70000)+=1", "memset(a,b,10)", "memcpy(a,b,100)", "memcpy(b,a*1000,70000)", "memset(0,a,100000)", "exec3(a,b,a=b)", "if(a,b=1,a=2)", "freembuf(a)", "rand(100)", "a=rand(5);b=rand(a)", "while(b=b+1;b%7)",
        "loop(5,a=a+1)", "a&&b||a=3", "5[]=a", "a[b]=a[1]", "gmem[a]=b", "invsqrt(a)+sigmoid(a,b)+pow(a,b)", "a|=b;a&=7;a%=5;a^=2;a/=3", "atan2(a,b)+floor(a)+sign(b)", "megabuf(0-1)=3", "megabuf(1e9)=a", "freembuf(0);megabuf(a)=4"};
    static const int NB = sizeof body / sizeof *body;
    Job j;
    j.name = "repeated";
    j.count = NB * NB;
    j.chunk = 4;
    j.hang_cpu = 60;
    j.init = init;
    j.run = [](uint64_t i) {
        std::string one = body[i % NB], two = body[i / NB], t;
        int n = (one + two).find("000)") != t.npos ? 40 : one == two ? 20000 : 500; // fewer times with large areas
        t = strf("a=0;b=0;loop(%d,%s)", n, (one == two ? one : one + ";" + two).c_str());
        note("program %s", t.c_str());
        Code* h = projectm_eval_code_compile(duo.w.c, t.c_str());
        if (!h) fail("is rejected");
        int64_t start = led.bytes;
        for (int k = 0; k < 6; k++)
        {
            Ledger was = led;
            projectm_eval_code_execute(h);
            st_trace();
            st_transitions();
            if (led.frees != was.frees) fail("execution %d releases memory (%d times)", k + 1, int(led.frees - was.frees));
            if (k == 5 && t.find("rand") == t.npos && led.allocs != was.allocs) fail("execution %d allocates %d bytes", k + 1, int(led.bytes - was.bytes));
            if (led.bytes - start > 257ll * BLOCK * (int)sizeof(F)) fail("%lld bytes are held", (long long)led.bytes);
        }
        st_state(led.bytes - start);
        st_nontrivial();
        projectm_eval_code_destroy(h);
        if (led.bytes - base > 64 * BLOCK * (int)sizeof(F)) init();
    };
    add(j);
}
// Deep and long programs
static void families()
{
    static std::vector<fam::Fam> fams = fam::families();
    static const size_t fz[] = {1, 2, 30, 64, 100, 128, 198, 257, 400, 1030, 5000, 11000, 20000};
    Job j;
    j.name = "families";
    j.init = init;
    j.count = fams.size() * (sizeof fz / sizeof *fz);
    j.chunk = 12;
    j.hang_cpu = 100;
    j.run = [](uint64_t i) {
        const fam::Fam& f = fams[i % fams.size()];
        size_t z = fz[i / fams.size()];
        if (z > f.max) return;
        std::string t = f.f(z);
        note("family %s, size %zu: %s", f.name, z, quote(t).c_str());
        Code* h = projectm_eval_code_compile(duo.w.c, t.c_str());
        if (!h) { st_skip(); return; }
        for (int k = 0; k < 4; k++)
        {
            Ledger was = led;
            projectm_eval_code_execute(h);
            st_trace();
            st_transitions();
            if (led.frees != was.frees) fail("execution %d releases memory (%d times)", k + 1, int(led.frees - was.frees));
            if (k == 3 && led.allocs != was.allocs) fail("execution %d allocates %d bytes", k + 1, int(led.bytes - was.bytes));
            if ((led.bytes - was.bytes) % int64_t(BLOCK * sizeof(F))) fail("execution %d allocates %d bytes, which are not blocks of buffers", k + 1, int(led.bytes - was.bytes));
            st_state(mix(led.bytes - was.bytes));
        }
        st_nontrivial();
        projectm_eval_code_destroy(h);
    };
    add(j);
}
// Areas of all positions and lengths
static void areas()
{
    static const double pos[] = {0, 1, 2, 3, 7, 100, 65530, 65535, 65536, 65537, 131071, 131072, 200000, 8388600, 8388607, 8388608, 1e30, -1, -3, -65536, 0.5, 2.9999, NAN};
    static const double len[] = {0, 1, 2, 3, 5, 8, 64, 1000, 65535, 65536, 65537, 131073, 1e30, -1, 2.5, NAN};
    static const int NP = sizeof pos / sizeof *pos, NL = sizeof len / sizeof *len;
    static Code *fill = nullptr, *move = nullptr;
    Job j;
    j.name = "areas";
    j.count = NP * NP * NL;
    j.chunk = NL * 8;
    j.hang_cpu = 60;
    j.init = [] {
        init();
        fill = projectm_eval_code_compile(duo.w.c, "memset(a,b,c)");
        move = projectm_eval_code_compile(duo.w.c, "memcpy(a,b,c)");
        if (!fill || !move) fail("memset or memcpy does not compile");
        base = led.bytes;
    };
    j.run = [](uint64_t i) {
        double d = pos[i / NL % NP], s = pos[i / NL / NP], n = len[i % NL];
        if (n > 1e9 && ((d >= -1e9 && d < 8e6) || (s >= -1e9 && s < 8e6))) { st_skip(); return; }
        for (int f = 0; f < 2; f++)
        {
            note("%s(%g,%g,%g)", f ? "memcpy" : "memset", d, s, n);
            duo.set(va, (F)d);
            duo.set(vb, (F)s);
            duo.set(vc, (F)n);
            for (int k = 0; k < 2; k++)
            {
                Ledger was = led;
                projectm_eval_code_execute(f ? move : fill);
                st_trace();
                st_transitions();
                if (led.frees != was.frees) fail("execution %d releases memory (%d times)", k + 1, int(led.frees - was.frees));
                if (k && led.allocs != was.allocs) fail("the second execution allocates %d bytes", int(led.bytes - was.bytes));
                // an area lies in this many blocks at most
                double blocks = n >= 1 ? floor(n / BLOCK) + 2 : n == n ? 0 : 0;
                if (double(led.bytes - was.bytes) > (f ? 2 : 1) * blocks * BLOCK * sizeof(F)) fail("%lld bytes are allocated", (long long)(led.bytes - was.bytes));
                st_state(mix(led.bytes - was.bytes));
            }
        }
        st_nontrivial();
        if (led.bytes - base > 12ll * BLOCK * (int)sizeof(F)) projectm_eval_context_free_memory(duo.w.c);
    };
    add(j);
}
static void all(bool thor)
{
    auto job = [](const char* name, std::shared_ptr<Gram> g, const char* nt, int from, int to, Load load, int states) {
        for (int s = from; s <= to; s++)
        {
            Job j;
            j.name = strf("%s%d", name, s);
            int n = g->nt(nt);
            j.count = g->count(n, s);
            if (!j.count) continue;
            j.init = init;
            j.run = [=](uint64_t i) {
                std::string t;
                int ord = 0;
                g->unrank(n, s, i, 0, t, ord);
                prog(t, load, states);
            };
            add(j);
        }
    };
    job("memory", gram(), "E", 1, lim(4, 5, 3), load_mem, 3);
    job("ast", gram5(), "E", 1, lim(5, 6, 3), load5, 2);
    job("forms", gram5c(), "S", 1, lim(3, 4, 1), load5, 2);
    job("control", gram6(false), "E", 1, lim(5, 6, 3), load6, 2);
    repeated();
    families();
    areas();
}
}
MODE(C26) { c26::all(thorough); }
