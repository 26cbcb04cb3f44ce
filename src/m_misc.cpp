// rand() (C21), locales (C22), robustness (C15).
#include "duo.hpp"
#include "gram.hpp"
#include "fam.hpp"
#include <memory>
#include <random>
#include <clocale>
#include <cstdlib>
#include <unistd.h>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace vf;

static Duo duo;
static void fresh()
{
    if (duo.w.c) duo.w.close();
    duo.open();
}

// =============================================================================
// C21
namespace c21 {
static std::mt19937 gen(0x4141f00du);
static uint64_t draws;
static double unit() { draws++; return gen() * (1.0 / 4294967295.0); }
static F R(double m) { m = floor(m); if (!(m >= 1)) m = 1; return (F)(unit() * m); }
static void expect(F got, F want, const char* what)
{
    st_trace();
    if (!close_to(got, want)) fail("%s yields %s, expected %s (after %llu draws of the process)", what, show(got).c_str(), show(want).c_str(), (unsigned long long)draws);
}
static void in_range(F got, double m, const char* what)
{
    m = floor(m);
    if (!(m >= 1)) m = 1;
    if (!((double)got >= 0 && (double)got <= m)) fail("%s yields %s, outside of 0..%g", what, show(got).c_str(), m);
}
static void stream()
{
    Job j;
    j.name = "stream";
    j.count = 1;
    j.hang_cpu = 600;
    j.run = [](uint64_t) {
        fresh();
        int va = duo.var("a");
        Handle one(duo.w.c, "rand(1000000007)"), many(duo.w.c, "loop(1000,a=rand(77))"), sum(duo.w.c, "rand(3)+rand(5)*100");
        if (!one || !many || !sum) fail("does not compile");
        uint64_t n = lim(3000000, 60000000, 300000);
        for (uint64_t k = 0; draws < n; k++)
        {
            note("draws from %llu on", (unsigned long long)draws);
            F v = one();
            in_range(v, 1000000007, "rand(1000000007)");
            expect(v, R(1000000007), "rand(1000000007)");
            F w = sum();
            F x = R(3);
            expect(w, x + R(5) * 100, "rand(3)+rand(5)*100");
            if (k % 8 == 0)
            {
                F r = many(), want = 0;
                for (int q = 0; q < 1000; q++) want = R(77);
                expect(r, want, "loop(1000,a=rand(77))");
                expect(*duo.ptr[va - 100], want, "a of loop(1000,a=rand(77))");
            }
            st_state(draws);
        }
        st_nontrivial(draws);
        st_transitions(draws);
    };
    add(j);
}
static std::vector<F> args()
{
    std::vector<double> v = {0, -0.0, 1, 2, 3, 0.5, 0.999999, 1.5, 1.999999, 2.5, -1, -2, -0.5, -1.5, -100, 10, 99.9, 255, 256, 1000, 65535, 65536, 1e5, 1e6, 16777216, 2147483646, 2147483647, 2147483648.0, -2147483648.0, 4294967294.0, 4294967295.0, 4294967296.0, 4294967297.0, 1e10, -1e10, 1e15, 9007199254740993.0, 1e18, 9223372036854775807.0, 18446744073709551616.0, 1e20, 1e30, -1e30, 1e-30, 1e-300, 1e300, -1e300, 1.7e308, 5e-324};
    std::vector<F> o;
    for (double d : v) if (std::isfinite((F)d)) o.push_back((F)d);
    return o;
}
static void arguments()
{
    static std::vector<F> a = args();
    Job j;
    j.name = "arguments";
    j.count = a.size() * 6;
    j.init = fresh;
    j.chunk = 1 << 20;
    j.run = [](uint64_t i) {
        F x = a[i / 6];
        int form = i % 6, va = duo.var("a"), vb = duo.var("b");
        static const char* forms[] = {"rand(a)", "rand(%s)", "rand(1[])", "rand(gmem[2])", "b=rand(a+0)", "exec2(b=rand(exec2(0,a)),b)"};
        std::string lit = strf("%.17g", fabs((double)x));
        if (std::signbit((double)x)) lit = "-" + lit;
        std::string t = form == 1 ? "rand(" + lit + ")" : forms[form];
        note("program %s, argument %s", t.c_str(), show(x).c_str());
        Handle h(duo.w.c, t);
        if (!h) fail("does not compile");
        for (int k = 0; k < 3; k++)
        {
            duo.set(va, x);
            duo.slot(false, 1, x);
            duo.slot(true, 2, x);
            F v = h();
            in_range(v, x, t.c_str());
            expect(v, R(x), t.c_str());
            if (*duo.ptr[va - 100] != x) fail("the argument is changed");
            if (form >= 4 && !same(*duo.ptr[vb - 100], v)) fail("b is %s", show(*duo.ptr[vb - 100]).c_str());
            st_state(hash_bytes(&v, sizeof v));
        }
        st_nontrivial();
        duo.reset();
    };
    add(j);
}
// histories
static Ctx* c[2];
static projectm_eval_mem_buffer gm;
static Code* h[4];
static const char* text[] = {"rand(100)", "a=rand(a+5)", "rand(2)+rand(3)*10", "loop(3,x=x+rand(50));x"};
static F *va, *vx;
static void make(int k)
{
    c[k] = projectm_eval_context_create(k ? nullptr : gm, nullptr);
    if (!c[k]) fail("creating a context fails");
    if (k == 0) va = projectm_eval_context_register_variable(c[0], "a");
    else vx = projectm_eval_context_register_variable(c[1], "x");
    for (int q = 2 * k; q < 2 * k + 2; q++) { h[q] = projectm_eval_code_compile(c[k], text[q]); if (!h[q]) fail("does not compile"); }
}
static void unmake(int k)
{
    for (int q = 2 * k; q < 2 * k + 2; q++) { projectm_eval_code_destroy(h[q]); h[q] = nullptr; }
    projectm_eval_context_destroy(c[k]);
}
static F once(Ctx* x, const char* t)
{
    Code* q = projectm_eval_code_compile(x, t);
    if (!q) fail("%s does not compile", t);
    F v = projectm_eval_code_execute(q);
    projectm_eval_code_destroy(q);
    return v;
}
enum { NOPS = 16 };
static const char* opname[] = {"execute rand(100)", "execute a=rand(a+5)", "execute rand(2)+rand(3)*10", "execute loop(3,x=x+rand(50));x", "compile rand(7) without executing it", "compile rand(1,2)", "compile x=rand(3", "recompile rand(100)", "recreate context 1", "recreate context 1, destroying the global buffer", "reset variables", "free memory", "if(0,rand(5),3)", "0&&rand(4)", "1?rand(9):rand(8)", "(rand(4)>-1)||rand(9)"};
static void histories()
{
    int D = lim(5, 6, 3);
    for (int d = 1; d <= D; d++)
    {
        Job j;
        j.name = strf("histories%d", d);
        j.count = 1;
        for (int k = 0; k < d; k++) j.count *= NOPS;
        j.init = []() { gm = projectm_eval_memory_buffer_create(); make(0); make(1); };
        j.run = [=](uint64_t i) {
            std::string log;
            *va = 0;
            *vx = 0;
            for (int k = 0; k < d; k++)
            {
                int o = i % NOPS;
                i /= NOPS;
                log += std::string(opname[o]) + " | ";
                note_str(log);
                st_transitions();
                switch (o)
                {
                case 0: { F v = projectm_eval_code_execute(h[0]); in_range(v, 100, text[0]); expect(v, R(100), text[0]); break; }
                case 1: { F a = *va; F v = projectm_eval_code_execute(h[1]); in_range(v, a + 5, text[1]); expect(v, R(a + 5), text[1]); if (*va != v) fail("a is not set"); break; }
                case 2: { F v = projectm_eval_code_execute(h[2]); F w = R(2); expect(v, w + R(3) * 10, text[2]); break; }
                case 3: { F w = *vx; F v = projectm_eval_code_execute(h[3]); for (int q = 0; q < 3; q++) w += R(50); expect(v, w, text[3]); *vx = w; break; }
                case 4: projectm_eval_code_destroy(projectm_eval_code_compile(c[0], "rand(7)")); break;
                case 5: if (projectm_eval_code_compile(c[1], "rand(1,2)")) fail("is accepted"); break;
                case 6: if (projectm_eval_code_compile(c[0], "x=rand(3")) fail("is accepted"); break;
                case 7: projectm_eval_code_destroy(h[0]); h[0] = projectm_eval_code_compile(c[0], text[0]); break;
                case 8: unmake(1); make(1); break;
                case 9: unmake(1); projectm_eval_memory_global_destroy(); make(1); break;
                case 10: for (auto x : c) projectm_eval_context_reset_variables(x); break;
                case 11: for (auto x : c) projectm_eval_context_free_memory(x); break;
                case 12: expect(once(c[0], "if(0,rand(5),3)"), 3, opname[o]); break;
                case 13: expect(once(c[1], "0&&rand(4)"), 0, opname[o]); break;
                case 14: expect(once(c[0], "1?rand(9):rand(8)"), R(9), opname[o]); break;
                case 15: R(4); expect(once(c[1], "(rand(4)>-1)||rand(9)"), 1, opname[o]); break;
                }
            }
            // the stream continues where it is
            F v = projectm_eval_code_execute(h[0]);
            expect(v, R(100), "finally rand(100)");
            st_state(hash_bytes(&v, sizeof v));
            st_nontrivial();
            st_sample(log);
        };
        add(j);
    }
}
// the stream is one for the whole process: draws of several threads, one after the other
struct Worker
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> todo;
    std::thread t;
    Worker() : t([this] {
        std::unique_lock<std::mutex> l(m);
        for (;;)
        {
            cv.wait(l, [this] { return (bool)todo; });
            todo();
            todo = nullptr;
            cv.notify_all();
        }
    }) { t.detach(); }
    void run(std::function<void()> f)
    {
        std::unique_lock<std::mutex> l(m);
        todo = std::move(f);
        cv.notify_all();
        cv.wait(l, [this] { return !todo; });
    }
};
static void threads()
{
    static const char* where[] = {"the main thread", "worker 1", "worker 2", "a new thread"};
    static const char* ops[] = {"rand(100)", "loop(3,x=x+rand(50));x", "compile and run rand(9)"};
    int D = lim(5, 6, 3);
    Job j;
    j.name = "threads";
    j.count = 1;
    for (int k = 0; k < D; k++) j.count *= 12;
    j.init = []() { gm = projectm_eval_memory_buffer_create(); make(0); make(1); };
    j.run = [=](uint64_t i) {
        static Worker* w[2];
        for (auto& x : w) if (!x) x = new Worker;
        std::string log;
        *vx = 0;
        for (int k = 0; k < D; k++)
        {
            int t = i % 4, o = i / 4 % 3;
            i /= 12;
            log += std::string(ops[o]) + " in " + where[t] + " | ";
            note_str(log);
            st_transitions();
            F v = -1;
            F before = *vx;
            auto f = [&]() { v = o == 0 ? projectm_eval_code_execute(h[0]) : o == 1 ? projectm_eval_code_execute(h[3]) : once(c[0], "rand(9)"); };
            if (t == 0) f();
            else if (t == 3) std::thread(f).join();
            else w[t - 1]->run(f);
            F want;
            if (o == 1) { want = before; for (int q = 0; q < 3; q++) want += R(50); }
            else want = R(o ? 9 : 100);
            expect(v, want, ops[o]);
            st_state(hash_bytes(&v, sizeof v, t));
        }
        st_nontrivial();
        st_sample(log);
    };
    add(j);
}
// programs of a grammar without discarded items, against the reference evaluator
static void programs()
{
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "3", "b", "rand(1)", "rand(4)"}) g->add("E", 1, l);
    for (auto u : {"rand({E})", "-({E})", "megabuf({E})"}) g->add("E", 1, u);
    for (auto b : {"({E})+({E})*10", "a=({E})", "b+=({E})", "exec2(a=({E}),({E}))", "loop({E},b=({E}))", "({E})||({E})", "({E})<({E})", "(a=({E});{E})"}) g->add("E", 1, b);
    g->add("E", 1, "if({E},{E},{E})");
    for (int s = 1; s <= lim(5, 6, 3); s++)
    {
        Job j;
        j.name = strf("programs%d", s);
        j.count = g->count("E", s);
        if (!j.count) continue;
        j.init = fresh;
        j.run = [=](uint64_t i) {
            std::string t = g->text("E", s, i);
            note("program %s", t.c_str());
            int va = duo.var("a"), vb = duo.var("b");
            if (!ref::parse(t, duo.prog, duo.names)) fail("the reference rejects it");
            duo.set(va, 2);
            duo.set(vb, 5);
            // the reference and the generator of the process draw in step
            Handle h(duo.w.c, t);
            if (!h) fail("is rejected");
            for (int k = 0; k < 2; k++)
            {
                ref::Rng before = duo.rng;
                F want = duo.ev.run(duo.prog, duo.st, duo.budget);
                if (duo.ev.over)
                { // a long loop: not executed at all
                    duo.rng = before;
                    duo.adopt();
                    st_skip();
                    break;
                }
                F got = h();
                st_trace();
                if (duo.ev.vague) { st_skip(); duo.adopt(); break; }
                if (!close_to(got, want)) fail("execution %d yields %s, expected %s (%llu draws)", k + 1, show(got).c_str(), show(want).c_str(), (unsigned long long)duo.rng.draws);
                std::string how;
                if (duo.differs(how, 1, false)) fail("execution %d: %s", k + 1, how.c_str());
                duo.adopt();
                st_state(hash_bytes(&want, sizeof want));
            }
            st_nontrivial();
            duo.reset();
        };
        add(j);
    }
}
}
MODE(C21)
{
    c21::stream();
    c21::arguments();
    c21::histories();
    c21::threads();
    c21::programs();
}

// =============================================================================
// C22
namespace c22 {
// name of the locale, category mask (bit 0 all, 1 numeric only, 2 ctype only), per thread
struct Loc { const char* name; int cat; bool thread; };
static const Loc locs[] = {{"de", LC_ALL, false}, {"tr", LC_ALL, false}, {"fa", LC_ALL, false}, {"tr8", LC_ALL, false}, {"de", LC_NUMERIC, false}, {"tr", LC_CTYPE, false}, {"de", LC_ALL, true}, {"fr", LC_ALL, false}, {"az", LC_ALL, false}};
static int nlocs() { return lim(6, 9, 2); }
static void back() { uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); }
static void enter(const Loc& l)
{
    back();
    if (l.thread)
    {
        static locale_t t[16];
        int k = int(&l - locs);
        if (!t[k]) t[k] = newlocale(LC_ALL_MASK, l.name, nullptr);
        if (!t[k]) hard_fail("locale %s is not there", l.name);
        uselocale(t[k]);
    }
    else if (!setlocale(l.cat, l.name)) hard_fail("locale %s is not there", l.name);
}
static std::string lname(const Loc& l) { return strf("%s%s%s", l.name, l.cat == LC_ALL ? "" : l.cat == LC_NUMERIC ? " (LC_NUMERIC)" : " (LC_CTYPE)", l.thread ? " (thread)" : ""); }
struct Out { bool ok; F res[2], var[5]; std::string err; int line, col; };
static const char* vn[] = {"i", "title", "x", "y", "xi"};
static projectm_eval_mem_buffer gm;
static F regs[100];
static int made;
static Ctx* ctx[16];
static void open()
{
    if (!gm) gm = projectm_eval_memory_buffer_create();
    for (auto& c : ctx)
    {
        if (c) projectm_eval_context_destroy(c);
        c = projectm_eval_context_create(gm, &regs);
        for (auto n : vn) projectm_eval_context_register_variable(c, n);
    }
    made = 0;
}
static void once(Ctx* c, const std::string& t, Out& o)
{
    projectm_eval_context_reset_variables(c);
    memset(regs, 0, sizeof regs);
    for (int k = 0; k < 5; k++) *projectm_eval_context_register_variable(c, vn[k]) = F(k + 2);
    Code* h = projectm_eval_code_compile(c, t.c_str());
    o.ok = h;
    const char* e = projectm_eval_get_error(c, &o.line, &o.col);
    o.err = e ? e : "";
    for (auto& r : o.res) r = 0;
    if (h)
    {
        for (auto& r : o.res) r = projectm_eval_code_execute(h);
        projectm_eval_code_destroy(h);
    }
    for (int k = 0; k < 5; k++) o.var[k] = *projectm_eval_context_register_variable(c, vn[k]);
    st_transitions();
}
static void text(const std::string& t)
{
    static Out a, b;
    if (++made > 300) open();
    back();
    note("text %s", quote(t).c_str());
    once(ctx[15], t, a);
    for (int k = 0; k < nlocs(); k++)
    {
        enter(locs[k]);
        once(ctx[k], t, b);
        back();
        st_trace();
        note("text %s in locale %s", quote(t).c_str(), lname(locs[k]).c_str());
        if (a.ok != b.ok) fail("is %s, but %s in the C locale (%s)", b.ok ? "accepted" : "rejected", a.ok ? "accepted" : "rejected", (a.ok ? b : a).err.c_str());
        if (!a.ok && (a.err != b.err || a.line != b.line || a.col != b.col)) fail("error %s in line %d column %d, but %s in line %d column %d in the C locale", quote(b.err).c_str(), b.line, b.col, quote(a.err).c_str(), a.line, a.col);
        for (int q = 0; q < 2; q++) if (!same(a.res[q], b.res[q])) fail("yields %s, but %s in the C locale", show(b.res[q]).c_str(), show(a.res[q]).c_str());
        for (int q = 0; q < 5; q++) if (!same(a.var[q], b.var[q])) fail("leaves %s = %s, but %s in the C locale", vn[q], show(b.var[q]).c_str(), show(a.var[q]).c_str());
        if (a.ok) { st_nontrivial(); st_state(hash_bytes(a.res, sizeof a.res, hash_bytes(a.var, sizeof a.var))); }
    }
}
static void strings(const char* name, std::vector<std::string> al, int n, const char* pre, const char* post, const char* sep)
{
    uint64_t tot = 0, pw = 1, na = al.size();
    for (int l = 0; l <= n; l++) { tot += pw; pw *= na; }
    Job j;
    j.name = name;
    j.count = tot;
    j.init = open;
    j.run = [=](uint64_t i) {
        int l = 0;
        uint64_t pw = 1;
        while (i >= pw) { i -= pw; pw *= na; l++; }
        std::string t = pre;
        for (int k = 0; k < l; k++) { pw /= na; if (k) t += sep; t += al[i / pw]; i %= pw; }
        text(t + post);
    };
    add(j);
}
static void jobs()
{
    int d = lim(0, 1, -1);
    strings("numbers", {"1", "05", ".", ",", "e", "+", "-", "9"}, 5 + d, "x=", "", "");
    strings("numbers2", {"0.5", "1,5", "$x", "f", "1.", ".25", "\xd9\xab", "e2", ";"}, 4 + d, "", ";x", "");
    strings("tokens", {"i", "I", "sin", "SIN", "TITLE", "1.5", "(", ")", ",", ";", "=", "$PI", "int", "\xfd"}, 4 + d, "", "", " ");
    // names of all built-ins in several spellings, called and as names
    Job f;
    f.name = "functions";
    f.count = (uint64_t)ref::nbuiltins * 8 * 3;
    f.init = open;
    f.run = [](uint64_t n) {
        auto& b = ref::builtins[n / 24];
        if (b.op == ref::O_RAND) return;
        int sp = n / 3 % 8, use = n % 3;
        std::string s = b.name;
        for (size_t k = 0; k < s.size(); k++)
        {
            bool up = sp == 1 || (sp == 2 && k == 0) || (sp == 3 && k % 2) || (sp == 4 && k % 2 == 0) || (sp == 5 && s[k] == 'i') || (sp == 6 && s[k] != 'i') || (sp == 7 && k + 1 == s.size());
            if (up && s[k] >= 'a' && s[k] <= 'z') s[k] -= 32;
        }
        std::string call = s + "(";
        for (int k = 0; k < b.arity; k++) call += k ? ",0" : "i*0";
        text(use == 0 ? "x=" + call + ");x" : use == 1 ? s + "=2;x=" + s : call + ",1)");
    };
    add(f);
    // spellings of variable names, registers and constants in each case pattern
    static const char* words[] = {"title", "xi", "reg11", "$pi", "$phi", "iii", "i1i", "$xif", "$xabcdef", "zoomi", "_i", "i_"};
    Job w;
    w.name = "spellings";
    w.count = 12 * 256;
    w.init = open;
    w.run = [](uint64_t n) {
        std::string s = words[n / 256], u = s;
        for (size_t k = 0; k < s.size() && k < 8; k++) if ((n >> k & 1) && u[k] >= 'a' && u[k] <= 'z') u[k] -= 32;
        text((s[0] == '$' ? "x=" + s + ";y=" + u : s + "=" + s + "+40;" + u + "=" + u + "+5;y=" + s + "+" + u) + ";x*3+y");
    };
    add(w);
    // all bytes
    Job b;
    b.name = "bytes";
    b.count = 255 * 255 * 3;
    b.init = open;
    b.run = [](uint64_t n) {
        char p = char(n % 255 + 1), q = char(n / 255 % 255 + 1);
        // pairs only where a byte is not ASCII; the C03 check covers the others
        if (!((p | q) & 0x80) && q != 'i' && q != 'I' && q != ',') return;
        switch (n / 255 / 255)
        {
        case 0: text(std::string("x") + p + q + "=5"); break;
        case 1: text(std::string("x=1") + p + q + ";y=3"); break;
        default: text(std::string() + p + q + "sin(1)"); break;
        }
    };
    add(b);
    // long numbers, names and texts
    static const int len[] = {0, 1, 7, 8, 14, 15, 16, 17, 18, 30, 31, 32, 33, 38, 39, 40, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 200, 254, 255, 256, 257, 308, 309, 400, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4094, 4095, 4096, 4097};
    enum { NLEN = sizeof len / sizeof *len };
    Job ln;
    ln.name = "long";
    ln.count = NLEN * NLEN * 6;
    ln.init = open;
    ln.run = [](uint64_t n) {
        int a = len[n / 6 % NLEN], b = len[n / 6 / NLEN];
        if (a + b > lim(1200, 100000, 600) && a && b) return;
        static const char* e[] = {"", "e2", "e-300", "", "", ""};
        std::string t;
        if (n % 6 < 3) t = "x=" + std::string(a, '4') + "." + std::string(b, '7') + e[n % 6] + ";x";
        else if (n % 6 == 3) t = "x=" + std::string(a, '0') + "." + std::string(b, '0') + "1875;x";
        else if (n % 6 == 4) t = std::string(a + 1, 'i') + "=3.5;x=" + std::string(a + 1, 'I') + "+" + std::string(b + 1, 'i') + ";x";
        else t = std::string(a, ' ') + "x=0.5" + std::string(b, ' ') + "*1.5;x";
        text(t);
    };
    add(ln);
    // registered in one locale, compiled in another, looked up in a third, executed in a fourth
    Job r;
    r.name = "transitions";
    r.init = []() { open(); };
    r.count = 7 * 7 * 7 * 5;
    r.run = [](uint64_t n) {
        int l[3] = {int(n % 7), int(n / 7 % 7), int(n / 49 % 7)};
        static const char* nm[][3] = {{"TITI", "titi", "Titi"}, {"i", "I", "i"}, {"Irgb", "irgB", "iRgb"}, {"reg07", "REG07", "Reg07"}, {"XIX", "xix", "xIx"}};
        auto& v = nm[n / 343];
        auto go = [&](int k) { if (k == 0 || k - 1 >= nlocs()) back(); else enter(locs[k - 1]); };
        auto show_l = [&](int k) { return k == 0 || k - 1 >= nlocs() ? std::string("C") : lname(locs[k - 1]); };
        note("%s registered in locale %s, %s=%s*1.5 compiled in %s, %s looked up in %s", v[0], show_l(l[0]).c_str(), v[1], v[1], show_l(l[1]).c_str(), v[2], show_l(l[2]).c_str());
        Ctx* c = projectm_eval_context_create(gm, &regs);
        go(l[0]);
        F* p = projectm_eval_context_register_variable(c, v[0]);
        *p = 4;
        go(l[1]);
        Code* h = projectm_eval_code_compile(c, (std::string(v[1]) + "=INT(" + v[1] + "*1.5)+sin(0)").c_str());
        if (!h) fail("is rejected");
        go(l[2]);
        if (projectm_eval_context_register_variable(c, v[2]) != p) fail("is another variable");
        F got = projectm_eval_code_execute(h);
        if (got != 6 || *p != 6) fail("yields %s, the variable is %s, expected 6", show(got).c_str(), show(*p).c_str());
        back();
        projectm_eval_code_destroy(h);
        projectm_eval_context_destroy(c);
        st_trace();
        st_state(n);
    };
    add(r);
}
}
MODE(C22) { c22::jobs(); }

// =============================================================================
// C15: texts whose parts grow without bound, realistic programs with every small
// edit, legal use of the API with unusual arguments. Whatever comes out, each
// call returns and no memory error, signal, exit or abort happens.
namespace c15 {
static projectm_eval_mem_buffer gm;
static F regs[100];
static Ctx* c;
static void open()
{
    if (c) { projectm_eval_context_destroy(c); projectm_eval_memory_buffer_destroy(gm); }
    gm = projectm_eval_memory_buffer_create();
    c = projectm_eval_context_create(gm, &regs);
    memset(regs, 0, sizeof regs);
}
static int seen_vars;
static void text(const std::string& t, int times = 2)
{
    note_str(quote(t));
    if (++seen_vars > 1000) { open(); seen_vars = 0; }       // names accumulate in the context
    Code* h = projectm_eval_code_compile(c, t.c_str());
    int line = -7, col = -7;
    const char* e = projectm_eval_get_error(c, &line, &col);
    uint64_t st = h ? 1 : 2;
    if (h)
    {
        for (int k = 0; k < times; k++) { F r = projectm_eval_code_execute(h); st = hash_bytes(&r, sizeof r, st); }
        projectm_eval_code_destroy(h);
    }
    else if (e) st = hash_bytes(e, strnlen(e, 200), st + line * 1000003ull + col);
    st_transitions();
    st_nontrivial(h != nullptr);
    st_state(st);
}
using namespace fam;
static std::vector<size_t> sizes()
{
    std::vector<size_t> s;
    for (size_t i = 0; i <= 40; i++) s.push_back(i);
    for (size_t b : {50u, 64u, 100u, 128u, 195u, 200u, 256u, 399u, 400u, 500u, 512u, 800u, 1000u, 1024u, 1600u, 2048u, 3200u, 4096u, 5000u, 6400u, 8192u, 9996u, 10000u, 16384u, 20000u, 32768u, 65536u, 100000u, 262144u, 1000000u})
        for (int d = -2; d <= 2; d++) s.push_back(b + d);
    if (safety && !thorough) { size_t k = 0; std::vector<size_t> r; for (size_t v : s) if (v <= 2200 || k++ % 5 == 2) r.push_back(v); s = r; }
    return s;
}
static const char* corpus[] = {
    "x=0.5;y=sin(x)*2;z=x+y",
    "wave_r = wave_r + 0.650*( 0.60*sin(0.980*time) + 0.40*sin(1.047*time) );\nrot = rot + 0.010*sin(0.339*time);",
    "vol = (bass+mid+att)/6;\nxamptarg = if(equal(frame%15,0),min(.5*vol*bass_att,.5),xamptarg);\nxamp = xamp + .5*(xamptarg-xamp);",
    "loop(8, megabuf(i)=rand(100)/100; i=i+1);\nq1=megabuf(3);",
    "n=0;while(n=n+1;gmegabuf(n)=n*n;below(n,7));gmem[2]+gmem[3]",
    "memset(10,1.5,7);memcpy(12,10,3);freembuf(5);a=$PI*2;b=0x1F;",
    "reg07 = reg07*0.9 + (reg08 > 3 ? -1.5e1 : .25e-2);\n// comment\nx ^= 2; /* block\n comment */ y |= 6 & 3;",
    "a=exec3(b=1,c=2,b+c);d=!a||b&&c;e=-a^2;f=a==b!=c;g=a%3;h=a|b&c",
    "assign(x,if(above(y,1),pow(y,2),sqrt(abs(y))));z=invsqrt(x)+sigmoid(x,y)+atan2(y,x)",
    "a[3]=4;b=3[a];[5]=6;megabuf(megabuf(3))+=1;gmem[a]-=b;",
    "1+sin(2",
    "a=1;\n\n  b = foo(3);\n",
};
static const std::vector<std::string>& inserts()
{
    static std::vector<std::string> v = {"(", ")", "[", "]", ",", ";", "=", "+", "-", "*", "/", "%", "^", "&", "|", "!", "<", ">", "?", ":", "$", ".", "0", "9", "e", "x", "\n", " ", "\"", "'", "#", "\x01", "\x7f", "\x80", "\xff", "/*", "*/", "//", "()", "[]", "-1e400*", "0/0", "if(", "megabuf(", "while(0*", "1e20"};
    return v;
}
static void jobs()
{
    static std::vector<Fam> fams = families();
    static std::vector<size_t> sz = sizes();
    Job j;
    j.name = "families";
    j.count = fams.size() * sz.size();
    j.init = open;
    j.chunk = 24;
    j.hang_cpu = 100;
    j.run = [](uint64_t i) {
        const Fam& f = fams[i % fams.size()];
        size_t n = sz[i / fams.size()];
        if (n > f.max || (safety && n > 20100 && i % 3)) return;
        text(f.f(n), 2);
    };
    add(j);
    // texts which are long, but not nested, in a thread with a small stack
    static const struct { const char* name; std::string (*f)(size_t); } flat[] = {
        {"statements", [](size_t n) { return rep("x=x+1;", n) + "x"; }},
        {"statements in parentheses", [](size_t n) { return "y=(" + rep("x+=1;", n) + "x)"; }},
        {"statements in an argument", [](size_t n) { return "if(1," + rep("x=2;", n) + "x,3)"; }},
        {"statements in a loop", [](size_t n) { return "loop(2," + rep("x=2;", n) + "x)"; }},
        {"statements and an error", [](size_t n) { return rep("x=x+1;", n) + ")"; }},
        {"statements in an argument and an error", [](size_t n) { return "sin(" + rep("x=3;", n) + "]"; }},
        {"discarded items", [](size_t n) { return rep("5;", n) + "6"; }},
        {"empty items", [](size_t n) { return rep("x=1;();", n); }},
        {"arguments", [](size_t n) { return "min(1" + rep(",x=1", n) + ")"; }},
        {"arguments and an error", [](size_t n) { return "min(1" + rep(",x=1", n) + "]"; }},
        {"comments", [](size_t n) { return rep("/* x */\n// y\n", n) + "1"; }},
        {"white space", [](size_t n) { return rep(" \n\t", n) + "1"; }},
        {"a name", [](size_t n) { return rep("n", n) + "=1"; }},
        {"a number", [](size_t n) { return rep("1", n) + ".5"; }},
        {"variables", [](size_t n) { std::string t; for (size_t k = 0; k < n / 10; k++) t += strf("v%zu=%zu;", k, k); return t; }},
        {"distinct calls", [](size_t n) { return rep("x=sin(x)+megabuf(x);gmem[3]=if(x,1,2);", n / 2); }},
    };
    static const size_t fsizes[] = {10, 1000, 4000, 20000};
    Job fl;
    fl.name = "flat";
    fl.count = sizeof flat / sizeof *flat * 4;
    fl.chunk = 1;
    fl.hang_cpu = 200;
    fl.run = [](uint64_t i) {
        auto& f = flat[i % (sizeof flat / sizeof *flat)];
        size_t n = fsizes[i / (sizeof flat / sizeof *flat)];
        if (safety && n > 4000) return;
        note("%s, %zu times, in a thread with a stack of %d KB", f.name, n, safety ? 1024 : 256);
        static std::string t;
        t = f.f(n);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, (safety ? 1024 : 256) * 1024);
        pthread_t th;
        if (pthread_create(&th, &at, [](void*) -> void* {
                Ctx* c = projectm_eval_context_create(nullptr, nullptr);
                for (int k = 0; k < 2; k++)
                {
                    Code* h = projectm_eval_code_compile(c, t.c_str());
                    projectm_eval_code_execute(h);
                    projectm_eval_code_destroy(h);
                }
                projectm_eval_context_destroy(c);
                return nullptr;
            }, nullptr)) hard_fail("no thread");
        pthread_join(th, nullptr);
        pthread_attr_destroy(&at);
        st_trace();
        st_nontrivial();
        st_state(i);
    };
    add(fl);
    // every byte and every pair of bytes from a set, repeated
    Job b;
    b.name = "bytes";
    b.count = 255 * 12;
    b.init = open;
    b.chunk = 50;
    b.run = [](uint64_t i) {
        static const size_t n[] = {1, 2, 3, 5, 8, 16, 64, 200, 1000, 9999, 16384, 100001};
        text(rep(std::string(1, char(i % 255 + 1)), n[i / 255]), 1);
    };
    add(b);
    Job q;
    q.name = "bytepairs";
    q.count = 255 * 255;
    q.init = open;
    q.run = [](uint64_t i) {
        std::string p = std::string(1, char(i % 255 + 1)) + char(i / 255 + 1);
        for (size_t n : {1, 2, 50}) text(rep(p, n), 1);
        text("x" + p + "=1", 1);
    };
    add(q);
    // edits of realistic programs
    for (size_t k = 0; k < sizeof corpus / sizeof *corpus; k++)
    {
        std::string t = corpus[k];
        Job e;
        e.name = strf("edit%zu", k);
        size_t L = t.size(), NI = inserts().size();
        e.count = L * (2 * NI + 4) + L * L;
        e.init = open;
        e.hang_cpu = 60;
        e.run = [=](uint64_t i) {
            auto& ins = inserts();
            if (i < L * L)
            {   // a part removed, or doubled
                size_t a = i / L, z = i % L;
                if (a <= z) text(t.substr(0, a) + t.substr(z + 1), 1);
                else { if (a - z > 12 && !thorough) return; text(t.substr(0, a) + t.substr(z), 1); }
                return;
            }
            i -= L * L;
            size_t p = i / (2 * NI + 4), o = i % (2 * NI + 4);
            if (o < NI) text(t.substr(0, p) + ins[o] + t.substr(p), 1);
            else if (o < 2 * NI) text(t.substr(0, p) + ins[o - NI] + t.substr(p + 1), 1);
            else if (o == 2 * NI) text(t.substr(0, p), 1);
            else if (o == 2 * NI + 1) text(t.substr(p), 1);
            else if (o == 2 * NI + 2) { std::string u = t; u[p] ^= 0x20; if (u[p]) text(u, 1); }
            else { std::string u = t; u[p] ^= 0x80; text(u, 1); }
        };
        add(e);
    }
    // names given to the API: every length, every byte
    Job nm;
    nm.name = "names";
    nm.count = 255 * 3 + 120;
    nm.init = open;
    nm.run = [](uint64_t i) {
        std::string n;
        if (i < 255 * 3) { n = std::string(1, char(i % 255 + 1)); if (i / 255 == 1) n += "x"; if (i / 255 == 2) n = "reg" + n + n; }
        else { i -= 255 * 3; n = rep(i % 2 ? "reg" : "V", i < 100 ? i / 2 : (size_t)1 << (i - 100)); }
        note("name %s", quote(n).c_str());
        F* p = projectm_eval_context_register_variable(c, n.c_str());
        if (p) *p = 2;
        projectm_eval_context_reset_variables(c);
        F* q = projectm_eval_context_register_variable(c, n.c_str());
        if (q) *q += 1;
        text("x=" + n + "+1", 2);
        st_state(n.size() * 256 + (unsigned char)n[0]);
    };
    add(nm);
    // calls with null arguments that are allowed, in every state of a context
    Job nl;
    nl.name = "null";
    nl.count = 8 * 8 * 8;
    nl.run = [](uint64_t i) {
        Ctx* x = projectm_eval_context_create(nullptr, nullptr);
        Code* h = nullptr;
        for (int k = 0; k < 3; k++)
            switch (i >> 3 * k & 7)
            {
            case 0: projectm_eval_code_execute(nullptr); break;
            case 1: projectm_eval_code_destroy(nullptr); break;
            case 2: { int l; projectm_eval_get_error(x, nullptr, nullptr); projectm_eval_get_error(x, &l, nullptr); projectm_eval_get_error(x, nullptr, &l); break; }
            case 3: projectm_eval_memory_buffer_destroy(nullptr); break;
            case 4: projectm_eval_code_destroy(h); h = projectm_eval_code_compile(x, ""); break;
            case 5: projectm_eval_code_destroy(h); h = projectm_eval_code_compile(x, "1+"); break;
            case 6: projectm_eval_code_destroy(h); h = projectm_eval_code_compile(x, "reg00+=1;gmem[1]=megabuf(2)"); break;
            case 7: if (h) projectm_eval_code_execute(h); projectm_eval_context_reset_variables(x); projectm_eval_context_free_memory(x); break;
            }
        projectm_eval_code_destroy(h);
        projectm_eval_context_destroy(x);
        projectm_eval_memory_global_destroy();
        if (i & 1) projectm_eval_memory_global_destroy();
        st_transitions(3);
        st_state(i);
    };
    add(nl);
}
}
MODE(C15) { c15::jobs(); }

// =============================================================================
// API histories shared by C24 (calls made by different threads) and C25 (state of the process)
namespace hist {
enum { NOPS = 15 };
static const char* names[NOPS] = {"create", "register", "reset_variables", "free_memory", "compile", "compile error", "execute", "execute and destroy code", "get_error", "destroy", "buffer create/destroy", "global_destroy", "compile and execute", "destroy no code", "long error"};
struct Hist {
    Ctx* c[2] = {};
    Code* h[2] = {};
    int at = 0;
    projectm_eval_mem_buffer gm = nullptr;
    std::vector<double> log;
    void put(double v) { log.push_back(v); }
    void put(const char* s) { put(s ? (double)(hash_bytes(s, strlen(s)) & 0xffffffffffffull) : -1); }
    bool op(int o)
    {
        Ctx*& x = c[at];
        Code*& k = h[at];
        switch (o)
        {
        case 0: if (x) { at ^= 1; break; } x = projectm_eval_context_create(at ? gm : nullptr, nullptr); put(x != nullptr); break;
        case 1: if (!x) return false; { F* v = projectm_eval_context_register_variable(x, "Speed"); put(*v); *v += 1.5; } break;
        case 2: if (!x) return false; projectm_eval_context_reset_variables(x); break;
        case 3: if (!x) return false; projectm_eval_context_free_memory(x); break;
        case 4: if (!x || k) return false; k = projectm_eval_code_compile(x, "speed=speed*2+1;megabuf(2)+=speed;gmegabuf(70000)+=1;reg03+=2;megabuf(2)+gmegabuf(70000)*100+reg03*10000"); put(k != nullptr); break;
        case 5: if (!x) return false; put(projectm_eval_code_compile(x, "a=1;\n  b=sin(3,4);") != nullptr); break;
        case 6: if (!k) return false; put(projectm_eval_code_execute(k)); break;
        case 7: if (!k) return false; put(projectm_eval_code_execute(k)); projectm_eval_code_destroy(k); k = nullptr; break;
        case 8: if (!x) return false; { int l = -7, q = -7; put(projectm_eval_get_error(x, &l, &q)); put(l); put(q); } break;
        case 9: if (!x) return false; projectm_eval_code_destroy(k); k = nullptr; projectm_eval_context_destroy(x); x = nullptr; break;
        case 10: { auto b = projectm_eval_memory_buffer_create(); put(b != nullptr); projectm_eval_memory_buffer_destroy(b); break; }
        case 11: if (c[0]) return false; projectm_eval_memory_global_destroy(); break;
        case 12: if (!x) return false; { Code* q = projectm_eval_code_compile(x, "/* c */ t=1.25e1+$x1F; loop(3,t=t*2+$PI); invsqrt(t)+sigmoid(t,0.1)+pow(t,0-2)+t%7+(t|3);"); put(q != nullptr); put(projectm_eval_code_execute(q)); projectm_eval_code_destroy(q); break; }
        case 13: projectm_eval_code_destroy(nullptr); if (x) put(projectm_eval_get_error(x, nullptr, nullptr)); break;
        case 14: if (!x) return false; put(projectm_eval_code_compile(x, "x = 12 $ 4") != nullptr); put(projectm_eval_code_compile(x, "") != nullptr); break;
        }
        return true;
    }
    void open()
    {
        gm = projectm_eval_memory_buffer_create();
        // the built-in registers outlive all contexts
        Ctx* x = projectm_eval_context_create(gm, nullptr);
        Code* q = projectm_eval_code_compile(x, "reg03=0");
        projectm_eval_code_execute(q);
        projectm_eval_code_destroy(q);
        projectm_eval_context_destroy(x);
    }
    void close()
    {
        for (int k = 0; k < 2; k++)
        {
            if (c[k]) for (auto n : {"speed", "t", "a"}) put(*projectm_eval_context_register_variable(c[k], n));
            projectm_eval_code_destroy(h[k]);
            if (c[k]) projectm_eval_context_destroy(c[k]);
        }
        projectm_eval_memory_buffer_destroy(gm);
        projectm_eval_memory_global_destroy();
    }
};
}
namespace c24 {
// Every history with every assignment of its calls to threads, one call at a time
static void handover()
{
    using namespace hist;
    int D = lim(4, 5, 3);
    Job j;
    j.name = "handover";
    j.count = 1;
    for (int k = 0; k < D; k++) j.count *= NOPS;
    j.run = [=](uint64_t n) {
        static c21::Worker* w[2];
        for (auto& x : w) if (!x) x = new c21::Worker;
        std::vector<int> ops = {0};
        std::string log = "create";
        for (int k = 0; k < D; k++) { ops.push_back(n % NOPS); log += std::string(", ") + names[n % NOPS]; n /= NOPS; }
        Hist alone;
        alone.open();
        bool legal = true;
        for (int o : ops) if (!alone.op(o)) { legal = false; break; }
        alone.close();
        if (!legal) return;
        // creation and end by the main thread or a worker, each other call by the main thread or one of two workers; or all by new threads
        for (int a = 0; a <= 1 << ops.size(); a++)
        {
            std::string who;
            for (size_t k = 0; k < ops.size(); k++) who += a >> ops.size() ? 'n' : a >> k & 1 ? '1' : 'm';
            note("%s (threads %s)", log.c_str(), who.c_str());
            if (!(a >> ops.size()) && (a & 1) && !(a & 2) && !(a & 4)) for (size_t k = 1; k < who.size(); k++) if (who[k] == 'm') who[k] = '2';
            Hist x;
            x.open();
            for (size_t k = 0; k < ops.size(); k++)
            {
                auto f = [&] { x.op(ops[k]); };
                if (who[k] == 'n') std::thread(f).join();
                else if (who[k] == 'm') f();
                else w[who[k] - '1']->run(f);
                st_transitions();
            }
            x.close();
            st_trace();
            if (x.log.size() != alone.log.size()) fail("%zu answers, %zu when all calls are made by one thread", x.log.size(), alone.log.size());
            for (size_t k = 0; k < x.log.size(); k++) if (!same((F)x.log[k], (F)alone.log[k])) fail("answer %zu is %.17g, %.17g when all calls are made by one thread", k + 1, x.log[k], alone.log[k]);
            st_state(hash_bytes(x.log.data(), x.log.size() * sizeof(double)));
        }
        st_nontrivial();
        st_sample(log);
    };
    add(j);
}
}
MODE(C24) { c24::handover(); }

// =============================================================================
// C25: the state of the process
#include <cfenv>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <xmmintrin.h>
extern char** environ;
namespace c25 {
// What is set up differs from the defaults where that is possible, so that resetting it is noticed
struct State { const char* name; int round; unsigned mxcsr; const char* loc; bool thread; unsigned seed; int traps; };
static const State states[] = {
    {"plain", FE_TONEAREST, 0, "C", false, 1},
    {"upward, de", FE_UPWARD, 0, "de", false, 77},
    {"toward zero, flushing denormals, tr in the thread", FE_TOWARDZERO, 0x8040, "tr8", true, 12345},
    {"downward, fa", FE_DOWNWARD, 0, "fa", false, 999},
    // only where the programs themselves raise none of these
    {"traps", FE_TONEAREST, 0, "C", false, 4, FE_OVERFLOW | FE_DIVBYZERO},
};
enum { NS = 4, NST = 5 };
static void handler(int) {}
struct Snap
{
    std::string loc, cwd;
    locale_t thr;
    int round, except;
    unsigned mxcsr;
    unsigned short cw;
    void* sig[65];
    sigset_t mask;
    long long fds;
    uint64_t env;
    char** envp;
    struct itimerval it;
    rlim_t stack, core;
    mode_t um;
    int prio;
};
static void snap(Snap& s)
{
    s.loc = setlocale(LC_ALL, nullptr);
    s.thr = uselocale((locale_t)0);
    s.round = fegetround();
    s.except = fegetexcept();
    s.mxcsr = _mm_getcsr() & ~0x3fu;
    __asm__ volatile("fnstcw %0" : "=m"(s.cw));
    for (int k = 1; k <= 64; k++)
    {
        struct sigaction a;
        s.sig[k] = sigaction(k, nullptr, &a) ? nullptr : (void*)a.sa_handler;
    }
    sigemptyset(&s.mask);
    pthread_sigmask(SIG_BLOCK, nullptr, &s.mask);
    char b[4096];
    s.cwd = getcwd(b, sizeof b) ? b : "";
    s.fds = 0;
    for (int k = 0; k < 48; k++) if (fcntl(k, F_GETFD) != -1) s.fds |= 1ll << k;
    s.env = 5;
    s.envp = environ;
    for (char** e = environ; e && *e; e++) s.env = hash_bytes(*e, strlen(*e), s.env);
    getitimer(ITIMER_REAL, &s.it);
    struct rlimit r;
    getrlimit(RLIMIT_STACK, &r);
    s.stack = r.rlim_cur;
    getrlimit(RLIMIT_CORE, &r);
    s.core = r.rlim_cur;
    s.um = umask(022);
    umask(s.um);
    s.prio = getpriority(PRIO_PROCESS, 0);
}
static char words[] = "one two three four five";
static char tok[64];
static Snap before;
static int flags;
static int r1;
static long r2, r3;
static void enter(int k)
{
    const State& s = states[k];
    static locale_t lt[NST];
    if (s.thread)
    {
        if (!lt[k]) lt[k] = newlocale(LC_ALL_MASK, s.loc, nullptr);
        if (!lt[k]) hard_fail("locale %s is not there", s.loc);
        uselocale(lt[k]);
    }
    else if (!setlocale(LC_ALL, s.loc)) hard_fail("locale %s is not there", s.loc);
    fesetround(s.round);
    if (s.mxcsr) _mm_setcsr(_mm_getcsr() | s.mxcsr);
    if (k & 1) signal(SIGUSR1, handler), signal(SIGPIPE, SIG_IGN);
    // generators and the tokeniser of the C library are in the middle of their work
    srand(s.seed + 1); srandom(s.seed); (void)0;
    r1 = rand(); r2 = random();
    srand(s.seed); rand();
    srand48(s.seed);
    r3 = lrand48();
    strcpy(tok, words);
    strtok(tok, " ");
    if (s.traps) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(s.traps); }
    else feraiseexcept(FE_ALL_EXCEPT); // flags the host watches may be raised, but not taken back
    flags = fetestexcept(FE_ALL_EXCEPT);
    snap(before);
}
static void leave()
{
    fedisableexcept(FE_ALL_EXCEPT);
    uselocale(LC_GLOBAL_LOCALE);
    setlocale(LC_ALL, "C");
    _mm_setcsr(_mm_getcsr() & ~0x8040u);
    fesetround(FE_TONEAREST);
    signal(SIGUSR1, SIG_DFL);
    signal(SIGPIPE, SIG_DFL);
}
static void compare(const char* what)
{
    Snap now;
    snap(now);
    std::string h;
    if (now.loc != before.loc) h = "the locale is " + now.loc + ", it was " + before.loc;
    else if (now.thr != before.thr) h = "the thread has another locale";
    else if (now.round != before.round || now.mxcsr != before.mxcsr || now.cw != before.cw) h = strf("the floating-point environment is %x/%x/%x, it was %x/%x/%x", now.round, now.mxcsr, now.cw, before.round, before.mxcsr, before.cw);
    else if (flags & ~fetestexcept(FE_ALL_EXCEPT)) h = strf("the floating-point exception flags %x were cleared", flags & ~fetestexcept(FE_ALL_EXCEPT));
    else if (now.except != before.except) h = "other floating-point exceptions trap";
    else if (memcmp(&now.mask, &before.mask, 8)) h = "the signal mask changed";
    else if (now.cwd != before.cwd) h = "the working directory changed";
    else if (now.fds != before.fds) h = strf("the open files are %llx, they were %llx", now.fds, before.fds);
    else if (now.env != before.env || now.envp != before.envp) h = "the environment changed";
    else if (memcmp(&now.it.it_interval, &before.it.it_interval, sizeof now.it.it_interval) || !now.it.it_value.tv_sec != !before.it.it_value.tv_sec) h = "a timer changed";
    else if (now.stack != before.stack || now.core != before.core) h = "a resource limit changed";
    else if (now.um != before.um) h = "the file mode mask changed";
    else if (now.prio != before.prio) h = "the priority changed";
    for (int k = 1; k <= 64; k++) if (now.sig[k] != before.sig[k]) h = strf("the handler of signal %d changed", k);
    // the harness itself runs in the usual environment
    if (!h.empty()) { leave(); fail("after %s, %s", what, h.c_str()); }
    st_transitions();
}
static int n1;
static void finish(int k)
{
    // the next numbers of the C library's generators
    int a = rand();
    long c = lrand48();
    char* t = strtok(nullptr, " ");
    bool tk = t && !strcmp(t, "two");
    leave();
    srand(states[k].seed);
    rand();
    int a2 = rand();
    srand48(states[k].seed);
    lrand48();
    long c2 = lrand48();
    if (a != a2) fail("the library draws from or seeds the generator of rand()");
    if (c != c2) fail("the library draws from or seeds the generator of drand48()");
    if (!tk) fail("the library uses strtok(): the host's next token is %s", t ? t : "lost");
    st_trace();
    st_nontrivial();
}
static Ctx* ctx;
static void init()
{
    ctx = projectm_eval_context_create(nullptr, nullptr);
    if (!ctx) fail("no context");
}
static void text(const std::string& t, int k)
{
    note("text %s, process state: %s", quote(t).c_str(), states[k].name);
    enter(k);
    Code* h = projectm_eval_code_compile(ctx, t.c_str());
    compare("compiling");
    if (h)
    {
        F v = projectm_eval_code_execute(h);
        compare("executing");
        st_state(hash_bytes(&v, sizeof v));
        projectm_eval_code_destroy(h);
    }
    else
    {
        const char* e = projectm_eval_get_error(ctx, nullptr, nullptr);
        st_state(hash_bytes(e ? e : "", e ? strlen(e) : 0));
    }
    compare("reading the error or destroying the code");
    finish(k);
}
static void all()
{
    using namespace hist;
    int D = lim(3, 4, 2);
    Job j;
    j.name = "histories";
    j.count = NST;
    for (int k = 0; k < D; k++) j.count *= NOPS;
    j.run = [=](uint64_t n) {
        int s = n % NST;
        n /= NST;
        std::string log;
        Hist h;
        std::vector<int> ops = {0};
        for (int k = 0; k < D; k++) { ops.push_back(n % NOPS); n /= NOPS; }
        enter(s);
        h.open();
        compare("creating a buffer");
        for (int o : ops)
        {
            log += std::string(log.empty() ? "" : ", ") + names[o];
            note("%s, process state: %s", log.c_str(), states[s].name);
            if (!h.op(o)) break;
            compare(names[o]);
        }
        h.close();
        compare("destroying everything");
        finish(s);
        st_state(hash_bytes(h.log.data(), h.log.size() * sizeof(double)));
        st_sample(log);
    };
    add(j);
    // every function with special operands
    static const char* args[] = {"0", "1", "-1.5", "1e300", "a", "0.5e-300", "1/0", "log(0)", "2^31", "megabuf(3)", "100000"};
    enum { NA = sizeof args / sizeof *args };
    Job f;
    f.name = "functions";
    f.count = (uint64_t)ref::nbuiltins * NA * NA * NA * NS;
    f.init = init;
    f.run = [](uint64_t n) {
        int s = n % NS;
        n /= NS;
        auto& b = ref::builtins[n % ref::nbuiltins];
        n /= ref::nbuiltins;
        int k[3] = {int(n % NA), int(n / NA % NA), int(n / NA / NA)};
        for (int q = b.arity; q < 3; q++) if (k[q]) return;
        if (b.arity == 3 && !thorough && (k[0] + k[1] + k[2]) % 3) return;
        std::string t = std::string("x=") + b.name + "(";
        for (int q = 0; q < b.arity; q++) t += std::string(q ? "," : "") + args[k[q]];
        text(t + ")", s);
    };
    add(f);
    // every function with operands that raise no exception, which trap
    Job g;
    g.name = "trapping";
    g.count = ref::nbuiltins * 27;
    g.init = init;
    g.run = [](uint64_t n) {
        auto& b = ref::builtins[n % ref::nbuiltins];
        n /= ref::nbuiltins;
        int k[3] = {int(n % 3), int(n / 3 % 3), int(n / 9)};
        for (int q = b.arity; q < 3; q++) if (k[q]) return;
        static const char* args[] = {"0.5", "1", "a"};
        std::string t = std::string("a=0.25;x=") + b.name + "(";
        for (int q = 0; q < b.arity; q++) t += std::string(q ? "," : "") + args[k[q]];
        text(t + ")", NS);
    };
    add(g);
    // long and deeply nested texts
    static std::vector<fam::Fam> fams = fam::families();
    static const size_t sz[] = {1, 30, 100, 198, 400, 1030, 5000, 11000, 20000, 70000};
    enum { NZ = sizeof sz / sizeof *sz };
    Job lg;
    lg.name = "long";
    lg.count = fams.size() * NZ * 2;
    lg.init = init;
    lg.chunk = 8;
    lg.hang_cpu = 100;
    lg.run = [](uint64_t n) {
        const fam::Fam& f = fams[n / 2 % fams.size()];
        size_t z = sz[n / 2 / fams.size()];
        if (z > f.max || (z > 20000 && n / 2 % 4)) return;
        text(f.f(z), n % 2 ? 1 : 0);
    };
    add(lg);
    // all short texts
    static const char* al[] = {"1", "1.5e3", "a", "(", ")", "+", "=", ";", ",", "sin", "$x", "$'c'", "/*", "//", "\n", "rand", "megabuf", "#", "\xe4"};
    enum { NL = sizeof al / sizeof *al };
    Job t;
    t.name = "texts";
    int L = lim(3, 4, 2);
    t.count = NS;
    for (int k = 0; k < L; k++) t.count *= NL;
    t.init = init;
    t.run = [=](uint64_t n) {
        int s = n % NS;
        n /= NS;
        std::string x;
        for (int k = 0; k < L; k++) { x += al[n % NL]; n /= NL; }
        text(x, s);
    };
    add(t);
}
}
MODE(C25) { c25::all(); }
