// API histories: handles (C08), names (C11), contexts and sharing (C14),
// release of everything (C16), the ns-eel2 shim (C20).
#include "duo.hpp"
#include "special.hpp"
#include "gram.hpp"
#include "fam.hpp"
#include <memory>
#include <malloc.h>
#ifdef VF_SHIM
#include "ns-eel.h"
#endif
using namespace vf;

static Duo duo;
static void fresh()
{
    if (duo.w.c) duo.w.close();
    duo.open();
}

// =============================================================================
// C08: histories of compiling, executing and destroying code in one context
namespace c08 {
static const char* texts[] = {
    "a=a+1;b=b+a", "loop(0,a)", "loop(n,3)+a", "5=a;5", "3+=1", "loop(3,2+=1)", "if(a,7,b)=4;7", "x=while(n=n-1);n=2", "exec3(a,b,9)=a;9", "(a;4)+=b", "memset(1,a,2);1[]+2[]", "gmem[1]+=2", "(a+b)=9;a+b",
    "sin(a)+=1", "(-a)=5;-a", "a=b=n+1", "megabuf(-1)=5;megabuf(-1)", "b=if(b,0,3)", "while(1[]=1[]+1;0)", "loop(2,a=1-a)", "x=(1;2;a);x", "rand(1)*0+a", "0&&(a=1)||b", "", "memcpy(0,1,2);a=0[]", "a%=3;b|=a;b&=7;a^=2",
};
enum { NT = sizeof texts / sizeof *texts };
static ref::Program* progs[NT];
static int va, vb, vn;
static void init()
{
    fresh();
    va = duo.var("a");
    vb = duo.var("b");
    vn = duo.var("n");
    duo.var("x");
    for (int k = 0; k < NT; k++)
    {
        progs[k] = new ref::Program;
        if (!ref::parse(texts[k], *progs[k], duo.names)) fail("the reference rejects %s", texts[k]);
    }
    duo.sync_names();
}
struct Slot { Code* h = nullptr; int t = 0; };
static Slot slot[3];
static void compile(int s, int t, std::string& log)
{
    log += strf("h%d=compile(%s) | ", s, quote(texts[t]).c_str());
    note_str(log);
    if (slot[s].h) projectm_eval_code_destroy(slot[s].h);
    slot[s].h = projectm_eval_code_compile(duo.w.c, texts[t]);
    slot[s].t = t;
    if (!slot[s].h) fail("is rejected");
}
static void exec(int s, std::string& log)
{
    log += strf("execute h%d | ", s);
    note_str(log);
    duo.budget = 2000;
    F want = duo.ev.run(*progs[slot[s].t], duo.st, duo.budget);
    if (duo.ev.over) throw 1;
    F got = projectm_eval_code_execute(slot[s].h);
    st_transitions();
    st_trace();
    if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    std::string how;
    if (duo.differs(how, 1, false)) fail("%s", how.c_str());
    uint64_t hs = hash_bytes(duo.st.vars.data(), duo.st.vars.size() * sizeof(F));
    st_state(hash_bytes(&want, sizeof want, hs));
}
static void run(int t0, int t1, uint64_t ops, int depth)
{
    std::string log;
    try
    {
        duo.set(vb, 2);
        duo.set(vn, 2);
        compile(0, t0, log);
        compile(1, t1, log);
        for (int d = 0; d < depth; d++)
        {
            int o = ops % 9;
            ops /= 9;
            switch (o)
            {
            case 0: case 1: exec(o, log); break;
            case 2: compile(0, t1, log); break;                 // recompile
            case 3: compile(1, t1, log); exec(1, log); break;
            case 4:                                             // a third handle comes, runs and goes
                compile(2, t0, log);
                exec(2, log);
                projectm_eval_code_destroy(slot[2].h);
                slot[2].h = nullptr;
                break;
            case 5:
                log += "failed compilation | ";
                note_str(log);
                if (projectm_eval_code_compile(duo.w.c, "a=7;b=8;sin(1,2);)")) fail("invalid text is accepted");
                break;
            case 6:
                log += "a=4, b=0 by the host | ";
                duo.set(va, 4);
                duo.set(vb, 0);
                break;
            case 7:
                log += "reset_variables | ";
                projectm_eval_context_reset_variables(duo.w.c);
                duo.st.vars.assign(duo.st.vars.size(), 0);
                *duo.w.zi = 0;
                break;
            case 8:
                log += "free_memory | ";
                projectm_eval_context_free_memory(duo.w.c);
                duo.loc.m.clear();
                break;
            }
        }
    }
    catch (int) { st_skip(); duo.adopt(); }
    for (auto& s : slot) if (s.h) { projectm_eval_code_destroy(s.h); s.h = nullptr; }
    std::string how;
    note_str(log + "destroy all handles");
    if (duo.differs(how, 1, false)) fail("%s", how.c_str());
    duo.reset();
    st_nontrivial();
    st_sample(log);
}
static void jobs()
{
    int D = lim(4, 5, 3);
    for (int d = 1; d <= D; d++)
    {
        Job j;
        j.name = strf("handles%d", d);
        uint64_t per = 1;
        for (int k = 0; k < d; k++) per *= 9;
        j.count = per * NT * NT;
        j.init = init;
        j.run = [=](uint64_t i) { run(i % NT, i / NT % NT, i / NT / NT, d); };
        add(j);
        if (d <= lim(3, 4, 0)) add_reused(j);
    }
    // a text against its own repetition: n executions of one handle equal n executions of n handles
    // compiled before, and of handles compiled one at a time; over a grammar
    auto g = std::make_shared<Gram>();
    for (auto l : {"a", "2", "1[]"}) g->add("E", 1, l);
    for (auto u : {"-({E})", "megabuf({E})"}) g->add("E", 1, u);
    for (auto b : {"({E})=({E})", "({E})+=({E})", "({E})+({E})", "loop({E},{E})", "({E};{E})", "({E})&&({E})"}) g->add("E", 1, b);
    for (auto t : {"if({E},{E},{E})", "exec3({E},{E},{E})"}) g->add("E", 1, t);
    for (int s = 1; s <= lim(6, 7, 4); s++)
    {
        Job j;
        j.name = strf("repeat%d", s);
        j.count = g->count("E", s);
        if (!j.count) continue;
        j.init = init;
        j.run = [=](uint64_t i) {
            std::string t = g->text("E", s, i);
            note("program %s executed by one handle, by several compiled before, and by several compiled when needed", t.c_str());
            F res[3][3], av[3], sv[3];
            if (t.find("loop") != t.rfind("loop"))
            { // nested loops: only programs which end soon
                ref::Program prog;
                if (!ref::parse(t, prog, duo.names)) fail("the reference rejects it");
                duo.sync_names();
                duo.set(va, 1);
                duo.slot(false, 1, 3);
                bool over = false;
                for (int k = 0; k < 3 && !over; k++) { duo.ev.run(prog, duo.st, 100000); over = duo.ev.over; }
                duo.adopt();
                duo.reset();
                if (over) { st_skip(); return; }
            }
            for (int w = 0; w < 3; w++)
            {
                duo.set(va, 1);
                duo.slot(false, 1, 3);
                Code* h[3] = {nullptr, nullptr, nullptr};
                for (int k = 0; k < 3; k++) if (w == 1 || k == 0) h[k] = projectm_eval_code_compile(duo.w.c, t.c_str());
                for (int k = 0; k < 3; k++)
                {
                    if (w == 2 && k) { projectm_eval_code_destroy(h[0]); h[0] = projectm_eval_code_compile(duo.w.c, t.c_str()); }
                    Code* c = w == 1 ? h[k] : h[0];
                    if (!c) fail("is rejected");
                    res[w][k] = projectm_eval_code_execute(c);
                    st_transitions();
                }
                for (auto c : h) if (c) projectm_eval_code_destroy(c);
                av[w] = *duo.ptr[va - 100];
                sv[w] = duo.w.peek(false, 1);
                projectm_eval_context_free_memory(duo.w.c);
                duo.loc.m.clear();
                duo.adopt();
            }
            st_trace();
            for (int w = 1; w < 3; w++)
            {
                for (int k = 0; k < 3; k++) if (!same(res[w][k], res[0][k])) fail("execution %d yields %s, with other handles %s", k + 1, show(res[0][k]).c_str(), show(res[w][k]).c_str());
                if (!same(av[w], av[0]) || !same(sv[w], sv[0])) fail("a and megabuf(1) become %s and %s, with other handles %s and %s", show(av[0]).c_str(), show(sv[0]).c_str(), show(av[w]).c_str(), show(sv[w]).c_str());
            }
            st_state(hash_bytes(res, sizeof res));
            duo.reset();
        };
        add(j);
    }
}
// Every function and operator: an execution may not depend on the arguments of earlier ones, of the
// same handle or of handles of other functions.
struct Fn { std::string text; int n; };
static std::vector<Fn> fns()
{
    std::vector<Fn> f;
    for (auto& b : ref::builtins)
    {
        if (b.op == ref::O_RAND || b.op == ref::O_WHILE || b.op == ref::O_LOOP || b.op == ref::O_MEMCPY || b.op == ref::O_MEMSET) continue;
        std::string t = std::string(b.name) + "(";
        for (int k = 0; k < b.arity; k++) t += strf("%s%c*one", k ? "," : "", "abn"[k]);
        f.push_back({t + ")", b.arity});
    }
    for (auto o : {"+=","-=","*=","/=","%=","^=","|=","&="}) f.push_back({std::string("x=a;x ") + o + " b", 2});
    for (auto o : {"||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^"}) f.push_back({std::string("a ") + o + " b", 2});
    f.push_back({"a?b:n", 3});
    f.push_back({"-a", 1});
    f.push_back({"!a", 1});
    f.push_back({"loop(a,x=x+b)", 2});
    f.push_back({"x=a;while(x=x-1;x>0)+b", 2});
    return f;
}
static std::vector<Fn> F_;
static std::vector<ref::Program*> P_;
static void init_pure()
{
    init();
    int one = duo.var("one");
    (void)one;
    F_ = fns();
    for (auto& f : F_)
    {
        P_.push_back(new ref::Program);
        if (!ref::parse(f.text, *P_.back(), duo.names)) fail("the reference rejects %s", f.text.c_str());
    }
    duo.sync_names();
}
static void pure_exec(int f, Code* h, const F* x, std::string& log)
{
    duo.set(duo.names.get("one"), 1);
    duo.set(va, x[0]);
    duo.set(vb, x[1]);
    duo.set(vn, x[2]);
    duo.set(duo.names.get("x"), 0);
    log += strf("execute %s with a=%s b=%s n=%s | ", F_[f].text.c_str(), show(x[0]).c_str(), show(x[1]).c_str(), show(x[2]).c_str());
    note_str(log);
    F want = duo.ev.run(*P_[f], duo.st, 2000);
    if (duo.ev.over) fail("the reference does not end");
    F got = projectm_eval_code_execute(h);
    st_transitions();
    st_trace();
    if (duo.ev.vague) { st_skip(); duo.adopt(); return; }
    if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    std::string how;
    if (duo.differs(how, 0, false)) fail("%s", how.c_str());
    st_state(hash_bytes(&want, sizeof want));
}
static Code* pure_compile(int f, std::string& log)
{
    log += "compile " + F_[f].text + " | ";
    note_str(log);
    Code* h = projectm_eval_code_compile(duo.w.c, F_[f].text.c_str());
    if (!h) fail("is rejected");
    return h;
}
static void pure()
{
    F_ = fns();
    static const F vals[] = {1, F(2.5), 0, -3, 4};
    int nf = (int)F_.size();
    for (int n = 1; n <= 3; n++)
    {
        auto idx = std::make_shared<std::vector<int>>();
        for (int k = 0; k < nf; k++) if (F_[k].n == n) idx->push_back(k);
        int nv = n == 3 ? 3 : 5;
        uint64_t tuples = 1;
        for (int k = 0; k < n; k++) tuples *= nv;
        Job j;
        j.name = strf("pure%d", n);
        j.count = idx->size() * tuples * tuples;
        j.init = init_pure;
        j.run = [=](uint64_t i) {
            int f = (*idx)[i % idx->size()];
            i /= idx->size();
            F x[2][3] = {{0, 0, 0}, {0, 0, 0}};
            for (int w = 0; w < 2; w++) for (int k = 0; k < n; k++) { x[w][k] = vals[i % nv]; i /= nv; }
            std::string log;
            Code* h = pure_compile(f, log);
            pure_exec(f, h, x[0], log);
            pure_exec(f, h, x[1], log);
            Code* g = pure_compile(f, log);
            pure_exec(f, g, x[0], log);
            pure_exec(f, h, x[1], log);
            projectm_eval_code_destroy(h);
            pure_exec(f, g, x[0], log);
            projectm_eval_code_destroy(g);
            duo.reset();
            st_nontrivial();
        };
        add(j);
    }
    static const F tup[][3] = {{1, 2, 3}, {1, -3, 2}, {F(2.5), 2, 1}, {0, 2, 5}, {1, 0, 4}};
    Job j;
    j.name = "pure-pairs";
    j.count = (uint64_t)nf * nf * 25;
    j.init = init_pure;
    j.run = [=](uint64_t i) {
        int f = i % nf, g = i / nf % nf;
        i /= nf * nf;
        const F *x = tup[i % 5], *y = tup[i / 5];
        std::string log;
        Code *hf = pure_compile(f, log), *hg = pure_compile(g, log);
        pure_exec(f, hf, x, log);
        pure_exec(g, hg, y, log);
        pure_exec(f, hf, y, log);
        pure_exec(g, hg, x, log);
        pure_exec(g, hg, y, log);
        projectm_eval_code_destroy(hf);
        projectm_eval_code_destroy(hg);
        duo.reset();
        st_nontrivial();
    };
    add(j);
}
// All ordered pairs of arguments from a set with the extremes
static void pure_wide()
{
    static const F wide[] = {0, 1, -3, F(2.5), F(0.5), F(1e-5), sizeof(F) == 8 ? F(1e301) : F(1e37), 65536, F(4294967296.5), -1, F(-0.0), F(INFINITY), F(NAN), sizeof(F) == 8 ? F(-1e301) : F(-1e37), F(1e18), F(-0.3),
                             2, 7, F(2147483647.5), F(-2147483648.), F(1e-200), F(3.14159265358979), F(1000000.25), F(-INFINITY)};
    Job j;
    j.name = "pure-wide";
    F_ = fns();
    int nf = (int)F_.size(), nv[4] = {0, 24, 24, thorough ? 12 : 7};
    auto at = std::make_shared<std::vector<int>>(1, 0);
    for (auto& f : F_) at->push_back(at->back() + (f.n == 1 ? nv[1] : f.n == 2 ? nv[2] * nv[2] : nv[3] * nv[3] * nv[3]));
    j.count = at->back();
    j.init = init_pure;
    j.run = [=](uint64_t i) {
        int f = int(std::upper_bound(at->begin(), at->end(), (int)i) - at->begin()) - 1, n = F_[f].n, v = nv[n], size = (*at)[f + 1] - (*at)[f];
        std::string log;
        Code* h = pure_compile(f, log);
        auto value = [&](int t, int k) { for (; k; k--) t /= v; return wide[t % v]; };
        int was = -1;
        F want = 0, got = 0;
        int one = duo.names.get("one"), x = duo.names.get("x"), vars[3] = {va, vb, vn};
        duo.set(one, 1);
        auto exec = [&](int t) {
            for (int k = 0; k < n; k++) duo.set(vars[k], value(t, k));
            duo.set(x, 0);
            want = duo.ev.run(*P_[f], duo.st, 200);
            if (duo.ev.over) { st_skip(); duo.adopt(); return; } // long loops
            got = projectm_eval_code_execute(h);
            st_transitions();
            if (duo.ev.vague) { st_skip(); duo.adopt(); return; }
            std::string a = "", how;
            if (!close_to(got, want)) how = strf("result %s, expected %s", show(got).c_str(), show(want).c_str());
            for (size_t k = 0; k < duo.ptr.size() && how.empty(); k++)
                if (!close_to(*duo.ptr[k], duo.st.vars[k])) how = strf("variable %s is %s, expected %s", duo.names.names[k].c_str(), show(*duo.ptr[k]).c_str(), show(duo.st.vars[k]).c_str());
            if (how.empty()) return;
            for (int w : {was, t}) if (w >= 0) for (int k = 0; k < n; k++) a += strf("%s%s%s", k ? ", " : w == t ? " then " : "", k ? "" : "a, b, n = ", show(value(w, k)).c_str());
            fail("executed with %s: %s", a.c_str(), how.c_str());
        };
        int s = int(i) - (*at)[f];
        for (int t = 0; t < size; t++)
        {
            was = t - 1;
            exec(s);
            was = s;
            exec(t);
            st_trace();
        }
        projectm_eval_code_destroy(h);
        st_state(i);
        st_nontrivial();
        duo.reset();
    };
    add(j);
}
// Every function and operator over every kind of argument: one handle executed again and again, in
// states changed by itself and by the host.
static void again()
{
    auto f = std::make_shared<std::vector<Fn>>();
    for (auto& b : ref::builtins)
    {
        if (b.op == ref::O_RAND) continue;
        std::string t = std::string(b.name) + "(";
        for (int k = 0; k < b.arity; k++) t += strf("%s@%d", k ? "," : "", k);
        f->push_back({t + ")", b.arity});
    }
    for (auto o : {"=","+=","-=","*=","/=","%=","^=","|=","&=","||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^"}) f->push_back({std::string("@0 ") + o + " @1", 2});
    for (auto o : {"@0?@1:@2", "(@0;@1;@2)"}) f->push_back({o, 3});
    for (auto o : {"(@0;@1)", "@0[@1]"}) f->push_back({o, 2});
    for (auto o : {"-@0", "!@0", "+@0", "@0[]", "gmem[@0]"}) f->push_back({o, 1});
    static const char* arg[] = {"a", "3", "0", "(a+=1)", "(b=b-1)", "1[]", "(n;b)", "gmem[2]", "0.5", "(3;a)", "exec2(a=b,n)", "-2"};
    static const char* ctx[] = {"%", "x=%;x+b", "(%)=6", "exec2(n=n+1,%)", "sin(1);%", "if(b,%,a)"};
    int na = lim(8, 12, 6), nc = lim(4, 6, 2);
    Job j;
    j.name = "again";
    j.count = f->size() * uint64_t(na * na * na) * nc;
    j.init = init;
    j.run = [=](uint64_t i) {
        auto& fn = (*f)[i % f->size()];
        i /= f->size();
        int k[3];
        for (int q = 0; q < 3; q++) { k[q] = i % na; i /= na; if (q >= fn.n && k[q]) return; }
        std::string in, t;
        for (size_t q = 0; q < fn.text.size(); q++) if (fn.text[q] == '@') in += strf("(%s)", arg[k[fn.text[++q] - '0']]); else in += fn.text[q];
        for (const char* c = ctx[i]; *c; c++) if (*c == '%') t += in; else t += *c;
        std::string log = strf("program %s: ", t.c_str());
        ref::Program prog;
        if (!ref::parse(t, prog, duo.names)) fail("the reference rejects it");
        duo.sync_names();
        note_str(log);
        Code* h = projectm_eval_code_compile(duo.w.c, t.c_str());
        if (!h) fail("is rejected");
        static const F st[][5] = {{1, 2, 3, 4, 5}, {0, 0, 0, 0, 0}, {-1, 3, 1, 0, 2}};
        int steps = 0;
        for (int s : {0, -1, -1, 1, -1, 2, 0})
        {
            if (s >= 0)
            {
                log += strf("state %d by the host | ", s);
                duo.set(va, st[s][0]);
                duo.set(vb, st[s][1]);
                duo.set(vn, st[s][2]);
                duo.slot(false, 1, st[s][3]);
                duo.slot(true, 2, st[s][4]);
            }
            log += "execute | ";
            note_str(log);
            F want = duo.ev.run(prog, duo.st, 3000);
            if (duo.ev.over || duo.ev.vague) { st_skip(); duo.adopt(); break; }
            F got = projectm_eval_code_execute(h);
            st_transitions();
            st_trace();
            if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
            std::string how;
            if (duo.differs(how, 0, false)) fail("%s", how.c_str());
            st_state(hash_bytes(&want, sizeof want));
            steps++;
        }
        projectm_eval_code_destroy(h);
        duo.reset();
        if (steps) st_nontrivial();
    };
    add(j);
}

// Histories which are long instead of branching: many executions of a handle, many compilations, many
// handles alive at once, executed and destroyed in several orders.
static void expect(ref::Program& p, Code* h, bool full)
{
    F want = duo.ev.run(p, duo.st, 2000);
    if (duo.ev.over || duo.ev.vague) throw 1;
    F got = projectm_eval_code_execute(h);
    if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    for (size_t k = 0; k < duo.ptr.size(); k++)
        if (!close_to(*duo.ptr[k], duo.st.vars[k])) fail("variable %s is %s, expected %s", duo.names.names[k].c_str(), show(*duo.ptr[k]).c_str(), show(duo.st.vars[k]).c_str());
    std::string how;
    if (full && duo.differs(how, 0, false)) fail("%s", how.c_str());
}
static void lengthy()
{
    Job l;
    l.name = "long";
    l.count = NT * 6;
    l.init = init;
    l.chunk = 1;
    l.hang_cpu = 300;
    l.run = [](uint64_t i) {
        int t = i % NT, how = int(i / NT);
        int n = safety ? 3000 : thorough ? 300000 : 70000;
        static const char* hows[] = {"", ", the host sets the variables each time", ", compiled anew each time", ", with a failing compilation each time", ", with another handle in turn", ", with reset_variables and free_memory now and then"};
        note("%s executed %d times%s", quote(texts[t]).c_str(), n, hows[how]);
        duo.set(va, 1);
        duo.set(vb, 2);
        duo.set(vn, 2);
        Code *h = projectm_eval_code_compile(duo.w.c, texts[t]), *g = projectm_eval_code_compile(duo.w.c, texts[(t + 7) % NT]);
        if (!h || !g) fail("is rejected");
        try
        {
            for (int k = 0; k < n; k++)
            {
                if (how == 1 || k % 50 == 0) { duo.set(va, F(k % 5)); duo.set(vb, F(k % 3)); duo.set(vn, F(k % 7 == 0)); }
                if (how == 2) { projectm_eval_code_destroy(h); h = projectm_eval_code_compile(duo.w.c, texts[t]); if (!h) fail("compilation %d is rejected", k + 1); }
                if (how == 3 && projectm_eval_code_compile(duo.w.c, k & 1 ? "a=7;sin(1,2)" : "b=(3;4)) 5")) fail("invalid text is accepted");
                if (how == 5 && k % 100 == 99)
                {
                    projectm_eval_context_reset_variables(duo.w.c);
                    duo.st.vars.assign(duo.st.vars.size(), 0);
                    projectm_eval_context_free_memory(duo.w.c);
                    duo.loc.m.clear();
                }
                expect(*progs[t], h, k % 1000 == 999);
                if (how == 4) expect(*progs[(t + 7) % NT], g, false);
            }
        }
        catch (int) { st_skip(); duo.adopt(); }
        projectm_eval_code_destroy(h);
        projectm_eval_code_destroy(g);
        st_transitions(n);
        st_trace();
        st_state(i);
        st_nontrivial();
        duo.reset();
        fresh();
        for (auto p : progs) delete p;
        init();
    };
    add(l);
    // programs with many iterations: no limit applies to several of them together
    static const struct { const char* t; double want; } runs[] = {
        {"i=0;while(i=i+1;i<600000);i", 600000}, {"i=0;loop(600000,i=i+1);i", 600000}, {"i=0;while(i=i+1);i", 1048576}, {"i=0;loop(3000000,i=i+1);i", 1048576},
        {"i=0;loop(1000,loop(700,i=i+1));i", 700000}, {"i=0;loop(600,while(exec2(i=i+1,i%1000)));i", 600000}, {"memset(0,i=2,3000000);i=megabuf(2999999);memset(0,0,3000000);i", 2},
        {"megabuf(5)=7;memcpy(1500000,0,1500000);i=megabuf(1500005);memset(0,0,3000000);i", 7}, {"i=0;loop(300000,i=i+if(sin(i)>2,1,cos(0)));i", 300000}, {"i=0;loop(200000,gmegabuf(i*2)=1;i+=gmem[i*2]);memset(i,0,i);i", 200000}};
    enum { NR = sizeof runs / sizeof *runs };
    Job ex;
    ex.name = "exhausting";
    ex.count = NR * NR;
    ex.init = init;
    ex.chunk = 2;
    ex.hang_cpu = 300;
    ex.run = [](uint64_t i) {
        if (safety && i % 11) return;
        auto *p = &runs[i % NR], *q = &runs[i / NR];
        Ctx* c = projectm_eval_context_create(nullptr, nullptr);
        Code *h = projectm_eval_code_compile(c, p->t), *g = projectm_eval_code_compile(c, q->t);
        if (!h || !g) fail("%s or %s is rejected", quote(p->t).c_str(), quote(q->t).c_str());
        for (int k = 0; k < 4; k++)
            for (auto* r : {p, q})
            {
                note("%s and %s executed in turn, execution %d of %s", quote(p->t).c_str(), quote(q->t).c_str(), k + 1, quote(r->t).c_str());
                F got = projectm_eval_code_execute(r == p ? h : g);
                if (got != (F)r->want) fail("result %s, expected %.0f", show(got).c_str(), r->want);
                st_transitions();
            }
        projectm_eval_code_destroy(h);
        projectm_eval_code_destroy(g);
        projectm_eval_context_destroy(c);
        st_trace();
        st_state(i);
        st_nontrivial();
    };
    add(ex);
    static const int sizes[] = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 4097, 20000};
    Job m;
    m.name = "alive";
    m.count = 31 * 5 * 5;
    m.init = init;
    m.chunk = 4;
    m.hang_cpu = 120;
    m.run = [](uint64_t i) {
        int n = sizes[i % 31], eo = i / 31 % 5, od = int(i / 31 / 5);
        if (!thorough && n > 5000) return;
        if (safety && n > 600) return;
        note("%d handles alive, execution order %d, destruction order %d", n, eo, od);
        auto order = [&](int o, int k) { return o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k & 1 ? n - 1 - k / 2 : k / 2) : o == 3 ? (k < n / 2 ? k + (n - n / 2) : k - n / 2) : (int)((uint64_t(k) * 7919 + 3) % n); };
        std::vector<Code*> h;
        for (int k = 0; k < n; k++)
        {
            h.push_back(projectm_eval_code_compile(duo.w.c, texts[k % NT]));
            if (!h[k]) fail("compilation %d is rejected", k + 1);
        }
        try
        {
            for (int k = 0; k < n; k++)
            {
                if (k % 9 == 0) { duo.set(va, F(k % 4)); duo.set(vb, F(k % 5)); duo.set(vn, F(k % 2)); }
                int q = order(eo, k);
                expect(*progs[q % NT], h[q], k % 100 == 0);
            }
            bool gone[20001] = {};
            for (int k = 0; k < n; k++)
            {
                int q = order(od, k);
                if (gone[q]) continue;
                gone[q] = true;
                projectm_eval_code_destroy(h[q]);
                int z = (q + n / 2) % n;
                if (!gone[z] && k % 3 == 0)
                {
                    if (k % 9 == 0) { duo.set(va, F(k % 4)); duo.set(vb, F(k % 5)); duo.set(vn, F(k % 2)); }
                    expect(*progs[z % NT], h[z], k % 99 == 0);
                }
            }
            for (int q = 0; q < n; q++) if (!gone[q]) projectm_eval_code_destroy(h[q]);
        }
        catch (int) { st_skip(); duo.adopt(); }
        st_transitions(n * 2);
        st_trace();
        st_state(i);
        st_nontrivial();
        duo.reset();
    };
    add(m);
}
}
MODE(C08) { c08::jobs(); c08::pure(); c08::pure_wide(); c08::again(); c08::lengthy(); }

// =============================================================================
// C11
namespace c11 {
static std::vector<std::string> names()
{
    std::vector<std::string> v = {"a", "A", "b", "_", "__", "_a", "_A", "a_", "A_", "a1", "A1", "a01", "a_1", "a10", "Ab", "aB", "AB", "ab", "ba", "abc", "aBc", "abC", "x", "X", "xy", "xx", "pi", "PI", "e", "E", "phi", "x0ff", "e1", "E1", "e5x", "E5X",
        "reg", "Reg", "reg0", "REG0", "reg00", "REG00", "Reg00", "rEg00", "reG00", "reg01", "reg05", "REG05", "reg5", "reg09", "reg10", "reg50", "reg99", "REG99", "reg98", "reg100", "reg000", "reg005", "reg0a", "rega0", "reg_1", "reg1_", "regx1", "reg1x", "areg05", "reg05a", "_reg05", "reg05_", "re905", "rag05", "teg05", "reh05", "req05", "regOO", "regl0",
        "sin1", "sine", "Sin_", "xsin", "si", "sinh", "gmem1", "gme", "xgmem", "megabuf1", "megabu", "if1", "iff", "loop_", "_sin", "__if", "_i", "while1", "int1", "bnot1", "q1", "Q1", "q32", "t8", "zoom", "Zoom", "ZOOM", "zoom2", "zoomexp", "frame", "time", "fps"};
    for (int n : {31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096})
    {
        std::string s(n, 'k');
        v.push_back(s);
        v.push_back(s + "1");
        s[n - 1] = 'K';
        v.push_back(s);
        s[n - 1] = 'j';
        v.push_back(s);
        s[n - 1] = 'k';
        s[0] = 'K';
        v.push_back(s);
    }
    return v;
}
static int reg_index(const std::string& s)
{
    std::string n = ref::lower(s);
    if (n.size() == 5 && n.compare(0, 3, "reg") == 0 && ref::isdig(n[3]) && ref::isdig(n[4])) return (n[3] - '0') * 10 + n[4] - '0';
    return -1;
}
static Code* compile(Ctx* c, const std::string& t)
{
    Code* h = projectm_eval_code_compile(c, t.c_str());
    if (!h) fail("%s does not compile", quote(t).c_str());
    return h;
}
static F run(Ctx* c, const std::string& t)
{
    Code* h = compile(c, t);
    F r = projectm_eval_code_execute(h);
    projectm_eval_code_destroy(h);
    st_transitions();
    return r;
}
static std::string shown(const std::string& s) { return s.size() > 40 ? strf("%s...(%zu characters, last %c)", s.substr(0, 8).c_str(), s.size(), s.back()) : s; }
// two names p and q, in every order of registration and compilation
static void pair(const std::string& p, const std::string& q, int order)
{
    F regs[100];
    memset(regs, 0, sizeof regs);
    projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
    Ctx* c = projectm_eval_context_create(gm, &regs);
    bool eq = ref::lower(p) == ref::lower(q);
    note("names %s and %s, order %d", shown(p).c_str(), shown(q).c_str(), order);
    Code *hp = nullptr, *hq = nullptr;
    F *pp = nullptr, *pq = nullptr;
    // order: 0 pointer p, pointer q, codes; 1 pointer q, code p, pointer p, code q; 2 codes, then pointers; 3 code q, pointer p, code p, pointer q, with other variables in between
    std::string tp = p + "=" + p + "+5;" + p, tq = q + "=" + q + "+70;" + q;
    auto P = [&]() { pp = projectm_eval_context_register_variable(c, p.c_str()); };
    auto Q = [&]() { pq = projectm_eval_context_register_variable(c, q.c_str()); };
    switch (order)
    {
    case 0: P(); Q(); hp = compile(c, tp); hq = compile(c, tq); break;
    case 1: Q(); hp = compile(c, tp); P(); hq = compile(c, tq); break;
    case 2: hp = compile(c, tp); hq = compile(c, tq); P(); Q(); break;
    default:
        run(c, "zzz1=1;zzz2=2");
        hq = compile(c, tq);
        projectm_eval_context_register_variable(c, "zzz3");
        P();
        hp = compile(c, tp);
        run(c, "zzz4=1;" + p + "=" + q);
        Q();
    }
    if (!pp || !pq) fail("a registration yields NULL");
    if ((pp == pq) != eq) fail(eq ? "have different storage" : "have the same storage");
    int rp = reg_index(p), rq = reg_index(q);
    if (rp >= 0 ? pp != &regs[rp] : (pp >= regs && pp < regs + 100)) fail("the pointer of the first is not what it should be");
    if (rq >= 0 ? pq != &regs[rq] : (pq >= regs && pq < regs + 100)) fail("the pointer of the second is not what it should be");
    if (*pp != 0 || *pq != 0) fail("are not 0 initially");
    *pp = 1;
    F r1 = projectm_eval_code_execute(hp);      // p = 6
    if (r1 != 6 || *pp != 6 || *pq != (eq ? 6 : 0)) fail("after adding 5 to the first (1), they are %s and %s", show(*pp).c_str(), show(*pq).c_str());
    F r2 = projectm_eval_code_execute(hq);
    F w2 = eq ? 76 : 70;
    if (r2 != w2 || *pq != w2 || *pp != (eq ? 76 : 6)) fail("after adding 70 to the second, they are %s and %s", show(*pp).c_str(), show(*pq).c_str());
    *pq = 3;
    F r3 = run(c, q + "*1");
    if (r3 != 3) fail("code compiled later reads %s instead of 3", show(r3).c_str());
    st_transitions(4);
    projectm_eval_code_destroy(hp);
    projectm_eval_code_destroy(hq);
    F* again = projectm_eval_context_register_variable(c, p.c_str());
    if (again != pp) fail("registering the first again yields another pointer");
    projectm_eval_context_destroy(c);
    projectm_eval_memory_buffer_destroy(gm);
    st_trace();
    st_nontrivial(eq);
    st_state((uint64_t)eq * 8 + order);
}
// every string of names at once: equal storage exactly for equal lower case
static void set_of(const std::vector<std::string>& v, bool from_code)
{
    F regs[100];
    memset(regs, 0, sizeof regs);
    projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
    Ctx* c = projectm_eval_context_create(gm, &regs);
    std::unordered_map<std::string, F*> m;
    std::unordered_map<F*, std::string> back;
    for (int pass = 0; pass < 2; pass++)
        for (auto& n : v)
        {
            if (from_code && !pass) { note("name %s", shown(n).c_str()); run(c, n + "=" + n + "+1"); }
            F* p = projectm_eval_context_register_variable(c, n.c_str());
            std::string k = ref::lower(n);
            int r = reg_index(n);
            note("name %s", shown(n).c_str());
            if (r >= 0) { if (p != &regs[r]) fail("is not register %d", r); }
            else if (p >= regs && p < regs + 100) fail("is a register");
            auto it = m.find(k);
            if (it != m.end()) { if (it->second != p) fail("has other storage than an equal name before"); }
            else
            {
                if (back.count(p)) fail("has the storage of %s", shown(back[p]).c_str());
                m[k] = p;
                back[p] = k;
            }
            st_trace();
        }
    if (from_code)
    {
        std::unordered_map<std::string, int> n;
        for (auto& x : v) n[ref::lower(x)]++;
        for (auto& e : n) { note("name %s", shown(e.first).c_str()); if (*m[e.first] != e.second) fail("was incremented %d times, but is %s", e.second, show(*m[e.first]).c_str()); }
    }
    projectm_eval_context_destroy(c);
    projectm_eval_memory_buffer_destroy(gm);
    st_state(m.size());
}
static void jobs()
{
    auto nm = std::make_shared<std::vector<std::string>>(names());
    size_t N = nm->size();
    Job j;
    j.name = "pairs";
    j.count = N * N * 4;
    j.run = [=](uint64_t i) { pair((*nm)[i % N], (*nm)[i / N % N], int(i / N / N)); };
    add(j);
    // all short names over an alphabet, all of them in one context
    auto shorts = std::make_shared<std::vector<std::string>>();
    static const char al[] = "aAzZ_19mM";
    int L = lim(3, 4, 3);
    std::function<void(std::string)> rec = [&](std::string s) {
        if (!s.empty()) shorts->push_back(s);
        if ((int)s.size() >= L) return;
        for (const char* a = al; *a; a++) if (!s.empty() || !ref::isdig(*a)) rec(s + *a);
    };
    rec("");
    // all neighbours of register names
    auto regs = std::make_shared<std::vector<std::string>>();
    static const char ch[] = "abcdefghijklmnopqrstuvwxyz_0123456789RGEOl";
    for (const char* x = ch; *x; x++) for (const char* y = ch; *y; y++) regs->push_back(std::string("reg") + *x + *y);
    for (std::string b : {"reg05", "REG42", "reg99"})
        for (int k = 0; k <= 5; k++)
            for (const char* x = ch; *x; x++)
            {
                std::string s = b;
                if (k || !ref::isdig(*x)) { s.insert(s.begin() + k, *x); regs->push_back(s); }
                s = b;
                if (k < 5 && (k || !ref::isdig(*x))) { s[k] = *x; regs->push_back(s); }
                s = b;
                if (k < 5) { s.erase(s.begin() + k); regs->push_back(s); }
            }
    for (int k = 0; k < 100; k++) for (int m = 0; m < 8; m++) regs->push_back(strf("%c%c%c%02d", m & 1 ? 'R' : 'r', m & 2 ? 'E' : 'e', m & 4 ? 'G' : 'g', k));
    auto all = std::make_shared<std::vector<std::string>>(*shorts);
    all->insert(all->end(), regs->begin(), regs->end());
    all->insert(all->end(), nm->begin(), nm->end());
    // names that are functions or keywords cannot be used as variables in code
    auto usable = [](const std::string& s) { return !ref::find_builtin(s) && ref::lower(s) != "gmem"; };
    for (auto v : {shorts, regs, all}) v->erase(std::remove_if(v->begin(), v->end(), [&](const std::string& s) { return !usable(s); }), v->end());
    Job s;
    s.name = "sets";
    s.count = 12;
    s.chunk = 1;
    s.hang_cpu = 200;
    s.run = [=](uint64_t i) {
        auto v = i / 2 % 3 == 0 ? *shorts : i / 2 % 3 == 1 ? *regs : *all;
        if (i >= 6) std::reverse(v.begin(), v.end());
        if (v.size() > 9000) v.resize(9000);
        set_of(v, i & 1);
    };
    add(s);
    // registered names may consist of any characters, only letters have two cases
    Job by;
    by.name = "bytes";
    by.count = 3 + lim(1, 10, 0);
    by.chunk = 1;
    by.hang_cpu = 200;
    by.run = [](uint64_t i) {
        static const char* other[] = {"v", "V", "_", "[", "{", "@", "`", "\xe4", "\xc4", "9"};
        std::vector<std::string> v;
        for (int c = 1; c < 256; c++)
        {
            std::string x(1, char(c));
            if (i == 0) v.push_back(x);
            else if (i == 1) v.push_back("reg0" + x), v.push_back("reg" + x + "1"), v.push_back("re" + x + "01");
            else if (i == 2) v.push_back("name" + x), v.push_back(x + "name"), v.push_back("a" + x + "b");
            else v.push_back(x + other[i - 3]), v.push_back(other[i - 3] + x);
        }
        set_of(v, false);
    };
    add(by);
    // all names of up to three characters with two initials (lookups by digests of the names), and words which have equal digests of common kinds
    static const char firsts[] = "abcdefghijklmnopqrstuvwxyz_", others[] = "abcdefghijklmnopqrstuvwxyz_0123456789";
    Job sh;
    sh.name = "short";
    sh.count = 27 * 28 / 2 + 1;
    sh.chunk = 4;
    sh.hang_cpu = 200;
    sh.run = [=](uint64_t i) {
        std::vector<std::string> v;
        if (i == 27 * 28 / 2)
            v = {"costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "altarages", "zinkes", "creamwove", "quists", "hetairas", "mentioner", "heliotropes", "neurospora", "depravement", "serafins", "stylist", "subgenera", "joyful", "synaphea", "redescribed", "urites",
                "dram", "vivency", "haggadot", "loathsomenesses", "adorablenesses", "rentability", "playwright", "snush", "playwrighting", "snushing", "treponematoses", "waterbeds", "codding", "gnu", "exhibiters", "schlager", "plumless", "buckeroo", "siblings", "teheran", "polygenelubricants",
                "abc", "acb", "bac", "bca", "cab", "cba", "aabb", "abab", "abba", "baab", "baba", "bbaa", "ad", "bc", "ae", "bd", "a_b", "ab_", "_ab", "x1y2", "x2y1", "y1x2", "y2x1", "q12", "q21", "t1_2", "t2_1", "ar", "c0", "an", "arar", "arc0", "c0ar", "c0c0"};
        else
        {
            int p = 0, k = int(i);
            while (k >= 27 - p) k -= 27 - p, p++;
            for (int q = p; q <= p + k; q += k ? k : 27)
            {
                std::string a(1, firsts[q]);
                v.push_back(a);
                for (const char* x = others; *x; x++)
                {
                    v.push_back(a + *x);
                    for (const char* y = others; *y; y++) v.push_back(a + *x + *y);
                }
            }
        }
        v.erase(std::remove_if(v.begin(), v.end(), [&](const std::string& n) { return !usable(n); }), v.end());
        if (safety && v.size() > 300) v.resize(300);
        set_of(v, i == 27 * 28 / 2);
    };
    add(sh);
    // no name but those of the functions is one
    Job nf;
    nf.name = "variables";
    nf.count = 27 * 37 * (thorough ? 37 : 1);
    nf.run = [=](uint64_t i) {
        std::string pre;
        pre += firsts[i % 27];
        pre += others[i / 27 % 37];
        if (thorough) pre += others[i / 27 / 37 % 37];
        projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
        Ctx* c = projectm_eval_context_create(gm, nullptr);
        for (const char* x = others; *x; x++)
        {
            std::string t;
            int n = 0;
            for (const char* y = others; *y; y++)
            {
                std::string name = pre + *x + *y;
                if (usable(name)) t += strf("%s%s=%d", n ? ";" : "", name.c_str(), n + 1), n++;
            }
            note("program %s", t.c_str());
            Code* h = projectm_eval_code_compile(c, t.c_str());
            if (!h) fail("is rejected: %s", projectm_eval_get_error(c, nullptr, nullptr));
            if (projectm_eval_code_execute(h) != n) fail("does not yield %d", n);
            projectm_eval_code_destroy(h);
            // as functions they are unknown
            for (const char* y = others; *y; y++)
            {
                std::string name = pre + *x + *y;
                if (!usable(name) || (!thorough && (x - others) % 4)) continue;
                note("program %s(1)", name.c_str());
                if (projectm_eval_code_compile(c, (name + "(1)").c_str())) fail("is accepted");
                st_transitions();
            }
            st_trace(n);
        }
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(gm);
        st_state(i);
    };
    if (!safety) add(nf);
    // built-in function names in every letter case
    Job f;
    f.name = "functions";
    f.count = (uint64_t)ref::nbuiltins * 256;
    f.init = fresh;
    f.run = [](uint64_t i) {
        auto& b = ref::builtins[i / 256];
        std::string n = b.name;
        int letters = 0;
        for (auto c : n) letters += c >= 'a' && c <= 'z';
        if (letters < 8 && (i & 255) >> letters) return;
        int k = 0;
        for (auto& c : n) if (c >= 'a' && c <= 'z') { if ((i & 255) >> (k % 8) & 1) c -= 32; k++; }
        std::string arg = "(";
        for (int a = 0; a < b.arity; a++) arg += a ? ",0.5" : "0.25";
        if (b.op == ref::O_WHILE) arg = "(0";
        arg += ")";
        std::string t = n + arg, u = b.name + arg;
        note("program %s", t.c_str());
        Handle h(duo.w.c, t), g(duo.w.c, u);
        if (!h || !g) fail("is rejected");
        F x = h(), y = g();
        if (b.op == ref::O_RAND) x = y = 0;
        if (!same(x, y)) fail("yields %s, %s yields %s", show(x).c_str(), u.c_str(), show(y).c_str());
        Handle v(duo.w.c, n + "=1");
        if (v) fail("%s can be used as a variable", n.c_str());
        st_trace();
        st_state(i / 256);
    };
    add(f);
    // gmem in every letter case
    Job gj;
    gj.name = "gmem";
    gj.count = 16;
    gj.init = fresh;
    gj.run = [](uint64_t i) {
        std::string n = "gmem";
        for (int k = 0; k < 4; k++) if (i >> k & 1) n[k] -= 32;
        note("program %s[3]", n.c_str());
        duo.w.poke(true, 3, F(2.5));
        Handle h(duo.w.c, n + "[3]");
        if (!h) fail("is rejected");
        if (h() != F(2.5)) fail("does not read the global buffer");
    };
    add(gj);
    // histories over the names: registering, compiling, writing, resetting; against a map
    static const char* sp[] = {"a", "A", "b", "reg07", "REG07", "reg7"};
    struct M { F *p[6]; };
    int D = lim(4, 5, 3);
    static const int NO = 6 * 4 + 3;
    Job hj;
    hj.name = "histories";
    hj.count = 1;
    for (int k = 0; k < D; k++) hj.count *= NO;
    hj.count *= 2;
    hj.run = [=](uint64_t i) {
        bool own = i & 1;
        i >>= 1;
        F regs[100];
        memset(regs, 0, sizeof regs);
        static projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
        Ctx* c = projectm_eval_context_create(gm, own ? &regs : nullptr);
        F val[4] = {0, 0, 0, 0};     // a, b, reg07, reg7
        static const int cls[] = {0, 0, 1, 2, 2, 3};
        F* ptr[4] = {nullptr, nullptr, nullptr, nullptr};
        Code* code = nullptr;
        int ccls = -1;
        std::string log;
        F* r7 = projectm_eval_context_register_variable(c, "reg07");
        *r7 = 0;
        for (int d = 0; d < D; d++)
        {
            int o = i % NO;
            i /= NO;
            if (o < 24)
            {
                int n = o % 6, k = cls[n];
                switch (o / 6)
                {
                case 0:
                {
                    log += strf("register %s | ", sp[n]);
                    note_str(log);
                    F* p = projectm_eval_context_register_variable(c, sp[n]);
                    if (ptr[k] && ptr[k] != p) fail("yields another pointer than before");
                    for (int q = 0; q < 4; q++) if (q != k && ptr[q] == p) fail("yields the pointer of another variable");
                    if (own && k == 2 && p != &regs[7]) fail("does not yield the entry of the register array");
                    ptr[k] = p;
                    if (*p != val[k]) fail("the variable is %s, expected %s", show(*p).c_str(), show(val[k]).c_str());
                    break;
                }
                case 1:
                {
                    log += strf("run %s=%s+%d | ", sp[n], sp[n ^ (n < 2 ? 1 : n == 3 || n == 4 ? 7 : 0)], d + 1);
                    note_str(log);
                    F r = run(c, strf("%s=%s+%d", sp[n], sp[n], d + 1));
                    val[k] += d + 1;
                    if (r != val[k]) fail("yields %s, expected %s", show(r).c_str(), show(val[k]).c_str());
                    break;
                }
                case 2:
                    log += strf("h=compile(%s=%s*2+1) | ", sp[n], sp[n]);
                    note_str(log);
                    if (code) projectm_eval_code_destroy(code);
                    code = compile(c, strf("%s=%s*2+1", sp[n], sp[n]));
                    ccls = k;
                    break;
                case 3:
                    if (!ptr[k]) { st_skip(); goto out; }
                    log += strf("host sets %s=%d | ", sp[n], 10 + d);
                    *ptr[k] = F(10 + d);
                    val[k] = F(10 + d);
                }
            }
            else if (o == 24)
            {
                if (!code) { st_skip(); goto out; }
                log += "execute h | ";
                note_str(log);
                F r = projectm_eval_code_execute(code);
                val[ccls] = val[ccls] * 2 + 1;
                if (r != val[ccls]) fail("yields %s, expected %s", show(r).c_str(), show(val[ccls]).c_str());
            }
            else if (o == 25)
            {
                log += "reset_variables | ";
                projectm_eval_context_reset_variables(c);
                val[0] = val[1] = val[3] = 0;
            }
            else
            {
                log += "failed compilation | ";
                Code* x = projectm_eval_code_compile(c, "a=1;B=2;reg07=3;reg7=4;)");
                if (x) fail("invalid text is accepted");
            }
            st_transitions();
            note_str(log);
            for (int k = 0; k < 4; k++) if (ptr[k] && !same(*ptr[k], val[k])) fail("the pointer of %s shows %s, expected %s", sp[k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 3 : 5], show(*ptr[k]).c_str(), show(val[k]).c_str());
        }
        note_str(log + "read all");
        for (int k = 0; k < 4; k++)
        {
            F r = run(c, sp[k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 4 : 5]);
            if (!same(r, val[k])) fail("%s reads %s, expected %s", sp[k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 4 : 5], show(r).c_str(), show(val[k]).c_str());
        }
        st_trace();
        st_state(hash_bytes(val, sizeof val));
        st_nontrivial();
    out:
        *r7 = 0;
        if (code) projectm_eval_code_destroy(code);
        projectm_eval_context_destroy(c);
    };
    add(hj);
    add_reused(hj);
    // many variables: pointers stay valid and attached
    Job m;
    m.name = "many";
    m.count = lim(4, 8, 2);
    m.chunk = 1;
    m.hang_cpu = 300;
    m.run = [](uint64_t i) {
        int n = 1000 << (i & 3);
        if (safety) n = 600;
        if (n > 4000 && !thorough) n = 4000;
        note("%d variables", n);
        projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
        F regs[100];
        memset(regs, 0, sizeof regs);
        Ctx* c = projectm_eval_context_create(gm, &regs);
        std::vector<F*> p;
        for (int k = 0; k < n; k++)
        {
            std::string s = strf("v%x_%d", k * 7919, k);
            if (i & 1 && k % 3 == 0) { Code* h = compile(c, s + "=0"); projectm_eval_code_destroy(h); }
            p.push_back(projectm_eval_context_register_variable(c, s.c_str()));
            *p[k] = F(k + 1);
        }
        for (int k = 0; k < n; k++)
        {
            std::string s = strf("V%X_%d", k * 7919, k);
            if (projectm_eval_context_register_variable(c, s.c_str()) != p[k]) fail("variable %d has moved", k);
            if (*p[k] != F(k + 1)) fail("variable %d has changed", k);
        }
        for (int k = 0; k < n; k += 97)
        {
            F r = run(c, strf("v%x_%d*2", k * 7919, k));
            if (r != F(2 * k + 2)) fail("variable %d reads %s", k, show(r / 2).c_str());
        }
        projectm_eval_context_reset_variables(c);
        for (int k = 0; k < n; k++) if (*p[k] != 0) fail("variable %d is not reset", k);
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(gm);
        st_trace(n);
        st_state(n);
    };
    add(m);
    // what a variable holds is no matter to looking it up again
    Job sv;
    sv.name = "special";
    sv.count = special::N * special::N * 6;
    sv.run = [](uint64_t i) {
        F u = special::value[i % special::N], v = special::value[i / special::N % special::N];
        int how = int(i / special::N / special::N);
        static const char* hows[] = {"registering them again", "registering them in other spellings", "compiling programs with them", "compiling programs with them in other spellings", "executing a program which reads them", "registering and compiling others"};
        note("variables with %s and %s, then %s", special::text(u).c_str(), special::text(v).c_str(), hows[how]);
        F regs[100];
        memset(regs, 0, sizeof regs);
        projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
        Ctx* c = projectm_eval_context_create(gm, &regs);
        static const char* low[] = {"a", "bb", "reg12", "_"};
        static const char* upp[] = {"A", "bB", "REG12", "_"};
        F* p[4];
        for (int k = 0; k < 4; k++) *(p[k] = projectm_eval_context_register_variable(c, low[k])) = k & 1 ? v : u;
        std::vector<Code*> h;
        const char** n = how & 1 ? upp : low;
        for (int k = 0; k < 4; k++)
        {
            if (how < 2) { if (projectm_eval_context_register_variable(c, n[k]) != p[k]) fail("%s has moved", n[k]); }
            else if (how < 4) { h.push_back(compile(c, strf("%s=%s+1", n[k], n[3 - k]))); h.push_back(compile(c, strf("%s", n[k]))); }
            else if (how == 4) run(c, strf("new%d=%s;%s", k, n[k], n[3 - k]));
            else { F* q = projectm_eval_context_register_variable(c, strf("%sx", n[k]).c_str()); if (*q != 0) fail("a new variable is %s", show(*q).c_str()); *q = v; run(c, strf("other%d=3", k)); }
            for (int m = 0; m < 4; m++) if (!special::equal(*p[m], m & 1 ? v : u)) fail("%s is %s afterwards", low[m], special::text(*p[m]).c_str());
        }
        for (int k = 0; k < 4; k++)
        {
            F got = run(c, upp[k]);
            if (!special::equal(got, k & 1 ? v : u)) fail("%s reads as %s", upp[k], special::text(got).c_str());
        }
        for (Code* x : h) projectm_eval_code_destroy(x);
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(gm);
        st_trace();
        st_state(i);
    };
    add(sv);
}
}
MODE(C11) { c11::jobs(); }

// =============================================================================
// Histories over two contexts (C14, C16, C15)
namespace hist {
// configuration: buffer of each context (0 built-in, 1 and 2 own), registers (0 built-in, 1 and 2 own)
static const int confs[][4] = {{0, 0, 0, 0}, {0, 1, 0, 1}, {1, 1, 0, 0}, {1, 1, 1, 1}, {1, 2, 1, 1}, {0, 0, 1, 2}, {1, 2, 0, 0}, {1, 0, 0, 2}, {1, 2, 1, 2}, {0, 1, 1, 1}, {1, 1, 1, 2}, {1, 1, 0, 1}};
enum { NCONF = 12 };
struct MCtx { bool alive; F a, b; F m3, m2; };
struct Real { Ctx* c; F* pa; Code* h; bool hdead; };
static const char* mixer = "a=a+1;b=b+2;reg05=reg05+3;megabuf(3)=megabuf(3)+5;131073[]+=6;gmem[9]=gmem[9]+7;gmegabuf(65536)+=8;a+b*8+reg05*64";
static const char* reader = "a*1e0+b*1e2";
static const char* stored = "a=a+3;gmem[9]=gmem[9]*2+a;reg99=reg05+a;megabuf(3)=gmem[9]";
static const char* broken = "a=50;reg05=60;gmem[9]=70;q=1;sin(2,3);)";
static F regs[2][100];
static projectm_eval_mem_buffer gm[2];
struct Mod { F reg5, reg99; };
static Code* cc(Ctx* c, const char* t) { st_transitions(); return projectm_eval_code_compile(c, t); }
static F once(Ctx* c, const char* t)
{
    Code* h = cc(c, t);
    if (!h) fail("%s does not compile", t);
    F r = projectm_eval_code_execute(h);
    projectm_eval_code_destroy(h);
    lock_idle("a call");
    return r;
}
static const char* opname[] = {"run the mixer", "compile the stored program", "execute the stored program", "destroy its handle", "reset_variables", "free_memory", "destroy", "destroy and create", "failing compilation", "host writes a"};
enum { PER = 10, NOPS = 2 * PER + 1 };
struct G { F g9, g65536; };
// values: compare with the model; ledger: compare with the memory in use before
static void run(int conf, uint64_t ops, int depth, bool values, bool ledger)
{
    const int* cf = confs[conf];
    Ledger base = led;
    memset(regs, 0, sizeof regs);
    Mod mr[3];           // register arrays: 0 built-in
    memset(mr, 0, sizeof mr);
    G mg[3];
    memset(mg, 0, sizeof mg);
    for (auto& g : gm) g = projectm_eval_memory_buffer_create();
    MCtx mc[2];
    memset(mc, 0, sizeof mc);
    Real rc[2];
    memset(rc, 0, sizeof rc);
    std::string log = strf("contexts on buffers %d,%d (0: built-in) and registers %d,%d | ", cf[0], cf[1], cf[2], cf[3]);
    note_str(log);
    bool orphan = false;
    auto create = [&](int k) {
        rc[k].c = projectm_eval_context_create(cf[k] ? gm[cf[k] - 1] : nullptr, cf[2 + k] ? &regs[cf[2 + k] - 1] : nullptr);
        if (!rc[k].c) fail("creating a context fails");
        rc[k].pa = projectm_eval_context_register_variable(rc[k].c, "A");
        mc[k] = MCtx{true, 0, 0, 0, 0};
        if (projectm_eval_get_error(rc[k].c, nullptr, nullptr)) fail("a new context reports an error");
    };
    create(0);
    create(1);
    // the built-in registers cannot be cleared by the API: set them to 0 by a program
    for (int k = 0; k < 2; k++) if (!cf[2 + k]) once(rc[k].c, "reg05=0;reg99=0");
    bool bad = false;
    for (int d = 0; d < depth && !bad; d++)
    {
        int o = ops % NOPS;
        ops /= NOPS;
        if (o == 2 * PER)
        {
            for (int k = 0; k < 2; k++) if (mc[k].alive && cf[k] == 0) bad = true;
            if (bad) break;
            log += "global_destroy | ";
            note_str(log);
            projectm_eval_memory_global_destroy();
            mg[0] = G{0, 0};
            lock_idle("destroying the global buffer");
            continue;
        }
        int k = o / PER;
        o %= PER;
        if (!mc[k].alive && o != 7 && o != 3) { bad = true; break; }
        log += strf("context %d: %s | ", k, opname[o]);
        note_str(log);
        MCtx& m = mc[k];
        G& g = mg[cf[k]];
        Mod& r = mr[cf[2 + k]];
        switch (o)
        {
        case 0:
        {
            F v = once(rc[k].c, mixer);
            m.a += 1; m.b += 2; r.reg5 += 3; m.m3 += 5; m.m2 += 6; g.g9 += 7; g.g65536 += 8;
            if (values && v != m.a + m.b * 8 + r.reg5 * 64) fail("yields %s, expected %s", show(v).c_str(), show(m.a + m.b * 8 + r.reg5 * 64).c_str());
            break;
        }
        case 1:
            if (rc[k].h) projectm_eval_code_destroy(rc[k].h);
            rc[k].hdead = false;
            rc[k].h = cc(rc[k].c, stored);
            if (!rc[k].h) fail("does not compile");
            break;
        case 2:
        {
            if (!rc[k].h || rc[k].hdead) { bad = true; break; }
            F v = projectm_eval_code_execute(rc[k].h);
            m.a += 3; g.g9 = g.g9 * 2 + m.a; r.reg99 = r.reg5 + m.a; m.m3 = g.g9;
            if (values && v != m.m3) fail("yields %s, expected %s", show(v).c_str(), show(m.m3).c_str());
            break;
        }
        case 3:
            if (!rc[k].h) { bad = true; break; }
            projectm_eval_code_destroy(rc[k].h);
            rc[k].h = nullptr;
            break;
        case 4: projectm_eval_context_reset_variables(rc[k].c); m.a = m.b = 0; break;
        case 5: projectm_eval_context_free_memory(rc[k].c); m.m3 = m.m2 = 0; break;
        case 6: projectm_eval_context_destroy(rc[k].c); rc[k].c = nullptr; m.alive = false; rc[k].hdead = true; break;
        case 7:
            if (m.alive) projectm_eval_context_destroy(rc[k].c);
            rc[k].hdead = true;
            create(k);
            break;
        case 8:
            if (cc(rc[k].c, broken)) fail("invalid text is accepted");
            if (!projectm_eval_get_error(rc[k].c, nullptr, nullptr)) fail("no error is reported");
            break;
        case 9: *rc[k].pa = 20; m.a = 20; break;
        }
        if (bad) break;
        lock_idle("a call");
        st_transitions();
        if (values)
            for (int q = 0; q < 2; q++)
            {
                if (mc[q].alive && *rc[q].pa != mc[q].a) fail("a of context %d is %s, expected %s", q, show(*rc[q].pa).c_str(), show(mc[q].a).c_str());
                if (regs[q][5] != mr[1 + q].reg5 || regs[q][99] != mr[1 + q].reg99) fail("register array %d is wrong", q + 1);
            }
    }
    if (bad) st_skip();
    else if (values)
    {
        for (int k = 0; k < 2; k++)
        {
            if (!mc[k].alive) continue;
            static const char* what[] = {"a", "b", "megabuf(3)", "megabuf(131073)", "gmem[9]", "gmem[65536]", "reg05", "reg99", "q"};
            F want[] = {mc[k].a, mc[k].b, mc[k].m3, mc[k].m2, mg[cf[k]].g9, mg[cf[k]].g65536, mr[cf[2 + k]].reg5, mr[cf[2 + k]].reg99, 0};
            for (int x = 0; x < 9; x++)
            {
                F v = once(rc[k].c, what[x]);
                if (v != want[x]) { note_str(log); fail("finally %s of context %d is %s, expected %s", what[x], k, show(v).c_str(), show(want[x]).c_str()); }
            }
            st_state(hash_bytes(want, sizeof want));
        }
        // a context created now sees exactly what it shares
        for (int k = 0; k < 2; k++)
        {
            Ctx* c = projectm_eval_context_create(cf[k] ? gm[cf[k] - 1] : nullptr, cf[2 + k] ? &regs[cf[2 + k] - 1] : nullptr);
            F v = once(c, "a+b+megabuf(3)+megabuf(131073)"), w = once(c, "gmem[9]+gmem[65536]*256+reg05*65536");
            note_str(log);
            if (v != 0) fail("a new context does not start empty");
            if (w != mg[cf[k]].g9 + mg[cf[k]].g65536 * 256 + mr[cf[2 + k]].reg5 * 65536) fail("a new context does not see what it shares with context %d", k);
            projectm_eval_context_destroy(c);
        }
        st_trace();
        st_nontrivial();
        st_sample(log);
    }
    else { st_trace(); st_nontrivial(); st_sample(log); st_state(led.live - base.live); }
    // end: everything is destroyed, in the order of the history's parity
    int first = (conf + depth) & 1;
    log += strf("then everything is destroyed (order %d)", (int)((conf + depth) % 3));
    note_str(log);
    auto killh = [&]() { for (int k = 0; k < 2; k++) if (rc[k].h) { projectm_eval_code_destroy(rc[k].h); rc[k].h = nullptr; } };
    if ((conf + depth) % 3 == 0) killh();
    for (int k = 0; k < 2; k++) { int q = first ? 1 - k : k; if (rc[q].c) projectm_eval_context_destroy(rc[q].c); if ((conf + depth) % 3 == 1 && k == 0) killh(); }
    for (auto& g : gm) projectm_eval_memory_buffer_destroy(g);
    killh();
    projectm_eval_memory_global_destroy();
    lock_idle("a call");
    if (ledger && (led.live != base.live || led.bytes != base.bytes)) fail("%lld blocks (%lld bytes) remain allocated", (long long)(led.live - base.live), (long long)(led.bytes - base.bytes));
}
static void jobs(int D, bool values, bool ledger, int nconf)
{
    for (int d = values ? D : 1; d <= D; d++)
    {
        uint64_t per = 1;
        for (int k = 0; k < d; k++) per *= NOPS;
        Job j;
        j.name = strf("contexts%d", d);
        j.count = per * nconf;
        j.run = [=](uint64_t i) { run(int(i % nconf), i / nconf, d, values, ledger); };
        add(j);
        if (values && d <= lim(2, 3, 0)) add_reused(j);
    }
}
// Two contexts hold values; a third one, sharing with the first, comes, does something private and goes.
static void visitors(int D)
{
    static const char* vop[] = {"register a", "register reg05", "run '1'", "run ''", "failing compilation", "reset_variables", "free_memory", "run a=9;megabuf(3)=9;131073[]=9", "compile a=5;gmem[9]=6;reg05=7 without executing it", "register q", "read everything", "create and destroy a buffer", "create and destroy a context of its own"};
    enum { NV = 13 };
    for (int d = 0; d <= D; d++)
    {
        uint64_t per = 1;
        for (int k = 0; k < d; k++) per *= NV;
        Job j;
        j.name = strf("visitor%d", d);
        j.count = per * NCONF * 2;
        j.run = [=](uint64_t i) {
            const int* cf = confs[i % NCONF];
            i /= NCONF;
            int populate = i & 1;   // the visitor is there before or comes after
            i >>= 1;
            memset(regs, 0, sizeof regs);
            for (auto& g : gm) g = projectm_eval_memory_buffer_create();
            std::string log = strf("contexts on buffers %d,%d (0: built-in) and registers %d,%d, the visitor like the first | ", cf[0], cf[1], cf[2], cf[3]);
            note_str(log);
            Ctx *c[2], *v = nullptr;
            F* pa[2];
            auto mk = [&](int k) { return projectm_eval_context_create(cf[k] ? gm[cf[k] - 1] : nullptr, cf[2 + k] ? &regs[cf[2 + k] - 1] : nullptr); };
            if (populate) v = mk(0);
            static const char* what[] = {"a", "b", "megabuf(3)", "megabuf(131073)", "gmem[9]", "gmem[65536]", "reg05", "reg99", "q"};
            F want[2][9];
            for (int k = 0; k < 2; k++)
            {
                c[k] = mk(k);
                pa[k] = projectm_eval_context_register_variable(c[k], "a");
                if (!cf[2 + k]) once(c[k], "reg05=0;reg99=0");
            }
            for (int k = 0; k < 2; k++) once(c[k], "a=11;b=12;megabuf(3)=13;megabuf(131073)=14;gmem[9]=15;gmem[65536]=16;reg05=17;reg99=18");
            for (int k = 0; k < 2; k++) for (int x = 0; x < 9; x++) want[k][x] = once(c[k], what[x]);
            if (!populate) v = mk(0);
            if (!v) fail("creating a context fails");
            for (int k = 0; k < d; k++)
            {
                int o = i % NV;
                i /= NV;
                log += std::string(vop[o]) + " | ";
                note_str(log);
                st_transitions();
                switch (o)
                {
                case 0: projectm_eval_context_register_variable(v, "a"); break;
                case 1: projectm_eval_context_register_variable(v, "reg05"); break;
                case 2: once(v, "1"); break;
                case 3: once(v, ""); break;
                case 4: if (cc(v, broken)) fail("invalid text is accepted"); break;
                case 5: projectm_eval_context_reset_variables(v); break;
                case 6: projectm_eval_context_free_memory(v); break;
                case 7: once(v, "a=9;megabuf(3)=9;131073[]=9"); break;
                case 8: projectm_eval_code_destroy(cc(v, "a=5;gmem[9]=6;reg05=7")); break;
                case 9: projectm_eval_context_register_variable(v, "q"); break;
                case 10: once(v, "a+b+megabuf(3)+megabuf(131073)+gmem[9]+gmem[65536]+reg05+reg99+q"); break;
                case 11: projectm_eval_memory_buffer_destroy(projectm_eval_memory_buffer_create()); break;
                case 12:
                {
                    F r[100];
                    projectm_eval_mem_buffer b = projectm_eval_memory_buffer_create();
                    Ctx* x = projectm_eval_context_create(b, &r);
                    once(x, "gmem[9]=3;reg05=4;megabuf(3)=5");
                    projectm_eval_context_destroy(x);
                    projectm_eval_memory_buffer_destroy(b);
                }
                }
                lock_idle("a call");
            }
            projectm_eval_context_destroy(v);
            log += "the visitor is destroyed";
            note_str(log);
            for (int k = 0; k < 2; k++)
            {
                if (*pa[k] != want[k][0]) fail("a of context %d is %s, expected %s", k, show(*pa[k]).c_str(), show(want[k][0]).c_str());
                for (int x = 0; x < 9; x++)
                {
                    F r = once(c[k], what[x]);
                    if (r != want[k][x]) { note_str(log); fail("%s of context %d is %s, expected %s", what[x], k, show(r).c_str(), show(want[k][x]).c_str()); }
                }
            }
            st_trace();
            st_nontrivial();
            st_state(hash_bytes(want, sizeof want));
            st_sample(log);
            for (auto x : c) projectm_eval_context_destroy(x);
            for (auto& g : gm) projectm_eval_memory_buffer_destroy(g);
            projectm_eval_memory_global_destroy();
        };
        add(j);
    }
}

// Values are forgotten and kept whatever they are.
static void specials()
{
    enum { S = special::N };
    static const int at[] = {0, 1, 65535, 65536, 8388607};
    Job j;
    j.name = "special";
    j.count = S * S * 7 * 2;
    j.chunk = 28;
    j.hang_cpu = 100;
    j.run = [](uint64_t i) {
        int a = int(i % S), b = int(i / S % S), how = int(i / S / S % 7), store = int(i / S / S / 7);
        static const char* hows[] = {"context_reset_variables", "context_free_memory", "context_destroy", "memory_global_destroy", "destroying another buffer", "all variables reset in an own program, then context_reset_variables", "context_free_memory twice"};
        note("variables and slots with %s beside such with %s, stored %s, then %s", special::text(special::value[a]).c_str(), special::text(special::value[b]).c_str(), store ? "through pointers" : "by programs", hows[how]);
        static F rg[3][100];
        memset(rg, 0, sizeof rg);
        for (auto& g : gm) g = projectm_eval_memory_buffer_create();
        Ctx* c[3] = {projectm_eval_context_create(gm[0], &rg[0]), projectm_eval_context_create(gm[0], &rg[0]), projectm_eval_context_create(nullptr, &rg[2])};
        Code *w[3], *r[3], *set[3], *glo[3];
        F *pi[3], *pv[3], *px[3], *py[3], *pz[3], *pr[3];
        auto open = [&](int k) {
            if (!c[k]) fail("a context cannot be created");
            pi[k] = projectm_eval_context_register_variable(c[k], "i");
            pv[k] = projectm_eval_context_register_variable(c[k], "v");
            set[k] = projectm_eval_code_compile(c[k], "y=v;x=y;reg07=x");
            w[k] = projectm_eval_code_compile(c[k], "megabuf(i)=v");
            r[k] = projectm_eval_code_compile(c[k], "megabuf(i)");
            glo[k] = projectm_eval_code_compile(c[k], "gmegabuf(i)");
            px[k] = projectm_eval_context_register_variable(c[k], "x");
            py[k] = projectm_eval_context_register_variable(c[k], "Y");
            pz[k] = projectm_eval_context_register_variable(c[k], "z");
            pr[k] = projectm_eval_context_register_variable(c[k], "reg07");
            if (!set[k] || !w[k] || !r[k] || !glo[k]) fail("a program does not compile");
        };
        auto drop = [&](int k) {
            for (Code* h : {set[k], w[k], r[k], glo[k]}) projectm_eval_code_destroy(h);
            projectm_eval_context_destroy(c[k]);
            c[k] = nullptr;
        };
        for (int k = 0; k < 3; k++) open(k);
        F val[3] = {special::value[a], special::value[b], special::value[(b + 1) % S]};
        F slot[3][5], g[2][5], reg[2];
        for (int k = 0; k < 3; k++)
        {
            *pv[k] = val[k];
            if (store) *px[k] = *py[k] = *pr[k] = val[k];
            else projectm_eval_code_execute(set[k]);
            *pz[k] = val[k];
            reg[k / 2] = val[k];
            for (int q = 0; q < 5; q++)
            {
                *pi[k] = F(at[q]);
                *pv[k] = slot[k][q] = special::value[((k ? b : a) + q * (k + 1)) % S];
                projectm_eval_code_execute(w[k]);
                if (k == 1) continue;
                *pv[k] = g[k / 2][q] = special::value[(a + b + q) % S];
                Code* h = projectm_eval_code_compile(c[k], "gmegabuf(i)=v");
                projectm_eval_code_execute(h);
                projectm_eval_code_destroy(h);
            }
            *pv[k] = val[k];
        }
        F x[3] = {val[0], val[1], val[2]};
        switch (how)
        {
        case 0: projectm_eval_context_reset_variables(c[0]); x[0] = 0; break;
        case 1: case 6:
            projectm_eval_context_free_memory(c[0]);
            if (how == 6) projectm_eval_context_free_memory(c[0]);
            for (auto& s : slot[0]) s = 0;
            break;
        case 2: drop(0); break;
        case 3:
            drop(2);
            projectm_eval_memory_global_destroy();
            c[2] = projectm_eval_context_create(nullptr, &rg[2]);
            open(2);
            x[2] = 0;
            for (auto& s : slot[2]) s = 0;
            for (auto& s : g[1]) s = 0;
            break;
        case 4: projectm_eval_memory_buffer_destroy(gm[1]); gm[1] = nullptr; break;
        case 5:
        {
            Code* h = projectm_eval_code_compile(c[0], "x=0;y=-0;z=0;v=0;i=0");
            projectm_eval_code_execute(h);
            projectm_eval_code_destroy(h);
            *pz[0] = val[0];
            projectm_eval_context_reset_variables(c[0]);
            x[0] = 0;
            break;
        }
        }
        for (int k = 0; k < 3; k++)
        {
            if (!c[k]) continue;
            auto is = [&](const char* what, F got, F want) { if (!special::equal(got, want)) fail("context %d: %s is %s, expected %s", k, what, special::text(got).c_str(), special::text(want).c_str()); };
            is("x", *px[k], x[k]);
            is("y", *py[k], x[k]);
            is("z", *pz[k], x[k]);
            is("v", *pv[k], x[k]);
            is("reg07", *pr[k], reg[k / 2]);
            for (int q = 0; q < 5; q++)
            {
                *pi[k] = F(at[q]);
                F v = projectm_eval_code_execute(r[k]);
                if (!special::equal(v, slot[k][q])) fail("context %d: megabuf(%d) is %s, expected %s", k, at[q], special::text(v).c_str(), special::text(slot[k][q]).c_str());
                v = projectm_eval_code_execute(glo[k]);
                if (!special::equal(v, g[k / 2][q])) fail("context %d: gmegabuf(%d) is %s, expected %s", k, at[q], special::text(v).c_str(), special::text(g[k / 2][q]).c_str());
            }
            drop(k);
        }
        for (auto& x : gm) if (x) projectm_eval_memory_buffer_destroy(x);
        projectm_eval_memory_global_destroy();
        st_trace();
        st_transitions(12);
        st_state(i);
        st_nontrivial();
    };
    add(j);
}

// Every block of both kinds of buffers: given up by one, kept by the others.
static void blocks()
{
    Job j;
    j.name = "blocks";
    j.count = 128 * 5 * 3;
    j.chunk = 16;
    j.run = [](uint64_t i) {
        int blk = int(i % 128), how = int(i / 128 % 5), fill = int(i / 640);
        static const char* hows[] = {"context_free_memory", "reset_variables", "destroy", "memory_global_destroy", "destroying another buffer"};
        note("%s block %d written, then %s", fill == 0 ? "only" : fill == 1 ? "all blocks up to" : "all blocks from", blk, hows[how]);
        for (auto& g : gm) g = projectm_eval_memory_buffer_create();
        Ctx* c[3];
        c[0] = projectm_eval_context_create(nullptr, &regs[0]);
        c[1] = projectm_eval_context_create(nullptr, &regs[0]);
        c[2] = projectm_eval_context_create(gm[0], &regs[1]);
        std::vector<int> bl;
        for (int b = 0; b < 128; b++) if (fill == 0 ? b == blk : fill == 1 ? b <= blk && (b == blk || b % 16 == 0) : b >= blk && (b == blk || b % 16 == 15)) bl.push_back(b);
        Code *w[3], *r[3];
        F *pi[3], *pv[3];
        for (int k = 0; k < 3; k++)
        {
            pi[k] = projectm_eval_context_register_variable(c[k], "i");
            pv[k] = projectm_eval_context_register_variable(c[k], "v");
            w[k] = projectm_eval_code_compile(c[k], "megabuf(i)=v;gmegabuf(i)=v*2");
            r[k] = projectm_eval_code_compile(c[k], "megabuf(i)*1000000+gmegabuf(i)");
            if (!w[k] || !r[k]) fail("does not compile");
        }
        auto slot = [](int b) { return F(b * 65536 + (b * 7919) % 65536); };
        for (int k = 0; k < 3; k++) for (int b : bl) { *pi[k] = slot(b); *pv[k] = F(k + 1 + b); projectm_eval_code_execute(w[k]); }
        int dead = -1;
        switch (how)
        {
        case 0: projectm_eval_context_free_memory(c[0]); break;
        case 1: projectm_eval_context_reset_variables(c[0]); break;
        case 2: projectm_eval_code_destroy(w[0]); projectm_eval_code_destroy(r[0]); projectm_eval_context_destroy(c[0]); dead = 0; break;
        case 3:
            for (int k = 0; k < 2; k++) { projectm_eval_code_destroy(w[k]); projectm_eval_code_destroy(r[k]); projectm_eval_context_destroy(c[k]); }
            projectm_eval_memory_global_destroy();
            for (int k = 0; k < 2; k++)
            {
                c[k] = projectm_eval_context_create(nullptr, &regs[0]);
                pi[k] = projectm_eval_context_register_variable(c[k], "i");
                w[k] = projectm_eval_code_compile(c[k], "1");
                r[k] = projectm_eval_code_compile(c[k], "megabuf(i)*1000000+gmegabuf(i)");
            }
            break;
        case 4: projectm_eval_memory_buffer_destroy(gm[1]); gm[1] = nullptr; break;
        }
        for (int k = 0; k < 3; k++)
        {
            if (k == dead) continue;
            for (int b : bl)
            {
                F loc = F(k + 1 + b), glo = k == 2 ? F(2 * (k + 1 + b)) : F(2 * (2 + b));
                if ((how == 0 && k == 0) || (how == 3 && k < 2)) loc = 0;
                if (how == 3 && k < 2) glo = 0;
                *pi[k] = slot(b);
                F v = projectm_eval_code_execute(r[k]);
                if (v != loc * 1000000 + glo) fail("context %d, block %d: megabuf and gmegabuf read as %s, expected %s", k, b, show(v).c_str(), show(loc * 1000000 + glo).c_str());
            }
        }
        for (int k = 0; k < 3; k++) if (k != dead) { projectm_eval_code_destroy(w[k]); projectm_eval_code_destroy(r[k]); projectm_eval_context_destroy(c[k]); }
        for (auto& g : gm) if (g) projectm_eval_memory_buffer_destroy(g);
        projectm_eval_memory_global_destroy();
        st_trace();
        st_state(i);
        st_nontrivial();
    };
    add(j);
    // whole blocks filled and released, then every slot of a block that is used next is read
    Job f;
    f.name = "whole-blocks";
    f.count = 16 * 5 * 4;
    f.chunk = 4;
    f.hang_cpu = 60;
    f.run = [](uint64_t i) {
        static const int bs[] = {0, 1, 2, 7, 15, 16, 31, 32, 63, 64, 65, 96, 100, 125, 126, 127};
        int blk = bs[i % 16], how = int(i / 16 % 5), next = int(i / 80);
        if (safety && blk > 1) return;
        int then = next == 0 ? blk : next == 1 ? (blk + 1) % 128 : next == 2 ? 0 : 127;
        static const char* hows[] = {"context_free_memory", "destroying the context", "memory_global_destroy", "destroying the buffer", "nothing released"};
        note("block %d of megabuf and gmegabuf filled, %s, all of block %d read by new code", blk, hows[how], then);
        projectm_eval_mem_buffer g = projectm_eval_memory_buffer_create();
        F(*rg)[100] = &regs[0];
        bool own = how == 3 || how == 0;
        Ctx* c = projectm_eval_context_create(own ? g : nullptr, rg);
        once(c, strf("memset(%d,5,65536);i=%d;loop(65536,gmegabuf(i)=7;i=i+1)", blk * 65536, blk * 65536).c_str());
        bool loc = how != 4, glo = how == 2 || how == 3;
        if (how == 0) projectm_eval_context_free_memory(c);
        if (how == 1 || how == 2 || how == 3)
        {
            projectm_eval_context_destroy(c);
            if (how == 2) projectm_eval_memory_global_destroy();
            if (how == 3) { projectm_eval_memory_buffer_destroy(g); g = projectm_eval_memory_buffer_create(); }
            c = projectm_eval_context_create(own ? g : nullptr, rg);
        }
        F n = once(c, strf("i=%d;n=0;k=0;loop(65536,n=n+(megabuf(i)!=0);k=k+(gmegabuf(i)!=0);i=i+1);n+k*100000", then * 65536).c_str());
        F want = F((!loc && then == blk ? 65536 : 0) + (!glo && then == blk ? 65536. * 100000 : 0));
        if (n != want) fail("%s slots hold a value (k + l * 100000: of megabuf and gmegabuf), expected %s", show(n).c_str(), show(want).c_str());
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(g);
        projectm_eval_memory_global_destroy();
        st_trace();
        st_state(i);
        st_nontrivial();
    };
    add(f);
    add_reused(f);
    // many contexts at once, created, used, reset and destroyed in several orders
    static const int sizes[] = {3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
    Job m;
    m.name = "crowd";
    m.count = 21 * 4 * 3;
    m.chunk = 2;
    m.hang_cpu = 120;
    m.run = [](uint64_t i) {
        int n = sizes[i % 21], od = int(i / 21 % 4), share = int(i / 84);
        if (safety && n > 40) return;
        note("%d contexts with %s, destruction order %d", n, share == 0 ? "the built-in buffer and registers" : share == 1 ? "four buffers and two register arrays in turn" : "one buffer and register array", od);
        projectm_eval_mem_buffer b[4];
        static F rg[2][100];
        memset(rg, 0, sizeof rg);
        for (auto& x : b) x = projectm_eval_memory_buffer_create();
        std::vector<Ctx*> c(n);
        std::vector<F*> p(n);
        std::vector<F> loc(n), g(5), reg(3);
        auto bi = [&](int k) { return share == 0 ? 4 : share == 1 ? k % 4 : 0; };
        auto ri = [&](int k) { return share == 0 ? 2 : share == 1 ? k / 2 % 2 : 0; };
        for (int k = 0; k < n; k++)
        {
            c[k] = projectm_eval_context_create(share == 0 ? nullptr : b[bi(k)], share == 0 ? nullptr : &rg[ri(k)]);
            if (!c[k]) fail("context %d cannot be created", k);
            if (share == 0 && k == 0) once(c[k], "reg05=0;");
            p[k] = projectm_eval_context_register_variable(c[k], "a");
            *p[k] = F(k + 1);
        }
        auto order = [&](int o, int k) { return o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k & 1 ? n - 1 - k / 2 : k / 2) : (k < n / 2 ? k + (n - n / 2) : k - n / 2); };
        for (int k = 0; k < n; k++)
        {
            int q = order((od + 1) % 4, k);
            F v = once(c[q], "megabuf(1)=a*3;gmem[5]=gmem[5]+a;reg05+=a;a+gmem[5]*1000+reg05*100000000");
            loc[q] = F(3 * (q + 1));
            g[bi(q)] += F(q + 1);
            reg[ri(q)] += F(q + 1);
            if (v != F(q + 1) + g[bi(q)] * 1000 + reg[ri(q)] * F(100000000)) fail("context %d yields %s", q, show(v).c_str());
        }
        std::vector<char> gone(n);
        auto check = [&](int q) {
            F v = once(c[q], "a+megabuf(1)*1000+gmem[5]*1000000");
            F w = *p[q] + loc[q] * 1000 + g[bi(q)] * 1000000;
            if (v != w) fail("context %d yields %s, expected %s", q, show(v).c_str(), show(w).c_str());
        };
        for (int k = 0; k < n; k++)
        {
            int q = order(od, k), z = (q + n / 2) % n;
            if (k % 5 == 1) { projectm_eval_context_free_memory(c[q]); loc[q] = 0; check(q); }
            if (k % 5 == 2) { projectm_eval_context_reset_variables(c[q]); if (*p[q] != 0) fail("a of context %d is not reset", q); check(q); }
            if (*p[q] != 0 && *p[q] != F(q + 1)) fail("a of context %d is %s", q, show(*p[q]).c_str());
            check(q);
            projectm_eval_context_destroy(c[q]);
            gone[q] = 1;
            if (!gone[z]) check(z);
        }
        for (auto& x : b) projectm_eval_memory_buffer_destroy(x);
        projectm_eval_memory_global_destroy();
        st_trace();
        st_transitions(n * 4);
        st_state(i);
        st_nontrivial();
    };
    add(m);
}
}
// Contexts coming and going at the same addresses: whatever was looked up, compiled or stored through
// the one that went, and whatever other calls come in between, the next one starts afresh.
namespace reuse {
static const char* opname[] = {"register a", "register A", "register b", "register q", "run a=a+5;q=a*3;b+=1", "run 1", "compile a=2;b=3 without executing it", "failing compilation of a=(7", "failing compilation of sin(b", "run a*7", "reset_variables", "register a in the other context", "run a=9;b=8 in the other context", "megabuf(3)+=1"};
enum { NOPS = 14 };
static void jobs()
{
    int D = lim(3, 4, 2);
    static const int kinds = 3;
    for (int d = 1; d <= D; d++)
    {
        Job j;
        j.name = strf("reuse%d", d);
        j.count = kinds;
        for (int k = 0; k < d; k++) j.count *= NOPS;
        if (d > 1) j.count *= NOPS;   // the first operation of the next context
        j.init = []() { recycle = true; };
        j.run = [=](uint64_t i) {
            int kind = i % kinds;
            i /= kinds;
            static const char* kn[] = {"an empty context", "a context kept from the start", "another context created in between"};
            std::string log = strf("beside %s | create | ", kn[kind]);
            Ctx* other = projectm_eval_context_create(nullptr, nullptr);
            if (!other) fail("creating a context fails");
            F* po = projectm_eval_context_register_variable(other, "a");
            *po = 77;
            Ctx* last = nullptr;
            for (int life = 0; life < 3; life++)
            {
                Ctx* c = projectm_eval_context_create(nullptr, nullptr);
                if (!c) fail("creating a context fails");
                st_nontrivial(c == last);
                last = c;
                const char* names[] = {"a", "b", "q"};
                F *at[3] = {nullptr, nullptr, nullptr}, val[3] = {0, 0, 0}, slot = 0;
                auto reg = [&](int n, bool upper) {
                    F* p = projectm_eval_context_register_variable(c, upper ? "A" : names[n]);
                    if (!p) fail("registering a variable fails");
                    if (at[n] && at[n] != p) fail("%s moves", names[n]);
                    at[n] = p;
                    for (int k = 0; k < 3; k++) if (k != n && at[k] == p) fail("%s and %s are the same variable", names[k], names[n]);
                    if (p == po) fail("%s is the variable of the other context", names[n]);
                    if (*p != val[n]) fail("%s is %s, expected %s", names[n], show(*p).c_str(), show(val[n]).c_str());
                };
                uint64_t r = i;
                int len = life == 0 ? d : life == 1 ? (d > 1 ? d + 1 : d) : d;
                for (int k = 0; k < len; k++)
                {
                    int o;
                    if (life == 1 && d > 1)
                    { // one operation of its own, then the same ones
                        if (k == 0) { uint64_t t = i; for (int q = 0; q < d; q++) t /= NOPS; o = t % NOPS; }
                        else { o = r % NOPS; r /= NOPS; }
                    }
                    else { o = r % NOPS; r /= NOPS; }
                    log += std::string(opname[o]) + " | ";
                    note_str(log);
                    st_transitions();
                    auto go = [&](const char* t, F want) {
                        Code* h = projectm_eval_code_compile(c, t);
                        if (!h) fail("%s does not compile", t);
                        F v = projectm_eval_code_execute(h);
                        projectm_eval_code_destroy(h);
                        if (v != want) fail("%s yields %s, expected %s", t, show(v).c_str(), show(want).c_str());
                        if (projectm_eval_get_error(c, nullptr, nullptr)) fail("reports an error");
                    };
                    switch (o)
                    {
                    case 0: reg(0, false); break;
                    case 1: reg(0, true); break;
                    case 2: reg(1, false); break;
                    case 3: reg(2, false); break;
                    case 4: val[0] += 5; val[2] = val[0] * 3; val[1] += 1; go("a=a+5;q=a*3;b+=1", val[1]); break;
                    case 5: go("1", 1); break;
                    case 6: { Code* h = projectm_eval_code_compile(c, "a=2;b=3"); if (!h) fail("does not compile"); projectm_eval_code_destroy(h); break; }
                    case 7: if (projectm_eval_code_compile(c, "a=(7")) fail("is accepted"); break;
                    case 8: if (projectm_eval_code_compile(c, "sin(b")) fail("is accepted"); break;
                    case 9: go("a*7", val[0] * 7); break;
                    case 10: projectm_eval_context_reset_variables(c); for (auto& v : val) v = 0; break;
                    case 11: if (projectm_eval_context_register_variable(other, "a") != po) fail("a of the other context moves"); break;
                    case 12:
                    {
                        Code* h = projectm_eval_code_compile(other, "a=9;b=8");
                        projectm_eval_code_execute(h);
                        projectm_eval_code_destroy(h);
                        if (*po != 9) fail("a of the other context is %s", show(*po).c_str());
                        *po = 77;
                        break;
                    }
                    case 13: slot += 1; go("megabuf(3)+=1", slot); break;
                    }
                    for (int n = 0; n < 3; n++) if (at[n] && *at[n] != val[n]) fail("%s is %s, expected %s", names[n], show(*at[n]).c_str(), show(val[n]).c_str());
                    if (*po != 77) fail("a of the other context is %s", show(*po).c_str());
                }
                for (int n = 0; n < 3; n++) reg(n, false);
                Code* h = projectm_eval_code_compile(c, "a+b*100+q*10000+megabuf(3)*1000000");
                F v = projectm_eval_code_execute(h), w = val[0] + val[1] * 100 + val[2] * 10000 + slot * 1000000;
                projectm_eval_code_destroy(h);
                if (v != w) fail("finally %s instead of %s", show(v).c_str(), show(w).c_str());
                st_trace();
                st_state(hash_bytes(val, sizeof val, slot));
                projectm_eval_context_destroy(c);
                log += "destroy and create | ";
                if (kind == 1) { if (projectm_eval_context_register_variable(other, "b") == po) fail("b of the other context is its a"); }
                else if (kind == 2)
                {
                    Ctx* x = projectm_eval_context_create(nullptr, nullptr);
                    if (*projectm_eval_context_register_variable(x, "a") != 0) fail("a of a new context is not 0");
                    Code* h = projectm_eval_code_compile(x, "a=3;b=a");
                    projectm_eval_code_execute(h);
                    projectm_eval_code_destroy(h);
                    if (*po != 77) fail("a of the other context is changed by a third one");
                    projectm_eval_context_destroy(x);
                }
            }
            projectm_eval_context_destroy(other);
            projectm_eval_memory_global_destroy();
            lock_idle("a history");
        };
        add(j);
    }
}
}
MODE(C14)
{
    if (!safety) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20); }
    for (int d = 1; d <= 3; d++) hist::jobs(d, true, false, hist::NCONF);
    hist::jobs(lim(4, 5, 3), true, false, lim(3, 4, 12));
    hist::visitors(lim(3, 4, 2));
    hist::blocks();
    hist::specials();
    reuse::jobs();
}

// =============================================================================
// C16
namespace c16 {
static Ctx* c;
static projectm_eval_mem_buffer gm;
static F regs[100];
static void init()
{
    gm = projectm_eval_memory_buffer_create();
    c = projectm_eval_context_create(gm, &regs);
    for (auto n : {"a", "b"}) projectm_eval_context_register_variable(c, n);
    projectm_eval_code_destroy(projectm_eval_code_compile(c, "1"));
}
// Compiles (and destroys) a text twice: nothing but an error message may stay, and nothing more the second time.
static void text(const std::string& t, bool exec)
{
    note("text %s", quote(t).c_str());
    Ledger l[4];
    // an accepted program before: no error message is held
    l[0] = led;
    for (int k = 0; k < 2; k++)
    {
        Code* h = projectm_eval_code_compile(c, t.c_str());
        st_transitions();
        if (h) { if (exec) projectm_eval_code_execute(h); projectm_eval_code_destroy(h); }
        l[k + 1] = led;
        if (!h) st_nontrivial();
        int64_t more = led.live - l[0].live, bytes = led.bytes - l[0].bytes;
        if (h ? more != 0 : (more > 1 || bytes > 4096)) fail("compilation %d (%s) leaves %lld blocks (%lld bytes)", k + 1, h ? "accepted" : "rejected", (long long)more, (long long)bytes);
    }
    if (l[2].live != l[1].live || l[2].bytes != l[1].bytes) fail("the second compilation leaves other memory than the first");
    projectm_eval_code_destroy(projectm_eval_code_compile(c, "1"));
    if (led.live != l[0].live || led.bytes != l[0].bytes) fail("a successful compilation afterwards leaves %lld blocks (%lld bytes)", (long long)(led.live - l[0].live), (long long)(led.bytes - l[0].bytes));
    st_trace();
    st_state(hash_bytes(&l[1].live, 8) * 2 + (l[1].live != l[0].live));
}
static const char* alphabet[] = {"a","2","sin","if","exec2","gmem","(",")","[","]",",",";","=","-","?",":","@"};
enum { NA = sizeof alphabet / sizeof *alphabet };
static void jobs()
{
    int n = lim(5, 6, 4);
    uint64_t tot = 0, pw = 1;
    for (int l = 0; l <= n; l++) { tot += pw; pw *= NA; }
    Job j;
    j.name = "strings";
    j.init = init;
    j.count = tot;
    j.run = [](uint64_t i) {
        int l = 0;
        uint64_t pw = 1;
        while (i >= pw) { i -= pw; pw *= NA; l++; }
        std::string t;
        for (int k = 0; k < l; k++) { pw /= NA; if (k) t += ' '; t += alphabet[i / pw]; i %= pw; }
        text(t, false);
    };
    add(j);
    // every prefix of realistic programs, and every single token of them replaced, removed or added
    static const char* seeds[] = {"x=sin(4);y=if(a>b,a,b)*2", "megabuf(3)=4;gmem[5]=6;3[]+gmem[2+3]", "loop(3,a=a+b;b=if(a,b,2))", "n=3;while(exec2(n=n-1,n))", "x=(a=2;b=3;a*b);exec3(a,(b;2),-a)", "a+=b-=2;a*=3;b/=2;c|=7;c&=3;a^=2;b%=4", "memset(0,1,4);memcpy(2,0,4);3[2]=4", "a=b&&(b=0)||!(a=7)", "max(min(a,b),a%b)^(2;3;4)", "rand(sqr(4))+$PI+$xff+$'c'", "(1;2;(3;4;());());();a"};
    static const char* ins[] = {"a", "1", "sin", "if(", "(", ")", "[", "]", ",", ";", "=", "+", "?", ":", "@", "$", "/*", "//", "gmem", ")))", "sin(1,2)", "sin()"};
    static const int NI = sizeof ins / sizeof *ins, NS = sizeof seeds / sizeof *seeds;
    Job e;
    e.name = "edits";
    e.init = init;
    static std::vector<std::pair<int, int>> pos;
    for (int s = 0; s < NS; s++) for (size_t k = 0; k <= strlen(seeds[s]); k++) pos.push_back({s, (int)k});
    e.count = pos.size() * (2 * NI + 3);
    e.run = [](uint64_t i) {
        auto p = pos[i % pos.size()];
        i /= pos.size();
        std::string t = seeds[p.first];
        if (i == 0) t = t.substr(0, p.second);
        else if (i == 1) t = t.substr(p.second);
        else if (i == 2) { if (p.second < (int)t.size()) t.erase(p.second, 1); }
        else if (i < 3 + NI) t.insert(p.second, ins[i - 3]);
        else if (p.second < (int)t.size()) t.replace(p.second, 1, ins[i - 3 - NI]);
        // variables introduced by the text stay: introduce them before
        for (auto v : {"x", "y", "n", "c"}) projectm_eval_context_register_variable(c, v);
        bool newvar = false;
        {
            static ref::Vars vars;
            static ref::Program prog;
            if (vars.names.empty()) for (auto v : {"a", "b", "x", "y", "n", "c"}) vars.get(v);
            size_t n = vars.names.size();
            ref::lex(t, prog.lx);
            for (auto& k : prog.lx.toks) if (k.t == ref::T_VAR) vars.get(k.name);
            newvar = vars.names.size() != n;
            for (size_t q = n; q < vars.names.size(); q++) projectm_eval_context_register_variable(c, vars.names[q].c_str());
        }
        (void)newvar;
        text(t, false);
    };
    add(e);
    // long lists and deep nesting, accepted and rejected
    Job b;
    b.name = "sizes";
    b.init = init;
    b.count = 9 * 12 * 2;
    b.chunk = 2;
    b.run = [](uint64_t i) {
        bool broken = i & 1;
        i >>= 1;
        static const int sz[] = {1, 2, 3, 10, 50, 150, 190, 199, 1000, 5000, 9000, 20000};
        int n = sz[i % 12];
        i /= 12;
        std::string t;
        auto rep = [&](const char* s, int k) { std::string o; for (int q = 0; q < k; q++) o += s; return o; };
        switch (i)
        {
        case 0: t = rep("a;", n) + "1"; break;
        case 1: t = rep("(", n) + "a" + rep(")", n); break;
        case 2: t = rep("sin(", n) + "a" + rep(")", n); break;
        case 3: t = rep("1+", n) + "a"; break;
        case 4: t = rep("-", n) + "a"; break;
        case 5: t = rep("a=", n) + "b"; break;
        case 6: t = rep("if(a,", n) + "b" + rep(",2)", n); break;
        case 7: t = "a" + rep("[1]", n); break;
        case 8: t = rep("a^", n) + "(" + rep("1;", n) + "2)"; break;
        }
        if (broken) t += ";)";
        text(t, false);
    };
    add(b);
    static std::vector<fam::Fam> fams = fam::families();
    static const size_t fz[] = {1, 2, 30, 64, 100, 128, 198, 257, 400, 1030, 5000, 11000, 20000};
    Job fm;
    fm.name = "families";
    fm.init = init;
    fm.count = fams.size() * (sizeof fz / sizeof *fz);
    fm.chunk = 12;
    fm.hang_cpu = 100;
    fm.run = [](uint64_t i) {
        const fam::Fam& f = fams[i % fams.size()];
        size_t z = fz[i / fams.size()];
        if (z > f.max) return;
        if (std::string(f.name) == "variables" && z > 1100) return;
        if (z > 1100 && i % 3 && !thorough) return;
        std::string t = f.f(z);
        // variables introduced by the text stay
        if (Code* h = projectm_eval_code_compile(c, t.c_str())) { projectm_eval_code_execute(h); projectm_eval_code_destroy(h); }
        projectm_eval_code_destroy(projectm_eval_code_compile(c, "1"));
        text(t, true);
    };
    add(fm);
    // the storage of every block of both kinds of buffers is released by each way of giving it up
    Job k;
    k.name = "blocks";
    k.count = 128 * 6;
    k.chunk = 32;
    k.run = [](uint64_t i) {
        int blk = int(i % 128), how = int(i / 128);
        static const char* hows[] = {"context_free_memory", "context_destroy", "buffer_destroy", "memory_global_destroy", "free_memory with all blocks below", "buffer_destroy with all blocks below"};
        note("block %d given up by %s", blk, hows[how]);
        Ledger l0 = led;
        bool global = how == 2 || how == 3 || how == 5;
        projectm_eval_mem_buffer m = how == 2 || how == 5 ? projectm_eval_memory_buffer_create() : nullptr;
        Ctx* x = projectm_eval_context_create(m, nullptr);
        if (!x) fail("no context");
        Ledger l1 = led;
        for (int cyc = 0; cyc < (how == 0 || how == 4 ? 3 : 1); cyc++)
        {
            for (int b = how >= 4 ? 0 : blk; b <= blk; b += how >= 4 ? std::max(1, blk) : 1)
            {
                std::string t = strf("%s(%d)=3", global ? "gmegabuf" : "megabuf", b * 65536 + (b * 7919) % 65536);
                Code* h = projectm_eval_code_compile(x, t.c_str());
                if (!h) fail("%s is rejected", t.c_str());
                projectm_eval_code_execute(h);
                projectm_eval_code_destroy(h);
            }
            if (led.live <= l1.live) fail("no storage was allocated");
            if (how == 0 || how == 4)
            {
                projectm_eval_context_free_memory(x);
                if (led.live != l1.live || led.bytes != l1.bytes) fail("%lld blocks (%lld bytes) are still held afterwards", (long long)(led.live - l1.live), (long long)(led.bytes - l1.bytes));
            }
        }
        projectm_eval_context_destroy(x);
        if (m) projectm_eval_memory_buffer_destroy(m);
        projectm_eval_memory_global_destroy();
        if (led.live != l0.live || led.bytes != l0.bytes) fail("%lld blocks (%lld bytes) are still held at the end", (long long)(led.live - l0.live), (long long)(led.bytes - l0.bytes));
        st_trace();
        st_state(i);
        st_nontrivial();
    };
    add(k);
    // whole lives of contexts with programs and names of any size
    Job lv;
    lv.name = "lives";
    lv.count = fams.size() * (sizeof fz / sizeof *fz);
    lv.chunk = 12;
    lv.hang_cpu = 100;
    lv.run = [](uint64_t i) {
        const fam::Fam& f = fams[i % fams.size()];
        size_t z = fz[i / fams.size()];
        if (z > f.max || (z > 1100 && i % 3 != 1 && !thorough)) return;
        std::string t = f.f(z);
        note("context with family %s, size %zu: %s", f.name, z, quote(t).c_str());
        Ledger l0 = led;
        Ctx* x = projectm_eval_context_create(nullptr, nullptr);
        if (!x) fail("no context");
        projectm_eval_context_register_variable(x, std::string(z + 1, 'n').c_str());
        for (int k = 0; k < 2; k++)
        {
            Code* h = projectm_eval_code_compile(x, t.c_str());
            st_transitions();
            if (h && i % 2) projectm_eval_code_execute(h);
            projectm_eval_code_destroy(h);
            st_nontrivial(h != nullptr);
        }
        projectm_eval_context_destroy(x);
        projectm_eval_memory_global_destroy();
        if (led.live != l0.live || led.bytes != l0.bytes) fail("%lld blocks (%lld bytes) are still held at the end", (long long)(led.live - l0.live), (long long)(led.bytes - l0.bytes));
        st_trace();
        st_state(i);
    };
    add(lv);
    // repeated cycles never increase the memory held
    static const char* cyc[] = {"a=a+1;megabuf(5)=gmem[6]", "x=(1;2;3);if(a,b,x)", "sin(1,2)", "a=b=;", "1[]=2;65536[]=3;gmem[131072]=1", "loop(3,a=a+1)", "memset(0,2,70000)", "))", "rand(3)+rand(4)"};
    Job y;
    y.name = "cycles";
    y.init = init;
    y.count = 9 * 9 * 8;
    y.run = [](uint64_t i) {
        const char* t[2] = {cyc[i % 9], cyc[i / 9 % 9]};
        int extra = int(i / 81);
        projectm_eval_context_register_variable(c, "x");
        note("cycle of %s and %s, with %s%s%s", t[0], t[1], extra & 1 ? "reset " : "", extra & 2 ? "free_memory " : "", extra & 4 ? "failing allocations " : "");
        Ledger l;
        static const int reps = safety ? 6 : thorough ? 2000 : 200;
        for (int k = 0; k < reps; k++)
        {
            Code* h[2];
            for (int q = 0; q < 2; q++) h[q] = projectm_eval_code_compile(c, t[q]);
            if (extra & 4 && k % 2) fault_on(0, ~0ull, big_size);
            for (int q = 0; q < 4; q++) if (h[q & 1]) projectm_eval_code_execute(h[q & 1]);
            fault_off();
            if (extra & 1) projectm_eval_context_reset_variables(c);
            if (extra & 2) projectm_eval_context_free_memory(c);
            for (int q = 0; q < 2; q++) projectm_eval_code_destroy(h[q ^ (k & 1)]);
            if (k == 2) l = led;
            if (k > 2 && k % 2 == 0 && (led.live > l.live || led.bytes > l.bytes)) fail("after %d repetitions %lld blocks (%lld bytes) more are held than after 3", k + 1, (long long)(led.live - l.live), (long long)(led.bytes - l.bytes));
        }
        projectm_eval_context_free_memory(c);
        st_trace();
        st_state(i);
    };
    add(y);
}
}
MODE(C16)
{
    if (!safety) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20); }
    hist::jobs(lim(4, 5, 3), false, true, lim(4, 12, 12));
    c16::jobs();
}
