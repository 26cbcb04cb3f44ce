// C17: contexts sharing a gmegabuf in several threads. Every schedule of the
// real code within a preemption bound, compared with the set of outcomes of
// all interleavings of the individual memory accesses of a model.
#include "sched.hpp"
#include "ref.hpp"
#include <algorithm>
#include <memory>
#include <random>
#include <set>
using namespace vf;
using sched::Scenario;

namespace {
// ---- model: threads of loads and stores ----------------------------------------
struct Micro { char k; int cell; double v; };      // 'l' load cell, '=' acc=v, '+' acc+=v, '*' acc*=v, 's' store cell
typedef std::vector<Micro> Prog;
struct Cells {
    std::vector<std::string> name;
    int of(const std::string& n)
    {
        for (size_t i = 0; i < name.size(); i++) if (name[i] == n) return i;
        name.push_back(n);
        return name.size() - 1;
    }
};
typedef std::vector<double> Out;
std::set<Out> outcomes(const std::vector<Prog>& th, const Out& init)
{
    struct St { std::vector<int> pc; std::vector<double> acc; Out m; bool operator<(const St& o) const { return std::tie(pc, acc, m) < std::tie(o.pc, o.acc, o.m); } };
    std::set<St> seen;
    std::vector<St> stack;
    std::set<Out> res;
    stack.push_back({std::vector<int>(th.size()), std::vector<double>(th.size()), init});
    while (!stack.empty())
    {
        St s = stack.back();
        stack.pop_back();
        if (!seen.insert(s).second) continue;
        bool any = false;
        for (size_t t = 0; t < th.size(); t++)
        {
            if (s.pc[t] >= (int)th[t].size()) continue;
            any = true;
            St n = s;
            const Micro& m = th[t][n.pc[t]++];
            switch (m.k)
            {
            case 'l': n.acc[t] = n.m[m.cell]; break;
            case '=': n.acc[t] = m.v; break;
            case '+': n.acc[t] += m.v; break;
            case '*': n.acc[t] *= m.v; break;
            case 's': n.m[m.cell] = n.acc[t]; break;
            }
            stack.push_back(n);
        }
        if (!any) res.insert(s.m);
    }
    return res;
}
// ---- operations of a thread's program -------------------------------------------
// cells: "gN" slot N of gmegabuf, "rN" register N, "xN" variable of the thread
std::string text_of(const std::string& c)
{
    if (c[0] == 'g') return "gmegabuf(" + c.substr(1) + ")";
    if (c[0] == 'G') return "gmem[" + c.substr(1) + "]";
    if (c[0] == 'r') return strf("reg%02d", atoi(c.c_str() + 1));
    if (c[0] == 'm') return "megabuf(" + c.substr(1) + ")";
    return c;
}
struct Op { char k; std::string a, b; double v; };  // 'w' a=v, 'i' a+=v, 'x' a*=v, 'c' a=b
Op W(std::string a, double v) { return {'w', a, "", v}; }
Op I(std::string a, double v) { return {'i', a, "", v}; }
Op X(std::string a, double v) { return {'x', a, "", v}; }
Op C(std::string a, std::string b) { return {'c', a, b, 0}; }
typedef std::vector<Op> Ops;
std::string text(const Ops& o)
{
    std::string s;
    for (auto& p : o)
    {
        s += text_of(p.a);
        if (p.k == 'w') s += strf("=%g", p.v);
        else if (p.k == 'i') s += strf("+=%g", p.v);
        else if (p.k == 'x') s += strf("*=%g", p.v);
        else s += "=" + text_of(p.b);
        s += ";";
    }
    return s;
}
// cells of a thread's own are told apart by its number
std::string own(std::string c, int t) { if (c[0] == 'G') c[0] = 'g'; return c[0] == 'x' || c[0] == 'm' ? strf("%d:", t) + c : c; }
Prog model(const Ops& o, int t, Cells& cs)
{
    Prog p;
    for (auto& q : o)
    {
        int a = cs.of(own(q.a, t));
        if (q.k == 'w') { p.push_back({'=', 0, q.v}); p.push_back({'s', a, 0}); }
        else if (q.k == 'i' || q.k == 'x') { p.push_back({'l', a, 0}); p.push_back({q.k == 'i' ? '+' : '*', 0, q.v}); p.push_back({'s', a, 0}); }
        else { p.push_back({'l', cs.of(own(q.b, t)), 0}); p.push_back({'s', a, 0}); }
    }
    return p;
}

// ---- scenarios --------------------------------------------------------------------
enum Where { SHARED, BUILTIN };        // which gmegabuf
enum Life {
    ALL_MAIN,      // contexts, code and destruction in the main thread
    CODE,          // threads compile, execute and destroy code
    CTX,           // threads create their context, compile and execute
    CTX_FULL,      // ... and destroy code and context
};
struct Thr { Ops ops; Life life; int repeat = 1; bool freemem = false; bool reset = false; std::vector<Ops> more; };
struct Spec { std::string name; Where where; std::vector<Thr> thr; Ops init; int pq, pt; bool regs_shared = false; };

struct World {
    projectm_eval_mem_buffer gm = nullptr;
    F (*regs)[100] = nullptr;
    Ctx* main = nullptr;                   // observes
    Ctx* c[sched::MAXT] = {};
    Code* code[sched::MAXT][3] = {};
    bool own_ctx[sched::MAXT] = {};
};

Scenario make(const Spec& sp, std::set<Out>* allowed_out)
{
    struct D { Spec sp; World w, w0; Cells cs; std::set<Out> allowed; std::set<Out>* seen; std::vector<std::vector<std::string>> txt; };
    auto d = std::make_shared<D>();
    d->sp = sp;
    d->seen = allowed_out;
    std::vector<Prog> progs;
    for (size_t t = 0; t < sp.thr.size(); t++)
    {
        Prog p;
        for (int r = 0; r < sp.thr[t].repeat; r++)
        {
            Prog q = model(sp.thr[t].ops, t, d->cs);
            p.insert(p.end(), q.begin(), q.end());
            for (auto& m : sp.thr[t].more) { Prog z = model(m, t, d->cs); p.insert(p.end(), z.begin(), z.end()); }
        }
        progs.push_back(p);
        d->txt.push_back({text(sp.thr[t].ops)});
        for (auto& m : sp.thr[t].more) d->txt.back().push_back(text(m));
    }
    for (auto& q : sp.init) d->cs.of(q.a);
    Out init(d->cs.name.size(), 0);
    for (auto& q : sp.init) init[d->cs.of(q.a)] = q.v;
    d->allowed = outcomes(progs, init);
    // variables of contexts that are destroyed within the thread can not be observed
    auto hidden = [d](const std::string& n) { int t = atoi(n.c_str()); return n.find(':') != std::string::npos && (d->sp.thr[t].life == CTX_FULL || (d->sp.thr[t].freemem && n[2] == 'm')); };
    std::set<Out> proj;
    for (Out o : d->allowed)
    {
        for (size_t i = 0; i < o.size(); i++) if (hidden(d->cs.name[i])) o[i] = 0;
        proj.insert(o);
    }
    d->allowed = proj;
    Scenario s;
    s.name = sp.name;
    s.setup = [d] {
        World& w = d->w;
        w = World();
        if (d->sp.where == SHARED) { w.gm = projectm_eval_memory_buffer_create(); if (!w.gm) hard_fail("no buffer"); }
        if (d->sp.regs_shared) w.regs = (F(*)[100])sched::arena_alloc(sizeof(F) * 100);
        bool all_inside = d->sp.where == BUILTIN;
        for (auto& t : d->sp.thr) all_inside &= t.life >= CTX;
        // with the built-in buffer and contexts created by the threads, the first creation races
        if (!all_inside || !d->sp.init.empty())
        {
            w.main = projectm_eval_context_create(w.gm, w.regs);
            if (!w.main) hard_fail("no context");
            if (!d->sp.init.empty())
            {
                Code* c = projectm_eval_code_compile(w.main, text(d->sp.init).c_str());
                projectm_eval_code_execute(c);
                projectm_eval_code_destroy(c);
            }
        }
        for (size_t t = 0; t < d->sp.thr.size(); t++)
        {
            const Thr& th = d->sp.thr[t];
            if (th.life >= CTX) continue;
            w.c[t] = projectm_eval_context_create(w.gm, w.regs);
            if (th.life == ALL_MAIN)
                for (size_t k = 0; k < d->txt[t].size(); k++)
                {
                    w.code[t][k] = projectm_eval_code_compile(w.c[t], d->txt[t][k].c_str());
                    if (!w.code[t][k]) hard_fail("%s does not compile", quote(d->txt[t][k]).c_str());
                }
        }
        d->w0 = w;
    };
    s.reset = [d] { d->w = d->w0; };
    for (size_t t = 0; t < sp.thr.size(); t++)
        s.threads.push_back([d, t] {
            World& w = d->w;
            const Thr& th = d->sp.thr[t];
            for (int r = 0; r < th.repeat; r++)
            {
                if (th.life >= CTX)
                {
                    if (!w.c[t]) w.c[t] = projectm_eval_context_create(w.gm, w.regs);
                    if (!w.c[t]) hard_fail("a context can not be created");
                }
                for (size_t k = 0; k < d->txt[t].size(); k++)
                {
                    if (th.life != ALL_MAIN) w.code[t][k] = projectm_eval_code_compile(w.c[t], d->txt[t][k].c_str());
                    if (!w.code[t][k]) hard_fail("%s does not compile", quote(d->txt[t][k]).c_str());
                    projectm_eval_code_execute(w.code[t][k]);
                    if (th.life == CODE || th.life == CTX_FULL) { projectm_eval_code_destroy(w.code[t][k]); w.code[t][k] = nullptr; }
                }
                if (th.freemem) projectm_eval_context_free_memory(w.c[t]);
                if (th.life == CTX_FULL) { projectm_eval_context_destroy(w.c[t]); w.c[t] = nullptr; }
            }
        });
    s.check = [d, hidden] {
        World& w = d->w;
        // every context sees the same buffer
        Ctx* fresh = projectm_eval_context_create(w.gm, w.regs);
        std::vector<Ctx*> views = {fresh};
        if (w.main) views.push_back(w.main);
        for (auto c : w.c) if (c) views.push_back(c);
        Out got(d->cs.name.size(), 0);
        for (size_t i = 0; i < got.size(); i++)
        {
            const std::string& n = d->cs.name[i];
            size_t colon = n.find(':');
            if (colon != std::string::npos)
            {
                if (hidden(n)) continue;
                std::string v = n.substr(colon + 1);
                Code* c = projectm_eval_code_compile(w.c[atoi(n.c_str())], text_of(v).c_str());
                got[i] = projectm_eval_code_execute(c);
                projectm_eval_code_destroy(c);
                continue;
            }
            for (size_t k = 0; k < views.size(); k++)
            {
                Code* c = projectm_eval_code_compile(views[k], text_of(n).c_str());
                double v = projectm_eval_code_execute(c);
                projectm_eval_code_destroy(c);
                if (k == 0) got[i] = v;
                else if (got[i] != v) hard_fail("after all threads returned, %s is %g in one context and %g in another one", text_of(n).c_str(), got[i], v);
            }
        }
        auto list = [d](const Out& o) { std::string s; for (size_t i = 0; i < o.size(); i++) s += strf("%s%s=%g", i ? " " : "", d->cs.name[i].c_str(), o[i]); return s; };
        if (!d->allowed.count(got))
        {
            std::string al;
            int n = 0;
            for (auto& o : d->allowed) if (n++ < 6) al += "\n    " + list(o);
            std::string pr;
            for (auto& t : d->txt) { pr += "\n   "; for (auto& x : t) pr += " " + x; }
            hard_fail("threads%s\n  end with %s; the sequential interleavings yield only%s", pr.c_str(), list(got).c_str(), al.c_str());
        }
        st_trace();
        d->seen->insert(got);
        st_state(hash_bytes(got.data(), got.size() * sizeof(double), std::hash<std::string>()(d->sp.name)));
        for (auto& cs : w.code) for (auto c : cs) if (c) projectm_eval_code_destroy(c);
        for (auto c : w.c) if (c) projectm_eval_context_destroy(c);
        if (w.main) projectm_eval_context_destroy(w.main);
        projectm_eval_context_destroy(fresh);
        if (w.gm) projectm_eval_memory_buffer_destroy(w.gm);
        projectm_eval_memory_global_destroy();
    };
    return s;
}

std::vector<Spec> specs()
{
    std::vector<Spec> v;
    auto two = [&](const char* n, Ops a, Ops b, int pq, int pt, Ops init = {}) {
        v.push_back({std::string(n) + ".shared", SHARED, {{a, ALL_MAIN}, {b, ALL_MAIN}}, init, pq, pt});
        v.push_back({std::string(n) + ".builtin", BUILTIN, {{a, ALL_MAIN}, {b, ALL_MAIN}}, init, pq, pt});
    };
    // one access each: all schedules
    two("write-same-block", {W("g0", 1)}, {W("g1", 2)}, -1, -1);
    two("write-same-slot", {W("g7", 1)}, {W("g7", 2)}, -1, -1);
    two("write-read", {W("g9", 1)}, {C("x0", "g9")}, -1, -1);
    two("write-other-read", {W("g9", 1)}, {C("x0", "g10")}, -1, -1);
    two("read-read", {C("x0", "g3")}, {C("x0", "g4")}, -1, -1);
    two("add-add", {I("g5", 1)}, {I("g5", 10)}, -1, -1);
    two("add-mul", {I("g5", 1)}, {X("g5", 10)}, -1, -1, {W("g5", 3)});
    two("copy-across", {C("g1", "g70000")}, {C("g70001", "g0")}, 4, -1, {W("g0", 5), W("g70000", 6)});
    two("copy-swap", {C("g1", "g70000")}, {C("g70000", "g1")}, 4, -1, {W("g1", 5), W("g70000", 6)});
    two("last-block", {W("g8388607", 1)}, {W("g8323072", 2)}, -1, -1);
    two("block-border", {W("g65535", 1), W("g65536", 2)}, {W("g65536", 3), W("g65535", 4)}, 4, 6);
    two("two-blocks", {W("g0", 1), W("g65537", 2)}, {W("g65538", 3), W("g1", 4)}, 4, 6);
    two("message", {W("g100", 42), W("g101", 1)}, {C("x0", "g101"), C("x1", "g100")}, 4, 7);
    two("message-blocks", {W("g100", 42), W("g131072", 1)}, {C("x0", "g131072"), C("x1", "g100")}, 4, 6);
    two("store-buffer", {W("g0", 1), C("x0", "g1")}, {W("g1", 1), C("x0", "g0")}, 4, 7);
    two("bracket", {W("G4", 1), I("g5", 2)}, {W("g6", 3), I("G5", 4)}, 4, 6);
    two("many", {I("g0", 1), I("g1", 2), I("g65536", 4)}, {I("g65536", 8), I("g1", 16), I("g0", 32)}, 2, 4);
    two("registers", {I("r5", 1), C("g1", "r6")}, {I("r5", 10), C("r6", "g0")}, 4, 5, {W("g0", 3)});
    two("private", {W("m0", 1), C("x0", "m0")}, {W("m0", 2), C("x0", "m0")}, 4, 5);
    two("private-mixed", {W("m0", 1), C("g0", "m0"), C("x0", "g1")}, {W("m0", 2), C("g1", "m0"), C("x0", "g0")}, 4, 4);
    v.push_back({"registers-shared", SHARED, {{{I("r5", 1), C("g1", "r6")}, ALL_MAIN}, {{I("r5", 10), C("r6", "g0")}, ALL_MAIN}}, {W("g0", 3)}, 4, 5, true});
    for (Where w : {SHARED, BUILTIN})
    {
        std::string sfx = w == SHARED ? ".shared" : ".builtin";
        v.push_back({"three-writers" + sfx, w, {{{W("g0", 1)}, ALL_MAIN}, {{W("g1", 2)}, ALL_MAIN}, {{W("g2", 3)}, ALL_MAIN}}, {}, 4, 6});
        v.push_back({"three-adders" + sfx, w, {{{I("g0", 1)}, ALL_MAIN}, {{I("g0", 10)}, ALL_MAIN}, {{I("g1", 100)}, ALL_MAIN}}, {}, 2, 5});
        v.push_back({"four-writers" + sfx, w, {{{W("g0", 1)}, ALL_MAIN}, {{W("g1", 2)}, ALL_MAIN}, {{W("g65536", 3)}, ALL_MAIN}, {{W("g65537", 4)}, ALL_MAIN}}, {}, 2, 3});
        // private memory is released while another context accesses the shared buffer
        Thr a{{W("m0", 1), W("g0", 1), C("x0", "g1")}, ALL_MAIN};
        a.freemem = true;
        v.push_back({"free-memory" + sfx, w, {a, {{W("g1", 2), C("x0", "g0")}, ALL_MAIN}}, {}, 4, 5});
        a.repeat = 2;
        Thr b{{W("m5", 3), I("g5", 1)}, ALL_MAIN};
        b.freemem = true;
        b.repeat = 2;
        v.push_back({"free-memory-twice" + sfx, w, {a, b}, {}, 2, 4});
        // repeated executions
        Thr rep{{I("g0", 1)}, ALL_MAIN};
        rep.repeat = 2;
        Thr rep2{{I("g1", 1), C("x0", "g0")}, ALL_MAIN};
        rep2.repeat = 2;
        v.push_back({"repeat" + sfx, w, {rep, rep2}, {}, 4, 5});
        // code compiled and destroyed by the threads
        v.push_back({"compile" + sfx, w, {{{W("g0", 1), C("x0", "g1")}, CODE}, {{W("g1", 2), C("x0", "g0")}, CODE}}, {}, 4, 6});
        v.push_back({"compile-execute" + sfx, w, {{{I("g0", 1)}, CODE}, {{I("g0", 2)}, ALL_MAIN}}, {}, 4, 6});
        // contexts created (and destroyed) by the threads
        for (Life l : {CTX, CTX_FULL})
        {
            std::string n = l == CTX ? "create" : "create-destroy";
            v.push_back({n + sfx, w, {{{W("g0", 1)}, l}, {{W("g1", 2)}, l}}, {}, 4, 6});
            v.push_back({n + "-rw" + sfx, w, {{{I("g0", 1), C("x0", "g1")}, l}, {{I("g1", 2), C("x0", "g0")}, l}}, {}, 4, 5});
            v.push_back({n + "-nothing" + sfx, w, {{{W("x0", 1)}, l}, {{W("x0", 2)}, l}}, {}, -1, -1});
            v.push_back({n + "-three" + sfx, w, {{{W("g0", 1)}, l}, {{W("g1", 2)}, l}, {{C("x0", "g1")}, l}}, {}, 2, 3});
            v.push_back({n + "-execute" + sfx, w, {{{W("g0", 1)}, l}, {{W("g1", 2), C("x0", "g0")}, ALL_MAIN}}, {}, 4, 6});
            v.push_back({n + "-initialised" + sfx, w, {{{I("g0", 1)}, l}, {{I("g0", 2)}, l}}, {W("g0", 100)}, 4, 6});
        }
        Thr again{{I("g0", 1)}, CTX_FULL};
        again.repeat = 2;
        v.push_back({"create-destroy-twice" + sfx, w, {again, {{I("g1", 1)}, CTX}}, {}, 4, 5});
        v.push_back({"create-destroy-twice2" + sfx, w, {again, again}, {}, 2, 4});
        v.push_back({"mixed" + sfx, w, {{{W("g0", 1)}, CTX}, {{W("g1", 2)}, CTX_FULL}}, {}, 4, 6});
    }
    return v;
}

// ---- rand() -------------------------------------------------------------------------
struct RandSpec { std::string name; int threads, draws, warm; int pq, pt; };
Scenario make_rand(const RandSpec& rs)
{
    struct D { RandSpec rs; Ctx* c[4]; Code* code[4]; std::vector<double> got[4]; std::set<double> valid; };
    auto d = std::make_shared<D>();
    d->rs = rs;
    std::mt19937 g(0x4141f00du);
    for (int i = 0; i < rs.warm; i++) g();
    for (int i = 0; i < rs.threads * rs.draws; i++) d->valid.insert(g() * (1.0 / 4294967295.0) * 1000);
    Scenario s;
    s.name = rs.name;
    s.setup = [d] {
        for (int t = 0; t < d->rs.threads; t++)
        {
            d->c[t] = projectm_eval_context_create(nullptr, nullptr);
            d->code[t] = projectm_eval_code_compile(d->c[t], "rand(1000)");
        }
        for (int i = 0; i < d->rs.warm; i++) projectm_eval_code_execute(d->code[0]);
    };
    s.reset = [d] { for (auto& g : d->got) g.clear(); };
    for (int t = 0; t < rs.threads; t++)
        s.threads.push_back([d, t] { for (int i = 0; i < d->rs.draws; i++) d->got[t].push_back(projectm_eval_code_execute(d->code[t])); });
    s.check = [d] {
        uint64_t h = 1;
        for (int t = 0; t < d->rs.threads; t++)
            for (double v : d->got[t])
            {
                h = hash_bytes(&v, sizeof v, h);
                bool ok = false;
                for (double w : d->valid) ok |= fabs(v - w) < 1e-6;
                if (!ok) hard_fail("rand(1000) yields %.17g in thread %d, none of the next %d numbers of the generator", v, t, (int)d->valid.size());
            }
        // the generator goes on with its own numbers
        std::mt19937 g(0x4141f00du);
        std::set<double> later;
        int total = d->rs.warm + d->rs.threads * d->rs.draws;
        for (int i = 0; i < total + 3; i++) { double v = g() * (1.0 / 4294967295.0) * 1000; if (i >= d->rs.warm) later.insert(v); }
        for (int k = 0; k < 3; k++)
        {
            double v = projectm_eval_code_execute(d->code[0]);
            bool ok = false;
            for (double w : later) ok |= fabs(v - w) < 1e-6;
            if (!ok) hard_fail("after all threads returned, rand(1000) yields %.17g, not one of the generator", v);
        }
        st_trace();
        st_state(h);
        for (int t = 0; t < d->rs.threads; t++) { projectm_eval_code_destroy(d->code[t]); projectm_eval_context_destroy(d->c[t]); }
        projectm_eval_memory_global_destroy();
    };
    return s;
}

// ---- independent programs ---------------------------------------------------------
// Two threads run programs sharing nothing: results, variables and errors are those of a run alone.
std::vector<std::string> menu()
{
    std::vector<std::string> m;
    for (int i = 0; i < ref::nbuiltins; i++)
    {
        const auto& b = ref::builtins[i];
        std::string n = b.name;
        if (n == "rand") continue;
        // computed operands: nothing is folded, and every operand passes through a temporary
        std::string args[] = {"a+0.5", "a*0.25", "a-0.75"};
        if (n == "loop") { args[0] = "a*0+3"; args[1] = "q=q+a"; }
        if (n == "while") args[0] = "(q=q+1)<5";
        if (n == "memcpy") { args[0] = "a*0+20"; args[1] = "a*0+10"; args[2] = "a*0+5"; }
        if (n == "memset") { args[0] = "a*0+10"; args[1] = "a*2"; args[2] = "a*0+7"; }
        std::string c = n + "(";
        for (int k = 0; k < b.arity; k++)
        {
            std::string a = args[k];
            if (b.arity == 0) break;
            if (k == 0 && (n == "_set" || n == "assign" || (n.size() > 2 && n.compare(n.size() - 2, 2, "op") == 0))) a = "a";
            c += (k ? "," : "") + a;
        }
        std::string pre, post;
        if (n == "memcpy") pre = "megabuf(11)=a+5;";
        if (n == "memcpy" || n == "memset") post = ";x=megabuf(12)+megabuf(21)*10";
        m.push_back("a=a+1.5;" + pre + "v=" + c + ");w=v+a;megabuf(3)+=v" + post);
    }
    for (const char* t : {"a=a+1;b=a*2-3/4;c=a>b?a:b;d=!a&&b||c", "a=1;a+=2;a-=3;a*=4;a/=5;a%=6;a^=7;a|=8;a&=9", "x=$PI*$E+$PHI+0x1F+1.5e;y=x<1;z=x==y", "megabuf(5)=a;b=megabuf(5)+[7];a[3]=4", "loop(5,a+=1;b=b*2+a)",
                          "while(a+=1;a<6)", "if(a,b=1,c=2);exec2(a=3,b=4);exec3(a,b,c)", "longvariablename1=2;longvariablename2=longvariablename1", "// comment\na=1;/* c */b=2;", "-a+-b-!c", "((((((a))))))"})
        m.push_back(t);
    return m;
}
std::vector<std::string> bad_menu() { return {"a=", "1+(2", "foo(1)", "sin(1,2)", "a b", "\n\n  *", "min(1)", "#", "b=3;\nc=undefinedfunction(3,4)", "if(1,2"}; }

Scenario make_pair(const std::string& a, const std::string& b, bool compile_inside)
{
    struct R { bool ok; double res; std::string err; int line, col; std::vector<double> vars; bool operator==(const R& o) const { return ok == o.ok && (same((F)res, (F)o.res)) && err == o.err && line == o.line && col == o.col && vars.size() == o.vars.size(); } };
    struct D { std::string txt[2]; bool in; Ctx* c[2]; Code* code[2]; R got[2], want[2]; projectm_eval_mem_buffer gm; };
    auto d = std::make_shared<D>();
    d->txt[0] = a;
    d->txt[1] = b;
    d->in = compile_inside;
    static const char* vars[] = {"a", "b", "c", "d", "q", "v", "w", "x", "y", "z", "longvariablename1", "longvariablename2"};
    auto run = [d](int t) {
        if (d->in) d->code[t] = projectm_eval_code_compile(d->c[t], d->txt[t].c_str());
        R r;
        r.ok = d->code[t] != nullptr;
        r.res = r.ok ? projectm_eval_code_execute(d->code[t]) : 0;
        r.line = r.col = -1;
        const char* e = projectm_eval_get_error(d->c[t], &r.line, &r.col);
        r.err = e ? e : "(none)";
        return r;
    };
    auto watch = [d](int t) { std::vector<double> v; for (auto n : vars) v.push_back(*projectm_eval_context_register_variable(d->c[t], n)); return v; };
    auto open = [d] {
        d->gm = projectm_eval_memory_buffer_create();
        for (int t = 0; t < 2; t++)
        {
            d->c[t] = projectm_eval_context_create(d->gm, nullptr);
            *projectm_eval_context_register_variable(d->c[t], "a") = 0.5 + t;
            d->code[t] = d->in ? nullptr : projectm_eval_code_compile(d->c[t], d->txt[t].c_str());
        }
    };
    auto close = [d] {
        for (int t = 0; t < 2; t++) { projectm_eval_code_destroy(d->code[t]); projectm_eval_context_destroy(d->c[t]); }
        projectm_eval_memory_buffer_destroy(d->gm);
    };
    Scenario s;
    s.name = quote(a) + " || " + quote(b);
    s.setup = [d, run, watch, open, close] {
        open();
        for (int t = 0; t < 2; t++) { d->want[t] = run(t); d->want[t].vars = watch(t); }
        close();
        open();
    };
    s.reset = [d] { if (d->in) d->code[0] = d->code[1] = nullptr; };
    for (int t = 0; t < 2; t++) s.threads.push_back([d, run, t] { d->got[t] = run(t); });
    s.check = [d, watch, close] {
        for (int t = 0; t < 2; t++)
        {
            d->got[t].vars = watch(t);
            bool eq = d->got[t] == d->want[t];
            for (size_t i = 0; eq && i < d->got[t].vars.size(); i++) eq = same((F)d->got[t].vars[i], (F)d->want[t].vars[i]);
            if (!eq)
            {
                std::string dv;
                for (size_t i = 0; i < d->got[t].vars.size(); i++) if (!same((F)d->got[t].vars[i], (F)d->want[t].vars[i])) dv += strf(" %s=%.17g (alone: %.17g)", vars[i], d->got[t].vars[i], d->want[t].vars[i]);
                hard_fail("thread %d (%s): result %.17g error %s at %d:%d%s; alone: result %.17g error %s at %d:%d", t, quote(d->txt[t]).c_str(), d->got[t].res, d->got[t].err.c_str(), d->got[t].line, d->got[t].col, dv.c_str(), d->want[t].res, d->want[t].err.c_str(), d->want[t].line, d->want[t].col);
            }
        }
        st_trace();
        uint64_t h = std::hash<std::string>()(d->txt[0] + d->txt[1]);
        for (int t = 0; t < 2; t++) h = hash_bytes(d->got[t].vars.data(), d->got[t].vars.size() * sizeof(double), h);
        st_state(h);
        close();
    };
    return s;
}

// ---- API histories of threads with contexts of their own ------------------------------
// Each thread creates buffer and context, makes some calls and destroys everything;
// the answers are those of the same calls made alone.
enum { NOPS = 10 };
static const char* opname[NOPS] = {"register", "reset_variables", "free_memory", "run", "compile error", "execute", "create and destroy a context", "create and destroy a buffer", "compile, get_error", "register many"};
struct Own {
    Ctx* c = nullptr;
    projectm_eval_mem_buffer gm = nullptr;
    Code* h = nullptr;
    double* log = nullptr;
    int n = 0;
    void put(double v) { if (n < 200) log[n++] = v; }
    void put(const char* s) { put(s ? (double)(hash_bytes(s, strlen(s)) & 0xffffffffffffull) : -1); }
    void open(int t)
    {
        gm = projectm_eval_memory_buffer_create();
        c = projectm_eval_context_create(gm, nullptr);
        h = projectm_eval_code_compile(c, t ? "v=v*2+1;gmegabuf(70000)+=v;w=megabuf(1)+=v" : "v=v*3+2;gmegabuf(70000)+=v*4;w=megabuf(65536)+=v");
        put(gm && c && h);
    }
    void run(const char* text)
    {
        Code* k = projectm_eval_code_compile(c, text);
        put(k != nullptr);
        if (k) put(projectm_eval_code_execute(k));
        projectm_eval_code_destroy(k);
    }
    void error()
    {
        int l = -7, k = -7;
        put(projectm_eval_get_error(c, &l, &k));
        put(l);
        put(k);
    }
    void op(int o, int t)
    {
        switch (o)
        {
        case 0: { F* p = projectm_eval_context_register_variable(c, t ? "Other" : "Value"); put(*p); *p += t + 1; put(*projectm_eval_context_register_variable(c, t ? "OTHER" : "value")); break; }
        case 1: projectm_eval_context_reset_variables(c); put(*projectm_eval_context_register_variable(c, "v")); break;
        case 2: projectm_eval_context_free_memory(c); run("megabuf(1)+megabuf(65536)"); break;
        case 3: run(t ? "x=x+1.5;megabuf(1)=x*2;y=y+$PI;memset(2,x,4);memcpy(4,3,9);x+y+megabuf(5);" : "megabuf(65536)+=7.25;x=x*2+1;loop(3,y=y+x);memset(65533,y,9);memcpy(65530,65534,9);y+megabuf(65531)"); break;
        case 4: put(projectm_eval_code_compile(c, t ? "sin(1,2)" : "\n a=3;\n  b=*4") != nullptr); error(); break;
        case 5: put(projectm_eval_code_execute(h)); break;
        case 6: { Ctx* k = projectm_eval_context_create(gm, nullptr); put(k != nullptr); if (k) { put(*projectm_eval_context_register_variable(k, "v")); projectm_eval_context_destroy(k); } break; }
        case 7: { auto m = projectm_eval_memory_buffer_create(); put(m != nullptr); projectm_eval_memory_buffer_destroy(m); break; }
        case 8: { Code* k = projectm_eval_code_compile(c, t ? "// x\nq=12.5e3;" : "q=sqr(4)+$xff"); put(k != nullptr); error(); projectm_eval_code_destroy(k); break; }
        case 9: for (int k = 0; k < 8; k++) put(*projectm_eval_context_register_variable(c, strf("%s%d", t ? "g" : "n", k).c_str()) += k); break;
        }
    }
    void close()
    {
        for (auto n : {"v", "w", "x", "y", "q", "value", "other"}) put(*projectm_eval_context_register_variable(c, n));
        projectm_eval_code_destroy(h);
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(gm);
    }
};
Scenario make_calls(std::vector<std::vector<int>> ops)
{
    struct D { std::vector<std::vector<int>> ops; double got[3][200], want[3][200]; int ngot[3], nwant[3]; };
    auto d = std::make_shared<D>();
    d->ops = ops;
    auto run = [d](int t, double* log) { Own o; o.log = log; o.open(t & 1); for (int k : d->ops[t]) o.op(k, t & 1); o.close(); return o.n; };
    Scenario s;
    for (size_t t = 0; t < ops.size(); t++)
    {
        s.name += t ? " || " : "";
        for (int o : ops[t]) s.name += std::string(" ") + opname[o];
        s.threads.push_back([d, run, t] { d->ngot[t] = run(int(t), d->got[t]); });
    }
    s.setup = [d, run] { for (size_t t = 0; t < d->ops.size(); t++) d->nwant[t] = run(int(t), d->want[t]); };
    s.reset = [d] { for (auto& n : d->ngot) n = -1; };
    s.check = [d] {
        uint64_t h = 7;
        for (size_t t = 0; t < d->ops.size(); t++)
        {
            bool eq = d->ngot[t] == d->nwant[t];
            int k = 0;
            for (; eq && k < d->nwant[t]; k++) eq = same((F)d->got[t][k], (F)d->want[t][k]);
            if (!eq)
            {
                std::string l;
                for (int o : d->ops[t]) l += std::string(", ") + opname[o];
                hard_fail("thread %d (create%s, destroy): answer %d is %.17g, alone it is %.17g", (int)t, l.c_str(), k, d->got[t][k ? k - 1 : 0], d->want[t][k ? k - 1 : 0]);
            }
            h = hash_bytes(d->got[t], d->ngot[t] * sizeof(double), h);
        }
        st_trace();
        st_state(h);
    };
    return s;
}
static void calls()
{
    Job k;
    k.name = "calls";
    const uint64_t N2 = NOPS * NOPS;
    k.count = N2 * N2;
    k.hang_cpu = 300;
    k.run = [=](uint64_t i) {
        int a = int(i % N2), b = int(i / N2);
        Scenario s = make_calls({{a / NOPS, a % NOPS}, {b / NOPS, b % NOPS}});
        auto r = sched::explore(s, thorough ? 2 : 1, 20000);
        if (!r.complete) st_skip();
        st_nontrivial(r.schedules);
    };
    add(k);
    k.name = "calls-three";
    k.count = NOPS * NOPS * NOPS;
    k.run = [=](uint64_t i) {
        Scenario s = make_calls({{int(i % NOPS)}, {int(i / NOPS % NOPS)}, {int(i / NOPS / NOPS)}});
        auto r = sched::explore(s, thorough ? 2 : 1, 20000);
        st_nontrivial(r.schedules);
    };
    add(k);
}
static void independent()
{
    static std::vector<std::string> m = menu(), bm = bad_menu();
    static std::vector<std::string> all = m;
    all.insert(all.end(), bm.begin(), bm.end());
    Job k;
    k.name = "programs";
    k.count = m.size() * m.size();
    k.hang_cpu = 300;
    k.run = [](uint64_t i) {
        Scenario s = make_pair(m[i / m.size()], m[i % m.size()], false);
        auto r = sched::explore(s, thorough ? 3 : 2, 20000);
        st_nontrivial(r.schedules);
    };
    add(k);
    k.name = "compile";
    k.count = all.size() * all.size();
    k.run = [](uint64_t i) {
        Scenario s = make_pair(all[i / all.size()], all[i % all.size()], true);
        auto r = sched::explore(s, thorough ? 2 : 1, 20000);
        st_nontrivial(r.schedules);
    };
    add(k);
    // long tokens, deep nesting, long lists
    auto rep = [](const char* t, int n) { std::string o; while (n--) o += t; return o; };
    auto texts = [rep](const char* a, const char* f, const char* d) {
        std::string A = a, F = f, D = d;
        return std::vector<std::string>{
            rep(a, 300) + "=5;" + rep(a, 300) + "+1", rep(f, 300) + "(1)", rep(d, 200) + "." + rep("3", 200), A + rep(" ", 300) + F, rep("(", 60) + A + rep(")", 60), rep("sin(", 60) + A + rep(")", 60), rep("sin(", 60) + D, rep((A + "=" + A + "+1;").c_str(), 40) + A, rep(("(" + A + "=1;").c_str(), 30) + D + rep(")", 30),
            A + "=" + rep((D + "+").c_str(), 60) + A, "/*" + rep("x", 300) + "*/" + A + "=1;//" + rep("y", 300) + "\n" + F + " " + F, rep((A + "*").c_str(), 50) + "]", "if(" + A + "," + rep((F + "=" + F + "+" + D + ";").c_str(), 30) + "b,c)", "x=megabuf(" + D + ")" + rep(("+gmegabuf(" + D + ")").c_str(), 30), "sin(" + rep("1,", 60) + D + ")"};
    };
    static const std::vector<std::string> lg = texts("a", "f", "1"), lg2 = texts("b", "g", "2");
    k.name = "long";
    k.count = lg.size() * lg.size();
    k.run = [](uint64_t i) {
        Scenario s = make_pair(lg[i / lg.size()], lg2[i % lg.size()], true);
        auto r = sched::explore(s, thorough ? 2 : 1, 20000);
        st_nontrivial(r.schedules);
    };
    add(k);
}
}

MODE(C17)
{
    static std::vector<Spec> sp = specs();
    static std::vector<std::set<Out>> dummy;
    Job j;
    j.name = "buffers";
    j.count = sp.size();
    j.chunk = 1;
    j.hang_cpu = 850;
    j.run = [](uint64_t i) {
        std::set<Out> seen;
        Scenario s = make(sp[i], &seen);
        int p = thorough ? sp[i].pt : sp[i].pq;
        auto r = sched::explore(s, p, thorough ? 6000000 : 150000);
        st_nontrivial(r.schedules);
        st_sample(strf("%s: %llu schedules (%s preemptions), %llu decisions at most, %zu outcomes, %llu shared locations%s", sp[i].name.c_str(), (unsigned long long)r.schedules, p < 0 ? "any number of" : strf("at most %d", p).c_str(), (unsigned long long)r.maxpoints, seen.size(), (unsigned long long)r.shared, r.complete ? "" : ", truncated"));
                if (getenv("VF_DEBUG")) { FILE* f = fopen("/tmp/sched.log", "a"); fprintf(f, "%s: P=%d schedules=%llu max decisions=%llu outcomes=%zu shared=%llu restarts=%llu complete=%d\n", sp[i].name.c_str(), p, (unsigned long long)r.schedules, (unsigned long long)r.maxpoints, seen.size(), (unsigned long long)r.shared, (unsigned long long)r.restarts, r.complete); fclose(f); }
    };
    add(j);
    independent();
}
MODE(C17R)
{
    static std::vector<RandSpec> rs = {
        {"rand-cold", 2, 1, 0, 1, 2}, {"rand-cold-3", 3, 1, 0, 1, 1}, {"rand-warm", 2, 2, 5, 4, 8}, {"rand-warm-3", 3, 2, 5, 2, 3},
        {"rand-end", 2, 1, 623, 1, 1}, {"rand-end-2", 2, 2, 622, 1, 1}, {"rand-end-3", 3, 1, 622, 1, 1},
    };
    Job j;
    j.name = "rand";
    j.chunk = 1;
    j.hang_cpu = 850;
    j.count = rs.size();
    j.run = [](uint64_t i) {
        Scenario s = make_rand(rs[i]);
        auto r = sched::explore(s, thorough ? rs[i].pt : rs[i].pq, thorough ? 4000000 : 150000);
        st_nontrivial(r.schedules);
        if (getenv("VF_DEBUG")) { FILE* f = fopen("/tmp/sched.log", "a"); fprintf(f, "%s: schedules=%llu max decisions=%llu shared=%llu complete=%d\n", rs[i].name.c_str(), (unsigned long long)r.schedules, (unsigned long long)r.maxpoints, (unsigned long long)r.shared, r.complete); fclose(f); }
    };
    add(j);
}
MODE(C24) { independent(); calls(); }
