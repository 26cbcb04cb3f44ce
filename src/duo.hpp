// A real context and the reference state side by side.
#pragma once
#include "ref.hpp"

struct World {
    Ctx* c = nullptr;
    projectm_eval_mem_buffer gm = nullptr;
    F regs[100];
    F *zi = nullptr, *zv = nullptr;
    Code *peek_l = nullptr, *peek_g = nullptr, *poke_l = nullptr, *poke_g = nullptr;
    void open()
    {
        memset(regs, 0, sizeof regs);
        gm = projectm_eval_memory_buffer_create();
        c = projectm_eval_context_create(gm, &regs);
        if (!gm || !c) vf::fail("context creation fails");
        zi = projectm_eval_context_register_variable(c, "zz_i");
        zv = projectm_eval_context_register_variable(c, "zz_v");
        peek_l = projectm_eval_code_compile(c, "megabuf(zz_i)");
        peek_g = projectm_eval_code_compile(c, "gmegabuf(zz_i)");
        poke_l = projectm_eval_code_compile(c, "megabuf(zz_i)=zz_v");
        poke_g = projectm_eval_code_compile(c, "gmegabuf(zz_i)=zz_v");
        if (!peek_l || !peek_g || !poke_l || !poke_g) vf::fail("a basic program does not compile");
    }
    void close()
    {
        projectm_eval_code_destroy(peek_l);
        projectm_eval_code_destroy(peek_g);
        projectm_eval_code_destroy(poke_l);
        projectm_eval_code_destroy(poke_g);
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(gm);
        c = nullptr;
    }
    F peek(bool g, int i) { *zi = (F)i; return projectm_eval_code_execute(g ? peek_g : peek_l); }
    void poke(bool g, int i, F v) { *zi = (F)i; *zv = v; projectm_eval_code_execute(g ? poke_g : poke_l); }
};

struct Handle {
    Code* h = nullptr;
    Handle() {}
    Handle(Ctx* c, const char* t) { h = projectm_eval_code_compile(c, t); }
    Handle(Ctx* c, const std::string& t) { h = projectm_eval_code_compile(c, t.c_str()); }
    Handle(const Handle&) = delete;
    ~Handle() { if (h) projectm_eval_code_destroy(h); }
    explicit operator bool() const { return h; }
    F operator()() { vf::st_transitions(); return projectm_eval_code_execute(h); }
};

// The value stored in every slot of all live buffer storage that differs from 0.
// window: only the first slots of each block
inline size_t nonzero_slots(size_t window = ~size_t(0))
{
    size_t n = 0;
    for (auto& b : vf::bigs)
    {
        const F* p = (const F*)b.p;
        size_t m = std::min(window, b.n / sizeof(F));
        for (size_t i = 0; i < m; i++) n += p[i] != 0;
    }
    return n;
}

struct Duo {
    World w;
    ref::Vars names;
    std::vector<F*> ptr;          // real storage of variable k
    ref::Program prog;
    ref::Evaluator ev;
    ref::State st;
    ref::Mem loc, glob;
    ref::Rng rng;
    F mregs[100];
    uint64_t budget = 4000;
    enum { WINDOW = 48 };

    void open()
    {
        w.open();
        names = ref::Vars();
        ptr.clear();
        memset(mregs, 0, sizeof mregs);
        st.regs = mregs;
        st.loc = &loc;
        st.glob = &glob;
        st.rng = &rng;
        st.vars.clear();
        loc.m.clear();
        glob.m.clear();
    }
    int var(const char* n) { int i = names.get(n); sync_names(); return i; }
    void sync_names()
    {
        while (ptr.size() < names.names.size())
        {
            ptr.push_back(projectm_eval_context_register_variable(w.c, names.names[ptr.size()].c_str()));
            if (!ptr.back()) vf::fail("registering %s yields NULL", names.names[ptr.size() - 1].c_str());
        }
        st.vars.resize(ptr.size(), 0);
    }
    void set(int v, F x)
    {
        sync_names();
        if (v < 100) mregs[v] = w.regs[v] = x;
        else st.vars[v - 100] = *ptr[v - 100] = x;
    }
    void slot(bool g, int i, F x) { *(g ? glob : loc).at(i) = x; w.poke(g, i, x); }
    // back to all zero
    void reset()
    {
        for (size_t k = 0; k < ptr.size(); k++) *ptr[k] = 0;
        st.vars.assign(ptr.size(), 0);
        memset(mregs, 0, sizeof mregs);
        memset(w.regs, 0, sizeof w.regs);
        if (loc.m.size() > 3000) { projectm_eval_context_free_memory(w.c); loc.m.clear(); }
        for (auto& e : loc.m) w.poke(false, e.first, 0);
        for (auto& e : glob.m) w.poke(true, e.first, 0);
        loc.m.clear();
        glob.m.clear();
    }
    // adopt the real state (after an execution whose result is not exactly defined)
    void adopt()
    {
        for (size_t k = 0; k < ptr.size(); k++) st.vars[k] = *ptr[k];
        memcpy(mregs, w.regs, sizeof mregs);
    }
    // whole state comparison
    // scan: 0 only slots known to the model, 1 also the first slots of each block, 2 all slots
    bool differs(std::string& how, int scan, bool exact = true)
    {
        auto eq = [&](F a, F b) { return exact ? vf::same(a, b) : vf::close_to(a, b); };
        for (size_t k = 0; k < ptr.size(); k++)
            if (!eq(*ptr[k], st.vars[k])) { how = vf::strf("variable %s is %s, expected %s", names.names[k].c_str(), vf::show(*ptr[k]).c_str(), vf::show(st.vars[k]).c_str()); return true; }
        for (int k = 0; k < 100; k++)
            if (!eq(w.regs[k], mregs[k])) { how = vf::strf("reg%02d is %s, expected %s", k, vf::show(w.regs[k]).c_str(), vf::show(mregs[k]).c_str()); return true; }
        size_t nz = 0;
        for (int g = 0; g < 2; g++)
            for (auto& e : (g ? glob : loc).m)
            {
                F r = w.peek(g, e.first);
                if (!eq(r, e.second)) { how = vf::strf("%s slot %d is %s, expected %s", g ? "gmegabuf" : "megabuf", e.first, vf::show(r).c_str(), vf::show(e.second).c_str()); return true; }
                nz += e.second != 0 && (scan == 2 || e.first % BLOCK < WINDOW);
            }
        if (scan)
        {
            size_t n = nonzero_slots(scan == 2 ? ~size_t(0) : WINDOW);
            if (n > nz) { how = vf::strf("%zu other buffer slots were changed", n - nz); return true; }
        }
        return false;
    }
};
