// The language: grouping (C01), syntax (C02), lexical structure (C03), error
// reports (C12), compilation without effects (C13).
#include "duo.hpp"
#include "fam.hpp"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;

static Duo duo;
static void fresh()
{
    if (duo.w.c) duo.w.close();
    duo.open();
}

// =============================================================================
// C01: T and its fully parenthesised form behave alike.
namespace c01 {
static const char* infix[] = {"=","+=","-=","*=","/=","%=","^=","|=","&=","||","&&","|","&","==","!=",">",">=","<","<=","+","-","*","/","%","^","?",":"};
enum { NI = 27 };
static const char* full_forms[] = {"v","-v","!v","+v","v[]","v[w]","-v[]","!-v","-!v","!!v","- -v","-v[w]","!v[]","-+v","v[][]"};
static const char* few_forms[] = {"v","-v","!v"};
static const F vals[][6] = {
    {3, 5, 2, 7, 4, 6}, {1, 0, 2, 0, 3, 1}, {-2, 3, -1, 2, -3, 5}, {2, 2, 3, 3, 2, 1}, {0, 4, 0, 1, 0, 2}, {0.5, 2, 1.5, 3, 0.25, 9}, {10, 3, 7, 2, 5, 1},
};
static int vi[6];
static ref::Program pp;
static void one(const std::string& t)
{
    note("program %s", t.c_str());
    if (!ref::parse(t, pp, duo.names)) { st_skip(); return; }
    duo.sync_names();
    std::string p;
    ref::unparse(pp, duo.names, pp.root, p);
    note("program %s\n  parenthesised %s", t.c_str(), p.c_str());
    Handle a(duo.w.c, t), b(duo.w.c, p);
    if (!a) fail("does not compile");
    if (!b) fail("the parenthesised form does not compile");
    bool mem = t.find('[') != std::string::npos;
    for (auto& v : vals)
    {
        F res[2], fin[2][6], sl[2][41];
        for (int k = 0; k < 2; k++)
        {
            for (int i = 0; i < 6; i++) duo.set(vi[i], v[i]);
            if (mem) for (int i = 0; i <= 40; i++) duo.w.poke(false, i, F(i < 20 ? (i * 7) % 12 + 1 : 0));
            res[k] = k ? b() : a();
            for (int i = 0; i < 6; i++) fin[k][i] = *duo.ptr[vi[i] - 100];
            if (mem) for (int i = 0; i <= 40; i++) sl[k][i] = duo.w.peek(false, i);
        }
        st_trace();
        if (!same(res[0], res[1])) fail("a=%g b=%g c=%g d=%g e=%g: result %s, parenthesised %s", (double)v[0], (double)v[1], (double)v[2], (double)v[3], (double)v[4], show(res[0]).c_str(), show(res[1]).c_str());
        for (int i = 0; i < 6; i++) if (!same(fin[0][i], fin[1][i])) fail("a=%g b=%g c=%g d=%g e=%g: %c becomes %s, parenthesised %s", (double)v[0], (double)v[1], (double)v[2], (double)v[3], (double)v[4], 'a' + i, show(fin[0][i]).c_str(), show(fin[1][i]).c_str());
        if (mem) for (int i = 0; i <= 40; i++) if (!same(sl[0][i], sl[1][i])) fail("megabuf slot %d becomes %s, parenthesised %s", i, show(sl[0][i]).c_str(), show(sl[1][i]).c_str());
        st_state(hash_bytes(fin[0], sizeof fin[0], (uint64_t)((double)res[0] * 16)));
    }
    st_nontrivial();
    st_sample(t + "   ==   " + p);
}
static bool balanced(const int* op, int k)
{
    int d = 0;
    for (int i = 0; i < k; i++)
    {
        if (op[i] == 25) d++;
        if (op[i] == 26 && --d < 0) return false;
    }
    return d == 0;
}
static void init()
{
    fresh();
    for (int i = 0; i < 6; i++) vi[i] = duo.var(std::string(1, 'a' + i).c_str());
}
static std::string form(const char* f, int i)
{
    std::string o;
    for (; *f; f++)
    {
        if (*f == 'v') o += (char)('a' + i);
        else if (*f == 'w') o += (char)('a' + (i + 1) % 6);
        else o += *f;
    }
    return o;
}
// k operators, every operand in one of nf forms; at most maxp operands in a form other than the first
static void job(const char* name, int k, const char** forms, int nf, int maxp)
{
    // assignments of forms to the k+1 operands
    auto sel = std::make_shared<std::vector<std::vector<int>>>();
    std::vector<int> cur(k + 1, 0);
    for (;;)
    {
        int used = 0;
        for (int x : cur) used += x != 0;
        if (used <= maxp) sel->push_back(cur);
        int i = 0;
        while (i <= k && ++cur[i] == nf) cur[i++] = 0;
        if (i > k) break;
    }
    uint64_t seqs = 1;
    for (int i = 0; i < k; i++) seqs *= NI;
    Job j;
    j.name = name;
    j.count = seqs * sel->size();
    j.init = init;
    j.run = [=](uint64_t idx) {
        const auto& f = (*sel)[idx % sel->size()];
        idx /= sel->size();
        int op[8];
        for (int i = k - 1; i >= 0; i--) { op[i] = idx % NI; idx /= NI; }
        if (!balanced(op, k)) return;
        std::string t = form(forms[f[0]], 0);
        for (int i = 0; i < k; i++) { t += ' '; t += infix[op[i]]; t += ' '; t += form(forms[f[i + 1]], i + 1); }
        one(t);
    };
    add(j);
}
}
MODE(C01)
{
    using namespace c01;
    job("ops1", 1, full_forms, 15, 2);
    job("ops2", 2, full_forms, 15, lim(2, 3, 1));
    job("ops3", 3, few_forms, 3, lim(2, 4, 0));
    if (thorough) job("ops4", 4, few_forms, 3, 1);
}

// =============================================================================
// Shared: compile a text, compare acceptance with the reference, execute.
static uint64_t n_acc, n_rej;
static uint64_t text_budget = 3000;
static void check_text(const std::string& t, bool run)
{
    note("text %s", quote(t).c_str());
    bool ok = ref::parse(t, duo.prog, duo.names);
    if (duo.prog.lx.open_comment || duo.prog.lx.odd_ordinal || duo.prog.lx.big_hex) { st_skip(); return; }
    Handle h(duo.w.c, t);
    st_transitions();
    st_trace();
    if (ok != (bool)h) fail(ok ? "valid text is rejected: %s" : "invalid text is accepted%s", ok ? projectm_eval_get_error(duo.w.c, nullptr, nullptr) : "");
    if (!ok) { st_state(mix(n_rej++ & 1)); return; }
    st_nontrivial();
    if (!run) return;
    duo.sync_names();
    duo.budget = text_budget;
    uint64_t draws = duo.rng.draws;
    F want = duo.ev.run(duo.prog, duo.st, duo.budget);
    if (duo.ev.over) { duo.reset(); fresh(); st_skip(); return; }
    (void)draws;
    F got = h();
    lock_idle("execution");
    if (duo.ev.vague) { duo.adopt(); fresh(); st_skip(); return; }
    if (!close_to(got, want)) fail("result %s, expected %s", show(got).c_str(), show(want).c_str());
    std::string how;
    if (duo.differs(how, false, false)) fail("%s", how.c_str());
    st_state(hash_bytes(&want, sizeof want));
    st_sample(t);
    duo.reset();
}

// Texts with a part of size n: every n up to a bound, then around powers of 2.
namespace scale {
static const size_t X = 140000;
struct Fam { size_t max; std::function<std::string(size_t)> f; };
static std::string rep(const std::string& s, size_t n) { std::string o; o.reserve(s.size() * n); for (size_t i = 0; i < n; i++) o += s; return o; }
static void nest(std::vector<Fam>& v, std::string a, std::string core, std::string b, size_t mx) { v.push_back({mx, [=](size_t n) { return rep(a, n) + core + rep(b, n); }}); }
static std::vector<size_t> sizes(size_t all, size_t wide)
{
    std::vector<size_t> s;
    for (size_t i = 0; i <= all; i++) s.push_back(i);
    for (size_t b = 64; b <= 131072; b *= 2)
        for (size_t d = 0; d <= 2 * wide; d++) if (b + d > all + wide && b + d < 131072 + 8) s.push_back(b + d - wide);
    for (size_t b : {1000u, 2000u, 5000u, 10000u, 50000u, 100000u}) for (size_t d = 0; d < 3; d++) s.push_back(b + d - 1);
    return s;
}
static void jobs(const char* name, std::vector<Fam> fam, std::vector<size_t> sz, void (*init)(), void (*visit)(const std::string&))
{
    auto F_ = std::make_shared<std::vector<Fam>>(fam);
    auto S_ = std::make_shared<std::vector<size_t>>(sz);
    Job j;
    j.name = name;
    j.init = init;
    j.count = fam.size() * sz.size();
    j.chunk = 40;
    j.hang_cpu = 60;
    j.run = [=](uint64_t i) {
        auto& f = (*F_)[i % F_->size()];
        size_t n = (*S_)[i / F_->size()];
        if (n > f.max) return;
        visit(f.f(n));
        if (duo.ptr.size() > 60) init();
    };
    add(j);
}
// constructs repeated and nested
static std::vector<Fam> constructs()
{
    std::vector<Fam> v;
    const size_t N = 2000, C = 4098, L = 4098;
    auto ne = [&](std::string a, std::string core, std::string b, size_t mx = 2000) { nest(v, a, core, b, mx); };
    ne("(", "a", ")", C);
    v.push_back({C, [](size_t n) { return rep("(", n) + "a" + rep(")", n + 1); }});
    v.push_back({C, [](size_t n) { return rep("(", n + 1) + "a" + rep(")", n); }});
    for (auto u : {"-", "!", "+"}) ne(u, "a", "", C);
    ne("sin(", "a", ")", N);
    ne("sin (", "a", ")", N);
    ne("abs(1-", "b", ")", N);
    ne("min(", "a", ",b+1)", N);
    ne("max(b+1,", "a", ")", N);
    ne("if(a,", "b", ",0)", N);
    ne("if(", "a", ",b,2)", N);
    ne("if(0,1,", "b", ")", N);
    ne("exec2(a=a+1,", "b", ")", N);
    ne("exec2(", "a=a+1", ",b)", N);
    ne("exec3(a=a+1,b=a,", "b", ")", N);
    ne("loop(1,", "a+=1", ")", N);
    ne("while(0*", "(a=a+1)", ")", N);
    ne("(a=a+1;", "b", ")", N);
    ne("(", "a=a+1", ";b)", N);
    ne("", "a", "[]", 500);
    ne("gmem[", "b", "]", N);
    ne("b[", "a", "]", N);
    ne("a=", "b+1", "", C);
    for (const char* o : {"+=", "-=", "*=", "/=", "%=", "|=", "&="}) ne(std::string("a") + o, "b", "", C);
    for (const char* o : {"+", "-", "*", "/", "%", "^", "|", "&", "==", "!=", "<", ">", "<=", ">=", "||", "&&"})
    {
        ne("", "a", std::string(o) + "b", C);
        ne("", "2", std::string(o) + "3", C);
        v.push_back({C, [=](size_t n) { return "a" + rep(std::string(o) + "b", n) + o; }});
        v.push_back({1000, [=](size_t n) { return rep(std::string("a") + o + "(", n) + "b" + rep(")", n); }});
        v.push_back({1000, [=](size_t n) { return rep("(", n) + "b" + rep(std::string(o) + "a)", n); }});
    }
    ne("a?b:", "2", "", N);
    ne("!a?b:", "2", "", N);
    ne("a?", "b", ":2", N);
    for (auto it : {"a=a+1;", "();", ";", "a=b;b=a+1;", "1;", "sin(a);", "a;"}) { ne("", "", it, L); ne("", "b", std::string(";") + it, L); v.push_back({L, [=](size_t n) { return rep(it, n / 2) + "b=b+1 a" + rep(std::string(";") + it, n - n / 2); }}); v.push_back({L, [=](size_t n) { return rep(it, n) + "b=b+1;a+b"; }}); }
    v.push_back({L, [](size_t n) { return "a=(" + rep("b=b+1;", n) + "b)"; }});
    v.push_back({C, [](size_t n) { return "min(a" + rep(",b", n) + ")"; }});
    v.push_back({C, [](size_t n) { return "exec3(" + rep("a,", n) + ")"; }});
    v.push_back({600, [](size_t n) { std::string t; for (size_t k = 0; k < n; k++) t += strf("v%zu=%zu;", k, k); for (size_t k = 0; k < n; k += 7) t += strf("a+=v%zu;", k); return t; }});
    return v;
}
// tokens, comments and separators
static std::vector<Fam> tokens()
{
    std::vector<Fam> v;
    auto ne = [&](std::string a, std::string x, std::string b, size_t mx = X) { v.push_back({mx, [=](size_t n) { return a + rep(x, n) + b; }}); };
    ne("", "1", "", 3000);
    ne("a+", "0", "7.25");
    ne("", "0", "e5", 3000);
    ne("0.", "0", "1", 3000);
    ne("3.", "0", "1");
    ne("3.25", "0", "+a");
    ne("0.", "3", "");
    ne("12.5e", "0", "2");
    ne("12.5e-", "0", "2*a");
    ne("1", "0", "e-20", 3000);
    ne("$x", "0", "Ff");
    ne("a=$X", "0", "10;a");
    ne("", "q", "=2;x=1");
    ne("q=1;", "q", "7=2;q");
    ne("q=1;Q", "Q", "_=2;q");
    ne("sin", "n", "(a)");
    ne("", "_", "sin=3");
    ne("reg0", "0", "=4;reg00");
    ne("/*", "x", "*/a=2;a");
    ne("/*", "*", "*/a=2;a");
    ne("/*", "/", "*/a=2;a");
    ne("/*", "\n", "*/a=2;a");
    ne("a=1/*", "/*\n", "*/;a");
    ne("a=5;//", "y", "\na=2;a");
    ne("a=5;//", "/", "\na=2;a");
    ne("a=5;//", "\xc3", "\r\na=2;a");
    ne("a=5;//", "y", "");
    ne("a=5;", "//\n", "a=a+1");
    ne("a=5;", "//a=7;\n", "a=a+1", 20000);
    ne("a=5;", "/*a=7*/", "a=a+1", 20000);
    for (auto w : {" ", "\n", "\t", "\r\n", "\v", "\f", " \n"})
    {
        ne("a=5;", w, "a=a+1");
        ne("a=5", w, "");
        ne("a", w, "=x+7");
    }
    for (auto t : {"12.5e1", "$xFF", "$'c'", "$pi", "x", "sin(x)", "x==e", "x<=e", "a+=x", "x&&e", "x||e", "x!=e", "/*c*/x", "x//c", "gmem[3]", "$phi+x"}) { ne("a=", " ", t); v.push_back({X, [=](size_t n) { return "/*" + rep("c", n) + "*/" + t + ";a"; }}); }
    return v;
}
// an error behind or within something of size n
static std::vector<Fam> errors()
{
    std::vector<Fam> v;
    auto ne = [&](std::string a, std::string x, std::string b, size_t mx = X) { v.push_back({mx, [=](size_t n) { return a + rep(x, n) + b; }}); };
    for (auto e : {"@", ")", "aa bb", "sin(1,2)", "aa=*", "nofunc(1)", "if(1)", "$zz", "1 2\n", "(aa\n;bb\n,cc)", "aa=(1;\nmin(2))"})
    {
        std::string x = e;
        ne("", " ", x);
        ne("", "\n", x);
        ne("aa=1;", "\r\n", x);
        ne("", "\t", x);
        ne("/*", "c", "*/" + x);
        ne("/*", "\n", "*/" + x);
        ne("/*\n", "c", "*/" + x);
        ne("//", "c", "\n" + x);
        ne("", "//\n", x);
        ne("aa=1;", "/**/", "\n \n" + x, 40000);
        ne("", "a", "=2;" + x);
        ne("aa=", "0", "1;" + x);
        ne("", "aa=1;", x, 3000);
        ne("", "aa=1;\n", x, 3000);
        ne("aa=(", "0+", "1);" + x, 3000);
        ne("", "(", x, 3000);
        ne("", "sin(\n", x, 2000);
        v.push_back({X, [=](size_t n) { return rep("\n", n) + rep(" ", n / 3) + x + rep("\n", 3); }});
        v.push_back({X, [=](size_t n) { return x + "\n" + rep("aa\n", n / 3) + ";@"; }});
    }
    ne("aa=1;\n ", "f", "(1)");
    ne("aa=1;\n sin(aa", ",aa", ")", 3000);
    ne("aa=1;\n sin(aa", "\n", ",3)");
    ne("aa=1;\n sin", "\n", "(aa,3)");
    ne("aa=1;\n exec2(aa", "+aa", ")", 3000);
    ne("aa=1;\n exec2(sin(aa", ",\naa", "),bb)", 3000);
    ne("aa=1;\n aa", "a", " bb");
    ne("aa=1;\n 2", "2", " bb");
    return v;
}
}


// =============================================================================
// C02
static const char* alphabet2[] = {"a","b","2","sin","if","exec2","gmem","(",")","[","]",",",";","=","+=","+","-","!","?",":","^","@"};
enum { NA2 = sizeof alphabet2 / sizeof *alphabet2 };

static void init2()
{
    fresh();
    duo.var("a");
    duo.var("b");
}
static void preset() { duo.set(duo.var("a"), 3); duo.set(duo.var("b"), 5); }

static std::string join(const char** al, const std::vector<int>& v, const char* sep = " ")
{
    std::string t;
    for (size_t i = 0; i < v.size(); i++) { if (i) t += sep; t += al[v[i]]; }
    return t;
}
// Calls visit(text, status) for every extension of the viable prefix v up to
// length n: all texts whose proper prefixes are all viable.
template <class V> static void viable(const char** al, int na, std::vector<int>& v, int n, const V& visit)
{
    std::string t = join(al, v);
    ref::Program& p = duo.prog;
    bool ok = ref::parse(t, p, duo.names);
    bool via = ok || p.err == ref::E_EOF;
    visit(v, t);
    if (!via || (int)v.size() >= n) return;
    for (int k = 0; k < na; k++)
    {
        v.push_back(k);
        viable(al, na, v, n, visit);
        v.pop_back();
    }
}
static void viable_job(const char* name, const char** al, int na, int n, void (*init)(), void (*visit)(const std::vector<int>&, const std::string&))
{
    Job j;
    j.name = name;
    j.count = (uint64_t)na * na * na;
    j.init = init;
    j.chunk = na;
    j.hang_cpu = 120;
    j.run = [=](uint64_t i) {
        std::vector<int> v{(int)(i / na / na), (int)(i / na % na), (int)(i % na)};
        // only if the proper prefixes are viable
        for (int l = 0; l < 3; l++)
        {
            std::vector<int> pre(v.begin(), v.begin() + l);
            std::string t = join(al, pre);
            if (l && !ref::parse(t, duo.prog, duo.names) && duo.prog.err != ref::E_EOF) return;
            if (l && v[l] == 0 && (l == 2 || v[2] == 0)) visit(pre, t);
        }
        viable(al, na, v, n, visit);
    };
    add(j);
}

static const char* seeds2[] = {
    "x=sin(4)", "x = if(a>b, a, b); y = x*2", "a=1;b=2;a+b;", "megabuf(3)=4;gmem[5]=6;3[]+gmem[2+3]", "loop(3,a=a+b)", "n=3;while(exec2(n=n-1,n))",
    "z=a?b?1:2:3", "x=(a=2;b=3;a*b)", "a+=b-=2;a*=3;b/=2", "x=-a^2+!b", "exec3(a=1,b=2,a+b)", "reg01=reg02=5;REG01", "x=$PI+$xff+$'c'+1.5e3", "memset(0,1,4);memcpy(2,0,4);3[]",
    "a=b&&(b=0)||(a=7)", "x = a<b == b>a", "y=max(min(a,b),a%b)", "a[b]=a[]=4", ";a", "()", "a;();b;;", "sqr(a;b)", "atan2(a=1;2,b=2)",
};
static std::vector<std::vector<std::string>> seed_tokens()
{
    std::vector<std::vector<std::string>> out;
    for (auto s : seeds2)
    {
        // split with the reference lexer: token k spans [start k, start k+1)
        ref::Lexed lx;
        ref::lex(s, lx);
        std::vector<std::string> t;
        std::string str = s;
        for (size_t i = 0; i + 1 < lx.toks.size(); i++)
        {
            size_t b = lx.toks[i].col, e = lx.toks[i + 1].col;
            std::string x = str.substr(b, e - b);
            while (!x.empty() && x.back() == ' ') x.pop_back();
            t.push_back(x);
        }
        out.push_back(t);
    }
    return out;
}
static const char* edits2[] = {"a","1","sin","if","loop","gmem","(",")","[","]",",",";","=","+=","+","-","*","/","%","^","!","?",":","==","<","&&","||","&","|","@","$","#","."};
MODE(C02)
{
    // all token strings of length <= n
    int n = lim(5, 6, 3);
    Job j;
    j.name = "strings";
    j.init = init2;
    uint64_t tot = 0, pw = 1;
    for (int l = 0; l <= n; l++) { tot += pw; pw *= NA2; }
    j.count = tot;
    j.run = [](uint64_t i) {
        int l = 0;
        uint64_t pw = 1;
        while (i >= pw) { i -= pw; pw *= NA2; l++; }
        std::string t;
        for (int k = 0; k < l; k++) { pw /= NA2; if (k) t += ' '; t += alphabet2[i / pw]; i %= pw; }
        preset();
        check_text(t, true);
    };
    add(j);
    viable_job("viable", alphabet2, NA2, lim(6, 7, 4), init2, [](const std::vector<int>&, const std::string& t) { preset(); check_text(t, true); });
    // all strings over small sets of tokens which belong together
    static const char* sub[][9] = {{"a","(",")",";","=","1"}, {"(",")",";","a",","}, {"sin","min","a","(",")",",",";"}, {"a","[","]","gmem","(",")"}, {"a","?",":",";","(",")","="}, {"a","-","!","+","(",")","="}, {"a","=","+=","==","&&",";"}, {"gmem","megabuf","[","]","(",")","1",";"}, {"if","a",",",";","(",")"}};
    static const int sublen[] = {7, 8, 6, 7, 6, 6, 7, 5, 7};
    for (int q = 0; q < 9; q++)
    {
        int na = 0;
        while (na < 9 && sub[q][na]) na++;
        Job u;
        u.name = strf("subset%d", q);
        u.init = init2;
        uint64_t tot = 0, pw = 1;
        for (int l = 0; l <= sublen[q] + lim(0, 1, -2); l++) { tot += pw; pw *= na; }
        u.count = tot;
        u.run = [=](uint64_t i) {
            int l = 0;
            uint64_t pw = 1;
            while (i >= pw) { i -= pw; pw *= na; l++; }
            std::string t;
            for (int k = 0; k < l; k++) { pw /= na; if (k) t += ' '; t += sub[q][i / pw]; i %= pw; }
            preset();
            check_text(t, true);
        };
        add(u);
    }
    // argument counts of all functions, in three positions
    Job a;
    a.name = "arity";
    a.init = init2;
    a.count = (uint64_t)ref::nbuiltins * 7 * 6;
    a.run = [](uint64_t i) {
        auto& b = ref::builtins[i / 42];
        int n = i / 6 % 7, pos = i % 6;
        if (b.op == ref::O_WHILE) { /* while(1) is long */ }
        std::string call = std::string(b.name);
        if (pos == 3) for (auto& c : call) if (c >= 'a' && c <= 'z') c -= 32;
        call += "(";
        for (int k = 0; k < n; k++) call += k ? ",a" : "0";
        call += ")";
        std::string t = pos == 0 || pos == 3 ? call : pos == 1 ? "b=1+" + call + ";b" : pos == 2 ? "sin(" + call + ")" : pos == 4 ? "if(a," + call + "," + call + ")" : "a;" + call + ";b";
        preset();
        check_text(t, b.op != ref::O_RAND);
    };
    add(a);
    // a function name without a call, every reserved name as a variable
    Job f;
    f.name = "names";
    f.init = init2;
    f.count = (uint64_t)ref::nbuiltins * 4;
    f.run = [](uint64_t i) {
        std::string n = ref::builtins[i / 4].name;
        std::string t = i % 4 == 0 ? n : i % 4 == 1 ? n + "=1" : i % 4 == 2 ? n + "x=1;" + n + "x" : "x" + n + "=2;x" + n;
        preset();
        check_text(t, true);
    };
    add(f);
    // single token edits of realistic programs
    auto st = std::make_shared<std::vector<std::vector<std::string>>>(seed_tokens());
    auto pos = std::make_shared<std::vector<std::pair<int, int>>>();
    for (size_t s = 0; s < st->size(); s++) for (size_t k = 0; k <= (*st)[s].size(); k++) pos->push_back({(int)s, (int)k});
    static const int NE = sizeof edits2 / sizeof *edits2;
    Job e;
    e.name = "edits";
    e.init = init2;
    e.count = pos->size() * (2 + 2 * NE) * (thorough ? 2 : 1);
    e.run = [=](uint64_t i) {
        int k = i % (2 + 2 * NE);
        i /= 2 + 2 * NE;
        auto ps = (*pos)[i % pos->size()];
        bool glue = i / pos->size();
        auto v = (*st)[ps.first];
        size_t p = ps.second;
        if (k == 0) { if (p < v.size()) v.erase(v.begin() + p); }
        else if (k == 1) { if (p < v.size()) { auto x = v[p]; v.insert(v.begin() + p, x); } }
        else if (k < 2 + NE) v.insert(v.begin() + p, edits2[k - 2]);
        else if (p < v.size()) v[p] = edits2[k - 2 - NE];
        std::string t;
        for (size_t q = 0; q < v.size(); q++) { if (q && !glue) t += ' '; t += v[q]; }
        preset();
        check_text(t, true);
        out_check("the library");
    };
    add(e);
    text_budget = 20000;
    scale::jobs("scale", scale::constructs(), scale::sizes(lim(150, 1100, 20), 2), init2, [](const std::string& t) { preset(); check_text(t, true); });
}

// =============================================================================
// C03
static void init3() { fresh(); duo.var("a"); duo.var("e"); duo.var("x"); }
static void char_job(const char* name, const char* al, int lmax, const char* pre = "", const char* post = "")
{
    Job j;
    j.name = name;
    std::string A = al, P = pre, Q = post;
    int n = (int)A.size();
    j.init = init3;
    uint64_t tot = 0, pw = 1;
    for (int l = 0; l <= lmax; l++) { tot += pw; pw *= n; }
    j.count = tot;
    j.run = [=](uint64_t i) {
        int l = 0;
        uint64_t pw = 1;
        while (i >= pw) { i -= pw; pw *= n; l++; }
        std::string t = P;
        for (int k = 0; k < l; k++) { pw /= n; t += A[i / pw]; i %= pw; }
        t += Q;
        duo.set(duo.var("a"), 3);
        duo.set(duo.var("e"), 7);
        duo.set(duo.var("x"), 11);
        check_text(t, true);
        out_check("compiling or executing");
    };
    add(j);
}
static const char* seps3[] = {" ", "\t", "\n", "\r\n", "\v", "\f", "/**/", "/* * / ; 1 */", "/*\n// */", "// x\n", "//*\n", "//\r\n", "  \n\t ", "/***/", "/*/ */", "/*\"'$@#\\*/"};
static const int NS3 = sizeof seps3 / sizeof *seps3;
MODE(C03)
{
    int d = lim(0, 1, -1);
    char_job("numbers", "015.eE+-", 6 + d);
    char_job("numbers2", "09.e-x ", 6 + d, "x=1;", "");
    char_job("constants", "$xXpPiIhHeEaF0'g ;", 4 + d);
    char_job("constants2", "$xpihef9 ", 5 + d, "a+", "");
    char_job("comments", "/*\na1;", 7 + d);
    char_job("comments2", "/*\na ", 6 + d, "x=1/*", "*/;a");
    char_job("comments3", "/*\r\n a;", 6 + d);
    char_job("comments4", "\r\n\t\v\fx=;", 5 + d, "a=1;//", "7;\nx");
    char_job("operators", "=+-*/%^|&<>!?:", 3 + d, "a", "x");
    char_job("operators2", "=+-&|<!a1", 5 + d, "a", "");
    char_job("names", "aE_9$. (=", 6 + d);
    char_job("spaces", " \t\r\n\v\fa+1", 5 + d, "x=", "");
    // every byte in every position of short texts
    Job b;
    b.name = "bytes";
    b.init = init3;
    b.count = 255ull * 255 * 6;
    b.run = [](uint64_t i) {
        char c = char(i % 255 + 1), e = char(i / 255 % 255 + 1);
        std::string t;
        switch (i / 255 / 255)
        {
        case 0: t = std::string() + c + e; break;
        case 1: t = std::string("x=a") + c + e + "1"; break;
        case 2: t = std::string("x=1;//y") + c + "x=2;" + e + "x=7;\nx"; break;
        case 3: t = std::string("x=1;/*y") + c + "x=2;" + e + "x=7;*/x"; break;
        case 4: t = std::string("x=1") + c + "//" + e + "\n+a"; break;
        default: t = std::string("a") + c + "=1" + e + ";a" + c; break;
        }
        check_text(t, true);
        out_check("compiling or executing");
    };
    add(b);
    Job o;
    o.name = "ordinals";
    o.init = init3;
    o.count = 127 * 4;
    o.run = [](uint64_t i) {
        char c = char(i % 127 + 1);
        std::string t = std::string("$'") + c + "'";
        if (i / 127 == 1) t = "x=" + t + "*2;x";
        if (i / 127 == 2) t = "sin(" + t + ")";
        if (i / 127 == 3) t = t + "+" + t;
        check_text(t, true);
        out_check("compiling or executing");
    };
    add(o);
    // decimal numbers: mantissa x exponent
    static const char* mant[] = {"1", "9", "1.5", ".5", "5.", "123456789", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "0.1", "0.3", "00.10", "9007199254740993", "3.14159265358979323846", "0", "123.456", "99999999999999999999"};
    Job m;
    m.name = "decimal";
    m.init = init3;
    m.count = 17 * (2 * 360 + 1) * 2;
    m.run = [](uint64_t i) {
        int e = int(i % 721) - 360;
        std::string s = mant[i / 721 % 17];
        std::string t = i / 721 / 17 ? strf("%se%+d", s.c_str(), e) : strf("%sE%d", s.c_str(), e);
        bool ok = ref::parse(t, duo.prog, duo.names);
        note("number %s", t.c_str());
        Handle h(duo.w.c, t);
        st_trace();
        if (!ok || !h) fail("is not accepted");
        F want = (F)strtod(t.c_str(), nullptr), got = h();
        if (!same(got, want)) fail("denotes %s, expected %s", show(got).c_str(), show(want).c_str());
        st_state(hash_bytes(&got, sizeof got));
        st_nontrivial();
    };
    add(m);
    // numbers of many digits: correctly rounded, wherever the point is
    static const int dlen[] = {7, 10, 15, 16, 17, 18, 19, 20, 22, 25, 30, 40, 80};
    Job dg;
    dg.name = "digits";
    dg.init = init3;
    dg.count = lim(2000, 10000, 100) * 13 * 5 * 3;
    dg.run = [](uint64_t i) {
        int l = dlen[i % 13], dot = int(i / 13 % 5), ex = int(i / 65 % 3);
        int pat = int(i / 195 * 7919 % 10000);
        std::string four = strf("%04d", pat), t;
        for (int k = 0; k < l; k++) t += four[k % 4];
        if (t[0] == '0') t[0] = '1';
        if (dot == 1) t.insert(1, ".");
        if (dot == 2) t.insert(l / 2, ".");
        if (dot == 3) t.insert(l - 1, ".");
        if (dot == 4) t = "." + t;
        if (ex) t += ex == 1 ? "e7" : "E-9";
        note("number %s", t.c_str());
        Handle h(duo.w.c, t);
        st_trace();
        if (!h) fail("is not accepted");
        F want = (F)strtod(t.c_str(), nullptr), got = h();
        if (!same(got, want)) fail("denotes %s, expected %s", show(got).c_str(), show(want).c_str());
        st_state(hash_bytes(&got, sizeof got));
        st_nontrivial();
    };
    add(dg);
    // hexadecimal numbers: all of up to 3 digits in two spellings, long ones
    Job x;
    x.name = "hex";
    x.init = init3;
    x.count = 4096 * 4 + 16 * 16;
    x.run = [](uint64_t i) {
        std::string t;
        uint64_t v;
        if (i < 4096 * 4)
        {
            v = i / 4;
            t = strf(i % 4 == 0 ? "$x%llx" : i % 4 == 1 ? "$X%llX" : i % 4 == 2 ? "$x%03llX" : "$X0000%llx", (unsigned long long)v);
        }
        else
        {
            i -= 4096 * 4;
            int len = i / 16 + 1;
            v = 0;
            for (int k = 0; k < len; k++) v = v * 16 + (i + k) % 16;
            t = strf("$x%0*llx", len, (unsigned long long)v);
        }
        note("number %s", t.c_str());
        Handle h(duo.w.c, t);
        st_trace();
        if (!h) fail("is not accepted");
        F got = h();
        if (!same(got, (F)v)) fail("denotes %s, expected %s", show(got).c_str(), show((F)v).c_str());
        st_state(v);
        st_nontrivial();
    };
    add(x);
    // every number after every other one, in two texts and in one: also those which differ only behind a long common beginning or in front of a long common end
    auto nl = std::make_shared<std::vector<std::string>>();
    for (auto n : {"0", "1", "2", "10", "11", "12", "21", "1.", "1.0", "1.5", ".5", ".15", "0.5", "05", "1e1", "1e2", "1e-1", "1E1", "11e1", "1.1e1", "1e10", "1e11", "e", "1e", "$x1", "$x10", "$x2", "$X1a", "$xa1", "$x1A", "$'a'", "$'b'", "$'1'", "$PI", "$E", "$PHI", "$pi", "123456", "123457", "1234567", "16777216", "16777217", "2147483647", "2147483648", "4294967296", "4294967295"}) nl->push_back(n);
    for (int z : {1, 2, 3, 7, 8, 14, 15, 16, 23, 24, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256})
    {
        std::string o(z, '0');
        for (auto e : {"1", "2", "1.5", "1e1", "1e2"}) nl->push_back(o + e);
        for (auto e : {"1", "2"}) { nl->push_back("." + o + e); nl->push_back(e + o); if (z < 15) nl->push_back("$x" + o + e); }
    }
    Job np;
    np.name = "numbers-pairs";
    np.init = init3;
    np.count = nl->size() * nl->size();
    np.run = [=](uint64_t i) {
        auto &p = (*nl)[i % nl->size()], &q = (*nl)[i / nl->size()];
        check_text(p, true);
        check_text(q, true);
        check_text("x=" + p + ";y=" + q + ";z=" + p + ";x-y", true);
        out_check("compiling or executing");
    };
    add(np);
    // separators between all tokens of realistic programs: one kind everywhere,
    // and every pair of kinds alternating; plus leading and trailing ones
    auto st = std::make_shared<std::vector<std::vector<std::string>>>(seed_tokens());
    Job s;
    s.name = "separators";
    s.init = init3;
    s.count = st->size() * NS3 * NS3 * 3;
    s.run = [=](uint64_t i) {
        auto& v = (*st)[i % st->size()];
        i /= st->size();
        const char* s1 = seps3[i % NS3];
        const char* s2 = seps3[i / NS3 % NS3];
        int kind = i / NS3 / NS3;
        std::string t = kind ? s2 : "";
        for (size_t k = 0; k < v.size(); k++) { if (k) t += k & 1 ? s1 : s2; t += v[k]; }
        if (kind == 2) t += s1;
        check_text(t, true);
        out_check("compiling or executing");
    };
    add(s);
    // a separator at one position only
    auto pos = std::make_shared<std::vector<std::pair<int, int>>>();
    for (size_t q = 0; q < st->size(); q++) for (size_t k = 0; k <= (*st)[q].size(); k++) pos->push_back({(int)q, (int)k});
    Job s1;
    s1.name = "separator";
    s1.init = init3;
    s1.count = pos->size() * NS3;
    s1.run = [=](uint64_t i) {
        auto p = (*pos)[i / NS3];
        auto& v = (*st)[p.first];
        std::string t;
        for (int k = 0; k <= (int)v.size(); k++)
        {
            if (k == p.second) t += seps3[i % NS3];
            if (k < (int)v.size()) t += v[k];
        }
        check_text(t, true);
        out_check("compiling or executing");
    };
    add(s1);
    scale::jobs("scale", scale::tokens(), scale::sizes(lim(300, 2100, 20), lim(40, 300, 2)), init3, [](const std::string& t) {
        duo.set(duo.var("a"), 3);
        duo.set(duo.var("e"), 7);
        duo.set(duo.var("x"), 11);
        check_text(t, true);
        out_check("compiling or executing");
    });
}

// =============================================================================
// C12
static const char* seps12[] = {" ", "\n", "\t", "\n  ", "/*c*/", "/* c\n */ ", "// c\n", "\r\n", " /*a*/ /*\n\n*/\n ", "\v\f"};
static const int NS12 = sizeof seps12 / sizeof *seps12;
static void check_error(const std::string& t)
{
    note("text %s", quote(t).c_str());
    bool ok = ref::parse(t, duo.prog, duo.names);
    if (duo.prog.lx.open_comment) { st_skip(); return; }
    int line = -77, col = -77;
    Handle h(duo.w.c, t);
    st_transitions();
    st_trace();
    const char* m = projectm_eval_get_error(duo.w.c, &line, &col);
    if ((bool)h != ok) fail(ok ? "valid text is rejected" : "invalid text is accepted");
    if (ok)
    {
        if (m && *m) fail("an error is reported although the compilation succeeded: %s", m);
        if (line != 0 || col != 0) { line = col = 0; }
        st_state(1);
        return;
    }
    if (!m || !*m) fail("the compilation fails without an error message");
    for (const char* c = m; *c; c++) if ((unsigned char)*c < 32 || (unsigned char)*c > 126) fail("the error message is not readable text: %s", quote(m).c_str());
    auto& lx = duo.prog.lx;
    auto& k = lx.toks[duo.prog.err_tok];
    if (k.t == ref::T_END)
    {
        int first = lx.toks.size() > 1 ? lx.toks[lx.toks.size() - 2].line : 1;
        if (line < first || line > k.line || col < 0) fail("error at the end of the text is reported in line %d column %d (%s), the last token is in line %d", line, col, m, first);
    }
    else if (line != k.line || col != k.col) fail("error is reported in line %d column %d (%s), expected line %d column %d", line, col, m, k.line, k.col);
    // all combinations of omitted results
    if (projectm_eval_get_error(duo.w.c, nullptr, nullptr) != m && strcmp(projectm_eval_get_error(duo.w.c, nullptr, nullptr), m)) fail("the message changes between queries");
    int l1 = -77, c1 = -77;
    projectm_eval_get_error(duo.w.c, &l1, nullptr);
    projectm_eval_get_error(duo.w.c, nullptr, &c1);
    if (l1 != line || c1 != col) fail("asked for one of them only, the error is in line %d, column %d, asked for both, in line %d column %d", l1, c1, line, col);
    st_state((uint64_t)line * 1000 + col + 7);
    st_nontrivial();
    st_sample(t + strf("   -> %d:%d %s", line, col, m));
}
static const char* alphabet12[] = {"aa","12","sin","atan2","gmem","(",")","[","]",",",";","+=","-","!","?",":","@"};
enum { NA12 = sizeof alphabet12 / sizeof *alphabet12 };
static void init12() { fresh(); int l = 5, c = 5; const char* m = projectm_eval_get_error(duo.w.c, &l, &c); if (m && *m) fail("a fresh context reports the error %s", m); }
static void visit12(const std::vector<int>& v, const std::string&)
{
    for (int s = 0; s < NS12; s++) check_error(join(alphabet12, v, seps12[s]));
    // something valid or invalid after the first error does not move it
    bool ok = ref::parse(join(alphabet12, v), duo.prog, duo.names);
    if (!ok && duo.prog.err != ref::E_EOF)
    {
        check_error(join(alphabet12, v) + "\n;aa;\n");
        check_error(join(alphabet12, v) + " @ ( ");
    }
    check_error("aa");
}
MODE(C12)
{
    viable_job("viable", alphabet12, NA12, lim(7, 8, 3), init12, visit12);
    // mixed separators: every assignment of separators to the gaps of short strings
    Job j;
    j.name = "layouts";
    j.init = init12;
    int n = 3;
    uint64_t strs = (uint64_t)NA12 * NA12 * NA12;
    j.count = strs * NS12 * NS12;
    j.run = [=](uint64_t i) {
        int s[2] = {int(i % NS12), int(i / NS12 % NS12)};
        i /= NS12 * NS12;
        std::string t = seps12[s[0]];
        for (int k = 0; k < n; k++) { if (k) t += seps12[s[k & 1]]; t += alphabet12[i % NA12]; i /= NA12; }
        check_error(t);
    };
    add(j);
    // wrong argument counts
    Job a;
    a.name = "arity";
    a.init = init12;
    a.count = (uint64_t)ref::nbuiltins * 6 * NS12 * 3;
    a.run = [](uint64_t i) {
        auto& b = ref::builtins[i % ref::nbuiltins];
        i /= ref::nbuiltins;
        int n = i % 6;
        i /= 6;
        std::string sep = seps12[i % NS12];
        i /= NS12;
        std::string call = std::string(b.name) + (i == 1 ? sep : "") + "(" + sep;
        for (int k = 0; k < n; k++) call += (k ? "," + sep : std::string()) + "a";
        call += sep + ")";
        check_error(i == 2 ? "aa=1;" + sep + "sin(" + sep + call + sep + ")" : "aa=1" + sep + ";" + sep + call + ";bb");
        check_error("aa=bb");
    };
    add(a);
    // histories of failing and succeeding compilations in one context
    static const char* hist[] = {"a=1", "a=", "\n\n a=@", "sin(1,2)", "", "x=\n(1;\n  )y", "1 2", "a;b;"};
    Job hj;
    hj.name = "histories";
    hj.init = init12;
    hj.count = 1ull << 3 * lim(5, 6, 3);
    hj.run = [](uint64_t i) {
        int n = lim(5, 6, 3);
        for (int k = 0; k < n; k++) { check_error(hist[i % 8]); i /= 8; }
    };
    add(hj);
    add_reused(hj);
    scale::jobs("scale", scale::errors(), scale::sizes(lim(140, 1100, 20), lim(2, 20, 2)), init12, [](const std::string& t) { check_error(t); });
}

// =============================================================================
// C13
static const char* alphabet13[] = {"a","nv","3","loop","while","memset","gmem","rand","(",")","[","]",",",";","=","+=","@"};
enum { NA13 = sizeof alphabet13 / sizeof *alphabet13 };
static char* page13;
static long psz13;
static Code* probe13;
static Ctx* other13;
static F* otherv13;
static void init13()
{
    fresh();
    duo.var("a");
    duo.var("b");
    psz13 = sysconf(_SC_PAGESIZE);
    page13 = (char*)mmap(nullptr, psz13 * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(page13 + psz13 * 2, psz13, PROT_NONE);
    probe13 = projectm_eval_code_compile(duo.w.c, "a*10000+b*1000+megabuf(0)*100+megabuf(3)*10+gmem[0]+reg03/10+gmem[3]/100");
    other13 = projectm_eval_context_create(duo.w.gm, nullptr);
    otherv13 = projectm_eval_context_register_variable(other13, "a");
    if (!probe13 || !other13 || !otherv13) fail("setup fails");
    *otherv13 = 42;
    duo.set(duo.var("a"), 7);
    duo.set(duo.var("b"), 4);
    for (int i = 0; i < 5; i++) { duo.slot(false, i, F(i + 1)); duo.slot(true, i, F(5 - i)); }
    duo.set(3, 8);
    duo.set(0, 6);
}
static void compile13(const std::string& t, bool scan)
{
    note("compiling %s", quote(t).c_str());
    F want = 7 * F(10000) + 4 * F(1000) + 1 * F(100) + 4 * F(10) + 5 + F(8) / 10 + F(2) / 100;
    // the text ends right before an inaccessible page and is read-only
    char* s = page13 + psz13 * 2 - t.size() - 1;
    mprotect(page13, psz13 * 2, PROT_READ | PROT_WRITE);
    memcpy(s, t.c_str(), t.size() + 1);
    mprotect(page13, psz13 * 2, PROT_READ);
    bool ok = ref::parse(t, duo.prog, duo.names);
    if (duo.prog.lx.open_comment) { st_skip(); return; }
    {
        Handle h(duo.w.c, s);
        lock_idle("compilation");
        st_transitions();
        st_trace();
        if ((bool)h != ok) fail(ok ? "valid text is rejected" : "invalid text is accepted");
        mprotect(page13, psz13 * 2, PROT_READ | PROT_WRITE);
        memset(s, '@', t.size());   // the text is not needed any more
        duo.sync_names();           // new variables: the model expects 0
        std::string how;
        if (duo.differs(how, scan)) fail("after the compilation %s", how.c_str());
        if (*otherv13 != 42) fail("the compilation changes a variable of another context");
        F got = projectm_eval_code_execute(probe13);
        if (!close_to(got, want)) fail("a program compiled earlier yields %s, expected %s", show(got).c_str(), show(want).c_str());
        // executing does not need the text, and works as if compiled just now
        if (ok && !duo.prog.uses_rand)
        {
            duo.budget = 300;
            F res = duo.ev.run(duo.prog, duo.st, duo.budget);
            if (!duo.ev.over)
            {
                F r = h();
                std::string how2;
                if (!duo.ev.vague && (!close_to(r, res) || duo.differs(how2, false, false))) fail("executed after the text is gone: result %s, expected %s %s", show(r).c_str(), show(res).c_str(), how2.c_str());
            }
            // restore
            duo.reset();
            duo.set(duo.var("a"), 7);
            duo.set(duo.var("b"), 4);
            for (int i = 0; i < 5; i++) { duo.slot(false, i, F(i + 1)); duo.slot(true, i, F(5 - i)); }
            duo.set(3, 8);
            duo.set(0, 6);
            st_nontrivial();
            st_state(hash_bytes(&res, sizeof res));
        }
    }
    st_sample(t);
}
static void visit13(const std::vector<int>& v, const std::string& t)
{
    // `while` and `loop` over constants run at compile time: bounded, but long
    compile13(t, (v.size() <= 4));
}
MODE(C13)
{
    viable_job("viable", alphabet13, NA13, lim(7, 8, 3), init13, visit13);
    static std::vector<fam::Fam> fams = fam::families();
    static const size_t fz[] = {1, 2, 30, 64, 100, 128, 198, 257, 400, 1030, 5000, 11000, 20000};
    static char* area;
    static const size_t amax = 4 << 20;
    Job fm;
    fm.name = "families";
    fm.init = [] {
        init13();
        area = (char*)mmap(nullptr, amax + psz13, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(area + amax, psz13, PROT_NONE);
    };
    fm.count = fams.size() * (sizeof fz / sizeof *fz);
    fm.chunk = 12;
    fm.hang_cpu = 100;
    fm.run = [](uint64_t i) {
        const fam::Fam& f = fams[i % fams.size()];
        size_t z = fz[i / fams.size()];
        if (z > f.max || (z > 1100 && i % 3 && !thorough)) return;
        std::string t = f.f(z);
        if (t.size() + 1 > amax) return;
        note("compiling family %s, size %zu: %s", f.name, z, quote(t).c_str());
        char* s = area + amax - t.size() - 1;
        mprotect(area, amax, PROT_READ | PROT_WRITE);
        memcpy(s, t.c_str(), t.size() + 1);
        mprotect(area, amax, PROT_READ);
        Handle h(duo.w.c, s);
        lock_idle("compilation");
        st_transitions();
        st_trace();
        mprotect(area, amax, PROT_READ | PROT_WRITE);
        memset(s, '@', t.size());
        std::string how;
        if (duo.differs(how, true)) fail("after the compilation %s", how.c_str());
        if (*otherv13 != 42) fail("the compilation changes a variable of another context");
        F want = 7 * F(10000) + 4 * F(1000) + 1 * F(100) + 4 * F(10) + 5 + F(8) / 10 + F(2) / 100, got = projectm_eval_code_execute(probe13);
        if (!close_to(got, want)) fail("a program compiled earlier yields %s, expected %s", show(got).c_str(), show(want).c_str());
        st_nontrivial((bool)h);
        st_state(i);
    };
    add(fm);
    static const char* progs[] = {
        "a=5", "a+=1;b-=1", "megabuf(3)=9", "gmem[3]=9", "3[]=1;4[0]=2", "reg03=1;reg00=2", "memset(0,9,5)", "memcpy(0,1,4)", "loop(10,a=a+1)", "while(exec2(a=a-1,a))",
        "if(1,a=1,b=1)", "1?a=1:(b=1)", "exec2(a=1,b=2)", "exec3(a=1,b=2,3)", "sin(a=1)", "freembuf(0)", "freembuf(a)", "assign(a,3)", "_set(a,3)", "a=1;2;3", "(a=1;2);3", "1;(2;a=3);4",
        "0&&(a=1)", "1||(b=1)", "1&&(a=1)", "0||(b=1)", "_and(1,a=0)", "_or(0,a=0)", "megabuf(megabuf(0)=3)=4", "gmegabuf(70000)=1", "megabuf(8388607)=1", "fresh1+fresh2", "fresh3=fresh4", "REG03=B=A=0",
        "loop(3,loop(3,megabuf(a=a+1)=1))", "a=rand(10)", "rand(1)", "memset(-5,1,10)", "memset(0,0,1000)", "memcpy(65530,0,10)", "5=6", "(5)+=6", "a=(b=3;1;2)", "-(a=1)", "!(a=1)", "a=b=1=2",
    };
    static const char* wrap[] = {"%s", "%s;", "1;%s;2", "(%s)", "sin(%s)", "if(0,%s,0)", "if(1,%s,1)", "loop(2,%s)", "exec2(%s,1)", "exec2(1,%s)", "%s +", "%s)", "(%s", "@%s", "%s@", "sin(%s,1)", "x=%s", "(1;%s;2)+1"};
    static const int NP = sizeof progs / sizeof *progs, NW = sizeof wrap / sizeof *wrap;
    Job j;
    j.name = "programs";
    j.init = init13;
    j.count = NP * NW * NW;
    j.run = [](uint64_t i) {
        std::string t = progs[i % NP];
        for (int k = 0; k < 2; k++)
        {
            std::string w = wrap[k ? i / NP / NW : i / NP % NW];
            size_t p = w.find("%s");
            t = w.substr(0, p) + t + w.substr(p + 2);
        }
        compile13(t, true);
    };
    add(j);
    // whatever the variables, registers and slots hold, compiling leaves every bit of it alone
    static const double contents[] = {NAN, INFINITY, -INFINITY, -0.0, 5e-324, 1e-40, 1e300, -1e30, 2147483648.0, 9007199254740993.0, 1e-6, 3, 0};
    static const int NC = sizeof contents / sizeof *contents;
    Job q;
    q.name = "contents";
    q.init = init13;
    q.count = (NP + 4) * NW * NC * 2;
    q.run = [](uint64_t i) {
        bool neg = i & 1;
        i >>= 1;
        F x = (F)contents[i % NC];
        if (neg) x = -x;
        i /= NC;
        static const char* more[] = {"a", "a;b", "reg03+megabuf(1)", "nv13=a"};
        int k = i % (NP + 4);
        std::string t = k < NP ? progs[k] : more[k - NP], w = wrap[i / (NP + 4)];
        size_t p = w.find("%s");
        t = w.substr(0, p) + t + w.substr(p + 2);
        if (!ref::parse(t, duo.prog, duo.names) && duo.prog.lx.open_comment) { st_skip(); return; }
        note("compiling %s, everything holds %s", quote(t).c_str(), show(x).c_str());
        std::vector<F*> at;
        for (auto n : {"a", "b", "x", "reg00", "reg03", "reg99"}) at.push_back(projectm_eval_context_register_variable(duo.w.c, n));
        at.push_back(otherv13);
        std::string text;
        std::vector<F> old;
        for (auto p : at) { old.push_back(*p); *p = x; }
        // a program writing x into slots, through its variable
        static Code* put, *get[4];
        static Ctx* of;
        if (of != duo.w.c)
        {
            of = duo.w.c;
            put = projectm_eval_code_compile(of, "memset(0,x,5);n13=0;loop(5,gmem[n13]=x;n13+=1)");
            const char* g[] = {"megabuf(1)", "megabuf(4)", "gmem[0]", "gmem[4]"};
            for (int k = 0; k < 4; k++) get[k] = projectm_eval_code_compile(of, g[k]);
            if (!put) fail("does not compile");
        }
        projectm_eval_code_execute(put);
        F* n13 = projectm_eval_context_register_variable(duo.w.c, "n13");
        auto bad = [&](F v) { return memcmp(&v, &x, sizeof(F)) && !(v != v && x != x); };
        F slots[4];
        for (int k = 0; k < 4; k++) slots[k] = projectm_eval_code_execute(get[k]);
        for (int k = 0; k < 2; k++)
        {
            Handle h(duo.w.c, t);
            for (auto p : at) if (bad(*p)) fail("the compilation changes a variable to %s", show(*p).c_str());
            for (int k = 0; k < 4; k++)
            {
                F v = projectm_eval_code_execute(get[k]);
                if (!same(v, slots[k])) fail("the compilation changes a slot from %s to %s", show(slots[k]).c_str(), show(v).c_str());
            }
            st_trace();
        }
        for (size_t k = 0; k < at.size(); k++) *at[k] = old[k];
        *n13 = 0;
        duo.sync_names();
        duo.adopt();
        duo.reset();
        duo.set(duo.var("a"), 7);
        duo.set(duo.var("b"), 4);
        for (int i = 0; i < 5; i++) { duo.slot(false, i, F(i + 1)); duo.slot(true, i, F(5 - i)); }
        duo.set(3, 8);
        duo.set(0, 6);
        st_nontrivial();
        st_state(i * 31 + neg);
    };
    add(q);
    // all strings of odd characters, and every byte, at several places of a program
    static const char odd[] = "a \v\f\r\t\n;1A/*.$'";
    Job c;
    c.name = "characters";
    c.init = init13;
    int no = sizeof odd - 1, len = lim(4, 5, 3);
    uint64_t total = 0, p = 1;
    for (int l = 0; l <= len; l++, p *= no) total += p;
    c.count = total;
    c.run = [=](uint64_t i) {
        std::string t;
        uint64_t p = 1;
        for (int l = 0; l <= len; l++, p *= no)
        {
            if (i >= p) { i -= p; continue; }
            for (int q = 0; q < l; q++) { t += odd[i % no]; i /= no; }
            break;
        }
        compile13(t, false);
    };
    add(c);
    static const char* around[][2] = {{"", ""}, {"a=b", "+1"}, {"a=1", ""}, {"", "a"}, {"/*", "*/a=2"}, {"//", "\na=3"}, {"A=", ";B=1"}, {"$'", "'"}, {"reg0", "=2"}, {"sin(", ",1)"}, {"a ", " =1"}};
    Job b;
    b.name = "bytes";
    b.init = init13;
    b.count = 255 * 255 * 11;
    b.run = [](uint64_t i) {
        unsigned char x = i % 255 + 1, y = i / 255 % 255 + 1;
        auto& w = around[i / 255 / 255];
        std::string t = w[0];
        t += (char)x;
        if (y != 255) t += (char)y;
        compile13(t + w[1], false);
    };
    add(b);
}
