// Reference model: an independent lexer, precedence-climbing parser and
// evaluator of the documented language. It shares no code with the library.
#pragma once
#include "vf.hpp"
#include <random>
#include <unordered_map>
#include <algorithm>
#include <climits>

namespace ref {

// ---- built-ins ---------------------------------------------------------------
enum Op {
    O_CONST, O_VAR, O_LIST,
    O_IF, O_AND, O_OR, O_LOOP, O_WHILE, O_NOT, O_EQ, O_NE, O_LT, O_GT, O_LE, O_GE,
    O_SET, O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_MULOP, O_DIVOP, O_OROP, O_ANDOP, O_ADDOP, O_SUBOP, O_MODOP, O_POWOP,
    O_SIN, O_COS, O_TAN, O_ASIN, O_ACOS, O_ATAN, O_ATAN2, O_SQR, O_SQRT, O_POW, O_EXP, O_NEG,
    O_LOG, O_LOG10, O_ABS, O_MIN, O_MAX, O_SIGN, O_RAND, O_FLOOR, O_CEIL, O_INVSQRT, O_SIGMOID, O_BAND, O_BOR,
    O_EXEC2, O_EXEC3, O_MEM, O_GMEM, O_FREEMBUF, O_MEMCPY, O_MEMSET, O_BITAND, O_BITOR
};
struct Builtin { const char* name; int arity; Op op; };
static const Builtin builtins[] = {
    {"if",3,O_IF},{"_if",3,O_IF},{"_and",2,O_AND},{"_or",2,O_OR},{"loop",2,O_LOOP},{"while",1,O_WHILE},
    {"_not",1,O_NOT},{"bnot",1,O_NOT},{"_equal",2,O_EQ},{"equal",2,O_EQ},{"_noteq",2,O_NE},{"_below",2,O_LT},{"below",2,O_LT},
    {"_above",2,O_GT},{"above",2,O_GT},{"_beleq",2,O_LE},{"_aboeq",2,O_GE},{"_set",2,O_SET},{"assign",2,O_SET},
    {"_add",2,O_ADD},{"_sub",2,O_SUB},{"_mul",2,O_MUL},{"_div",2,O_DIV},{"_mod",2,O_MOD},{"_mulop",2,O_MULOP},{"_divop",2,O_DIVOP},
    {"_orop",2,O_OROP},{"_andop",2,O_ANDOP},{"_addop",2,O_ADDOP},{"_subop",2,O_SUBOP},{"_modop",2,O_MODOP},{"_powop",2,O_POWOP},
    {"sin",1,O_SIN},{"cos",1,O_COS},{"tan",1,O_TAN},{"asin",1,O_ASIN},{"acos",1,O_ACOS},{"atan",1,O_ATAN},{"atan2",2,O_ATAN2},
    {"sqr",1,O_SQR},{"sqrt",1,O_SQRT},{"pow",2,O_POW},{"exp",1,O_EXP},{"_neg",1,O_NEG},{"log",1,O_LOG},{"log10",1,O_LOG10},
    {"abs",1,O_ABS},{"min",2,O_MIN},{"max",2,O_MAX},{"sign",1,O_SIGN},{"rand",1,O_RAND},{"floor",1,O_FLOOR},{"int",1,O_FLOOR},
    {"ceil",1,O_CEIL},{"invsqrt",1,O_INVSQRT},{"sigmoid",2,O_SIGMOID},{"band",2,O_BAND},{"bor",2,O_BOR},{"exec2",2,O_EXEC2},
    {"exec3",3,O_EXEC3},{"_mem",1,O_MEM},{"megabuf",1,O_MEM},{"_gmem",1,O_GMEM},{"gmegabuf",1,O_GMEM},{"freembuf",1,O_FREEMBUF},
    {"memcpy",3,O_MEMCPY},{"memset",3,O_MEMSET},
};
static const int nbuiltins = sizeof builtins / sizeof *builtins;
inline char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline std::string lower(std::string s) { for (auto& c : s) c = low(c); return s; }
inline const Builtin* find_builtin(const std::string& name)
{
    static std::unordered_map<std::string, const Builtin*> m;
    if (m.empty()) for (auto& b : builtins) m[b.name] = &b;
    auto it = m.find(lower(name));
    return it == m.end() ? nullptr : it->second;
}

// ---- lexer ---------------------------------------------------------------------
enum Tok { T_END, T_BAD, T_NUM, T_VAR, T_FUNC, T_GMEM,
    T_ASSIGN, T_ADDOP, T_SUBOP, T_MULOP, T_DIVOP, T_MODOP, T_POWOP, T_OROP, T_ANDOP,
    T_QUEST, T_COLON, T_OROR, T_ANDAND, T_PIPE, T_AMP, T_EQ, T_NE, T_GT, T_GE, T_LT, T_LE,
    T_PLUS, T_MINUS, T_STAR, T_SLASH, T_PERCENT, T_NOT, T_CARET,
    T_LPAR, T_RPAR, T_LBRK, T_RBRK, T_COMMA, T_SEMI };
struct Token { int t; F num; std::string name; const Builtin* fn; int line, col; };

inline bool isdig(char c) { return c >= '0' && c <= '9'; }
inline bool isnam0(char c) { return c == '_' || (low(c) >= 'a' && low(c) <= 'z'); }
inline bool ishex(char c) { return isdig(c) || (low(c) >= 'a' && low(c) <= 'f'); }

struct Lexed { std::vector<Token> toks; bool open_comment = false; bool odd_ordinal = false; bool big_hex = false; };

inline void lex(const std::string& s, Lexed& out)
{
    auto& v = out.toks;
    v.clear();
    out.open_comment = out.odd_ordinal = out.big_hex = false;
    size_t i = 0, n = s.size();
    int line = 1;
    size_t bol = 0;
    auto at = [&](size_t k) -> char { return k < n ? s[k] : '\0'; };
    while (i < n)
    {
        char c = s[i];
        if (c == '\n') { i++; line++; bol = i; continue; }
        if (c == ' ' || c == '\r' || c == '\t' || c == '\v' || c == '\f') { i++; continue; }
        if (c == '/' && at(i + 1) == '/')
        {
            i += 2;
            while (i < n && s[i] != '\n') i++;
            continue;
        }
        if (c == '/' && at(i + 1) == '*')
        {
            i += 2;
            bool closed = false;
            while (i < n)
            {
                if (s[i] == '*' && at(i + 1) == '/') { i += 2; closed = true; break; }
                if (s[i] == '\n') { line++; bol = i + 1; }
                i++;
            }
            if (!closed) out.open_comment = true;
            continue;
        }
        Token t;
        t.t = T_BAD;
        t.num = 0;
        t.fn = nullptr;
        t.line = line;
        t.col = int(i - bol);
        if (isdig(c) || (c == '.' && isdig(at(i + 1))))
        {
            size_t k = i;
            while (isdig(at(k))) k++;
            if (at(k) == '.') { k++; while (isdig(at(k))) k++; }
            if (low(at(k)) == 'e')
            {
                size_t q = k + 1;
                if (at(q) == '+' || at(q) == '-') q++;
                if (isdig(at(q))) { while (isdig(at(q))) q++; k = q; }
            }
            t.t = T_NUM;
            t.num = (F)strtod(s.substr(i, k - i).c_str(), nullptr);
            i = k;
        }
        else if (isnam0(c))
        {
            size_t k = i;
            while (isnam0(at(k)) || isdig(at(k))) k++;
            t.name = s.substr(i, k - i);
            i = k;
            if (lower(t.name) == "gmem") t.t = T_GMEM;
            else if ((t.fn = find_builtin(t.name))) t.t = T_FUNC;
            else t.t = T_VAR;
        }
        else if (c == '$')
        {
            char d = low(at(i + 1));
            if (d == 'x' && ishex(at(i + 2)))
            {
                size_t k = i + 2;
                double val = 0;
                unsigned long u = 0;
                int digits = 0;
                while (ishex(at(k)))
                {
                    int h = isdig(at(k)) ? at(k) - '0' : low(at(k)) - 'a' + 10;
                    u = u * 16 + h;
                    if (u || digits) digits++;
                    k++;
                }
                val = (double)u;
                if (digits > 16) out.big_hex = true;
                t.t = T_NUM;
                t.num = (F)u;
                (void)val;
                i = k;
            }
            else if (d == '\'' && i + 3 < n && s[i + 2] != '\n' && s[i + 3] == '\'')
            {
                t.t = T_NUM;
                t.num = (F)s[i + 2];
                if ((unsigned char)s[i + 2] >= 128) out.odd_ordinal = true;
                i += 4;
            }
            else if (d == 'p' && low(at(i + 2)) == 'i') { t.t = T_NUM; t.num = (F)3.141592653589793; i += 3; }
            else if (d == 'p' && low(at(i + 2)) == 'h' && low(at(i + 3)) == 'i') { t.t = T_NUM; t.num = (F)1.61803399; i += 4; }
            else if (d == 'e') { t.t = T_NUM; t.num = (F)2.71828183; i += 2; }
            else i++;
        }
        else
        {
            char d = at(i + 1);
            auto two = [&](char e, int t2, int t1) { if (d == e) { t.t = t2; i += 2; } else { t.t = t1; i += 1; } };
            switch (c)
            {
            case '+': two('=', T_ADDOP, T_PLUS); break;
            case '-': two('=', T_SUBOP, T_MINUS); break;
            case '*': two('=', T_MULOP, T_STAR); break;
            case '/': two('=', T_DIVOP, T_SLASH); break;
            case '%': two('=', T_MODOP, T_PERCENT); break;
            case '^': two('=', T_POWOP, T_CARET); break;
            case '|': if (d == '|') { t.t = T_OROR; i += 2; } else two('=', T_OROP, T_PIPE); break;
            case '&': if (d == '&') { t.t = T_ANDAND; i += 2; } else two('=', T_ANDOP, T_AMP); break;
            case '=': two('=', T_EQ, T_ASSIGN); break;
            case '!': two('=', T_NE, T_NOT); break;
            case '<': two('=', T_LE, T_LT); break;
            case '>': two('=', T_GE, T_GT); break;
            case '?': t.t = T_QUEST; i++; break;
            case ':': t.t = T_COLON; i++; break;
            case '(': t.t = T_LPAR; i++; break;
            case ')': t.t = T_RPAR; i++; break;
            case '[': t.t = T_LBRK; i++; break;
            case ']': t.t = T_RBRK; i++; break;
            case ',': t.t = T_COMMA; i++; break;
            case ';': t.t = T_SEMI; i++; break;
            default: i++;
            }
        }
        v.push_back(t);
    }
    Token e;
    e.t = T_END;
    e.num = 0;
    e.fn = nullptr;
    e.line = line;
    e.col = int(n - bol);
    v.push_back(e);
}

// ---- syntax tree ----------------------------------------------------------------
struct Node { Op op; F num; int var; bool infix; int na; int a[3]; std::vector<int> items; };
enum Err { E_NONE, E_SYNTAX, E_ARITY, E_EOF };

enum { P_UNARY = 18, P_NOT = 16, P_TERN = 5 };
struct BinInfo { int prec; bool right; Op op; };
inline BinInfo bininfo(int t)
{
    switch (t)
    {
    case T_ASSIGN: return {1, true, O_SET};
    case T_ADDOP: return {2, true, O_ADDOP};
    case T_SUBOP: return {2, true, O_SUBOP};
    case T_MULOP: return {3, true, O_MULOP};
    case T_DIVOP: return {3, true, O_DIVOP};
    case T_MODOP: return {3, true, O_MODOP};
    case T_POWOP: return {4, true, O_POWOP};
    case T_OROP: return {4, true, O_OROP};
    case T_ANDOP: return {4, true, O_ANDOP};
    case T_OROR: return {6, false, O_OR};
    case T_ANDAND: return {7, false, O_AND};
    case T_PIPE: return {8, false, O_BITOR};
    case T_AMP: return {9, false, O_BITAND};
    case T_EQ: return {10, false, O_EQ};
    case T_NE: return {10, false, O_NE};
    case T_GT: return {11, false, O_GT};
    case T_GE: return {11, false, O_GE};
    case T_LT: return {12, false, O_LT};
    case T_LE: return {12, false, O_LE};
    case T_PLUS: return {13, false, O_ADD};
    case T_MINUS: return {13, false, O_SUB};
    case T_STAR: return {14, false, O_MUL};
    case T_SLASH: return {14, false, O_DIV};
    case T_PERCENT: return {15, false, O_MOD};
    case T_CARET: return {17, false, O_POW};
    }
    return {0, false, O_CONST};
}
inline const char* opsym(Op op)
{
    switch (op)
    {
    case O_SET: return "="; case O_ADDOP: return "+="; case O_SUBOP: return "-="; case O_MULOP: return "*="; case O_DIVOP: return "/=";
    case O_MODOP: return "%="; case O_POWOP: return "^="; case O_OROP: return "|="; case O_ANDOP: return "&="; case O_OR: return "||";
    case O_AND: return "&&"; case O_BITOR: return "|"; case O_BITAND: return "&"; case O_EQ: return "=="; case O_NE: return "!=";
    case O_GT: return ">"; case O_GE: return ">="; case O_LT: return "<"; case O_LE: return "<="; case O_ADD: return "+"; case O_SUB: return "-";
    case O_MUL: return "*"; case O_DIV: return "/"; case O_MOD: return "%"; case O_POW: return "^"; default: return nullptr;
    }
}

// Names -> storage of one context.
struct Vars {
    std::vector<std::string> names;
    std::unordered_map<std::string, int> idx;
    // 0..99: registers; 100+: variables
    int get(const std::string& nm)
    {
        std::string n = lower(nm);
        if (n.size() == 5 && n[0] == 'r' && n[1] == 'e' && n[2] == 'g' && isdig(n[3]) && isdig(n[4])) return (n[3] - '0') * 10 + n[4] - '0';
        auto it = idx.find(n);
        if (it != idx.end()) return it->second;
        int i = 100 + (int)names.size();
        names.push_back(n);
        idx[n] = i;
        return i;
    }
};

struct Program {
    std::vector<Node> nodes;
    int nn = 0;      // used nodes (the vector is recycled)
    int root = -1;   // -1: empty program
    Err err = E_NONE;
    int err_tok = 0;
    Lexed lx;
    bool uses_rand = false;
};

struct Parser {
    Program& p;
    Vars& vars;
    size_t i = 0;
    Parser(Program& p_, Vars& v) : p(p_), vars(v) {}
    int tk() { return p.lx.toks[i].t; }
    bool error(Err e, size_t at)
    {
        if (p.err == E_NONE) { p.err = (e == E_SYNTAX && p.lx.toks[at].t == T_END) ? E_EOF : e; p.err_tok = (int)at; }
        return false;
    }
    bool expect(int t) { if (tk() != t) return error(E_SYNTAX, i); i++; return true; }
    int mk(Op op, int na = 0, int a = -1, int b = -1, int c = -1, bool infix = false)
    {
        if (p.nn == (int)p.nodes.size()) p.nodes.emplace_back();
        Node& n = p.nodes[p.nn];
        n.op = op;
        n.num = 0;
        n.var = -1;
        n.infix = infix;
        n.na = na;
        n.a[0] = a;
        n.a[1] = b;
        n.a[2] = c;
        n.items.clear();
        return p.nn++;
    }
    static bool starts(int t) { return t == T_NUM || t == T_VAR || t == T_FUNC || t == T_GMEM || t == T_LPAR || t == T_MINUS || t == T_PLUS || t == T_NOT; }
    bool list(int& out)
    {
        int first;
        if (!expr(0, first)) return false;
        int lst = -1;
        while (tk() == T_SEMI)
        {
            i++;
            if (tk() == T_LPAR && p.lx.toks[i + 1].t == T_RPAR) { i += 2; continue; }
            if (!starts(tk())) continue;
            int e;
            if (!expr(0, e)) return false;
            if (lst < 0) { lst = mk(O_LIST); p.nodes[lst].items.push_back(first); }
            p.nodes[lst].items.push_back(e);
        }
        out = lst < 0 ? first : lst;
        return true;
    }
    bool expr(int minp, int& out)
    {
        int l;
        size_t at = i;
        switch (tk())
        {
        case T_NUM: l = mk(O_CONST); p.nodes[l].num = p.lx.toks[i].num; i++; break;
        case T_VAR: l = mk(O_VAR); p.nodes[l].var = vars.get(p.lx.toks[i].name); i++; break;
        case T_FUNC:
        {
            const Builtin* b = p.lx.toks[i].fn;
            i++;
            if (!expect(T_LPAR)) return false;
            int a[3] = {-1, -1, -1}, n = 0;
            for (;;)
            {
                int e;
                if (!list(e)) return false;
                if (n < 3) a[n] = e;
                n++;
                if (tk() != T_COMMA) break;
                i++;
            }
            if (!expect(T_RPAR)) return false;
            if (n != b->arity) return error(E_ARITY, at);
            if (b->op == O_RAND) p.uses_rand = true;
            l = mk(b->op, n, a[0], a[1], a[2]);
            break;
        }
        case T_GMEM:
        {
            i++;
            if (!expect(T_LBRK)) return false;
            int e;
            if (tk() == T_RBRK) { e = mk(O_CONST); }
            else if (!expr(0, e)) return false;
            if (!expect(T_RBRK)) return false;
            l = mk(O_GMEM, 1, e);
            break;
        }
        case T_LPAR:
            i++;
            if (!list(l)) return false;
            if (!expect(T_RPAR)) return false;
            break;
        case T_MINUS:
        {
            i++;
            int e;
            if (!expr(P_UNARY, e)) return false;
            l = mk(O_NEG, 1, e, -1, -1, true);
            break;
        }
        case T_PLUS:
            i++;
            if (!expr(P_UNARY, l)) return false;
            break;
        case T_NOT:
        {
            i++;
            int e;
            if (!expr(P_NOT, e)) return false;
            l = mk(O_NOT, 1, e, -1, -1, true);
            break;
        }
        default: return error(E_SYNTAX, i);
        }
        for (;;)
        {
            int t = tk();
            if (t == T_LBRK)
            {
                i++;
                if (tk() == T_RBRK) { i++; l = mk(O_MEM, 1, l); continue; }
                int e;
                if (!expr(0, e)) return false;
                if (!expect(T_RBRK)) return false;
                int s = mk(O_ADD, 2, l, e, -1, true);
                l = mk(O_MEM, 1, s);
                continue;
            }
            if (t == T_QUEST)
            {
                if (P_TERN < minp) break;
                i++;
                int m, r;
                if (!expr(0, m)) return false;
                if (!expect(T_COLON)) return false;
                if (!expr(P_TERN, r)) return false;
                l = mk(O_IF, 3, l, m, r, true);
                continue;
            }
            BinInfo b = bininfo(t);
            if (!b.prec || b.prec < minp) break;
            i++;
            int r;
            if (!expr(b.right ? b.prec : b.prec + 1, r)) return false;
            l = mk(b.op, 2, l, r, -1, true);
        }
        out = l;
        return true;
    }
    void program()
    {
        if (tk() == T_END) return;
        int l;
        if (!list(l)) return;
        if (tk() != T_END) { error(E_SYNTAX, i); return; }
        p.root = l;
    }
};
inline bool parse(const std::string& s, Program& p, Vars& v)
{
    p.nn = 0;
    p.root = -1;
    p.err = E_NONE;
    p.err_tok = 0;
    p.uses_rand = false;
    lex(s, p.lx);
    Parser ps(p, v);
    ps.program();
    return p.err == E_NONE;
}

// Fully parenthesised text of a tree (operators stay operators).
inline void unparse(const Program& p, const Vars& v, int n, std::string& o)
{
    const Node& d = p.nodes[n];
    auto sub = [&](int k) { o += '('; unparse(p, v, k, o); o += ')'; };
    if (d.op == O_CONST) { o += vf::strf("%.17g", (double)d.num); return; }
    if (d.op == O_VAR) { o += d.var < 100 ? vf::strf("reg%02d", d.var) : v.names[d.var - 100]; return; }
    if (d.op == O_LIST) { for (size_t k = 0; k < d.items.size(); k++) { if (k) o += ';'; sub(d.items[k]); } return; }
    if (d.infix)
    {
        if (d.op == O_NEG) { o += '-'; sub(d.a[0]); return; }
        if (d.op == O_NOT) { o += '!'; sub(d.a[0]); return; }
        if (d.op == O_IF) { sub(d.a[0]); o += '?'; sub(d.a[1]); o += ':'; sub(d.a[2]); return; }
        sub(d.a[0]);
        o += opsym(d.op);
        sub(d.a[1]);
        return;
    }
    if (d.op == O_MEM && d.na == 1) { o += "megabuf("; unparse(p, v, d.a[0], o); o += ')'; return; }
    if (d.op == O_GMEM) { o += "gmegabuf("; unparse(p, v, d.a[0], o); o += ')'; return; }
    for (auto& b : builtins) if (b.op == d.op) { o += b.name; break; }
    o += '(';
    for (int k = 0; k < d.na; k++) { if (k) o += ','; unparse(p, v, d.a[k], o); }
    o += ')';
}

// ---- state and evaluation ---------------------------------------------------------
struct Mem {
    std::unordered_map<int, F> m;
    F* at(int i) { touch(i, i + 1L); return &m.emplace(i, F(0)).first->second; }
    // blocks of 65536 slots that were accessed
    uint64_t touched[2] = {0, 0};
    void touch(long lo, long hi) { for (long b = lo >> 16; b <= (hi - 1) >> 16; b++) touched[b >> 6] |= 1ull << (b & 63); }
    int ntouched() const { return __builtin_popcountll(touched[0]) + __builtin_popcountll(touched[1]); }
    // Simulated allocation failures: blocks come into existence with the first
    // access while none are failing.
    bool faulty = false;
    uint64_t blocks[2] = {0, 0};
    uint64_t attempts = 0, ffrom = 0, fto = 0;
    F* access(int i) { return !faulty || have(i >> 16) ? at(i) : nullptr; }
    bool has(int b) const { return blocks[b >> 6] >> (b & 63) & 1; }
    bool have(int b)
    {
        if (has(b)) return true;
        uint64_t k = attempts++;
        if (k >= ffrom && k < fto) return false;
        blocks[b >> 6] |= 1ull << (b & 63);
        return true;
    }
    F get(int i) const { auto it = m.find(i); return it == m.end() ? F(0) : it->second; }
};
struct Rng {
    std::mt19937 g{0x4141f00du};
    uint64_t draws = 0;
    unsigned next() { draws++; return (unsigned)g(); }
};
struct State {
    std::vector<F> vars;   // by index - 100
    F* regs = nullptr;     // 100 values
    Mem* loc = nullptr;
    Mem* glob = nullptr;
    Rng* rng = nullptr;
};

inline int to_int(double v)   // (int) conversion as performed on x86
{
    if (v > -2147483649.0 && v < 2147483648.0) return (int)v;
    return INT_MIN;
}
inline bool int_ok(F v) { return v > F(-2147483648.0) && (double)v < 2147483647.0; }
inline F f_invsqrt(F v)
{
    F num2 = v * F(.5);
    if (sizeof(F) == 8)
    {
        uint64_t i;
        double d = (double)v;
        memcpy(&i, &d, 8);
        i = 0x5fe6eb50c7b537a9ull - (i >> 1);
        memcpy(&d, &i, 8);
        return (F)(d * (1.5 - ((double)num2 * d * d)));
    }
    uint32_t i;
    float f = (float)v;
    memcpy(&i, &f, 4);
    i = 0x5f3759df - (i >> 1);
    memcpy(&f, &i, 4);
    return (F)(f * (1.5f - ((float)num2 * f * f)));
}
static const double EPS = 0.00001;
static const double TINY = sizeof(F) == 4 ? 1e-41 : 1e-300;
inline bool zero(F v) { return fabs((double)v) < TINY; }

struct Evaluator {
    const Program* p;
    State* st;
    uint64_t steps, budget;
    bool over = false;       // budget exceeded: result unknown
    bool vague = false;      // a value was computed whose definition is not exact (int conversion out of range, ...)
    std::vector<F*> tmp;     // chunks of temporaries
    size_t tchunk = 0, tpos = 0;
    ~Evaluator() { for (auto t : tmp) delete[] t; }
    enum { CH = 1024 };
    F* temp(F v)
    {
        if (tpos == CH) { tchunk++; tpos = 0; }
        if (tchunk == tmp.size()) tmp.push_back(new F[CH]);
        F* r = &tmp[tchunk][tpos++];
        *r = v;
        return r;
    }
    F run(const Program& pr, State& s, uint64_t bud)
    {
        p = &pr;
        st = &s;
        steps = 0;
        budget = bud;
        over = vague = false;
        questions = 0;
        tchunk = tpos = 0;
        if (pr.root < 0) return 0;
        return *ev(pr.root);
    }
    // The truth of NaN and of tiny numbers is not defined exactly.
    // With branching on, each such question is answered by one bit of choices, so that all answers can be tried.
    bool branching = false;
    uint32_t choices = 0;
    int questions = 0;
    bool truth(F v, bool usual)
    {
        if (!(v != v || (v != 0 && fabs((double)v) < 4 * TINY))) return usual;
        if (branching && questions < 30) return choices >> questions++ & 1;
        vague = true;
        return usual;
    }
    bool nonzero(F v) { return truth(v, !zero(v)); }
    void need_int(F v) { if (!int_ok(v)) vague = true; }
    // With finite_values, whatever handles a value that is not finite, or is tiny, is vague (builds with fast math).
    F* ev(int n)
    {
        F* r = value(n);
        if (vf::finite_values && !vague && *r != 0 && !(fabs((double)*r) > 1000 * TINY && fabs((double)*r) < (sizeof(F) == 8 ? 1e305 : 1e37))) vague = true;
        return r;
    }
    F* value(int n)
    {
        if (++steps > budget) { over = true; return temp(0); }
        const Node& d = p->nodes[n];
        auto A = [&](int k) { return ev(d.a[k]); };
        switch (d.op)
        {
        case O_CONST: return temp(d.num);
        case O_VAR:
            if (d.var < 100) return &st->regs[d.var];
            return &st->vars[d.var - 100];
        case O_LIST:
        {
            F* r = nullptr;
            for (int k : d.items) { r = ev(k); if (over) return r; }
            return r;
        }
        case O_IF: { F* c = A(0); return truth(*c, *c != 0) ? A(1) : A(2); }
        case O_AND: { F* c = A(0); if (!nonzero(*c)) return temp(0); F* r = A(1); return temp(nonzero(*r) ? 1 : 0); }
        case O_OR: { F* c = A(0); if (nonzero(*c)) return temp(1); F* r = A(1); return temp(nonzero(*r) ? 1 : 0); }
        case O_LOOP:
        {
            F* c = A(0);
            double v = (double)*c;
            if (v != v) vague = true;
            int cnt = v >= 1 ? (v >= 1048576 ? 1048576 : (int)v) : 0;
            size_t mc = tchunk, mp = tpos;
            for (int k = 0; k < cnt; k++) { c = A(1); if (over) break; recycle(c, mc, mp); }
            return c;
        }
        case O_WHILE:
        {
            F* c;
            int cnt = 1048576;
            size_t mc = tchunk, mp = tpos;
            do { c = A(0); if (*c != *c || (*c != 0 && zero(*c))) vague = true; if (over) break; recycle(c, mc, mp); } while (!zero(*c) && *c == *c && --cnt);
            return c;
        }
        case O_EXEC2: A(0); return A(1);
        case O_EXEC3: A(0); A(1); return A(2);
        case O_SET: { F* a = A(0); F* b = A(1); *a = *b; return a; }
        case O_NOT: { F* a = A(0); return temp(nonzero(*a) ? 0 : 1); }
        case O_NEG: { F* a = A(0); return temp(-*a); }
        case O_MEM: case O_GMEM:
        {
            F* a = A(0);
            double i = floor((double)*a + 0.0001);
            Mem* m = d.op == O_MEM ? st->loc : st->glob;
            if (!(i >= 0 && i < SLOTS)) return temp(0);
            F* q = m->access((int)i);
            return q ? q : temp(0);
        }
        case O_FREEMBUF: A(0); return temp(0);
        case O_MEMSET:
        {
            F* a = A(0); F* b = A(1); F* c = A(2);
            memset_(*st->loc, *a, *b, *c);
            return a;
        }
        case O_MEMCPY:
        {
            F* a = A(0); F* b = A(1); F* c = A(2);
            memcpy_(*st->loc, *a, *b, *c);
            return a;
        }
        case O_RAND:
        {
            F* a = A(0);
            double m = floor((double)*a);
            if (!(m >= 1)) { if (m != m) vague = true; m = 1; }
            if (!st->rng) { vague = true; return temp(0); }
            return temp((F)(st->rng->next() * (1.0 / 4294967295.0) * m));
        }
        default: break;
        }
        if (d.na == 1)
        {
            F* a = A(0);
            return temp(un(d.op, *a));
        }
        F* a = A(0);
        F* b = A(1);
        switch (d.op)
        {
        case O_ADDOP: *a = *a + *b; return a;
        case O_SUBOP: *a = *a - *b; return a;
        case O_MULOP: *a = *a * *b; return a;
        case O_DIVOP: *a = bin(O_DIV, *a, *b); return a;
        case O_MODOP: *a = bin(O_MOD, *a, *b); return a;
        case O_POWOP: *a = bin(O_POW, *a, *b); return a;
        case O_OROP: *a = bin(O_BITOR, *a, *b); return a;
        case O_ANDOP: *a = bin(O_BITAND, *a, *b); return a;
        default: return temp(bin(d.op, *a, *b));
        }
    }
    // Long loops must not accumulate temporaries: those of a finished iteration
    // are dead, except for its result.
    void recycle(F*& c, size_t mc, size_t mp)
    {
        if (tchunk < mc + 2) return;
        bool is_tmp = false;
        for (size_t k = mc; k <= tchunk && k < tmp.size(); k++) if (c >= tmp[k] && c < tmp[k] + CH) is_tmp = true;
        F v = *c;
        tchunk = mc;
        tpos = mp;
        if (is_tmp) c = temp(v);
    }
    F un(Op op, F a)
    {
        switch (op)
        {
        case O_SIN: return (F)sin((double)a);
        case O_COS: return (F)cos((double)a);
        case O_TAN: return (F)tan((double)a);
        case O_ASIN: return (F)asin((double)a);
        case O_ACOS: return (F)acos((double)a);
        case O_ATAN: return (F)atan((double)a);
        case O_SQR: return a * a;
        case O_SQRT: return (F)sqrt((double)a);
        case O_EXP: return (F)exp((double)a);
        case O_LOG: return (F)log((double)a);
        case O_LOG10: return (F)log10((double)a);
        case O_ABS: return (F)fabs((double)a);
        case O_SIGN: if (a != a) vague = true; return a == 0 ? 0 : a < 0 ? -1 : 1;
        case O_FLOOR: return (F)floor((double)a);
        case O_CEIL: return (F)ceil((double)a);
        case O_INVSQRT: if (!(a > 0 && (double)a < 1e300)) vague = true; return f_invsqrt(a);
        default: return 0;
        }
    }
    F bin(Op op, F a, F b)
    {
        switch (op)
        {
        case O_ADD: return a + b;
        case O_SUB: return a - b;
        case O_MUL: return a * b;
        case O_DIV: return b != 0 && nonzero(b) ? a / b : 0;
        case O_MOD:
        {
            need_int(a);
            need_int(b);
            int x = to_int((double)a), y = to_int((double)b);
            return y == 0 || y == -1 ? 0 : (F)(x % y);
        }
        case O_BITAND: need_int(a); need_int(b); return (F)(to_int((double)a) & to_int((double)b));
        case O_BITOR: need_int(a); need_int(b); return (F)(to_int((double)a) | to_int((double)b));
        case O_POW: return (F)pow((double)a, (double)b);
        case O_EQ: if (!std::isfinite((double)a) || !std::isfinite((double)b)) { vague = true; } return zero(a - b) ? 1 : 0;
        case O_NE: if (!std::isfinite((double)a) || !std::isfinite((double)b)) { vague = true; } return zero(a - b) ? 0 : 1;
        case O_LT: return a < b;
        case O_GT: return a > b;
        case O_LE: return a <= b;
        case O_GE: return a >= b;
        case O_ATAN2: return (F)atan2((double)a, (double)b);
        case O_MIN: if (a != a || b != b) vague = true; return a < b ? a : b;
        case O_MAX: if (a != a || b != b) vague = true; return a > b ? a : b;
        case O_SIGMOID: { double t = 1 + exp((double)-a * (double)b); return (F)(fabs(t) > EPS ? 1.0 / t : 0); }
        case O_BAND: return fabs((double)a) > (double)(F)EPS && fabs((double)b) > (double)(F)EPS;
        case O_BOR: return fabs((double)a) > (double)(F)EPS || fabs((double)b) > (double)(F)EPS;
        default: return 0;
        }
    }
    // [first,last) of destination slots, from the exact definition of the trimmed range
    static bool range(double d, double s, double n, long& lo, long& hi)
    {
        d = floor(d + 0.0001);
        s = floor(s + 0.0001);
        n = floor(n + 0.0001);
        if (!(n >= 1) || d != d || s != s || std::isinf(d) || std::isinf(s)) return false;
        if (!(d < SLOTS) || !(s < SLOTS)) return false;
        double a = 0;                        // offset of the first copied item
        if (d < 0) a = std::max(a, -d);
        if (s < 0) a = std::max(a, -s);
        double e = std::min(n, std::min(SLOTS - d, SLOTS - s));
        if (!(a < e)) return false;
        lo = (long)(d + a);
        hi = (long)(d + e);
        return lo < hi;
    }
    void need_exact(F d, F s) { if (d < -9e15 || s < -9e15) vague = true; }   // trimming beyond the precision of numbers
    void memset_(Mem& m, F d, F v, F n)
    {
        long lo, hi;
        need_exact(d, d);
        if (!range((double)d, (double)d, (double)n, lo, hi)) return;
        if (hi - lo > 200000) { over = true; return; }
        for (long i = lo; i < hi; i++)
        {
            F* q = m.access((int)i);
            if (!q) break;
            *q = v;
        }
    }
    void memcpy_(Mem& m, F d, F s, F n)
    {
        long lo, hi;
        need_exact(d, s);
        if (!range((double)d, (double)s, (double)n, lo, hi)) return;
        long off = (long)(floor((double)s + 0.0001) - floor((double)d + 0.0001));
        if (m.faulty)
        {
            bool all = true;
            for (long b = lo >> 16; b <= (hi - 1) >> 16; b++) all = all && m.has((int)b);
            for (long b = (lo + off) >> 16; b <= (hi - 1 + off) >> 16; b++) all = all && m.has((int)b);
            if (!all) vague = true;
        }
        m.touch(lo, hi);
        m.touch(lo + off, hi + off);
        std::vector<std::pair<int, F>> src;
        for (auto& e : m.m) if (e.first >= lo + off && e.first < hi + off) src.push_back({(int)(e.first - off), e.second});
        for (auto& e : m.m) if (e.first >= lo && e.first < hi) e.second = 0;
        for (auto& e : src) *m.at(e.first) = e.second;
    }
};
}
