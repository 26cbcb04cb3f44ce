// Families of texts of any size: deep nesting, long lists, chains, tokens and comments.
#pragma once
#include "vf.hpp"
#include <functional>
#include <string>
#include <vector>
namespace fam {
inline std::string rep(const std::string& s, size_t n) { std::string o; o.reserve(s.size() * n); for (size_t i = 0; i < n; i++) o += s; return o; }
struct Fam { const char* name; size_t max; std::function<std::string(size_t)> f; };
// max: sizes above take quadratic time in the unchanged library or are only reached by the parser's limit
inline std::vector<Fam> families()
{
    std::vector<Fam> v;
    auto nest = [&](const char* nm, std::string a, std::string core, std::string b, size_t mx = 1000000) { v.push_back({nm, mx, [=](size_t n) { return rep(a, n) + core + rep(b, n); }}); };
    nest("parentheses", "(", "1", ")");
    nest("parentheses-open", "(", "1", "");
    nest("parentheses-close", "", "1", ")");
    nest("minus", "-", "x", "");
    nest("plus", "+", "x", "");
    nest("not", "!", "x", "");
    nest("sin", "sin(", "1", ")");
    nest("sin-open", "sin(", "", "");
    nest("min-first", "min(", "x", ",2)");
    nest("min-second", "min(3,", "x", ")");
    nest("if-then", "if(1,", "x", ",0)");
    nest("if-cond", "if(", "x", ",1,0)");
    nest("if-else", "if(0,1,", "x", ")");
    nest("loop", "loop(1,", "x+=1", ")");
    nest("while", "while(0*", "x", ")");
    nest("exec2", "exec2(", "x", ",1)");
    nest("exec2b", "exec2(1,", "x", ")");
    nest("exec3", "exec3(1,", "x", ",2)");
    nest("assign", "x=", "1", "");
    nest("assign-paren", "(x=", "1", ")");
    for (const char* op : {"+=", "-=", "*=", "/=", "%=", "^=", "|=", "&="}) v.push_back({"opassign", 1000000, [=](size_t n) { return rep(std::string("x") + op, n) + "2"; }});
    for (const char* op : {"+", "-", "*", "/", "%", "^", "|", "&", "==", "!=", "<", ">", "<=", ">=", "||", "&&"})
    {
        v.push_back({"chain", 1000000, [=](size_t n) { return "x" + rep(std::string(op) + "x", n); }});
        v.push_back({"chain-const", 1000000, [=](size_t n) { return "1" + rep(std::string(op) + "1", n); }});
        v.push_back({"chain-minus", 100000, [=](size_t n) { return "x" + rep(std::string(op) + "-x", n); }});
        v.push_back({"chain-paren-right", 1000000, [=](size_t n) { return rep(std::string("x") + op + "(", n) + "x" + rep(")", n); }});
        v.push_back({"chain-paren-left", 1000000, [=](size_t n) { return rep("(", n) + "x" + rep(std::string(op) + "x)", n); }});
    }
    nest("ternary-right", "x?1:", "2", "");
    nest("ternary-mid", "x?", "2", ":1");
    nest("megabuf", "megabuf(", "1", ")");
    nest("gmegabuf", "gmegabuf(", "1", ")");
    nest("gmem", "gmem[", "1", "]");
    nest("brackets", "x[", "1", "]");
    nest("brackets-chain", "", "x", "[1]");
    nest("brackets-empty", "[", "", "]");
    nest("list", "", "1", ";1", 12000);
    nest("list-semi", "", "1", ";", 1000000);
    nest("list-assign", "", "x=1", ";x=x+1", 12000);
    nest("list-in-paren", "(1;", "2", ")");
    nest("list-in-loop", "loop(1,1;", "2", ")");
    nest("list-in-if", "if(1;", "2", ",3;4,5;6)");
    v.push_back({"variables", 3000, [](size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += vf::strf("v%zu=%zu;", i, i); return s; }});
    nest("identifier", "", "a", "b");
    nest("identifier-digits", "", "a", "7");
    nest("identifier-assign", "a", "=1", "");
    v.push_back({"identifier-dot", 1000000, [](size_t n) { return rep("a", n) + ".b=1"; }});
    nest("function-name", "f", "(1)", "");
    nest("function-name-good", "sin", "(1)", "");
    nest("digits", "", "1", "0");
    nest("decimals", "", "0.", "1");
    nest("decimals0", "", "0.", "0");
    nest("zeros", "0", "1", "");
    nest("digits-dot", "9", ".5", "");
    nest("dots", ".", "", "");
    nest("exponent", "", "1e", "9");
    nest("exponent-neg", "", "1e-", "9");
    nest("hex", "", "0x", "F");
    nest("hex-name", "", "$x", "F");
    nest("dollar", "$", "", "");
    nest("dollar-name", "", "$", "a");
    nest("char", "", "$'", "a");
    nest("quotes", "\"", "", "");
    nest("line-comment", "", "//", "x");
    nest("line-comments", "//\n", "1", "");
    nest("block-comment", "", "/*", "*");
    nest("block-comment-end", "*", "", "/");
    v.push_back({"block-comment-long", 1000000, [](size_t n) { return "/*" + rep("x*\n", n) + "*/1"; }});
    v.push_back({"block-comment-stars", 1000000, [](size_t n) { return "/" + rep("*", n) + "/1"; }});
    nest("block-comments", "/**/", "1", "/* */");
    nest("spaces", " ", "1", " ");
    nest("newlines", "\n", "(", "\n");
    nest("tabs", "\t", "*", "\t");
    nest("crlf", "\r\n", "x=1", "\r\n");
    v.push_back({"args", 1000000, [](size_t n) { return "min(1" + rep(",1", n) + ")"; }});
    v.push_back({"args-empty", 1000000, [](size_t n) { return "min(" + rep(",", n) + ")"; }});
    nest("call-call", "", "sin(1)", "(1)");
    nest("two-values", "", "1", " 1");
    nest("error-after", "1;", "*", "", 12000);
    nest("mixed", "(-!sin(x=x+", "1", "))");
    nest("mixed2", "if(x,megabuf(-", "1", "),gmem[2])");
    nest("mixed3", "x=x?(y=", "3", "):-(1)");
    nest("memcpy", "memcpy(0,1,", "2", ")");
    nest("memset", "memset(", "2", ",1,1)");
    nest("freembuf", "freembuf(", "2", ")");
    nest("rand", "rand(", "2", ")");
    nest("gmem-call", "gmem(", "2", ")");
    return v;
}
}
