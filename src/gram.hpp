// Exhaustive enumeration of the texts of a grammar by size (number of
// weighted nodes): count and unrank.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdint>
#include <cstdlib>
#include <cstdio>

struct Gram {
    struct Alt { std::vector<std::string> lit[2]; std::vector<int> nt; int w; };
    std::vector<std::vector<Alt>> nts;
    std::map<std::string, int> id;
    std::map<std::pair<int, int>, uint64_t> memo;
    std::map<std::vector<int>, uint64_t> memo2;
    int nt(const std::string& n)
    {
        auto it = id.find(n);
        if (it != id.end()) return it->second;
        int i = (int)nts.size();
        nts.emplace_back();
        id[n] = i;
        return i;
    }
    static void split(const std::string& t, std::vector<std::string>& lit, std::vector<std::string>& names)
    {
        std::string cur;
        for (size_t i = 0; i < t.size(); i++)
        {
            if (t[i] == '{')
            {
                size_t e = t.find('}', i);
                names.push_back(t.substr(i + 1, e - i - 1));
                lit.push_back(cur);
                cur.clear();
                i = e;
            }
            else cur += t[i];
        }
        lit.push_back(cur);
    }
    // alternative `form` of nonterminal n with weight w; form2: second rendering
    void add(const std::string& n, int w, const std::string& form, const std::string& form2 = "")
    {
        Alt a;
        std::vector<std::string> names, names2;
        split(form, a.lit[0], names);
        split(form2.empty() ? form : form2, a.lit[1], names2);
        if (names != names2) { fprintf(stderr, "grammar: %s / %s\n", form.c_str(), form2.c_str()); abort(); }
        for (auto& x : names) a.nt.push_back(nt(x));
        a.w = w;
        int k = nt(n);
        nts[k].push_back(a);
    }
    uint64_t count(int n, int s)
    {
        if (s <= 0) return 0;
        auto key = std::make_pair(n, s);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        uint64_t c = 0;
        for (size_t k = 0; k < nts[n].size(); k++) if (nts[n][k].w <= s) c += fill(n, (int)k, 0, s - nts[n][k].w);
        memo[key] = c;
        return c;
    }
    uint64_t fill(int n, int k, int i, int s)   // ways to fill nonterminals i.. of an alternative with total size s
    {
        const Alt& a = nts[n][k];
        if (i == (int)a.nt.size()) return s == 0;
        if (i + 1 == (int)a.nt.size()) return count(a.nt[i], s);
        std::vector<int> key{n, k, i, s};
        auto it = memo2.find(key);
        if (it != memo2.end()) return it->second;
        uint64_t c = 0;
        for (int x = 1; x < s; x++)
        {
            uint64_t q = count(a.nt[i], x);
            if (q) c += q * fill(n, k, i + 1, s - x);
        }
        memo2[key] = c;
        return c;
    }
    uint64_t count(const std::string& n, int s) { return count(nt(n), s); }
    // `#` in a literal is replaced by the running number of its occurrence.
    void unrank(int n, int s, uint64_t idx, int form, std::string& out, int& ord)
    {
        for (size_t k = 0; k < nts[n].size(); k++)
        {
            const Alt& a = nts[n][k];
            if (a.w > s) continue;
            uint64_t c = fill(n, (int)k, 0, s - a.w);
            if (idx >= c) { idx -= c; continue; }
            int rest = s - a.w;
            put(a.lit[form][0], out, ord);
            for (size_t i = 0; i < a.nt.size(); i++)
            {
                if (i + 1 == a.nt.size()) unrank(a.nt[i], rest, idx, form, out, ord);
                else
                    for (int x = 1; x < rest; x++)
                    {
                        uint64_t q = count(a.nt[i], x), f = q ? fill(n, (int)k, (int)i + 1, rest - x) : 0;
                        if (idx >= q * f) { idx -= q * f; continue; }
                        unrank(a.nt[i], x, idx / f, form, out, ord);
                        idx %= f;
                        rest -= x;
                        break;
                    }
                put(a.lit[form][i + 1], out, ord);
            }
            return;
        }
        abort();
    }
    std::string text(const std::string& n, int s, uint64_t idx, int form = 0)
    {
        std::string o;
        int ord = 0;
        unrank(nt(n), s, idx, form, o, ord);
        return o;
    }
    static void put(const std::string& l, std::string& out, int& ord)
    {
        for (char c : l)
        {
            if (c == '#') out += std::to_string(++ord);
            else out += c;
        }
    }
};
