// refx.h - exact operations on concrete automata (Con over a finite universe): the oracle for compilers of expressions.
#pragma once
#include "ref.h"
namespace ref {
inline Con x_new(int n) { Con c; c.st.resize(n); c.fin.assign(n, {false, 0}); return c; }
inline Con x_empty() { return x_new(1); }
inline Con x_eps() { Con c = x_new(1); c.fin[0] = {true, 0}; return c; }
inline Con x_pair(int i, int o, float w = 0) { Con c = x_new(2); c.st[0].push_back({1, i, o, 0}); c.fin[1] = {true, w}; return c; }
inline Con x_any(const Univ &U) { Con c = x_new(2); for (size_t k = 1; k <= U.name.size(); ++k) c.st[0].push_back({1, (int)k, (int)k, 0}); c.fin[1] = {true, 0}; return c; }
inline Con x_anyany(const Univ &U) { Con c = x_new(2); for (size_t k = 1; k <= U.name.size(); ++k) for (size_t j = 1; j <= U.name.size(); ++j) c.st[0].push_back({1, (int)k, (int)j, 0}); c.fin[1] = {true, 0}; return c; }
inline void x_app(Con &c, const Con &b, int off) { for (auto &s : b.st) { c.st.push_back(s); for (auto &a : c.st.back()) a.t += off; } for (auto &f : b.fin) c.fin.push_back(f); if (c.err.empty()) c.err = b.err; }
// keep states that are reachable and can reach a final state
inline Con x_trim(const Con &a) {
    int n = a.st.size(); std::vector<char> f(n, 0), g(n, 0); std::vector<int> w = {0}; f[0] = 1; std::vector<std::vector<int>> rev(n);
    while (!w.empty()) { int s = w.back(); w.pop_back(); for (auto &x : a.st[s]) { rev[x.t].push_back(s); if (!f[x.t]) { f[x.t] = 1; w.push_back(x.t); } } }
    for (int s = 0; s < n; ++s) if (f[s] && a.fin[s].first) { g[s] = 1; w.push_back(s); }
    while (!w.empty()) { int s = w.back(); w.pop_back(); for (int p : rev[s]) if (!g[p]) { g[p] = 1; w.push_back(p); } }
    std::vector<int> id(n, -1); id[0] = 0; int k = 1; for (int s = 1; s < n; ++s) if (f[s] && g[s]) id[s] = k++;
    Con c = x_new(k); c.err = a.err; for (int s = 0; s < n; ++s) if (id[s] >= 0) { c.fin[id[s]] = a.fin[s]; for (auto &x : a.st[s]) if (id[x.t] >= 0 && (x.t != 0 || g[0])) { if (x.i == 0 && x.o == 0 && x.t == s && x.w >= 0) continue; c.st[id[s]].push_back({id[x.t], x.i, x.o, x.w}); } }
    return c;
}
inline Con x_union(const Con &a, const Con &b) { Con c = x_new(1); c.st[0] = {{1, 0, 0, 0}, {1 + (int)a.st.size(), 0, 0, 0}}; x_app(c, a, 1); x_app(c, b, 1 + (int)a.st.size()); return c; }
inline Con x_concat(const Con &a, const Con &b) { Con c = x_new(0); x_app(c, a, 0); int n = a.st.size(); x_app(c, b, n); for (int s = 0; s < n; ++s) if (c.fin[s].first) { c.st[s].push_back({n, 0, 0, c.fin[s].second}); c.fin[s] = {false, 0}; } return c; }
inline Con x_star(const Con &a, bool plus = false) { Con c = x_new(1); c.st[0] = {{1, 0, 0, 0}}; if (!plus) c.fin[0] = {true, 0}; x_app(c, a, 1); int m = c.st.size(); for (int s = 1; s < m; ++s) if (c.fin[s].first) c.st[s].push_back({1, 0, 0, c.fin[s].second}); return c; }
inline Con x_opt(const Con &a) { return x_union(a, x_eps()); }
inline Con x_power(const Con &a, int lo, int hi) { // hi<0: unbounded
    Con r = x_eps(); for (int i = 0; i < lo; ++i) r = x_concat(r, a);
    if (hi < 0) return x_concat(r, x_star(a)); for (int i = lo; i < hi; ++i) r = x_concat(r, x_opt(a)); return hi < lo ? x_empty() : r; }
inline Con x_rev(const Con &a) { int n = a.st.size(); Con c = x_new(n + 1); for (int s = 0; s < n; ++s) { if (a.fin[s].first) c.st[0].push_back({s + 1, 0, 0, a.fin[s].second}); for (auto &x : a.st[s]) c.st[x.t + 1].push_back({s + 1, x.i, x.o, x.w}); } c.fin[1] = {true, 0}; c.err = a.err; return c; }
inline Con x_inv(Con a) { for (auto &s : a.st) for (auto &x : s) std::swap(x.i, x.o); return a; }
inline Con x_up(Con a) { for (auto &s : a.st) for (auto &x : s) x.o = x.i; return a; }
inline Con x_down(Con a) { for (auto &s : a.st) for (auto &x : s) x.i = x.o; return a; }
inline Con x_upto(Con a) { for (auto &s : a.st) for (auto &x : s) x.o = 0; return a; }   // A : 0
inline Con x_downfrom(Con a) { for (auto &s : a.st) for (auto &x : s) x.i = 0; return a; } // 0 : A
inline Con x_cross(const Con &a, const Con &b) { return x_trim(x_concat(x_upto(a), x_downfrom(b))); }
inline Con x_compose(const Con &a, const Con &b) { return x_trim(c_compose(x_trim(a), x_trim(b))); }
inline Con x_unweight(Con a) { for (auto &s : a.st) for (auto &x : s) x.w = 0; for (auto &f : a.fin) f.second = 0; return a; }
inline Con x_finalw(Con a, float w) { for (auto &f : a.fin) if (f.first) f.second += w; return a; }
inline bool x_is_acc(const Con &a) { for (auto &s : a.st) for (auto &x : s) if (x.i != x.o) return false; return true; }
// deterministic complete acceptor over the universe (weights dropped)
inline Con x_det(const Con &a0, const Univ &U, bool complement) {
    Con a = x_trim(a0); int n = a.st.size(); typedef std::vector<int> Set; std::map<Set, int> id; std::vector<Set> q;
    auto clo = [&](Set s) { std::vector<char> in(n, 0); std::vector<int> w = s; for (int x : s) in[x] = 1; while (!w.empty()) { int p = w.back(); w.pop_back(); for (auto &x : a.st[p]) if (x.i == 0 && !in[x.t]) { in[x.t] = 1; w.push_back(x.t); } } Set r; for (int p = 0; p < n; ++p) if (in[p]) r.push_back(p); return r; };
    auto get = [&](const Set &s) { auto it = id.find(s); if (it != id.end()) return it->second; int k = q.size(); id[s] = k; q.push_back(s); return k; };
    get(clo({0})); Con c = x_new(0); c.err = a.err;
    for (size_t k = 0; k < q.size(); ++k) { Set s = q[k]; bool f = false; for (int p : s) if (a.fin[p].first) f = true; c.st.push_back({}); c.fin.push_back({f != complement, 0});
        for (int y = 1; y <= (int)U.name.size(); ++y) { Set d; std::vector<char> in(n, 0); for (int p : s) for (auto &x : a.st[p]) if (x.i == y && !in[x.t]) { in[x.t] = 1; d.push_back(x.t); } c.st[k].push_back({get(clo(d)), y, y, 0}); } }
    return c;
}
inline Con x_compl(const Con &a, const Univ &U) { return x_trim(x_det(a, U, true)); }
inline Con x_and(const Con &a, const Con &b) { return x_compose(a, b); }            // acceptors
inline Con x_minus(const Con &a, const Con &b, const Univ &U) { return x_compose(a, x_compl(b, U)); } // acceptors; keeps the weights of a
inline Con x_contains(const Con &a, const Univ &U) { Con any = x_star(x_any(U)); return x_concat(x_concat(any, a), any); }
inline Con x_prio(const Con &q, const Con &r, const Univ &U) { return x_trim(x_union(q, x_compose(x_compl(x_up(q), U), r))); }
inline Con x_ignore(const Con &a0, const Con &b) { // any number of B anywhere
    Con a = x_trim(a0); Con c = a; int n = a.st.size(); for (int s = 0; s < n; ++s) { int off = c.st.size(); x_app(c, b, off); c.st[s].push_back({off, 0, 0, 0}); for (size_t k = off; k < c.st.size(); ++k) if (c.fin[k].first) { c.st[k].push_back({s, 0, 0, c.fin[k].second}); c.fin[k] = {false, 0}; } } return c; }
// finite set of strings as an acceptor
inline Con x_set(const std::set<Str> &ss) { Con c = x_new(1); for (Str s : ss) { int q = 0; for (int i = 0; i < slen(s); ++i) { c.st.push_back({}); c.fin.push_back({false, 0}); c.st[q].push_back({(int)c.st.size() - 1, sat(s, i), sat(s, i), 0}); q = c.st.size() - 1; } c.fin[q] = {true, 0}; } return c; }
inline std::set<Str> x_strings(const Con &a, int L) { std::set<Str> r; for (auto &x : rel(a, L)) r.insert(x.first.first); return r; }
inline void x_allstr(const Univ &U, int L, std::vector<Str> &out) { out = {0}; for (size_t k = 0; k < out.size(); ++k) if (slen(out[k]) < L) for (size_t y = 1; y <= U.name.size(); ++y) out.push_back(sapp(out[k], y)); }
inline Str ssub(Str s, int i, int j) { Str r = 0; for (int k = i; k < j; ++k) r = sapp(r, sat(s, k)); return r; }
}
