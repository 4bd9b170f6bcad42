// ref.h - the reference model: finite transducers as plain arc lists, relations as plain maps.
// Boring on purpose.  A transducer over a finite universe of concrete symbols denotes
//   - a weighted relation   (u,v) -> min weight       (tropical: min over paths of the sum of weights), and
//   - a weighted pair language: sequences of symbol pairs (0:0 erased) -> min weight  (alignment-sensitive view).
// Both are computed completely up to a length bound.  @_IDENTITY_SYMBOL_@ and @_UNKNOWN_SYMBOL_@ are given their
// documented meaning by expansion over the symbols of the universe that are not in the transducer's alphabet.
#ifndef REF_H
#define REF_H
#include "HfstTransducer.h"
#include "implementations/HfstBasicTransducer.h"
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {
typedef uint64_t u64;
using hfst::HfstTransducer;
using hfst::ImplementationType;
using hfst::implementations::HfstBasicTransducer;
using hfst::implementations::HfstBasicTransition;

static const char *EPS = "@_EPSILON_SYMBOL_@";
static const char *UNK = "@_UNKNOWN_SYMBOL_@";
static const char *IDN = "@_IDENTITY_SYMBOL_@";

// ---- abstract transducers, symbols as strings ("" never used) ----
struct Arc { int s, t; std::string i, o; float w; };
struct T {                      // the input shape given to both the model and the implementation
    int n = 1; std::vector<Arc> arcs; std::map<int, float> fin; std::set<std::string> extra_alpha;
    std::set<std::string> alphabet() const {
        std::set<std::string> a = extra_alpha;
        for (auto &x : arcs) { a.insert(x.i); a.insert(x.o); }
        a.erase(EPS); a.erase(UNK); a.erase(IDN);
        return a;
    }
    std::string str() const {
        std::ostringstream o; o << "n" << n << "{";
        auto nm = [](const std::string &s) { return s == EPS ? std::string("0") : s == UNK ? std::string("?u") : s == IDN ? std::string("?i") : s; };
        for (auto &a : arcs) { o << a.s << ">" << a.t << " " << nm(a.i) << ":" << nm(a.o); if (a.w) o << "/" << a.w; o << ", "; }
        o << "F"; for (auto &f : fin) { o << " " << f.first; if (f.second) o << "/" << f.second; }
        if (!extra_alpha.empty()) { o << " +A"; for (auto &s : extra_alpha) o << " " << s; }
        o << "}"; return o.str();
    }
    bool weighted() const { for (auto &a : arcs) if (a.w) return true; for (auto &f : fin) if (f.second) return true; return false; }
    bool automaton() const { for (auto &a : arcs) if (a.i != a.o || a.i == UNK) return false; return true; }
};

inline HfstBasicTransducer to_basic(const T &t) {
    HfstBasicTransducer b;
    for (int i = 1; i < t.n; ++i) b.add_state(i);
    for (auto &a : t.arcs) b.add_transition(a.s, HfstBasicTransition(a.t, a.i, a.o, a.w));
    for (auto &f : t.fin) b.set_final_weight(f.first, f.second);
    for (auto &s : t.extra_alpha) b.add_symbol_to_alphabet(s);
    return b;
}
inline HfstTransducer to_hfst(const T &t, ImplementationType ty) { return HfstTransducer(to_basic(t), ty); }

// ---- concrete automata: symbols 0..14 (0 = epsilon) ----
struct Univ { std::vector<std::string> name; std::map<std::string, int> id;
    Univ() {}
    Univ(std::vector<std::string> v) { for (auto &s : v) { name.push_back(s); id[s] = (int)name.size(); } }
    int of(const std::string &s) const { if (s == EPS) return 0; auto it = id.find(s); return it == id.end() ? -1 : it->second; } };
struct CArc { int t; int i, o; float w; };
struct Con { std::vector<std::vector<CArc>> st; std::vector<std::pair<bool, float>> fin; std::string err; };

inline void expand_arc(Con &c, const Univ &U, const std::set<std::string> &alpha, int s, int t, const std::string &i, const std::string &o, float w) {
    std::vector<int> other;
    auto get_other = [&]() { other.clear(); for (size_t k = 0; k < U.name.size(); ++k) if (!alpha.count(U.name[k])) other.push_back((int)k + 1); };
    bool iu = i == UNK, ou = o == UNK, ii = i == IDN, oi = o == IDN;
    if (ii || oi) {
        if (!(ii && oi)) { c.err = "one-sided identity symbol in a transition: " + i + ":" + o; return; }
        get_other(); for (int x : other) c.st[s].push_back({t, x, x, w}); return;
    }
    if (iu && ou) { get_other(); for (int x : other) for (int y : other) if (x != y) c.st[s].push_back({t, x, y, w}); return; }
    if (iu) { int b = U.of(o); if (b < 0) { c.err = "symbol outside the universe: " + o; return; } get_other(); for (int x : other) c.st[s].push_back({t, x, b, w}); return; }
    if (ou) { int a = U.of(i); if (a < 0) { c.err = "symbol outside the universe: " + i; return; } get_other(); for (int x : other) c.st[s].push_back({t, a, x, w}); return; }
    int a = U.of(i), b = U.of(o);
    if (a < 0 || b < 0) { c.err = "symbol outside the universe: " + i + ":" + o; return; }
    c.st[s].push_back({t, a, b, w});
}
inline Con concretize(const T &t, const Univ &U) {
    Con c; c.st.resize(t.n); c.fin.assign(t.n, {false, 0});
    auto al = t.alphabet();
    for (auto &a : t.arcs) expand_arc(c, U, al, a.s, a.t, a.i, a.o, a.w);
    for (auto &f : t.fin) c.fin[f.first] = {true, f.second};
    return c;
}
inline Con concretize(const HfstBasicTransducer &b, const Univ &U) {
    Con c; std::set<std::string> al;
    for (auto &s : b.get_alphabet()) al.insert(s);
    int n = 0; for (auto it = b.begin(); it != b.end(); ++it) ++n;
    c.st.resize(n ? n : 1); c.fin.assign(n ? n : 1, {false, 0});
    int s = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) {
        for (auto &tr : *it) {
            if ((int)tr.get_target_state() >= n) { c.err = "transition to a state that does not exist"; continue; }
            std::string i = tr.get_input_symbol(), o = tr.get_output_symbol();
            for (auto &x : {i, o}) if (x != EPS && x != UNK && x != IDN && !al.count(x)) c.err = "symbol of a transition missing from the alphabet: " + x;
            expand_arc(c, U, al, s, tr.get_target_state(), i, o, tr.get_weight());
        }
        if (b.is_final_state(s)) c.fin[s] = {true, b.get_final_weight(s)};
    }
    return c;
}
inline Con concretize(const HfstTransducer &t, const Univ &U) { return concretize(HfstBasicTransducer(t), U); }

// ---- strings packed 4 bits per symbol, length <= 12 ----
typedef u64 Str; // nibble i = symbol i; top 4 bits = length
inline int slen(Str s) { return (int)(s >> 60); }
inline Str sapp(Str s, int c) { int l = slen(s); return (s & 0x0fffffffffffffffULL) | ((u64)c << (4 * l)) | ((u64)(l + 1) << 60); }
inline int sat(Str s, int k) { return (s >> (4 * k)) & 15; }
inline Str scat(Str a, Str b) { for (int i = 0; i < slen(b); ++i) a = sapp(a, sat(b, i)); return a; }
inline Str srev(Str a) { Str r = 0; for (int i = slen(a) - 1; i >= 0; --i) r = sapp(r, sat(a, i)); return r; }
inline std::string sshow(Str s, const Univ &U) { std::string r; for (int i = 0; i < slen(s); ++i) { if (i) r += ' '; r += U.name[sat(s, i) - 1]; } return r; }

typedef std::pair<Str, Str> SP;
typedef std::map<SP, float> Rel;
// pair strings: two parallel nibble strings, 0 allowed in one side of each position
typedef std::map<SP, float> Pl;

static const float INF = std::numeric_limits<float>::infinity();

// relation restricted to |u|,|v| <= L.  Worklist relaxation; cap guards negative cycles.
struct Node { int q; Str u, v; bool operator==(const Node &o) const { return q == o.q && u == o.u && v == o.v; } };
struct NodeH { size_t operator()(const Node &n) const { u64 h = n.u * 0x9e3779b97f4a7c15ULL ^ (n.v + 0x7f4a7c15) * 0xff51afd7ed558ccdULL ^ (u64)n.q * 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 29); } };

inline bool rel_impl(const Con &c, int L, Rel &out, bool pairs) {
    std::unordered_map<Node, float, NodeH> best; std::vector<Node> work; size_t steps = 0;
    if (c.st.empty()) return true;
    best[{0, 0, 0}] = 0; work.push_back({0, 0, 0});
    for (size_t h = 0; h < work.size(); ++h) {
        Node x = work[h]; float w = best[x];
        if (++steps > 400000) return false;
        for (auto &a : c.st[x.q]) {
            Node y; y.q = a.t; y.u = x.u; y.v = x.v;
            if (pairs) { if (a.i || a.o) { if (slen(y.u) >= L) continue; y.u = sapp(y.u, a.i); y.v = sapp(y.v, a.o); } }
            else { if (a.i) { if (slen(y.u) >= L) continue; y.u = sapp(y.u, a.i); } if (a.o) { if (slen(y.v) >= L) continue; y.v = sapp(y.v, a.o); } }
            float nw = w + a.w; auto it = best.find(y);
            if (it == best.end()) { best.emplace(y, nw); work.push_back(y); }
            else if (nw < it->second - 1e-6f) { it->second = nw; work.push_back(y); }
        }
    }
    for (auto &b : best) if (c.fin[b.first.q].first) {
        float w = b.second + c.fin[b.first.q].second; auto k = SP(b.first.u, b.first.v);
        auto it = out.find(k); if (it == out.end()) out[k] = w; else if (w < it->second) it->second = w;
    }
    return true;
}
inline Rel rel(const Con &c, int L) { Rel r; if (!rel_impl(c, L, r, false)) r[SP(~0ULL, ~0ULL)] = 0; return r; }
inline Pl plang(const Con &c, int L) { Pl r; if (!rel_impl(c, L, r, true)) r[SP(~0ULL, ~0ULL)] = 0; return r; }

// ---- reference operations on bounded relations (also usable for pair languages, where u and v run in parallel) ----
inline void put(Rel &r, SP k, float w) { auto it = r.find(k); if (it == r.end()) r[k] = w; else if (w < it->second) it->second = w; }
inline Rel r_union(const Rel &a, const Rel &b) { Rel r = a; for (auto &x : b) put(r, x.first, x.second); return r; }
inline Rel r_concat(const Rel &a, const Rel &b, int L) { Rel r;
    for (auto &x : a) for (auto &y : b) if (slen(x.first.first) + slen(y.first.first) <= L && slen(x.first.second) + slen(y.first.second) <= L)
        put(r, SP(scat(x.first.first, y.first.first), scat(x.first.second, y.first.second)), x.second + y.second);
    return r; }
inline Rel r_eps() { Rel r; r[SP(0, 0)] = 0; return r; }
inline Rel r_power(const Rel &a, int n, int L) { Rel r = r_eps(); for (int i = 0; i < n; ++i) r = r_concat(r, a, L); return r; }
inline Rel r_star(const Rel &a, int L) { Rel r = r_eps(); for (;;) { Rel n = r_union(r, r_concat(r, a, L)); if (n == r) return r; r = n; } }
inline Rel r_invert(const Rel &a) { Rel r; for (auto &x : a) put(r, SP(x.first.second, x.first.first), x.second); return r; }
inline Rel r_reverse(const Rel &a) { Rel r; for (auto &x : a) put(r, SP(srev(x.first.first), srev(x.first.second)), x.second); return r; }
inline Rel r_inproj(const Rel &a) { Rel r; for (auto &x : a) put(r, SP(x.first.first, x.first.first), x.second); return r; }
inline Rel r_outproj(const Rel &a) { Rel r; for (auto &x : a) put(r, SP(x.first.second, x.first.second), x.second); return r; }
inline Rel r_intersect(const Rel &a, const Rel &b) { Rel r; for (auto &x : a) { auto it = b.find(x.first); if (it != b.end()) put(r, x.first, x.second + it->second); } return r; }
inline Rel r_minus(const Rel &a, const Rel &b) { Rel r; for (auto &x : a) if (!b.count(x.first)) put(r, x.first, x.second); return r; }
inline Rel r_unweight(const Rel &a) { Rel r; for (auto &x : a) r[x.first] = 0; return r; }

inline Con c_compose(const Con &a, const Con &b) {
    Con c; int na = a.st.size(), nb = b.st.size(); c.st.resize(na * nb); c.fin.assign(na * nb, {false, 0}); c.err = a.err + b.err;
    auto id = [&](int p, int q) { return p * nb + q; };
    for (int p = 0; p < na; ++p) for (int q = 0; q < nb; ++q) {
        int s = id(p, q);
        if (a.fin[p].first && b.fin[q].first) c.fin[s] = {true, a.fin[p].second + b.fin[q].second};
        for (auto &x : a.st[p]) {
            if (x.o == 0) c.st[s].push_back({id(x.t, q), x.i, 0, x.w});
            else for (auto &y : b.st[q]) if (y.i == x.o) c.st[s].push_back({id(x.t, y.t), x.i, y.o, x.w + y.w});
        }
        for (auto &y : b.st[q]) if (y.i == 0) c.st[s].push_back({id(p, y.t), 0, y.o, y.w});
    }
    return c;
}

inline u64 rel_hash(const Rel &r) { u64 h = 0x1234567; for (auto &x : r) { h ^= x.first.first * 0x9e3779b97f4a7c15ULL; h = (h << 13) | (h >> 51); h ^= x.first.second * 0xff51afd7ed558ccdULL; h *= 0xc4ceb9fe1a85ec53ULL; h ^= (u64)(long)(x.second * 1024); h *= 0x9e3779b97f4a7c15ULL; } return h ^ (h >> 31); }
inline bool weq(float a, float b, float tol) { if (a == b) return true; return std::fabs(a - b) <= tol * (1 + std::fabs(a)); }
// difference, or "" if equal
inline std::string rel_diff(const Rel &want, const Rel &got, const Univ &U, bool weights = true, float tol = 1e-4f) {
    std::ostringstream o; int n = 0;
    auto show = [&](SP k) { if (k.first == ~0ULL) return std::string("<<diverges>>"); std::string a, b;
        for (int i = 0; i < slen(k.first); ++i) { int c = sat(k.first, i); a += c ? U.name[c - 1] : "0"; a += " "; }
        for (int i = 0; i < slen(k.second); ++i) { int c = sat(k.second, i); b += c ? U.name[c - 1] : "0"; b += " "; }
        return "[" + a + "]:[" + b + "]"; };
    for (auto &x : want) { auto it = got.find(x.first); if (n >= 4) break;
        if (it == got.end()) { o << " missing " << show(x.first) << "/" << x.second; ++n; }
        else if (weights && !weq(x.second, it->second, tol)) { o << " weight of " << show(x.first) << " is " << it->second << ", should be " << x.second; ++n; } }
    for (auto &x : got) if (n < 6 && !want.count(x.first)) { o << " extra " << show(x.first) << "/" << x.second; ++n; }
    return o.str();
}

inline const char *tyname(ImplementationType t) { switch (t) { case hfst::SFST_TYPE: return "sfst"; case hfst::TROPICAL_OPENFST_TYPE: return "tropical"; case hfst::LOG_OPENFST_TYPE: return "log"; case hfst::FOMA_TYPE: return "foma"; case hfst::HFST_OL_TYPE: return "ol"; case hfst::HFST_OLW_TYPE: return "olw"; default: return "?"; } }

// ---- enumeration of small transducers ----
struct Label { std::string i, o; };
// all transducers with exactly n states, state 0 initial, arcs a set of <= maxarcs (src,dst,label), every state reachable
// from 0 by arcs (so nothing is trivially dead on arrival), any set of final states (allow_nofinal: also the empty one);
// deduplicated up to renaming of states.
inline void enum_T(int n, const std::vector<Label> &labels, int maxarcs, bool allow_nofinal, std::vector<T> &out) {
    int K = labels.size(), A = n * n * K; std::vector<int> pick; std::set<std::string> seen;
    std::function<void(int)> go = [&](int from) {
        // reachability
        unsigned reach = 1; for (int k = 0; k < n; ++k) for (int a : pick) { int s = a / K / n, d = a / K % n; if (reach >> s & 1) reach |= 1u << d; }
        if (reach == (1u << n) - 1) for (int f = allow_nofinal ? 0 : 1; f < (1 << n); ++f) {
            // canonical under permutations of 1..n-1
            std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
            std::string self, best;
            do { std::vector<int> as; for (int a : pick) { int s = a / K / n, d = a / K % n, l = a % K; as.push_back((perm[s] * n + perm[d]) * K + l); }
                std::sort(as.begin(), as.end()); int ff = 0; for (int i = 0; i < n; ++i) if (f >> i & 1) ff |= 1 << perm[i];
                std::string k; for (int a : as) k += std::to_string(a) + ","; k += "F" + std::to_string(ff);
                if (best.empty() || k < best) best = k;
            } while (n > 1 && std::next_permutation(perm.begin() + 1, perm.end()));
            if (!seen.insert(best).second) continue;
            T t; t.n = n; for (int a : pick) t.arcs.push_back({a / K / n, a / K % n, labels[a % K].i, labels[a % K].o, 0});
            for (int i = 0; i < n; ++i) if (f >> i & 1) t.fin[i] = 0;
            out.push_back(t);
        }
        if ((int)pick.size() < maxarcs) for (int a = from; a < A; ++a) { pick.push_back(a); go(a + 1); pick.pop_back(); }
    };
    go(0);
}
// generic weights: pairwise distinct powers of two, so that any lost, doubled or misplaced weight is visible
inline T generic_weights(T t, int variant = 0) {
    float w = 0.5f; int k = 0;
    for (auto &a : t.arcs) { a.w = (variant == 1 && k % 2) ? 0 : w; w *= 2; ++k; }
    for (auto &f : t.fin) { f.second = (variant == 1 && k % 2 == 0) ? 0 : w; w *= 2; ++k; }
    return t;
}
} // namespace ref
#endif
