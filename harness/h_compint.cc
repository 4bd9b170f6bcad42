// C21: composition of a lexicon with the intersection of rules, against explicit products of the graphs.
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstExceptionDefs.h"
using namespace ref; using namespace hfst; using std::string;
static const string F = "@U.F.1@", WB = "@#@";
static Univ U({"a", "b", "c"}), UF({"a", "b", F}), UW({"a", "b", "c", WB});
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE}; static const int NT = 4;
static bool wt(int ti) { return ti == 0 || ti == 3; }
static T mk(int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; for (auto &f : fin) t.fin[f.first] = f.second; return t; }
// intersection of rules: pairs are single symbols
static Con inter(const Con &a, const Con &b) { Con c; std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int>> q; auto get = [&](int x, int y) { auto it = id.find({x, y}); if (it != id.end()) return it->second; int k = q.size(); id[{x, y}] = k; q.push_back({x, y}); return k; }; get(0, 0);
    for (size_t k = 0; k < q.size(); ++k) { auto [x, y] = q[k]; c.st.push_back({}); bool f = a.fin[x].first && b.fin[y].first; c.fin.push_back({f, f ? a.fin[x].second + b.fin[y].second : 0}); for (auto &s : a.st[x]) for (auto &t : b.st[y]) if (s.i == t.i && s.o == t.o) { int g = get(s.t, t.t); c.st[k].push_back({g, s.i, s.o, s.w + t.w}); } } return c; }
static T unw(T t) { for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; return t; }
static void run(mc::Ctx &c, T lex, std::vector<T> rules, int ti, bool inv, const Univ &u, int L, bool wb = false, bool flags = false) {
    if (!wt(ti)) { lex = unw(lex); for (auto &r : rules) r = unw(r); }
    string k = string(tyname(TY[ti])) + (inv ? "|inverted " : "|") + lex.str() + " .o. "; for (auto &r : rules) k += "& " + r.str(); c.k(k); c.trans();
    Con w; for (size_t i = 0; i < rules.size(); ++i) { Con r = concretize(rules[i], u); if (flags) { int f = u.of(F); for (size_t s = 0; s < r.st.size(); ++s) { auto &v = r.st[s]; v.erase(std::remove_if(v.begin(), v.end(), [&](const CArc &x) { return x.i == f || x.o == f; }), v.end()); v.push_back({(int)s, f, f, 0}); } } if (wb && inv) for (auto &st : r.st) for (auto &x : st) if (x.i == u.of(WB) && x.o == 0) std::swap(x.i, x.o); /* the boundary is a mark on the lexicon side */ w = i ? inter(w, r) : r; }
    T lx = lex; if (wb) lx.extra_alpha.insert(WB); Con l = concretize(lx, u); if (flags) { int f = u.of(F); bool has = false; for (auto &a : lex.arcs) if (a.i == F) has = true; if (!has) for (auto &v : l.st) v.erase(std::remove_if(v.begin(), v.end(), [&](const CArc &x) { return x.i == f; }), v.end()); }
    if (wb) { Con b = inv ? x_pair(u.of(WB), 0) : x_pair(0, u.of(WB)); l = x_concat(x_concat(b, l), b); }
    Con want = inv ? x_compose(w, l) : x_compose(l, w);
    HfstTransducer h = to_hfst(lex, TY[ti]); HfstTransducerVector v; for (auto &r : rules) v.push_back(to_hfst(r, TY[ti])); h.compose_intersect(v, inv); if (h.get_type() != TY[ti]) return c.fail("the type changed");
    Con got = concretize(h, u); if (!got.err.empty()) return c.fail(got.err); Rel a = rel(want, L), b = rel(got, L); if (!wt(ti)) a = r_unweight(a), b = r_unweight(b); string d = rel_diff(a, b, u, wt(ti)); c.outcome(rel_hash(b)); c.state(rel_hash(a) ^ ti); if (!a.empty()) c.nontrivial(); if (!d.empty()) c.fail("the result differs:" + d); else c.sample(c.key); }
static std::vector<T> LEX, R1, R2, RA, RB, RI;
// deterministic graphs over a list of labels
static void dets(int n, const std::vector<Label> &lab, int maxarcs, std::vector<T> &out) { int slots = n * lab.size(); std::vector<int> t(slots, -1);
    while (true) { int m = 0; for (int x : t) if (x >= 0) ++m; if (m <= maxarcs) for (int f = 1; f < (1 << n); ++f) { T g; g.n = n; for (int s = 0; s < slots; ++s) if (t[s] >= 0) g.arcs.push_back({s / (int)lab.size(), t[s], lab[s % lab.size()].i, lab[s % lab.size()].o, 0}); for (int s = 0; s < n; ++s) if (f >> s & 1) g.fin[s] = 0; bool reach = n == 1; for (auto &a : g.arcs) if (a.s == 0 && a.t == 1) reach = true; if (reach) out.push_back(g); } int i = 0; while (i < slots && ++t[i] == n) t[i++] = -1; if (i == slots) break; } }
static void init() { if (!LEX.empty()) return; string E = EPS;
    LEX = {mk(1, {{0, 0, "a", "a", 0}, {0, 0, "b", "b", 0}}, {{0, 0}}), mk(1, {{0, 0, "a", "a", 1}, {0, 0, "b", "a", 0.5}, {0, 0, "b", "b", 0}}, {{0, 2}}), mk(3, {{0, 1, "a", "b", 1}, {1, 2, E, "a", 2}, {0, 2, "b", "a", 0}}, {{2, 1}, {1, 0}}), mk(2, {{0, 1, "a", E, 0}, {1, 0, "b", "b", 1}, {0, 0, E, "a", 1}}, {{0, 0}}),
           mk(1, {}, {{0, 3}}), mk(1, {}, {}), mk(2, {{0, 1, IDN, IDN, 1}, {1, 1, "a", "a", 0}}, {{1, 0}}), mk(1, {{0, 0, IDN, IDN, 0}}, {{0, 0}}), mk(3, {{0, 1, "c", "a", 0}, {1, 2, "a", "c", 1}, {2, 2, "b", "b", 0}}, {{1, 1}, {2, 0}}), mk(2, {{0, 1, E, E, 1}, {1, 1, "b", "a", 0}, {0, 0, "a", "b", 0}}, {{1, 0}}), mk(2, {{0, 1, "a", "a", 0}, {0, 1, "a", "a", 2}, {1, 0, "b", "b", 1}}, {{1, 0}})};
    std::vector<Label> l6 = {{"a", "a"}, {"a", "b"}, {"b", "b"}, {"a", E}, {E, "b"}, {IDN, IDN}}, l3 = {{"a", "a"}, {"a", "b"}, {"b", "b"}}, l4 = {{"a", "a"}, {"a", "b"}, {"b", E}, {IDN, IDN}};
    dets(1, l6, 6, R1); dets(2, l3, 4, R2); std::vector<T> x; dets(2, l4, 3, x); for (auto &t : x) R2.push_back(t); for (auto &t : R1) t = generic_weights(t, 0); for (auto &t : R2) t = generic_weights(t, 0);
    std::vector<Label> l2 = {{"a", "a"}, {"a", "b"}, {"b", "b"}, {IDN, IDN}}; dets(1, l2, 4, RA); for (size_t i = 0; i < R2.size(); i += 1) { auto &t = R2[i]; if (t.arcs.size() >= 3 && (t.arcs[0].i == "a") && i % 17 == 0) RA.push_back(t); } for (auto &t : RA) t = generic_weights(t, 1);
    // rules that do not know all the symbols
    RI = {mk(1, {{0, 0, IDN, IDN, 0}}, {{0, 0}}), mk(1, {{0, 0, "a", "b", 1}, {0, 0, IDN, IDN, 0}}, {{0, 0}}), mk(2, {{0, 1, "b", "b", 0}, {1, 0, IDN, IDN, 1}, {0, 0, IDN, IDN, 0}}, {{0, 0}, {1, 1}}), mk(1, {{0, 0, "c", "a", 0}, {0, 0, IDN, IDN, 2}}, {{0, 0}}), mk(1, {{0, 0, "a", "a", 0}, {0, 0, "b", "b", 0}, {0, 0, "c", "c", 0}}, {{0, 0}}), mk(2, {{0, 0, "a", "a", 0}, {0, 1, IDN, IDN, 0}, {1, 1, "a", "a", 1}}, {{1, 0}}), mk(1, {{0, 0, "b", "a", 0}, {0, 0, "b", "b", 0}}, {{0, 0}})}; }
static std::vector<T> FL, FR, WR;
static void init2() { std::vector<Label> lf = {{"a", "a"}, {F, F}, {"b", "a"}}, lr = {{"a", "a"}, {"a", "b"}, {"b", "b"}, {IDN, IDN}}; enum_T(2, lf, 2, false, FL); for (auto &t : FL) t = generic_weights(t, 0); std::erase_if(FL, [](const T &t) { for (auto &a : t.arcs) if (a.i == F) return false; return true; });
    dets(1, lr, 4, FR); for (int k : {0, 3}) FR.push_back(mk(2, {{0, 0, "b", "b", 0}, {0, 1, "a", "b", 1}, {1, k ? 0 : 1, "b", "b", 0}}, {{k ? 0 : 1, 2}}));
    for (int f = 1; f < 8; f += 2) WR.push_back(mk(3, {{0, 1, WB, EPS, 0}, {1, 1, "a", "a", 0.5}, {1, 1, "b", "b", 0}, {1, 2, WB, EPS, f & 2 ? 1.f : 0.f}, {2, 2, IDN, IDN, 0}, {1, 1, f & 4 ? IDN : "a", f & 4 ? IDN : "b", 0}}, {{2, 0}}));
    WR.push_back(mk(3, {{0, 1, WB, EPS, 0}, {1, 2, "a", "b", 0}, {1, 2, "b", "b", 0}, {2, 2, "a", "a", 0}, {2, 2, "b", "b", 0}, {2, 2, WB, EPS, 1}}, {{2, 0}, {1, 1}})); WR.push_back(mk(1, {{0, 0, WB, EPS, 0}, {0, 0, IDN, IDN, 0}}, {{0, 0}})); WR.push_back(mk(1, {{0, 0, WB, EPS, 1}, {0, 0, "a", "b", 0}, {0, 0, "a", "a", 1}, {0, 0, "b", "b", 0}}, {{0, 0}})); }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C21"; init(); init2();
    h.spaces = [](bool th) { std::vector<mc::Space> v; typedef mc::u64 u64; u64 nl = LEX.size(), n2 = R2.size(), n1 = R1.size(), na = RA.size(), ni = RI.size();
        v.push_back({"one-rule", (n1 + n2) * nl * 2 * NT, [=](u64 i, mc::Ctx &c) { int ti = i % NT; i /= NT; bool inv = i % 2; i /= 2; u64 l = i % nl, r = i / nl; run(c, LEX[l], {r < n1 ? R1[r] : R2[r - n1]}, ti, inv, U, 3); }, 2000});
        u64 nt2 = th ? NT : 2; v.push_back({"two-rules", na * na * nl * 2 * nt2, [=](u64 i, mc::Ctx &c) { int ti = i % nt2; i /= nt2; bool inv = i % 2; i /= 2; u64 l = i % nl; i /= nl; run(c, LEX[l], {RA[i % na], RA[i / na]}, ti, inv, U, 3); }, 2000});
        v.push_back({"three-rules", ni * ni * ni * nl * 2 * NT, [=](u64 i, mc::Ctx &c) { int ti = i % NT; i /= NT; bool inv = i % 2; i /= 2; u64 l = i % nl; i /= nl; run(c, LEX[l], {RI[i % ni], RI[i / ni % ni], RI[i / ni / ni]}, ti, inv, U, 3); }, 2000});
        u64 nf = FL.size(), nx = FR.size(); v.push_back({"flags", nf * nx * (nx + 1) * 2 * NT, [=](u64 i, mc::Ctx &c) { int ti = i % NT; i /= NT; bool inv = i % 2; i /= 2; u64 l = i % nf; i /= nf; std::vector<T> r = {FR[i % nx]}; i /= nx; if (i) r.push_back(FR[i - 1]); run(c, FL[l], r, ti, inv, UF, 3, false, true); }, 2000});
        u64 nw = WR.size(); v.push_back({"boundary", nl * nw * (nw + 1) * 2 * 3, [=](u64 i, mc::Ctx &c) { int ti = i % 3; i /= 3; bool inv = i % 2; i /= 2; u64 l = i % nl; i /= nl; /* not log: the lexicon is optimized, and sums over cycles need not converge */ std::vector<T> r = {WR[i % nw]}; i /= nw; if (i) r.push_back(WR[i - 1]); run(c, LEX[l], r, ti, inv, UW, 3, true); }, 2000});
        return v; };
    return mc::drive(argc, argv, h);
}
