// C20: substitution, insertion, weight functions and constructors; the reference edits the arcs of the input graph.
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstExceptionDefs.h"
using namespace ref; using namespace hfst; using std::string;
typedef std::vector<string> SV; typedef StringPair PR; typedef std::pair<int, int> IP;
static Univ U({"a", "b", "c", "x", "y"});
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE};
static const int NT = 4; // + 1: directly on HfstBasicTransducer
static bool wt(int ti) { return ti == 0 || ti == 3 || ti == NT; }
static float dbl(float f) { return 2 * f + 0.5f; }
static bool fsub(const PR &p, StringPairSet &s) { if (p.first == p.second) return false; s.insert(PR(p.second, p.first)); s.insert(PR("c", "c")); return true; }
// an edit of one arc: the labels that replace it
typedef std::function<std::vector<IP>(IP)> Map;
static Con edit(const Con &a, Map f) { Con c = x_new(a.st.size()); c.fin = a.fin; for (size_t s = 0; s < a.st.size(); ++s) for (auto &x : a.st[s]) for (auto &p : f(IP(x.i, x.o))) c.st[s].push_back({x.t, p.first, p.second, x.w}); return c; }
static Con insert(const Con &a, const Con &b) { Con c = a; int n = a.st.size(); for (int s = 0; s < n; ++s) { int off = c.st.size(); x_app(c, b, off); c.st[s].push_back({off, 0, 0, 0}); for (size_t k = off; k < c.st.size(); ++k) if (c.fin[k].first) { c.st[k].push_back({s, 0, 0, c.fin[k].second}); c.fin[k] = {false, 0}; } } return c; }
static Con plug(const Con &a, IP p, const Con &b) { Con c = x_new(a.st.size()); c.fin = a.fin; for (size_t s = 0; s < a.st.size(); ++s) for (auto &x : a.st[s]) if (IP(x.i, x.o) != p) c.st[s].push_back(x); else { int off = c.st.size(); x_app(c, b, off); c.st[s].push_back({off, 0, 0, x.w}); for (size_t k = off; k < c.st.size(); ++k) if (c.fin[k].first) { c.st[k].push_back({x.t, 0, 0, c.fin[k].second}); c.fin[k] = {false, 0}; } } return c; }
struct Op { string name; std::function<void(HfstTransducer &)> h; std::function<bool(HfstBasicTransducer &)> b; std::function<Con(const Con &)> m; bool neg = false; };
static std::vector<Op> OPS; static std::vector<T> INS; static std::vector<Op> PLUGS;
static const string E = EPS;
static string nm(const string &s) { return s == E ? "0" : s; }
static Con T2C(const T &t) { return concretize(t, U); }
static void init() {
    if (!OPS.empty()) return; SV al = {"a", "b", "c", E};
    for (auto &o : {string("a"), string("b"), E, string("x")}) for (auto &n : al) for (int side = 1; side < 4; ++side) { bool i = side & 1, u = side & 2;
        OPS.push_back({"substitute(" + nm(o) + "," + nm(n) + (side == 3 ? "" : i ? ",input" : ",output") + ")", [=](HfstTransducer &t) { t.substitute(o, n, i, u); }, [=](HfstBasicTransducer &t) { t.substitute(o, n, i, u); return true; }, [=](const Con &c) { int x = U.of(o), y = U.of(n); return edit(c, [=](IP p) { return std::vector<IP>{IP(i && p.first == x ? y : p.first, u && p.second == x ? y : p.second)}; }); }}); }
    std::vector<PR> pr = {PR("a", "a"), PR("a", "b"), PR("b", "a"), PR(E, "a"), PR("c", "c"), PR("b", E), PR("c", "a")}; auto ip = [](const PR &p) { return IP(U.of(p.first), U.of(p.second)); };
    for (size_t o = 0; o < 4; ++o) for (auto &n : pr) { PR q = pr[o]; OPS.push_back({"substitute(" + nm(q.first) + ":" + nm(q.second) + "," + nm(n.first) + ":" + nm(n.second) + ")", [=](HfstTransducer &t) { t.substitute(q, n); }, [=](HfstBasicTransducer &t) { t.substitute(q, n); return true; }, [=](const Con &c) { return edit(c, [=](IP p) { return std::vector<IP>{p == ip(q) ? ip(n) : p}; }); }}); }
    std::vector<StringPairSet> sets = {{}, {PR("c", "c")}, {PR("a", "a"), PR("b", "b")}, {PR("a", "b"), PR("b", "a"), PR("c", E)}, {PR(E, E)}, {PR("c", "b"), PR("b", "c")}};
    for (size_t o = 0; o < 4; ++o) for (size_t k = 0; k < sets.size(); ++k) { PR q = pr[o]; auto S = sets[k]; OPS.push_back({"substitute(" + nm(q.first) + ":" + nm(q.second) + ",set " + std::to_string(k) + ")", [=](HfstTransducer &t) { t.substitute(q, S); }, [=](HfstBasicTransducer &t) { t.substitute(q, S); return true; }, [=](const Con &c) { return edit(c, [=](IP p) { std::vector<IP> r; if (p != ip(q)) r = {p}; else for (auto &s : S) r.push_back(ip(s)); return r; }); }}); }
    std::vector<HfstSymbolSubstitutions> ms = {{{"a", "b"}, {"b", "a"}}, {{"a", "b"}, {"b", "c"}}, {{"a", E}}, {{E, "a"}, {"a", "c"}}, {{"a", "a"}}, {{"x", "a"}}, {{"a", "c"}, {"b", "c"}}, {}};
    for (size_t k = 0; k < ms.size(); ++k) { auto M = ms[k]; OPS.push_back({"substitute(symbols " + std::to_string(k) + ")", [=](HfstTransducer &t) { t.substitute(M); }, [=](HfstBasicTransducer &t) { t.substitute(M); return true; }, [=](const Con &c) { std::map<int, int> f; for (auto &x : M) f[U.of(x.first)] = U.of(x.second); return edit(c, [=](IP p) { return std::vector<IP>{IP(f.count(p.first) ? f.at(p.first) : p.first, f.count(p.second) ? f.at(p.second) : p.second)}; }); }}); }
    std::vector<HfstSymbolPairSubstitutions> mp = {{{PR("a", "a"), PR("b", "b")}, {PR("b", "b"), PR("a", "a")}}, {{PR("a", "b"), PR("b", "a")}, {PR("b", "a"), PR("a", "a")}, {PR("a", "a"), PR("c", E)}}, {{PR(E, "a"), PR("a", E)}}, {}};
    for (size_t k = 0; k < mp.size(); ++k) { auto M = mp[k]; OPS.push_back({"substitute(pairs " + std::to_string(k) + ")", [=](HfstTransducer &t) { t.substitute(M); }, [=](HfstBasicTransducer &t) { t.substitute(M); return true; }, [=](const Con &c) { std::map<IP, IP> f; for (auto &x : M) f[ip(x.first)] = ip(x.second); return edit(c, [=](IP p) { return std::vector<IP>{f.count(p) ? f.at(p) : p}; }); }}); }
    OPS.push_back({"substitute(function)", [](HfstTransducer &t) { t.substitute(fsub); }, [](HfstBasicTransducer &t) { t.substitute(fsub); return true; }, [](const Con &c) { return edit(c, [](IP p) { return p.first == p.second ? std::vector<IP>{p} : std::vector<IP>{IP(p.second, p.first), IP(3, 3)}; }); }});
    for (float w : {0.f, 3.f}) for (bool inc : {false, true}) OPS.push_back({"set_final_weights(" + std::to_string(w) + (inc ? ",increment)" : ")"), [=](HfstTransducer &t) { t.set_final_weights(w, inc); }, nullptr, [=](const Con &a) { Con c = a; for (auto &f : c.fin) if (f.first) f.second = inc ? f.second + w : w; return c; }});
    OPS.push_back({"transform_weights(2w+.5)", [](HfstTransducer &t) { t.transform_weights(dbl); }, nullptr, [](const Con &a) { Con c = a; for (auto &s : c.st) for (auto &x : s) x.w = dbl(x.w); for (auto &f : c.fin) if (f.first) f.second = dbl(f.second); return c; }});
    auto mk = [](int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; for (auto &f : fin) t.fin[f.first] = f.second; return t; };
    INS = {mk(1, {}, {{0, 0}}), mk(1, {}, {}), mk(2, {{0, 1, "b", "b", 0}}, {{1, 0}}), mk(3, {{0, 1, "b", "c", 2}, {1, 2, "a", "a", 0}}, {{2, 1}}), mk(1, {{0, 0, "b", "a", 1}}, {{0, 0}}), mk(2, {{0, 1, "a", "a", 1}}, {{1, 2}, {0, 8}}), mk(2, {{0, 1, "c", E, 1}, {0, 1, E, "b", 4}}, {{1, 0}})};
    for (size_t k = 0; k < INS.size(); ++k) for (auto &q : std::vector<PR>{PR("a", "a"), PR("a", "b"), PR(E, "a")}) { T t = INS[k]; OPS.push_back({"substitute(" + nm(q.first) + ":" + nm(q.second) + "," + t.str() + ")", [=](HfstTransducer &h) { HfstTransducer x = to_hfst(t, h.get_type()); h.substitute(q, x); }, [=](HfstBasicTransducer &b) { b.substitute(q, to_basic(t)); return true; }, [=](const Con &c) { return plug(c, ip(q), T2C(t)); }}); }
    for (size_t k = 0; k < INS.size(); ++k) { T t = INS[k]; OPS.push_back({"insert_freely(" + t.str() + ")", [=](HfstTransducer &h) { HfstTransducer x = to_hfst(t, h.get_type()); h.insert_freely(x); }, [=](HfstBasicTransducer &b) { b.insert_freely(to_basic(t)); return true; }, [=](const Con &c) { return insert(c, T2C(t)); }}); }
    for (auto &p : {PR("a", "a"), PR("c", E), PR("b", "a")}) OPS.push_back({"insert_freely(" + nm(p.first) + ":" + nm(p.second) + ")", [=](HfstTransducer &h) { h.insert_freely(p); }, [=](HfstBasicTransducer &b) { b.insert_freely(p, 0); return true; }, [=](const Con &c) { return insert(c, x_pair(U.of(p.first), U.of(p.second))); }});
    OPS.push_back({"insert_freely({a:b,c:c})", nullptr, [=](HfstBasicTransducer &b) { b.insert_freely(HfstBasicTransducer::HfstSymbolPairSet{PR("a", "b"), PR("c", "c")}, 0); return true; }, [=](const Con &c) { return insert(c, x_union(x_pair(1, 2), x_pair(3, 3))); }});
    OPS.push_back({"prune_alphabet", [](HfstTransducer &t) { t.insert_to_alphabet("y"); t.prune_alphabet(); if (t.get_alphabet().count("y")) throw std::runtime_error("y is still in the alphabet"); }, [](HfstBasicTransducer &t) { t.add_symbol_to_alphabet("y"); t.prune_alphabet(); return true; }, [](const Con &c) { return c; }});
    OPS.push_back({"alphabet y", [](HfstTransducer &t) { auto al = [&]() { StringSet r; for (auto &x : t.get_alphabet()) if (x != EPS && x != UNK && x != IDN) r.insert(x); return r; }; StringSet a = al(); t.insert_to_alphabet("y"); a.insert("y"); if (al() != a) { string m; for (auto &x : al()) m += x + " "; throw std::runtime_error("insert_to_alphabet: " + m); } t.insert_to_alphabet(StringSet{"x", "y"}); a.insert("x"); if (al() != a) throw std::runtime_error("insert_to_alphabet"); t.remove_from_alphabet("y"); a.erase("y"); if (al() != a) throw std::runtime_error("remove_from_alphabet"); }, nullptr, [](const Con &c) { return c; }});
}
static string graph_key(int ti, const T &t, const string &op) { return string(ti == NT ? "basic" : tyname(TY[ti])) + "|" + t.str() + "|" + op; }
// the result must be a well-formed transducer that denotes the reference relation
static void verify(mc::Ctx &c, const Con &want0, const Con &got, int ti, int L) {
    if (!got.err.empty()) return c.fail(got.err); bool w = wt(ti); Con want = w ? want0 : x_unweight(want0); bool lg = ti == 3;
    Rel a = rel(want, L), b = rel(got, L); if (!w) b = r_unweight(b); string d = rel_diff(a, b, U, w); (void)lg; c.outcome(rel_hash(b)); c.state(rel_hash(a) ^ ti); if (!a.empty()) c.nontrivial(); if (!d.empty()) c.fail("the result differs:" + d); else c.sample(c.key); }
static void run(mc::Ctx &c, const T &t0, const Op &op, int ti, int L) {
    T t = t0; if (!wt(ti)) { for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; } c.k(graph_key(ti, t, op.name)); if (!(ti == NT ? (bool)op.b : (bool)op.h) || (ti == 2 && t.fin.empty() && op.name == "alphabet y")) { c.skip(); return; } /* foma's own constructor drops the alphabet of an empty language */ c.trans();
    Con want = op.m(concretize(t, U)), got;
    if (ti == NT) { HfstBasicTransducer b = to_basic(t); op.b(b); got = concretize(b, U); }
    else { HfstTransducer h = to_hfst(t, TY[ti]); h.set_name("n"); bool hw = ti == 3 ? t.weighted() : h.has_weights(); if (hw != (wt(ti) && t.weighted())) return c.fail("has_weights() is wrong"); op.h(h); if (h.get_type() != TY[ti]) return c.fail("the type changed"); got = concretize(h, U); }
    verify(c, want, got, ti, L); }
static std::vector<T> G1, G2, G3;
// substitution and insertion in the presence of unknown and identity symbols
static std::vector<Op> IOPS;
static void init2() { if (!IOPS.empty()) return; auto mk = [](int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; for (auto &f : fin) t.fin[f.first] = f.second; return t; };
    std::vector<T> ts = {mk(2, {{0, 1, "b", "b", 0}}, {{1, 0}}), mk(2, {{0, 1, IDN, IDN, 0}}, {{1, 0}}), mk(3, {{0, 1, "b", "c", 2}, {1, 2, IDN, IDN, 0}}, {{2, 0}}), mk(2, {{0, 1, UNK, "c", 1}}, {{1, 0}}), mk(2, {{0, 1, UNK, UNK, 0}, {0, 1, IDN, IDN, 0}}, {{1, 0}}), mk(2, {{0, 1, "a", "a", 0}, {0, 1, IDN, IDN, 1}}, {{1, 0}})};
    for (auto &t : ts) for (auto &q : std::vector<PR>{PR("a", "a"), PR("a", "b"), PR("c", "c"), PR("b", "c")}) IOPS.push_back({"substitute(" + q.first + ":" + q.second + "," + t.str() + ")", [=](HfstTransducer &h) { HfstTransducer x = to_hfst(t, h.get_type()); h.substitute(q, x); }, nullptr, [=](const Con &c) { return plug(c, IP(U.of(q.first), U.of(q.second)), T2C(t)); }});
    for (auto &t : ts) IOPS.push_back({"insert_freely(" + t.str() + ")", [=](HfstTransducer &h) { HfstTransducer x = to_hfst(t, h.get_type()); h.insert_freely(x); }, nullptr, [=](const Con &c) { return insert(c, T2C(t)); }});
    for (auto &p : {PR("a", "a"), PR("c", EPS), PR("b", "c")}) IOPS.push_back({"insert_freely(" + p.first + ":" + nm(p.second) + ")", [=](HfstTransducer &h) { h.insert_freely(p); }, nullptr, [=](const Con &c) { return insert(c, x_pair(U.of(p.first), U.of(p.second))); }});
    IOPS.push_back({"prune_alphabet(false)", [](HfstTransducer &h) { h.prune_alphabet(false); }, nullptr, [](const Con &c) { return c; }}); }
// constructors from pairs, and the trie disjunctions
static std::vector<std::vector<PR>> SPV(int n, const std::vector<PR> &p) { std::vector<std::vector<PR>> r = {{}}; size_t b = 0; for (int l = 0; l < n; ++l) { size_t e = r.size(); for (; b < e; ++b) for (auto &x : p) { auto y = r[b]; y.push_back(x); r.push_back(y); } } return r; }
static const std::vector<PR> P5 = {PR("a", "a"), PR("a", "b"), PR(EPS, "a"), PR("b", EPS), PR("c", "c")}, P3 = {PR("a", "a"), PR("a", "b"), PR("b", "b")};
static string ps(const std::vector<PR> &v) { string r = "["; for (auto &p : v) r += nm(p.first) + ":" + nm(p.second) + " "; return r + "]"; }
static Con word(const std::vector<PR> &v, float w = 0) { Con c = x_eps(); for (auto &p : v) c = x_concat(c, x_pair(U.of(p.first), U.of(p.second))); return x_finalw(c, w); }
static std::vector<PR> subset(const std::vector<PR> &p, int m) { std::vector<PR> r; for (size_t i = 0; i < p.size(); ++i) if (m >> i & 1) r.push_back(p[i]); return r; }
static Con uni(const std::vector<PR> &v) { Con c = x_empty(); for (auto &p : v) c = x_union(c, x_pair(U.of(p.first), U.of(p.second))); return c; }
static void construct(mc::u64 i, mc::Ctx &c) {
    static auto W = SPV(3, P5); static auto S2 = SPV(2, P3); int ti = i % NT; i /= NT; ImplementationType ty = TY[ti]; string T = tyname(ty); c.trans();
    if (i < W.size()) { c.k(T + "|vector " + ps(W[i])); HfstTransducer h(StringPairVector(W[i].begin(), W[i].end()), ty); return verify(c, word(W[i]), concretize(h, U), ti, 3); } i -= W.size();
    if (i < 64) { auto v = subset(P5, i / 2); bool cy = i & 1; if (v.empty() && !cy) { c.skip(); return; } /* every back-end makes this the empty string */ c.k(T + "|set " + ps(v) + (cy ? "*" : "")); HfstTransducer h(StringPairSet(v.begin(), v.end()), ty, cy); return verify(c, cy ? x_star(uni(v)) : uni(v), concretize(h, U), ti, 3); } i -= 64;
    if (i < 1 + 8 + 64 + 512) { std::vector<StringPairSet> sv; Con w = x_eps(); string k; int n = i < 1 ? 0 : i < 9 ? 1 : i < 73 ? 2 : 3; int m = i - (n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 9 : 73); for (int j = 0; j < n; ++j, m /= 8) { auto v = subset(P5, m % 8); k += ps(v); sv.push_back(StringPairSet(v.begin(), v.end())); w = x_concat(w, uni(v)); } c.k(T + "|vector of sets " + k); HfstTransducer h(sv, ty); return verify(c, w, concretize(h, U), ti, 3); } i -= 585;
    if (i < 13 * 13 * 13) { if (ti > 1) { c.skip(); return; } std::vector<std::vector<PR>> s = {S2[i % 13], S2[i / 13 % 13], S2[i / 169]}; c.k(T + "|disjunct(path) " + ps(s[0]) + ps(s[1]) + ps(s[2])); HfstTransducer h(ty); Con w = x_empty(); for (auto &v : s) { h.disjunct(StringPairVector(v.begin(), v.end())); w = x_union(w, word(v)); } return verify(c, w, concretize(h, U), ti, 3); } i -= 13 * 13 * 13;
    if (ti) { c.skip(); return; } static const float ws[] = {0, 1, -1, 0.25f}; HfstBasicTransducer b; Con w = x_empty(); string k; for (int j = 0; j < 3; ++j) { auto &v = S2[i % 13]; i /= 13; float x = ws[i % 4]; i /= 4; k += ps(v) + std::to_string(x); b.disjunct(StringPairVector(v.begin(), v.end()), x); w = x_union(w, word(v, x)); } c.k("basic|disjunct(path, weight) " + k); verify(c, w, concretize(b, U), NT, 3);
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C20"; init(); init2();
    h.spaces = [](bool th) { std::vector<mc::Space> v; typedef mc::u64 u64;
        std::vector<Label> lab = {{"a", "a"}, {"a", "b"}, {"b", "b"}, {E, "a"}}; if (th) { lab.push_back({"b", E}); lab.push_back({"c", "c"}); }
        std::vector<T> g; enum_T(1, lab, 3, true, g); enum_T(2, lab, th ? 3 : 2, true, g); if (!th) { std::vector<Label> l2 = {{"a", "a"}, {"a", "b"}}; enum_T(2, l2, 4, true, g); } for (auto &t : g) G1.push_back(generic_weights(t, 0));
        u64 no = OPS.size(), ng = G1.size();
        v.push_back({"edits", no * ng * (NT + 1), [=](u64 i, mc::Ctx &c) { int ti = i % (NT + 1); i /= NT + 1; run(c, G1[i / no], OPS[i % no], ti, 3); }, 2000});
        std::vector<T> g2; std::vector<Label> li = {{"a", "a"}, {"b", "b"}, {IDN, IDN}, {UNK, UNK}, {UNK, "b"}, {"a", UNK}}; enum_T(1, li, 2, false, g2); enum_T(2, li, 2, false, g2); for (auto &t : g2) { for (auto k : {"a", "b", "c"}) t.extra_alpha.insert(k); G2.push_back(generic_weights(t, 0)); T x = t; x.extra_alpha.insert("x"); if (x.arcs.size() < 2) G2.push_back(x); }
        u64 ni = IOPS.size(), ng2 = G2.size();
        v.push_back({"unknown", ni * ng2 * NT, [=](u64 i, mc::Ctx &c) { int ti = i % NT; i /= NT; run(c, G2[i / ni], IOPS[i % ni], ti, 2); }, 1000});
        v.push_back({"construct", NT * (156ull + 64 + 585 + 2197 + 52 * 52 * 52), construct, 2000});
        return v; };
    return mc::drive(argc, argv, h);
}
