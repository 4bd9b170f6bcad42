// C23 command-line tools: the operation of the tool, applied to the streams of transducers it is given.
#include "tools.h"
#include "refx.h"
using namespace ref; using namespace hfst;
namespace {
static Univ U; static const int L = 3;
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
static bool wty(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE; }
static const char *OPT[] = {"openfst-tropical", "sfst", "foma"};
static auto &P = *new std::vector<T>; // the transducers; the first NA are automata
static size_t NA;
static Con r2c(const Rel &r) { Con c = x_new(1); for (auto &x : r) { int q = 0; int n = std::max(slen(x.first.first), slen(x.first.second)); for (int k = 0; k < n; ++k) { c.st.push_back({}); c.fin.push_back({false, 0}); int t = c.st.size() - 1; c.st[q].push_back({t, k < slen(x.first.first) ? sat(x.first.first, k) : 0, k < slen(x.first.second) ? sat(x.first.second, k) : 0, 0}); q = t; } if (q == 0) { c.st.push_back({}); c.fin.push_back({false, 0}); q = c.st.size() - 1; c.st[0].push_back({q, 0, 0, 0}); } c.fin[q] = {true, x.second}; } return c; }
static Con x_shuffle(const Con &a, const Con &b) { int n = b.st.size(); Con c = x_new(a.st.size() * n); for (size_t p = 0; p < a.st.size(); ++p) for (int q = 0; q < n; ++q) { auto &s = c.st[p * n + q]; for (auto &x : a.st[p]) s.push_back({x.t * n + q, x.i, x.o, x.w}); for (auto &x : b.st[q]) s.push_back({(int)p * n + x.t, x.i, x.o, x.w}); if (a.fin[p].first && b.fin[q].first) c.fin[p * n + q] = {true, a.fin[p].second + b.fin[q].second}; } return c; }
static const char *BIN[] = {"compose", "concatenate", "conjunct", "disjunct", "subtract", "priority-disjunct", "shuffle"}; static const int NBIN = 7;
static Con bin(int op, const Con &a, const Con &b) { switch (op) { case 0: return x_compose(a, b); case 1: return x_concat(a, b); case 2: return x_and(a, b); case 3: return x_union(a, b); case 4: return x_minus(a, b, U); case 5: return x_prio(a, b, U); default: return x_shuffle(a, b); } }
static std::string cmp_stream(const std::vector<Con> &want, const std::string &bytes, ImplementationType ty, bool w, mc::Ctx &c) {
    std::vector<HfstTransducer> got; ImplementationType gt = UNSPECIFIED_TYPE; if (!tl::unstream(bytes, got, gt)) return want.empty() && bytes.empty() ? "" : "the output is not a stream of transducers";
    if (got.size() != want.size()) return std::to_string(got.size()) + " transducers instead of " + std::to_string(want.size()); 
    for (size_t i = 0; i < got.size(); ++i) { if (got[i].get_type() != ty) return std::string("type ") + tyname(got[i].get_type()); if (got[i].get_type() == HFST_OL_TYPE || got[i].get_type() == HFST_OLW_TYPE || got[i].get_type() == LOG_OPENFST_TYPE) got[i].convert(TROPICAL_OPENFST_TYPE); Con g = concretize(got[i], U); if (!g.err.empty()) return g.err; Rel r1 = rel(want[i], L), r2 = rel(g, L); c.state(rel_hash(r1)); c.outcome(rel_hash(r2)); if (!r1.empty()) c.nontrivial(); std::string d = rel_diff(r1, r2, U, w); if (!d.empty()) return "transducer " + std::to_string(i + 1) + ": " + d; }
    return ""; }
// binary tools: streams of n1 and n2 transducers, in every way of passing them
static const char *STYLE[] = {"FILE1 FILE2 > OUT", "< FILE1 FILE2 > OUT", "-1 FILE1 -2 FILE2 -o OUT", "-1 FILE1 < FILE2 > OUT", "-2 FILE2 FILE1 -o OUT"};
static void bin_case(mc::Ctx &c, int op, const std::vector<int> &f, const std::vector<int> &s, ImplementationType t1, ImplementationType t2, int style, bool noconv) {
    tl::Case guard; std::string k = std::string("hfst-") + BIN[op] + (noconv ? " -R" : "") + " " + STYLE[style] + "|" + tyname(t1) + "," + tyname(t2) + "|"; std::vector<T> a, b; for (int x : f) { a.push_back(P[x]); k += P[x].str() + " "; } k += "| "; for (int x : s) { b.push_back(P[x]); k += P[x].str() + " "; } c.k(k);
    std::string s1 = tl::stream(a, t1), s2 = tl::stream(b, t2), in; tl::put("1", s1); tl::put("2", s2); std::vector<std::string> args; bool tofile = false;
    switch (style) { case 0: args = {"1", "2"}; break; case 1: args = {"2"}; in = s1; break; case 2: args = {"-1", "1", "-2", "2", "-o", "out"}; tofile = true; break; case 3: args = {"-1", "1"}; in = s2; break; case 4: args = {"-2", "2", "1", "--output=out"}; tofile = true; break; }
    args.push_back("-s"); if (noconv) args.push_back("-R"); tl::Run r = tl::run(BIN[op], args, in); c.trans(); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err));
    bool fit = f.size() == s.size() || s.size() == 1 || (op == 0 && f.size() == 1); if (t1 != t2 && noconv) fit = false;
    if (!fit) { c.outcome(r.rc); if (r.rc == 0) return c.fail("succeeded"); return; }
    if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    ImplementationType ot = t1 == t2 ? t1 : wty(t1) ? t1 : wty(t2) ? t2 : t1; bool w = wty(t1) && wty(t2); std::vector<Con> want; size_t n = std::max(f.size(), s.size()); for (size_t i = 0; i < n; ++i) { Con x = concretize(P[f[f.size() == 1 ? 0 : i]], U), y = concretize(P[s[s.size() == 1 ? 0 : i]], U); if (!wty(t1)) x = x_unweight(x); if (!wty(t2)) y = x_unweight(y); want.push_back(bin(op, x, y)); }
    (void)w; std::string d = cmp_stream(want, tofile ? tl::get("out") : r.out, ot, wty(ot) || wty(t1) || wty(t2), c); if (!d.empty()) return c.fail(d); c.sample(c.key); }
// unary tools
struct UCase { std::string tool; std::vector<std::string> args; std::function<bool(const T &, Con &)> f; std::function<bool(std::vector<int> &)> sel; std::string name; ImplementationType ot; };
static auto &UC = *new std::vector<UCase>;
static T relabel(T t, std::function<void(Arc &)> f) { for (auto &a : t.arcs) f(a); return t; }
static bool has_unk(const T &t) { for (auto &a : t.arcs) if (a.i == IDN || a.o == IDN) return true; return false; }
static bool has_sym(const T &t, const std::string &s) { for (auto &a : t.arcs) if (a.i == s || a.o == s) return true; return false; }
static T splice(const T &t, const std::string &i, const std::string &o, const T &sub) { T r; r.n = t.n; r.fin = t.fin; for (auto &a : t.arcs) { if (a.i != i || a.o != o) { r.arcs.push_back(a); continue; } int b = r.n; r.n += sub.n; r.arcs.push_back({a.s, b, EPS, EPS, a.w}); for (auto &x : sub.arcs) r.arcs.push_back({x.s + b, x.t + b, x.i, x.o, x.w}); for (auto &f : sub.fin) r.arcs.push_back({f.first + b, a.t, EPS, EPS, f.second}); } return r; }
static void build_unary() {
    auto add = [&](const std::string &tool, std::vector<std::string> args, std::function<bool(const T &, Con &)> f, std::function<bool(std::vector<int> &)> sel = nullptr, std::string name = "", ImplementationType ot = UNSPECIFIED_TYPE) { UC.push_back({tool, args, f, sel, name, ot}); };
    auto id = [](const T &t, Con &c) { c = concretize(t, U); return true; };
    add("invert", {}, [](const T &t, Con &c) { c = x_inv(concretize(t, U)); return true; }); add("reverse", {}, [](const T &t, Con &c) { c = x_rev(concretize(t, U)); return true; });
    for (const char *p : {"input", "upper", "first", "analysis"}) add("project", {"-p", p}, [](const T &t, Con &c) { c = x_up(concretize(t, U)); return true; }); for (const char *p : {"output", "lower", "second", "generation"}) add("project", {std::string("--project=") + p}, [](const T &t, Con &c) { c = x_down(concretize(t, U)); return true; });
    for (const char *t : {"minimize", "determinize", "remove-epsilons"}) add(t, {}, id); add("minimize", {"-E"}, id); add("determinize", {"-E"}, id);
    for (const char *p : {"start", "end", "initial", "final"}) { add("push-weights", {"-p", p}, id); add("push-labels", {"-p", p}, [](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(t, U); return true; }); }
    for (int lo : {-1, 0, 1, 2}) for (int hi : {-1, 0, 1, 2, 3, 99}) { if (hi >= 0 && lo > hi) continue; std::vector<std::string> a; if (lo >= 0) a.push_back("-f" + std::to_string(lo)); if (hi == 99) a.push_back("-tinf"); else if (hi >= 0) a.push_back("--to=" + std::to_string(hi)); int l = std::max(lo, 0), k = hi; add("repeat", a, [l, k](const T &t, Con &c) { Con b = concretize(t, U); c = k < 0 || k == 99 ? x_concat(x_power(b, l, l), x_star(b)) : x_power(b, l, k); return true; }); }
    struct RW { std::vector<std::string> a; float mul, addv; int fn; float lo, hi; const char *I, *O, *S; bool e, A; }; std::vector<RW> rw = {{{"-a", "2"}, 1, 2, 0, -1e9, 1e9, 0, 0, 0, 0, 0}, {{"-b", "3"}, 3, 0, 0, -1e9, 1e9, 0, 0, 0, 0, 0}, {{"-b0.5", "--addition=1.5"}, 0.5, 1.5, 0, -1e9, 1e9, 0, 0, 0, 0, 0}, {{"-F", "sqrt", "-a1"}, 1, 1, 1, -1e9, 1e9, 0, 0, 0, 0, 0}, {{"-F", "ceil"}, 1, 0, 2, -1e9, 1e9, 0, 0, 0, 0, 0}, {{"-a1", "-l", "1.5"}, 1, 1, 0, 1.5, 1e9, 0, 0, 0, 0, 0}, {{"-a1", "-u", "1"}, 1, 1, 0, -1e9, 1, 0, 0, 0, 0, 0}, {{"-a1", "-l1", "-u2"}, 1, 1, 0, 1, 2, 0, 0, 0, 0, 0}, {{"-a4", "-I", "a"}, 1, 4, 0, -1e9, 1e9, "a", 0, 0, 0, 1}, {{"-a4", "-A", "-I", "a"}, 1, 4, 0, -1e9, 1e9, "a", 0, 0, 0, 1}, {{"-a4", "-A", "-O", "b"}, 1, 4, 0, -1e9, 1e9, 0, "b", 0, 0, 1}, {{"-a4", "-A", "-S", "b"}, 1, 4, 0, -1e9, 1e9, 0, 0, "b", 0, 1}, {{"-a4", "-A", "-I", "a", "-O", "b"}, 1, 4, 0, -1e9, 1e9, "a", "b", 0, 0, 1}, {{"-a4", "-A", "-I", "a", "-O", "a"}, 1, 4, 0, -1e9, 1e9, "a", "a", 0, 0, 1}, {{"-a4", "-e"}, 1, 4, 0, -1e9, 1e9, 0, 0, 0, 1, 0}, {{"-a4", "-A"}, 1, 4, 0, -1e9, 1e9, 0, 0, 0, 0, 1}, {{"-b2", "-e", "-a1"}, 2, 1, 0, -1e9, 1e9, 0, 0, 0, 1, 0}};
    rw.erase(rw.begin() + 8); // whether a symbol condition without -A also spares the end states is not said
    for (auto &r : rw) add("reweight", r.a, [r](const T &t0, Con &c) { T t = t0; if (r.fn == 1) for (auto &a : t.arcs) if (a.w < 0) return false; auto f = [&](float w) { if (w < r.lo || w > r.hi) return w; return r.mul * (r.fn == 1 ? std::sqrt(w) : r.fn == 2 ? std::ceil(w) : w) + r.addv; }; for (auto &a : t.arcs) { if (r.e) continue; std::string i = a.i, o = a.o; if (r.S && i != r.S && o != r.S) continue; if (r.I && i != r.I) continue; if (r.O && o != r.O) continue; a.w = f(a.w); } if (!r.A) for (auto &x : t.fin) x.second = f(x.second); c = concretize(t, U); return true; });
    auto noid = [](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(t, U); return true; };
    for (int k : {1, 2, 3, 5, -1, -2, -4}) add("head", {"-n", std::to_string(k)}, id, [k](std::vector<int> &v) { int n = v.size(); int m = k > 0 ? std::min(k, n) : std::max(0, n + k); v.resize(m); return true; }); add("head", {}, id, [](std::vector<int> &v) { v.resize(1); return true; });
    for (int k : {1, 2, 3, 5}) { add("tail", {"-n" + std::to_string(k)}, id, [k](std::vector<int> &v) { int n = v.size(); if (k < n) v.erase(v.begin(), v.begin() + (n - k)); return true; }); add("tail", {"-n", "+" + std::to_string(k)}, id, [k](std::vector<int> &v) { v.erase(v.begin(), v.begin() + std::min((int)v.size(), k - 1)); return true; }); }
    for (int k : {1, 2, 3}) add("multiply", {"-n", std::to_string(k)}, id, [k](std::vector<int> &v) { std::vector<int> r; for (int x : v) r.insert(r.end(), k, x); v = r; return true; });
    add("name", {"-n", "the name"}, id, nullptr, "the name"); add("name", {"--name=\xc3\xb6"}, id, nullptr, "\xc3\xb6"); add("prune-alphabet", {}, noid);
    for (int k = 0; k < 3; ++k) add("fst2fst", {std::vector<std::string>{"-f", OPT[k]}}, id, nullptr, "", TY[k]); add("fst2fst", {"-S"}, id, nullptr, "", SFST_TYPE); add("fst2fst", {"-t"}, id, nullptr, "", TROPICAL_OPENFST_TYPE); add("fst2fst", {"-F"}, id, nullptr, "", FOMA_TYPE); add("fst2fst", {"-f", "olw"}, noid, nullptr, "", HFST_OLW_TYPE); add("fst2fst", {"-f", "olu"}, noid, nullptr, "", HFST_OL_TYPE); add("fst2fst", {"-w"}, noid, nullptr, "", HFST_OLW_TYPE); add("fst2fst", {"-O"}, noid, nullptr, "", HFST_OL_TYPE); add("fst2fst", {"-l"}, id, nullptr, "", LOG_OPENFST_TYPE);
    auto sub = [&](std::vector<std::string> a, std::function<void(Arc &)> f) { add("substitute", a, [f](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(relabel(t, f), U); return true; }); };
    auto rep = [](std::string a, std::string b) { return [a, b](Arc &x) { if (x.i == a) x.i = b; if (x.o == a) x.o = b; }; }; auto repp = [](std::string a, std::string b, std::string y, std::string z) { return [=](Arc &x) { if (x.i == a && x.o == b) { x.i = y; x.o = z; } }; };
    sub({"-f", "a", "-t", "x"}, rep("a", "x")); sub({"-f", "a", "-t", "b"}, rep("a", "b")); sub({"-f", "b", "-t", "@0@"}, rep("b", EPS)); sub({"-f", "@0@", "-t", "x"}, rep(EPS, "x")); sub({"-f", "x", "-t", "a"}, rep("x", "a")); sub({"-f", "a:b", "-t", "b:a"}, repp("a", "b", "b", "a")); sub({"-f", "a:a", "-t", "x:@0@"}, repp("a", "a", "x", EPS)); sub({"-f", "b:@0@", "-t", "a:x"}, repp("b", EPS, "a", "x"));
    { // -F file: one substitution per line, at once or (-R) in order
        auto file = [&](std::vector<std::string> a, std::function<void(Arc &)> f) { sub(a, f); }; file({"-F", "swap"}, [](Arc &x) { for (auto *s : {&x.i, &x.o}) { if (*s == "a") *s = "b"; else if (*s == "b") *s = "a"; } }); file({"-R", "-F", "swap"}, [](Arc &x) { for (auto *s : {&x.i, &x.o}) { if (*s == "a") *s = "b"; if (*s == "b") *s = "a"; } }); file({"-F", "pairs"}, [](Arc &x) { if (x.i == "a" && x.o == "b") { x.i = "b"; x.o = "b"; } else if (x.i == "b" && x.o == "b") { x.i = "a"; x.o = "x"; } }); }
    for (int k : {0, 1, 5}) { add("substitute", {"-f", "b", "-T", "sub" + std::to_string(k)}, [k](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(splice(t, "b", "b", P[k]), U); return true; }); add("substitute", {"-f", "a:b", "-T", "sub" + std::to_string(k)}, [k](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(splice(t, "a", "b", P[k]), U); return true; }); }
    auto dropsym = [](T t, std::vector<std::string> ss) { std::vector<Arc> r; for (auto &x : t.arcs) { bool k = false; for (auto &q : ss) if (x.i == q || x.o == q) k = true; if (!k) r.push_back(x); } t.arcs = r; return t; };
    for (const char *q : {"a", "b", "x"}) add("kill-paths", {"-S", q}, [=](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(dropsym(t, {q}), U); return true; });
    add("kill-paths", {"-T", "kill"}, [=](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(dropsym(t, {"x", "b"}), U); return true; }); add("kill-paths", {"-T", "comment"}, noid); add("reweight", {"-A", "-T", "comment"}, noid);
    add("reweight", {"-A", "-T", "rw"}, [](const T &t0, Con &c) { T t = t0; for (auto &x : t.arcs) { if (x.i == "a" || x.o == "a") x.w = x.w + 1; if (x.i == "b" || x.o == "b") x.w = x.w * 2; if (x.i == "x" || x.o == "x") x.w = x.w + 4; } c = concretize(t, U); return true; });
    auto ext = [](T t, bool first, bool second, std::vector<std::pair<std::string, std::string>> m) { auto lev = [&](bool in) { std::vector<Arc> r = t.arcs; for (auto &x : t.arcs) for (auto &p : m) if ((in ? x.i : x.o) == p.first) { Arc y = x; (in ? y.i : y.o) = p.second; r.push_back(y); } t.arcs = r; }; if (second) lev(false); if (first) lev(true); return t; };
    for (auto &l : std::vector<std::pair<std::vector<std::string>, int>>{{{}, 1}, {{"-l", "upper"}, 1}, {{"-l", "input"}, 1}, {{"-l", "1"}, 1}, {{"-l", "first"}, 1}, {{"-l", "lower"}, 2}, {{"-l", "output"}, 2}, {{"--level=second"}, 2}, {{"-l", "2"}, 2}, {{"-l", "both"}, 3}}) { int lv = l.second; for (auto &m : std::vector<std::pair<std::vector<std::string>, std::vector<std::pair<std::string, std::string>>>>{{{"-f", "a", "-t", "b"}, {{"a", "b"}}}, {{"--from=b", "--to=x"}, {{"b", "x"}}}, {{"-T", "eqv"}, {{"a", "b"}, {"a", "x"}, {"b", "x"}}}}) { std::vector<std::string> as = l.first; as.insert(as.end(), m.first.begin(), m.first.end()); auto mm = m.second; add("expand-equivalences", as, [=](const T &t, Con &c) { if (has_unk(t)) return false; c = concretize(ext(t, lv & 1, lv & 2, mm), U); return true; }); } }
    add("eliminate-flags", {}, id);
    auto fre = [&](const char *a, std::string i, std::string o) { add("insert-freely", {"-a", a}, [=](const T &t, Con &c) { if (has_unk(t)) return false; T r = t; for (int q = 0; q < t.n; ++q) r.arcs.push_back({q, q, i, o, 0}); c = concretize(r, U); return true; }); }; fre("x:x", "x", "x"); fre("x:a", "x", "a"); fre("a:b", "a", "b");
}
static void unary_case(mc::Ctx &c, const UCase &u, const std::vector<int> &f, ImplementationType ty, int style) {
    tl::Case guard; std::string k = "hfst-" + u.tool; for (auto &a : u.args) k += " " + a; k += style == 0 ? " FILE > OUT" : style == 1 ? " < FILE > OUT" : " -i FILE -o OUT"; k += std::string("|") + tyname(ty) + "|"; std::vector<T> a; for (int x : f) { a.push_back(P[x]); k += P[x].str() + " "; } c.k(k);
    std::vector<int> v = f; if (u.sel) u.sel(v); std::vector<Con> want; for (int x : v) { T t = P[x]; if (!wty(ty)) { for (auto &q : t.arcs) q.w = 0; for (auto &q : t.fin) q.second = 0; } Con w; if (!u.f(t, w)) { c.skip(); return; } want.push_back(w); } for (int x : f) { Con w; if (!u.f(P[x], w)) { c.skip(); return; } }
    std::string s = tl::stream(a, ty); tl::put("f", s); if (u.tool == "substitute") { tl::put("swap", "a\tb\nb\ta\n"); tl::put("pairs", "a:b\tb:b\nb:b\ta:x\n"); for (int x : {0, 1, 5}) tl::put("sub" + std::to_string(x), tl::stream(std::vector<T>{P[x]}, ty)); }
    if (u.tool == "kill-paths" || u.tool == "reweight" || u.tool == "expand-equivalences") { tl::put("kill", "# x\nx\n\nb"); tl::put("comment", "# nothing\n"); tl::put("rw", "# sym\na\t+1\nb\t2\nx\t+4\n"); tl::put("eqv", "a\tb\tx\nb\tx\n"); }
    std::vector<std::string> args = u.args; args.push_back("-s"); if (style == 0) args.push_back("f"); if (style == 2) { if (u.tool == "expand-equivalences") args.insert(args.end(), {"-o", "out", "f"}); else args.insert(args.begin(), {"-i", "f", "-o", "out"}); } tl::Run r = tl::run(u.tool, args, style == 1 ? s : ""); c.trans(); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    ImplementationType ot = u.ot == UNSPECIFIED_TYPE ? ty : u.ot; bool w = ot != SFST_TYPE && ot != FOMA_TYPE && ot != HFST_OL_TYPE; if (!w || u.tool == "substitute") for (auto &x : want) x = x; std::string d; std::string bytes = style == 2 ? tl::get("out") : r.out; if (!w) for (auto &x : want) x = x_unweight(x);
    d = cmp_stream(want, bytes, ot, w && (wty(ty)), c); if (d.empty() && !u.name.empty()) { std::vector<HfstTransducer> got; ImplementationType gt; tl::unstream(bytes, got, gt); for (auto &g : got) if (g.get_name() != u.name) d = "the name is \"" + g.get_name() + "\""; } if (!d.empty()) return c.fail(d); c.sample(c.key); }
// hfst-split and hfst-compare
static void split_case(mc::Ctx &c, const std::vector<int> &f, ImplementationType ty, int opt) {
    tl::Case guard; std::string k = std::string("hfst-split ") + (opt ? "-p pre. -e .x" : "") + "|" + tyname(ty) + "|"; std::vector<T> a; for (int x : f) { a.push_back(P[x]); k += P[x].str() + " "; } c.k(k); tl::put("f", tl::stream(a, ty)); std::vector<std::string> args = {"-s"}; if (opt) args.insert(args.end(), {"-p", "pre.", "-e", ".x"}); args.push_back("f"); tl::Run r = tl::run("split", args); c.trans(); if (r.rc) return c.fail("exit status " + std::to_string(r.rc));
    for (size_t i = 0; i <= f.size(); ++i) { std::string n = opt ? "pre." + std::to_string(i + 1) + ".x" : std::to_string(i + 1) + ".hfst"; if (i == f.size()) { if (tl::exists(n)) return c.fail("there is a " + n); break; } if (!tl::exists(n)) return c.fail("there is no " + n); Con w = concretize(P[f[i]], U); if (!wty(ty)) w = x_unweight(w); std::string d = cmp_stream({w}, tl::get(n), ty, wty(ty), c); if (!d.empty()) return c.fail(n + ": " + d); } c.sample(c.key); }
static void compare_case(mc::Ctx &c, const std::vector<int> &f, const std::vector<int> &s, ImplementationType ty, int style) {
    tl::Case guard; std::string k = std::string("hfst-compare|") + tyname(ty) + "|"; std::vector<T> a, b; for (int x : f) { a.push_back(P[x]); k += P[x].str() + " "; } k += "| "; for (int x : s) { b.push_back(P[x]); k += P[x].str() + " "; } c.k(k); std::string s1 = tl::stream(a, ty), s2 = tl::stream(b, ty); tl::put("1", s1); tl::put("2", s2);
    tl::Run r = style == 0 ? tl::run("compare", {"1", "2"}) : style == 1 ? tl::run("compare", {"-1", "1", "-2", "2"}) : tl::run("compare", {"2"}, s1); c.trans(); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000)); bool fit = f.size() == s.size() || s.size() == 1; if (!fit) { c.outcome(r.rc); if (r.rc == 0) return c.fail("succeeded with streams of different lengths"); return; }
    std::vector<bool> want; bool all = true; for (size_t i = 0; i < f.size(); ++i) { Con x = concretize(P[f[i]], U), y = concretize(P[s[s.size() == 1 ? 0 : i]], U); if (!wty(ty)) { x = x_unweight(x); y = x_unweight(y); } bool e = rel(x, 4) == rel(y, 4); want.push_back(e); all = all && e; if (!e) c.nontrivial(); } std::vector<bool> got; { std::string l; std::stringstream ss(r.out); while (std::getline(ss, l)) { if (l.find(" == ") != std::string::npos) got.push_back(true); else if (l.find(" != ") != std::string::npos) got.push_back(false); } }
    c.outcome(r.rc * 100 + got.size()); if (got != want) return c.fail("reports " + tl::oneline(r.out)); if ((r.rc == 0) != all) return c.fail("exit status " + std::to_string(r.rc)); c.sample(c.key); }
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C23";
    h.spaces = [](bool th) { std::vector<mc::Space> v; U = Univ({"a", "b", "x"});
        auto mk = [](int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; t.fin = fin; P.push_back(t); };
        mk(1, {{0, 0, "a", "a", 1}}, {{0, 0.5}}); mk(3, {{0, 1, "a", "a", 1}, {1, 2, "b", "b", 2}, {0, 2, "b", "b", 4}}, {{2, 0}}); mk(1, {}, {{0, 2}}); mk(2, {{0, 1, IDN, IDN, 1}}, {{1, 0}}); mk(1, {}, {}); NA = P.size();
        mk(2, {{0, 1, "a", "b", 1}}, {{1, 3}}); mk(1, {{0, 0, "a", "b", 1}, {0, 0, "b", EPS, 2}}, {{0, 0}}); mk(2, {{0, 1, EPS, "a", 1}, {1, 1, "b", "b", 0.5}}, {{1, 0}, {0, 7}});
        static auto &S = *new std::vector<std::pair<std::vector<int>, std::vector<int>>>; { int n = P.size(), m = NA; auto seqs = [&](int l, int k) { std::vector<std::vector<int>> r{{}}; for (int i = 0; i < l; ++i) { std::vector<std::vector<int>> q; for (auto &x : r) for (int y = 0; y < k; ++y) { auto z = x; z.push_back(y); q.push_back(z); } r = q; } return r; };
            for (auto &x : seqs(1, n)) for (auto &y : seqs(1, n)) S.push_back({x, y}); for (auto &x : seqs(2, n)) for (auto &y : seqs(1, n)) { if (th || (x[0] * 7 + x[1] * 3 + y[0]) % 4 == 0) S.push_back({x, y}); } for (auto &x : seqs(1, n)) for (auto &y : seqs(2, n)) if (th || (x[0] * 5 + y[0] * 3 + y[1]) % 4 == 0) S.push_back({x, y});
            for (auto &x : seqs(2, n)) for (auto &y : seqs(2, n)) if (th || (x[0] * 3 + x[1] * 5 + y[0] * 7 + y[1]) % 32 == 0) S.push_back({x, y}); (void)m; for (auto p : std::vector<std::pair<int, int>>{{3, 1}, {3, 2}, {2, 3}, {3, 3}, {1, 3}, {0, 1}, {1, 0}}) { std::vector<int> x, y; for (int i = 0; i < p.first; ++i) x.push_back((i * 2 + 1) % n); for (int i = 0; i < p.second; ++i) y.push_back((i * 3 + 1) % n); if (p.first && p.second) S.push_back({x, y}); } }
        fprintf(stderr, "streams %zu\n", S.size());
        v.push_back({"binary", (mc::u64)S.size() * NBIN * 9, [](mc::u64 i, mc::Ctx &c) { int ty = i % 9; i /= 9; int op = i % NBIN; auto &s = S[i / NBIN]; if (op == 2 || op == 4 || op == 6) { for (auto &x : {s.first, s.second}) for (int y : x) if (y >= (int)NA) { c.skip(); return; } } if (op == 5) for (int y : s.first) if (0) c.skip(); ImplementationType a = TY[ty / 3], b = TY[ty % 3]; mc::u64 hsh = mc::mix(i * 9 + ty); bin_case(c, op, s.first, s.second, a, b, hsh % 5, a != b && hsh / 5 % 4 == 0); }, 40, 20});
        v.push_back({"compare", (mc::u64)S.size() * 9, [](mc::u64 i, mc::Ctx &c) { auto &s = S[i / 9]; compare_case(c, s.first, s.second, TY[i % 9 / 3], i % 3); }, 40, 20});
        mk(3, {{0, 1, "a", "a", -1}, {1, 2, "b", "x", 0.5}}, {{2, -2}, {0, 0.25}}); // negative weights
        build_unary(); static auto &US = *new std::vector<std::vector<int>>; for (int i = 0; i < (int)P.size(); ++i) { US.push_back({i}); for (int j = 0; j < (int)P.size(); ++j) { US.push_back({i, j}); if (th) for (int k = 0; k < (int)P.size(); ++k) US.push_back({i, j, k}); } } for (auto &x : std::vector<std::vector<int>>{{0, 5, 1}, {6, 1, 7}, {1, 5, 0, 6}, {7, 7, 2}}) US.push_back(x);
        v.push_back({"unary", (mc::u64)US.size() * UC.size() * 3, [](mc::u64 i, mc::Ctx &c) { mc::u64 hsh = mc::mix(i); int ty = i % 3; i /= 3; unary_case(c, UC[i % UC.size()], US[i / UC.size()], TY[ty], hsh % 3); }, 40, 20});
        v.push_back({"split", (mc::u64)US.size() * 6, [](mc::u64 i, mc::Ctx &c) { split_case(c, US[i / 6], TY[i % 6 / 2], i % 2); }, 40, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
