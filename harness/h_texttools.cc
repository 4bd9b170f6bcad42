// C24 tools between text and transducers: strings2fst, fst2strings, txt2fst, fst2txt, regexp2fst, pair-test
#include "tools.h"
#include "refx.h"
using namespace ref; using namespace hfst;
namespace {
static Univ U; static const int L = 4;
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
static const char *OPT[] = {"openfst-tropical", "sfst", "foma"};
static bool wty(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE; }
static std::string cmp_stream(const std::vector<Con> &want, const std::string &bytes, ImplementationType ty, bool w, mc::Ctx &c, float tol = 1e-4f) {
    std::vector<HfstTransducer> got; ImplementationType gt = UNSPECIFIED_TYPE; if (!tl::unstream(bytes, got, gt)) return want.empty() ? "" : "the output is not a stream of transducers";
    if (got.size() != want.size()) return std::to_string(got.size()) + " transducers instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i) { if (got[i].get_type() != ty) return std::string("type ") + tyname(got[i].get_type()); Con g = concretize(got[i], U); if (!g.err.empty()) return g.err; Rel r1 = rel(want[i], L), r2 = rel(g, L); c.state(rel_hash(r1)); c.outcome(rel_hash(r2)); if (!r1.empty()) c.nontrivial(); std::string d = rel_diff(r1, r2, U, w, tol); if (!d.empty()) return "transducer " + std::to_string(i + 1) + ": " + d; }
    return ""; }
static std::string q(const std::string &s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; return r; }
// ---- strings2fst: a line is written for a pair of symbol sequences
struct Sym { std::string s, plain, spaced; }; // the symbol and how it is written
static auto &SY = *new std::vector<Sym>;
typedef std::vector<std::pair<int, int>> Pairs; // indices into SY, -1 is epsilon
static Con con_of(const Pairs &p, float w) { Con c = x_new(1); int qq = 0; for (auto &x : p) { c.st.push_back({}); c.fin.push_back({false, 0}); int t = c.st.size() - 1; c.st[qq].push_back({t, x.first < 0 ? 0 : U.of(SY[x.first].s), x.second < 0 ? 0 : U.of(SY[x.second].s), 0}); qq = t; } c.fin[qq] = {true, w}; return c; }
struct Line { std::string text; Con con; };
enum { PLAIN, SPACED, PAIRS, PAIRSP };
// every way of writing a line in the format
static void lines_of(int fmt, bool mc, const std::string &eps, std::vector<Line> &out, int maxlen) {
    std::vector<int> al; for (size_t i = 0; i < SY.size(); ++i) if (mc || SY[i].s != "ab") al.push_back(i); bool sp = fmt == SPACED || fmt == PAIRSP; auto w = [&](int x) { return x < 0 ? eps : sp ? SY[x].spaced : SY[x].plain; };
    std::vector<std::vector<int>> seq{{}}, all; for (int l = 0; l <= maxlen; ++l) { all.insert(all.end(), seq.begin(), seq.end()); std::vector<std::vector<int>> nx; for (auto &s : seq) for (int x : al) { auto t = s; t.push_back(x); nx.push_back(t); } for (auto &s : seq) { auto t = s; t.push_back(-1); nx.push_back(t); } seq = nx; }
    auto wr = [&](const std::vector<int> &v) { std::string r; for (size_t k = 0; k < v.size(); ++k) { if (k && sp) r += " "; if (!sp && mc && k + 1 < v.size() && v[k] >= 0 && v[k + 1] >= 0 && SY[v[k]].s == "a" && SY[v[k + 1]].s == "b") r += "\\a"; else r += w(v[k]); } return r; };
    if (fmt == PLAIN || fmt == SPACED) { for (auto &a : all) { Pairs p; for (int x : a) p.push_back({x, x}); out.push_back({wr(a), con_of(p, 0)}); }
        for (auto &a : all) for (auto &b : all) { if (a.empty() && b.empty()) continue; if (a.empty() || b.empty()) continue; Pairs p; for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) p.push_back({k < a.size() ? a[k] : -1, k < b.size() ? b[k] : -1}); out.push_back({wr(a) + (sp && out.size() % 2 ? " : " : ":") + wr(b), con_of(p, 0)}); } }
    else { std::vector<std::pair<std::string, std::pair<int, int>>> ps; al.push_back(-1); for (int x : al) { ps.push_back({w(x), {x, x}}); for (int y : al) ps.push_back({w(x) + ":" + w(y), {x, y}}); } for (size_t i = 0; i < ps.size(); ++i) out.push_back({ps[i].first, con_of({ps[i].second}, 0)}); if (maxlen > 1) for (auto &x : ps) for (auto &y : ps) { std::string t = x.first, u = y.first; if (!sp) { int a = x.second.second, b = y.second.first; if (mc && a >= 0 && b >= 0 && SY[a].s == "a" && SY[b].s == "b") { t = t.substr(0, t.size() - 1) + "\\a"; } } out.push_back({t + (sp ? " " : "") + u, con_of({x.second, y.second}, 0)}); } } }
static auto &LN = *new std::vector<std::vector<Line>>; // by format * 4 + multichar * 2 + epsilon
static std::vector<std::string> fargs(int k) { std::vector<std::string> a; int fmt = k / 4; if (fmt == SPACED) a.push_back("-S"); if (fmt == PAIRS) a.push_back("-p"); if (fmt == PAIRSP) { a.push_back("-p"); a.push_back("-S"); } if (k / 2 % 2) { a.push_back("-m"); a.push_back("mc"); } if (k % 2) { a.push_back("-e"); a.push_back("E"); } return a; }
// block of lines in one file: each its own transducer (-j: all in one)
static void strings_case(mc::Ctx &c, int k, size_t from, size_t n, ImplementationType ty, int tyi, bool join, int wts) {
    tl::Case guard; tl::put("mc", "ab\n"); std::string in, key = "hfst-strings2fst"; std::vector<Con> want; Con un = x_empty(); float sum = 0; std::vector<float> ws; for (size_t i = 0; i < n; ++i) { float w = wts == 0 ? 0 : wts == 1 ? (i % 3) + 0.5f : (i % 2 ? 2.f : 1.f); ws.push_back(w); if (wts == 2 && join) { w = 1 + rel_hash(rel(LN[k][(from + i) % LN[k].size()].con, L)) % 2; ws.back() = w; } sum += w; }
    for (size_t i = 0; i < n; ++i) { auto &l = LN[k][(from + i) % LN[k].size()]; in += l.text; float w = ws[i]; if (wts) { char b[32]; snprintf(b, 32, "\t%g", w); in += b; } in += "\n"; if (wts == 2) w = -std::log(w / (join ? sum : 1)); if (wts == 3) w = -std::log10(w); Con x = x_finalw(l.con, wty(ty) ? w : 0); want.push_back(x); un = x_union(un, x); }
    std::vector<std::string> args = fargs(k); args.push_back("-f"); args.push_back(OPT[tyi]); if (join) args.push_back("-j"); if (wts == 2) { if (join) args.push_back("--norm"); args.push_back("--log"); } if (wts == 3) args.push_back("--log10"); args.push_back("-s"); for (auto &a : args) key += " " + a; c.k(key + "|" + q(in.substr(0, 300))); if (join) want = {un}; tl::Run r = tl::run("strings2fst", args, in); c.trans(n); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    std::string d = cmp_stream(want, r.out, ty, wty(ty), c); if (!d.empty()) { size_t p = d.find("transducer "); if (p == 0 && !join) { size_t j = atoi(d.c_str() + 11) - 1; d = "line `" + LN[k][(from + j) % LN[k].size()].text + "': " + d; } return c.fail(d); } c.sample(c.key); }
// ---- fst2strings
struct PathT { std::vector<std::pair<std::string, std::string>> p; float w; std::string in() const { std::string r; for (auto &x : p) if (x.first != EPS) r += x.first; return r; } std::string out() const { std::string r; for (auto &x : p) if (x.second != EPS) r += x.second; return r; } };
static void all_paths(const T &t, int s, PathT &cur, size_t maxlen, std::vector<PathT> &out) { auto f = t.fin.find(s); if (f != t.fin.end()) { PathT x = cur; x.w += f->second; out.push_back(x); } if (cur.p.size() >= maxlen) return; for (auto &a : t.arcs) if (a.s == s) { cur.p.push_back({a.i, a.o}); float w = cur.w; cur.w += a.w; all_paths(t, a.t, cur, maxlen, out); cur.w = w; cur.p.pop_back(); } }
struct FO { std::vector<std::string> a; std::function<bool(const PathT &, float best)> f; int n = 0, N = 0, r = 0; bool w = false; };
static auto &FOS = *new std::vector<FO>; static auto &GR = *new std::vector<T>;
static std::string wstr(float w) { std::stringstream s; s << w; return s.str(); }
static std::string esc(std::string s) { std::string r; for (char ch : s) if (ch == ' ') r += "@_SPACE_@"; else if (ch == ':') r += "@_COLON_@"; else if (ch == '\t') r += "@_TAB_@"; else r += ch; return r; }
// mode 0: strings, 1: strings with spaces, 2: pairs with spaces
static std::string canon(const PathT &p, int mode, bool w, bool quote, const std::string &eps) { std::string r; auto pr = [&](const std::string &s) { return s == EPS ? eps : quote ? esc(s) : s; };
    if (mode == 2) { for (auto &x : p.p) { if (!r.empty()) r += " "; r += pr(x.first); if (x.first != x.second) r += ":" + pr(x.second); } }
    else if (mode == 1) { std::string i, o; bool id = true; for (auto &x : p.p) { if (x.first != x.second) id = false; i += pr(x.first) + " "; o += " " + pr(x.second); } r = i; if (p.p.empty()) r = " "; if (!id) r += ":" + o; auto sq = [](std::string s) { std::string t; std::stringstream ss(s); std::string x; while (ss >> x) t += x + " "; return t; }; r = sq(r); }
    else { std::string i, o; bool id = true; for (auto &x : p.p) { if (x.first != x.second) id = false; i += pr(x.first); o += pr(x.second); } r = id ? i : i + ":" + o; }
    if (w) r += "\t" + wstr(p.w); return r; }
static void paths_case(mc::Ctx &c, const std::vector<T> &ts, const FO &o, int mode, ImplementationType ty, int style) {
    tl::Case guard; std::string key = "hfst-fst2strings"; std::vector<std::string> args = o.a; if (o.w) args.push_back("-w"); bool quote = false; std::string eps; if (mode == 2) { args.insert(args.end(), {"-X", "print-pairs", "-X", "print-space", "-e", "0"}); eps = "0"; } if (mode == 1) args.insert(args.end(), {"-X", "print-space"}); if (mode == 3) { args.insert(args.end(), {"-X", "quote-special"}); quote = true; } if (ts.size() > 1) args.push_back("-S"); args.push_back("-s"); for (auto &a : args) key += " " + a; key += std::string("|") + tyname(ty) + "|"; for (auto &t : ts) key += t.str() + " "; c.k(key); int m = mode == 3 ? 0 : mode;
    std::string s = tl::stream(ts, ty); tl::put("f", s); std::string in; if (style == 0) args.push_back("f"); else if (style == 1) in = s; else args.insert(args.begin(), {"-i", "f", "-o", "out"}); tl::Run r = tl::run("fst2strings", args, in); c.trans(); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err)); std::string text = style == 2 ? tl::get("out") : r.out;
    std::vector<std::vector<std::string>> got(1); { std::stringstream ss(text); std::string l; while (std::getline(ss, l)) { if (ts.size() > 1 && l == "--") got.push_back({}); else { if (m == 1) { std::string t, x, tail; size_t tb = l.find('\t'); if (tb != std::string::npos) { tail = l.substr(tb); l = l.substr(0, tb); } std::stringstream s2(l); while (s2 >> x) t += x + " "; l = t + tail; } got.back().push_back(l); } } } if (got.size() != ts.size()) return c.fail(std::to_string(got.size()) + " blocks instead of " + std::to_string(ts.size()));
    for (size_t i = 0; i < ts.size(); ++i) { T t = ts[i]; if (!wty(ty)) { for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; } std::vector<PathT> ps; PathT cur; cur.w = 0; all_paths(t, 0, cur, 6, ps); float best = 1e9; for (auto &p : ps) best = std::min(best, p.w); std::set<std::string> want; std::vector<float> w; size_t npath = 0; for (auto &p : ps) if (o.f(p, best)) { want.insert(canon(p, m, o.w, quote, eps)); w.push_back(p.w); ++npath; } std::set<std::string> g(got[i].begin(), got[i].end()); c.state(mc::mix(want.size() * 131 + got[i].size())); if (!want.empty()) c.nontrivial(); for (auto &x : g) c.outcome(std::hash<std::string>()(x)); std::string tn = "transducer " + std::to_string(i + 1) + ": ";
        for (auto &x : g) if (!want.count(x)) return c.fail(tn + "prints `" + q(x) + "'");
        if (o.r) { if ((int)got[i].size() > o.r) return c.fail(tn + std::to_string(got[i].size()) + " lines"); continue; }
        if (o.n || o.N) { size_t lim = o.n ? o.n : o.N; if (got[i].size() > lim && o.n) return c.fail(tn + std::to_string(got[i].size()) + " lines"); if (o.n) { if (got[i].size() < std::min(lim, want.size())) return c.fail(tn + "only " + std::to_string(got[i].size()) + " of " + std::to_string(want.size())); continue; }
            std::map<std::string, float> bw; for (auto &p : ps) { std::string k = canon(p, m, o.w, quote, eps); auto it = bw.find(k); if (it == bw.end() || p.w < it->second) bw[k] = p.w; } std::multiset<float> ww; for (auto &x : bw) ww.insert(x.second); if (g.size() < std::min(lim, bw.size()) && g.size() < 1) return c.fail(tn + "only " + std::to_string(g.size()) + " best of " + std::to_string(bw.size())); if (g.size() > lim) return c.fail(tn + std::to_string(g.size()) + " best strings"); float mx = -1e9; for (auto &x : g) mx = std::max(mx, bw[x]); for (auto &x : bw) if (!g.count(x.first) && x.second < mx - 1e-4) return c.fail(tn + "`" + q(x.first) + "' is better than one that is printed"); continue; }
        for (auto &x : want) if (!g.count(x)) return c.fail(tn + "does not print `" + q(x) + "'"); }
    c.sample(c.key); }
static void build_paths(bool th) {
    auto any = [](const PathT &, float) { return true; }; auto add = [&](std::vector<std::string> a, std::function<bool(const PathT &, float)> f, int n = 0, int N = 0, int r = 0) { FO o; o.a = a; o.f = f; o.n = n; o.N = N; o.r = r; o.w = FOS.size() % 3 != 2; FOS.push_back(o); };
    add({}, any); add({}, any); add({}, any); for (int n : {1, 2, 3}) add({"-n", std::to_string(n)}, any, n); for (int n : {1, 2, 3}) add({"-N", std::to_string(n)}, any, 0, n); for (int n : {1, 3}) add({"-r", std::to_string(n)}, any, 0, 0, n); for (int n : {0, 1, 2}) add({"-c", std::to_string(n)}, any);
    for (int n : {1, 2}) { add({"-l", std::to_string(n)}, [n](const PathT &p, float) { return (int)p.in().size() <= n; }); add({"-L", std::to_string(n)}, [n](const PathT &p, float) { return (int)p.out().size() <= n; }); }
    for (std::string s : {"a", "b", "ab", "aa"}) { add({"-p", s}, [s](const PathT &p, float) { return p.in().compare(0, s.size(), s) == 0; }); add({"-P", s}, [s](const PathT &p, float) { return p.out().compare(0, s.size(), s) == 0; }); add({"-u", s}, [s](const PathT &p, float) { return p.in().find(s) == std::string::npos; }); add({"-U", s}, [s](const PathT &p, float) { return p.out().find(s) == std::string::npos; }); }
    for (float b : {0.f, 0.5f, 1.f, 2.5f}) add({"-b", wstr(b)}, [b](const PathT &p, float best) { return p.w <= best + b; }); add({"-l", "2", "-P", "b"}, [](const PathT &p, float) { return p.in().size() <= 2 && p.out().compare(0, 1, "b") == 0; }); add({"-L2", "-u", "b", "-w"}, [](const PathT &p, float) { return p.out().size() <= 2 && p.in().find("b") == std::string::npos; }); FOS.back().w = true;
    std::vector<std::pair<std::string, std::string>> lab = {{"a", "a"}, {"a", "b"}, {EPS, "b"}, {"b", EPS}}; if (th) lab.push_back({"b", "b"}); std::vector<std::pair<int, int>> ed = {{0, 1}, {0, 2}, {1, 2}}; std::vector<Arc> arcs; for (auto &e : ed) for (auto &l : lab) arcs.push_back({e.first, e.second, l.first, l.second, (float)(arcs.size() * 5 % 7) / 2 - (arcs.size() % 5 == 3 ? 2 : 0)});
    std::vector<std::map<int, float>> fins = {{{2, 0}}, {{1, 0.5}}, {{0, 1}, {2, 0.25}}, {{1, 1}, {2, -1}}}; int mx = th ? 3 : 2; for (int m = 0; m < (1 << arcs.size()); ++m) { if (__builtin_popcount(m) > mx) continue; for (auto &f : fins) { T t; t.n = 3; for (size_t k = 0; k < arcs.size(); ++k) if (m >> k & 1) t.arcs.push_back(arcs[k]); t.fin = f; GR.push_back(t); } }
    { T t; t.n = 4; t.arcs = {{0, 1, "+Sg", ":", 1}, {1, 2, " ", "a", 0}, {0, 2, "\xc3\xb6", "\xc3\xb6", 2}, {2, 3, "b", "a b", 0}}; t.fin = {{2, 0}, {3, 1}}; GR.push_back(t); } }
// ---- hfst-fst2txt and hfst-txt2fst
static auto &AT = *new std::vector<T>;
static void att_case(mc::Ctx &c, const std::vector<int> &f, ImplementationType ty, int tyi, int oty, int mode) {
    tl::Case guard; std::string key = "hfst-fst2txt|hfst-txt2fst "; std::vector<T> a; std::vector<Con> want; Con un = x_empty(); bool w = wty(ty) && wty(TY[oty]) && mode != 2; for (int x : f) { a.push_back(AT[x]); Con y = concretize(AT[x], U); if (!w) y = x_unweight(y); want.push_back(y); un = x_union(un, y); } std::vector<std::string> a1, a2; switch (mode) { case 1: a1 = {"-w"}; break; case 2: a1 = {"-D"}; break; case 3: a1 = {"-f", "prolog"}; a2 = {"-p"}; break; case 4: a2 = {"-j"}; want = {un}; break; case 5: a2 = {"-C"}; break; } if (mode == 2 || mode == 0) a1.push_back("-s"); a2.push_back("-f"); a2.push_back(OPT[oty]); for (auto &x : a1) key += x + " "; key += "|"; for (auto &x : a2) key += x + " "; key += tyname(ty); for (auto &t : a) key += " " + t.str(); c.k(key);
    std::string s = tl::stream(a, ty); tl::Run r = tl::run("fst2txt", a1, s); c.trans(2); if (r.crashed || r.rc) return c.fail("hfst-fst2txt: exit status " + std::to_string(r.rc)); tl::Run r2 = tl::run("txt2fst", a2, r.out); if (r2.crashed || r2.rc) return c.fail("hfst-txt2fst: exit status " + std::to_string(r2.rc) + " " + tl::oneline(r2.err) + " from " + tl::oneline(r.out)); std::string d = cmp_stream(want, r2.out, TY[oty], w, c); if (!d.empty()) return c.fail(d + " from " + tl::oneline(r.out)); c.sample(c.key); (void)tyi; }
// ---- regexp2fst
struct RE { std::string t; Con c; }; static auto &RES = *new std::vector<RE>;
static void re_case(mc::Ctx &c, const std::vector<int> &f, int tyi, int mode, int style) {
    tl::Case guard; ImplementationType ty = TY[tyi]; std::string in; std::vector<Con> want; Con un = x_empty(); bool semi = mode & 1, join = mode & 2; int n = 0; for (int x : f) { if (semi) { in += RES[x].t + (n % 2 ? " ;\n" : ";"); } else in += RES[x].t + (n % 3 == 1 ? ";" : "") + "\n" + (style == 2 && n % 2 == 0 ? "\n" : ""); ++n; Con y = wty(ty) ? RES[x].c : x_unweight(RES[x].c); want.push_back(y); un = x_union(un, y); } if (join) want = {un}; std::vector<std::string> args = {"-f", OPT[tyi], "-s"}; if (semi) args.push_back("-S"); if (join) args.push_back("-j"); if (mode & 4) args.push_back("-M"); std::string key = "hfst-regexp2fst"; for (auto &a : args) key += " " + a; c.k(key + (style == 0 ? " FILE" : style == 1 ? " < FILE" : " -i FILE -o OUT") + "|" + q(in)); tl::put("f", in); std::string si; if (style == 0) args.push_back("f"); else if (style == 1) si = in; else args.insert(args.end(), {"-i", "f", "-o", "out"});
    tl::Run r = tl::run("regexp2fst", args, si); c.trans(); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err)); std::string d = cmp_stream(want, style == 2 ? tl::get("out") : r.out, ty, wty(ty), c); if (!d.empty()) return c.fail(d); c.sample(c.key); }
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C24";
    h.spaces = [](bool th) { std::vector<mc::Space> v; U = Univ({"a", "b", "\xc3\xb6", ":", "\\", " ", "ab", "x", "\t"});
        SY = {{"a", "a", "a"}, {"b", "b", "b"}, {"\xc3\xb6", "\xc3\xb6", "\xc3\xb6"}, {":", "\\:", "\\:"}, {"\\", "\\\\", "\\\\"}, {" ", " ", "\\ "}, {"x", "\\x", "\\x"}, {"\t", "@_TAB_@", "@_TAB_@"}, {"ab", "ab", "ab"}};
        for (int fmt = 0; fmt < 4; ++fmt) for (int m = 0; m < 2; ++m) for (int e = 0; e < 2; ++e) { LN.push_back({}); lines_of(fmt, m, e ? "E" : "@0@", LN.back(), th || (m && !e) || (!m && e && fmt == PLAIN) ? 2 : 1); }
        static const size_t BL = 40; static auto &SB = *new std::vector<std::pair<int, size_t>>; for (size_t k = 0; k < LN.size(); ++k) for (size_t f = 0; f < LN[k].size(); f += BL) SB.push_back({k, f});
        v.push_back({"strings", SB.size() * 3 * 2 * 4, [th](mc::u64 i, mc::Ctx &c) { int wts = i % 4; i /= 4; bool join = i % 2; i /= 2; int ty = i % 3; i /= 3; if ((join && wts == 3) || (!th && (ty + join * 3 + wts + i) % 4)) { c.skip(); return; } strings_case(c, SB[i].first, SB[i].second, std::min(BL, LN[SB[i].first].size() - SB[i].second), TY[ty], ty, join, wts); }, 40, 20});
        build_paths(th); static const mc::u64 NG = GR.size();
        v.push_back({"paths", NG * FOS.size() * 4, [](mc::u64 i, mc::Ctx &c) { mc::u64 hs = mc::mix(i); int mode = i % 4; i /= 4; const FO &o = FOS[i % FOS.size()]; const T &t = GR[i / FOS.size()]; if (mode == 0 && i / FOS.size() == NG - 1 ) { } paths_case(c, {t}, o, mode, TY[hs % 3], hs / 3 % 3); }, 40, 20});
        v.push_back({"path streams", (mc::u64)FOS.size() * 3 * 300, [](mc::u64 i, mc::Ctx &c) { mc::u64 hs = mc::mix(i); const FO &o = FOS[i % FOS.size()]; i /= FOS.size(); int ty = i % 3; i /= 3; std::vector<T> ts; for (int k = 0; k < 2 + (int)(i % 2); ++k) ts.push_back(GR[(i * 7919 + k * 104729) % GR.size()]); for (auto &t : ts) { PathT p; p.w = 0; std::vector<PathT> ps; all_paths(t, 0, p, 6, ps); if (o.a.size() && o.a[0] == "-b" && ps.empty()) { c.skip(); return; } } paths_case(c, ts, o, hs % 4, TY[ty], hs / 4 % 3); }, 40, 20});
        AT = {}; { auto mk = [](int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; t.fin = fin; AT.push_back(t); }; mk(1, {{0, 0, "a", "a", 1}}, {{0, 0.5}}); mk(3, {{0, 1, "a", "b", 1}, {1, 2, "b", EPS, 2}, {0, 2, ":", " ", 4}}, {{2, 0}, {1, 3}}); mk(1, {}, {{0, 2}}); mk(2, {{0, 1, IDN, IDN, 1}, {1, 0, "\\", "\xc3\xb6", 0}}, {{1, 0}}); mk(2, {{0, 1, EPS, "ab", -1}, {1, 1, " ", " ", 0.5}}, {{1, 0}, {0, 7}}); mk(1, {}, {}); }
        static auto &AS = *new std::vector<std::vector<int>>; AS.clear(); { int n = AT.size(); for (int i = 0; i < n; ++i) { AS.push_back({i}); for (int j = 0; j < n; ++j) { AS.push_back({i, j}); for (int k = 0; k < n; ++k) if (th || (i + 2 * j + 3 * k) % 4 == 0) AS.push_back({i, j, k}); } } }
        v.push_back({"att", (mc::u64)AS.size() * 9 * 6, [](mc::u64 i, mc::Ctx &c) { int mode = i % 6; i /= 6; int ty = i % 3, ot = i / 3 % 3; att_case(c, AS[i / 9], TY[ty], ty, ot, mode); }, 40, 20});
        { auto P1 = [](const char *i, const char *o, float w) { auto id = [](const char *s) { return *s ? U.of(s) : 0; }; return x_pair(id(i), id(o), w); }; RES.push_back({"a", P1("a", "a", 0)}); RES.push_back({"a:b::2", P1("a", "b", 2)}); RES.push_back({"[a | b]*", x_star(x_union(P1("a", "a", 0), P1("b", "b", 0)))}); RES.push_back({"a ! remark", P1("a", "a", 0)}); RES.push_back({"\";\" | {ab}", x_union(x_empty(), x_concat(P1("a", "a", 0), P1("b", "b", 0)))}); RES.push_back({"a::1 b:0::0.5", x_concat(P1("a", "a", 1), P1("b", "", 0.5))}); RES.push_back({"0", x_eps()}); RES.push_back({"a & b", x_empty()}); }
        RES.erase(RES.begin() + 3, RES.begin() + 5); static auto &RS = *new std::vector<std::vector<int>>; { int n = RES.size(); for (int i = 0; i < n; ++i) { RS.push_back({i}); for (int j = 0; j < n; ++j) { RS.push_back({i, j}); for (int k = 0; k < n; ++k) if (th || (i + j + k) % 3 == 0) RS.push_back({i, j, k}); } } }
        v.push_back({"regexps", (mc::u64)RS.size() * 3 * 8, [](mc::u64 i, mc::Ctx &c) { mc::u64 hs = mc::mix(i); int mode = i % 8; i /= 8; re_case(c, RS[i / 3], i % 3, mode, hs % 3); }, 40, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
