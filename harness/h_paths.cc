// C10 path extraction; C12 flag diacritics.
#include "mc.h"
#include "ref.h"
#include "HfstExceptionDefs.h"
#include "HfstFlagDiacritics.h"
#include "HfstSymbolDefs.h"
using namespace ref; using namespace hfst;
static Univ U;
static const std::vector<ImplementationType> ALL = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE, HFST_OLW_TYPE};
static bool wty(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE || t == HFST_OLW_TYPE; }
// ---- flag semantics (the model): value 0 unset, +k set to k, -k set to "anything but k"
struct Flag { char op; std::string f, v; };
static bool is_flag(const std::string &s, Flag *f) { if (s.size() < 5 || s[0] != '@' || s.back() != '@' || s[2] != '.' || !strchr("PNRDCU", s[1])) return false; std::string b = s.substr(3, s.size() - 4); size_t d = b.find('.'); if (f) { f->op = s[1]; f->f = b.substr(0, d); f->v = d == std::string::npos ? "" : b.substr(d + 1); } return true; }
typedef std::map<std::string, std::string> Val; // feature -> "v" or "!v"; absent: neutral
static bool fapply(Val &v, const Flag &f) {
    auto it = v.find(f.f); std::string cur = it == v.end() ? "" : it->second; bool neg = !cur.empty() && cur[0] == '!';
    switch (f.op) {
    case 'P': v[f.f] = f.v; return true; case 'N': v[f.f] = "!" + f.v; return true; case 'C': v.erase(f.f); return true;
    case 'R': return f.v.empty() ? !cur.empty() : cur == f.v; case 'D': return f.v.empty() ? cur.empty() : cur != f.v;
    case 'U': if (cur.empty() || cur == f.v || (neg && cur.substr(1) != f.v)) { v[f.f] = f.v; return true; } return false; } return false; }
struct FArc { int t; int i, o; float w; int flag; };
struct FCon { std::vector<std::vector<FArc>> st; std::vector<std::pair<bool, float>> fin; std::vector<Flag> flags; std::string err; };
static FCon fcon(const HfstBasicTransducer &b, bool useflags, bool weights) {
    FCon c; int n = 0; for (auto it = b.begin(); it != b.end(); ++it) ++n; c.st.resize(n ? n : 1); c.fin.assign(n ? n : 1, {false, 0}); int s = 0; std::map<std::string, int> fid;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) { for (auto &t : *it) { std::string i = t.get_input_symbol(), o = t.get_output_symbol(); Flag f; float w = weights ? t.get_weight() : 0;
            if (useflags && is_flag(i, &f)) { if (!fid.count(i)) { fid[i] = c.flags.size(); c.flags.push_back(f); } int oo = is_flag(o, NULL) ? 0 : U.of(o); if (oo < 0) { c.err = "symbol " + o; continue; } c.st[s].push_back({(int)t.get_target_state(), 0, oo, w, fid[i]}); }
            else { int a = U.of(i), bb = U.of(o); if (useflags && is_flag(o, NULL)) bb = 0; if (a < 0 || bb < 0) { c.err = "unexpected symbols " + i + ":" + o; continue; } c.st[s].push_back({(int)t.get_target_state(), a, bb, w, -1}); } }
        if (b.is_final_state(s)) c.fin[s] = {true, weights ? b.get_final_weight(s) : 0}; }
    return c; }
static Rel frel(const FCon &c, int L) { // min weight over flag-valid paths
    struct N { int q; Val v; Str i, o; bool operator<(const N &x) const { return std::tie(q, i, o, v) < std::tie(x.q, x.i, x.o, x.v); } };
    std::map<N, float> best; std::vector<N> w{{0, {}, 0, 0}}; best[w[0]] = 0; Rel r;
    for (size_t h = 0; h < w.size() && h < 300000; ++h) { N x = w[h]; float ww = best[x]; for (auto &a : c.st[x.q]) { N y = x; y.q = a.t; if (a.flag >= 0 && !fapply(y.v, c.flags[a.flag])) continue; if (a.i) { if (slen(y.i) >= L) continue; y.i = sapp(y.i, a.i); } if (a.o) { if (slen(y.o) >= L) continue; y.o = sapp(y.o, a.o); } float nw = ww + a.w; auto it = best.find(y); if (it == best.end()) { best[y] = nw; w.push_back(y); } else if (nw < it->second - 1e-6f) { it->second = nw; w.push_back(y); } } }
    for (auto &b : best) if (c.fin[b.first.q].first) put(r, SP(b.first.i, b.first.o), b.second + c.fin[b.first.q].second);
    return r; }
// ---- all accepting paths of an acyclic graph as (in,out,weight); and "simple" ones of a cyclic graph
struct PSet { std::map<SP, std::set<float>> m; size_t n = 0; };
static PSet paths(const FCon &c, int maxvisits, int maxlen = 14) { PSet r; std::vector<int> vis(c.st.size()); std::set<std::tuple<Str, Str, float>> dist;
    std::function<void(int, Val, Str, Str, float)> go = [&](int q, Val v, Str i, Str o, float w) { if (vis[q] > maxvisits) return; ++vis[q]; if (c.fin[q].first) { r.m[SP(i, o)].insert(w + c.fin[q].second); ++r.n; }
        for (auto &a : c.st[q]) { Val y = v; if (a.flag >= 0 && !fapply(y, c.flags[a.flag])) continue; if ((a.i && slen(i) >= maxlen) || (a.o && slen(o) >= maxlen)) continue; go(a.t, y, a.i ? sapp(i, a.i) : i, a.o ? sapp(o, a.o) : o, w + a.w); } --vis[q]; };
    go(0, {}, 0, 0, 0); return r; }
typedef std::vector<std::vector<char>> Mat;
static void closure(Mat &R) { int n = R.size(); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (R[i][k] && R[k][j]) R[i][j] = 1; }
// cyc: the graph has a cycle; trimcyc: it has one on an accepting path even if epsilon:epsilon loops of one state are dropped (they carry nothing)
static void graph_facts(const FCon &c, bool &cyc, bool &trimcyc) { int n = c.st.size(); Mat R(n, std::vector<char>(n)), Q = R; for (int s = 0; s < n; ++s) for (auto &a : c.st[s]) { R[s][a.t] = 1; if (a.i || a.o || a.t != s || a.flag >= 0) Q[s][a.t] = 1; } closure(R); closure(Q); cyc = trimcyc = false;
    for (int s = 0; s < n; ++s) { if (R[s][s]) cyc = true; if (Q[s][s]) { bool acc = s == 0 || R[0][s], co = c.fin[s].first; for (int t = 0; t < n; ++t) if (R[s][t] && c.fin[t].first) co = true; if (acc && co) trimcyc = true; } } }
static bool all_trim(const FCon &c) { int n = c.st.size(); std::vector<char> co(n), ac(n); ac[0] = 1; for (int s = 0; s < n; ++s) co[s] = c.fin[s].first; for (int k = 0; k < n; ++k) for (int s = 0; s < n; ++s) for (auto &a : c.st[s]) { if (co[a.t]) co[s] = 1; if (ac[s]) ac[a.t] = 1; } for (int s = 0; s < n; ++s) if (ac[s] && !co[s]) return false; return true; }
static bool conv(const HfstTwoLevelPath &p, SP &k, std::string &err, bool noflags) { k = SP(0, 0); for (auto &x : p.second) { for (int side = 0; side < 2; ++side) { const std::string &s = side ? x.second : x.first; if (s.empty() || s == EPS) continue; if (is_flag(s, NULL)) { if (noflags) { err = "flag diacritic " + s + " left in a result"; return false; } continue; } int n = U.of(s); if (n <= 0) { err = "unexpected symbol '" + s + "'"; return false; } Str &d = side ? k.second : k.first; if (slen(d) >= 15) { err = "long"; return false; } d = sapp(d, n); } } return true; }
static std::string pk(SP k) { return "[" + sshow(k.first, U) + "]:[" + sshow(k.second, U) + "]"; }
static bool accepted(const Rel &r, const FCon &c, SP k) { if (r.count(k)) return true; return false; }

static std::vector<T> S;
static void extract_case(mc::Ctx &c, const T &t, ImplementationType ty, int mode) {
    static const int MX[] = {-1, 1, 2, -1, -1, -1, 5}, CY[] = {-1, -1, -1, 0, 1, 2, 1};
    c.k(std::string(tyname(ty)) + "|max_num " + std::to_string(MX[mode]) + " cycles " + std::to_string(CY[mode]) + "|" + t.str());
    FCon fc = fcon(to_basic(t), false, wty(ty)); bool cyc, tcyc; graph_facts(fc, cyc, tcyc); if (cyc && CY[mode] < 0 && !all_trim(fc)) { c.skip(); return; } // precondition: no dead states under an unlimited cycle count
    HfstTransducer h(to_basic(t), ty); c.trans(); c.state(mc::hs(t.str())); HfstTwoLevelPaths r; bool threw = false; try { h.extract_paths(r, MX[mode], CY[mode]); } catch (const TransducerIsCyclicException &e) { threw = true; }
    if (MX[mode] < 1 && CY[mode] < 0) { if (tcyc && !threw) return c.fail("cyclic transducer, no limits, but no TransducerIsCyclicException"); if (!cyc && threw) return c.fail("TransducerIsCyclicException for an acyclic transducer"); if (threw) { c.outcome("threw"); return; } }
    else if (threw) return c.fail("TransducerIsCyclicException although a limit was given");
    PSet all = paths(fc, cyc ? 0 : 9); Rel lang; if (cyc) lang = frel(fc, 6);
    std::map<SP, std::set<float>> got; for (auto &p : r) { SP k; std::string err; if (!conv(p, k, err, false)) { if (err == "long") continue; return c.fail(err); } got[k].insert(p.first); }
    c.outcome(got.size()); if (got.size() > 1) c.nontrivial();
    if (MX[mode] > 0 && (int)r.size() > MX[mode]) return c.fail(std::to_string(r.size()) + " paths extracted");
    for (auto &x : got) { if (!cyc) { auto it = all.m.find(x.first); if (it == all.m.end()) return c.fail("extracted " + pk(x.first) + " which is not accepted"); for (float w : x.second) { bool ok = false; for (float y : it->second) if (weq(w, y, 1e-4f)) ok = true; if (!ok) return c.fail("extracted " + pk(x.first) + " with weight " + std::to_string(w) + " that no path has"); } }
        else if (slen(x.first.first) <= 6 && slen(x.first.second) <= 6 && !accepted(lang, fc, x.first)) return c.fail("extracted " + pk(x.first) + " which is not accepted"); }
    if (MX[mode] < 1) { for (auto &x : all.m) { auto it = got.find(x.first); if (it == got.end()) return c.fail("path " + pk(x.first) + " was not extracted"); if (!cyc && !weq(*it->second.begin(), *x.second.begin(), 1e-4f)) return c.fail("best weight of " + pk(x.first) + " is " + std::to_string(*it->second.begin())); } }
    else if (r.empty() && !all.m.empty()) return c.fail("nothing extracted from a non-empty transducer");
    else if (!cyc && (int)all.m.size() >= MX[mode] && (int)all.n == (int)all.m.size() && (int)r.size() < MX[mode]) return c.fail("only " + std::to_string(r.size()) + " paths extracted, more exist");
    c.sample(c.key);
}
static void query_case(mc::Ctx &c, const T &t, ImplementationType ty) {
    c.k(std::string(tyname(ty)) + "|queries|" + t.str()); FCon fc = fcon(to_basic(t), false, wty(ty)); bool cyc, tcyc; graph_facts(fc, cyc, tcyc); HfstTransducer h(to_basic(t), ty); c.state(mc::hs(t.str()));
    bool q = h.is_cyclic(); c.trans(4); if (tcyc && !q) return c.fail("is_cyclic() says no"); if (!cyc && q) return c.fail("is_cyclic() says yes");
    // input-epsilon cycles
    { int n = fc.st.size(); Mat R(n, std::vector<char>(n)), A = R, Q = R; for (int s = 0; s < n; ++s) for (auto &a : fc.st[s]) { A[s][a.t] = 1; if (!a.i) { R[s][a.t] = 1; if (a.o || a.t != s) Q[s][a.t] = 1; } } closure(R); closure(A); closure(Q);
      bool may = false, must = false; for (int s = 0; s < n; ++s) { if (R[s][s]) may = true; if (Q[s][s]) { bool co = fc.fin[s].first; for (int x = 0; x < n; ++x) if (A[s][x] && fc.fin[x].first) co = true; if (co && (s == 0 || A[0][s])) must = true; } }
      bool a = h.is_infinitely_ambiguous(); if (must && !a) return c.fail("is_infinitely_ambiguous() says no"); if (!may && a) return c.fail("is_infinitely_ambiguous() says yes"); c.outcome(q * 2 + a); }
    if (ty == HFST_OLW_TYPE) return; // the others are not defined for this type
    bool aut = t.automaton(), tri = true; for (auto &a : t.arcs) if (a.i != a.o) tri = false; bool ia = h.is_automaton(); if (!ia && tri) return c.fail("is_automaton() says no"); if (ia && !aut) { // only arcs on accepting paths may be required
        Rel l = frel(fc, 4); bool diff = false; for (auto &x : l) if (x.first.first != x.first.second) diff = true; if (diff) return c.fail("is_automaton() says yes"); }
    if (!tcyc && !cyc) { bool eps = false; for (auto &a : t.arcs) if (a.i == EPS || a.o == EPS || a.i == UNK || a.o == UNK || a.i == IDN) eps = true; if (!eps) { // longest paths
            PSet p = paths(fc, 9); int best = -1; std::set<SP> lp; for (auto &x : p.m) { int l = slen(x.first.first); if (l > best) { best = l; lp.clear(); } if (l == best) lp.insert(x.first); }
            for (int of = 0; of < 2; ++of) { int l = h.longest_path_size(of); if (l != best) return c.fail("longest_path_size() is " + std::to_string(l) + ", should be " + std::to_string(best)); HfstTwoLevelPaths r; bool f = h.extract_longest_paths(r, of); if (f != (best >= 0)) return c.fail("extract_longest_paths() returned the wrong truth value"); std::set<SP> g; for (auto &x : r) { SP k; std::string e; if (!conv(x, k, e, false)) return c.fail(e); g.insert(k); } if (g != lp) return c.fail("extract_longest_paths() found " + std::to_string(g.size()) + " of " + std::to_string(lp.size())); c.trans(2); } c.nontrivial(); } }
    { Rel l = frel(fc, 5); if (!l.empty()) { float best = INF; for (auto &x : l) best = std::min(best, x.second); HfstTwoLevelPaths r; h.extract_shortest_paths(r); c.trans(); if (r.empty()) return c.fail("extract_shortest_paths() found nothing"); for (auto &x : r) { SP k; std::string e; if (!conv(x, k, e, false)) return c.fail(e); if (!l.count(k)) return c.fail("extract_shortest_paths() found " + pk(k)); if (!weq(x.first, best, 1e-4f)) return c.fail("extract_shortest_paths() found weight " + std::to_string(x.first)); } } }
    c.sample(c.key);
}

// ---- random paths: every sequence of choices is explored by standing in for rand()
static std::vector<int> CHOICE; static size_t CPOS; static bool CACT;
static std::vector<T> RS;
static void random_case(mc::Ctx &c, const T &t, ImplementationType ty, int mode, int depth) { // mode 0: one path, 1: two paths, 2: with flags, filtered, 3: with flags, kept
    static const char *MN[] = {"one", "two", "flags obeyed and dropped", "flags obeyed"}; c.k(std::string("random|") + MN[mode] + "|" + tyname(ty) + "|" + t.str()); HfstBasicTransducer b = to_basic(t); bool w = wty(ty); HfstTransducer h(b, ty); std::vector<HfstBasicTransition> dummy; (void)dummy;
    int num = mode == 1 ? 2 : 1; bool fl = false; for (auto &a : t.arcs) { Flag f; fl |= is_flag(a.i, &f); } if (mode >= 2 && !fl) { c.skip(); return; } bool any = false, some = !frel(fcon(b, mode >= 2, w), 6).empty(); c.state(mc::hs(t.str()));
    mc::u64 tot = 1; for (int i = 0; i < depth; ++i) tot *= 4;
    for (mc::u64 n = 0; n < tot; ++n) { CHOICE.clear(); mc::u64 x = n; for (int i = 0; i < depth; ++i, x /= 4) CHOICE.push_back(x % 4); CPOS = 0; CACT = true; HfstTwoLevelPaths r; try { if (mode < 2) h.extract_random_paths(r, num); else h.extract_random_paths_fd(r, num, mode == 2); } catch (...) { CACT = false; return c.fail("threw"); } CACT = false; c.trans();
        if ((int)r.size() > num) return c.fail(std::to_string(r.size()) + " paths extracted"); if (!r.empty()) any = true;
        for (auto &p : r) { // run the path through the graph; dropped flags may be passed freely, if their values allow it
            struct N { int q; size_t i; Val v; bool operator<(const N &y) const { return std::tie(q, i, v) < std::tie(y.q, y.i, y.v); } }; std::map<N, std::set<int>> best; std::vector<std::pair<N, float>> wl{{N{0, 0, {}}, 0}}; bool acc = false, ok = false; float wrong = 0;
            for (size_t hh = 0; hh < wl.size() && hh < 20000; ++hh) { auto cur = wl[hh]; if (cur.first.i == p.second.size() && t.fin.count(cur.first.q)) { float ww = (w ? cur.second + t.fin.at(cur.first.q) : 0); acc = true; if (weq(ww, p.first, 1e-4f)) ok = true; else wrong = ww; }
                for (auto &a : t.arcs) { if (a.s != cur.first.q) continue; N y = cur.first; y.q = a.t; Flag f; bool isf = is_flag(a.i, &f); if (mode >= 2 && isf && !fapply(y.v, f)) continue; if (!(mode == 2 && isf)) { if (y.i >= p.second.size() || p.second[y.i].first != a.i || p.second[y.i].second != a.o) continue; ++y.i; } float nw = cur.second + a.w; if (cur.second + a.w > 60 || !best[y].insert((int)(nw * 64)).second) continue; wl.push_back({y, nw}); } }
            std::string ps; for (auto &x : p.second) ps += x.first + ":" + x.second + " "; std::string cs; for (int x : CHOICE) cs += std::to_string(x);
            if (!acc) return c.fail("choices " + cs + ": extracted " + ps + "which is not accepted"); if (!ok) return c.fail("choices " + cs + ": extracted " + ps + "with weight " + std::to_string(p.first) + ", not " + std::to_string(wrong)); c.outcome(mc::hs(ps)); if (!p.second.empty()) c.nontrivial(); } }
    if (some && !any && mode < 2 && !fl) return c.fail("no choices extract anything");
    c.sample(c.key); }
// ---- C12
static const char *ENG[] = {"tropical", "sfst", "foma", "log", "basic lookup", "ol lookup", "olw lookup", "eliminate tropical", "eliminate sfst", "eliminate foma", "eliminate F tropical", "eliminate F foma", "extract with flags tropical", "extract with flags sfst"};
static const int NENG = 14;
static void flag_case(mc::Ctx &c, const T &t, int eng, int L) {
    c.k(std::string(ENG[eng]) + "|" + t.str()); bool w = eng == 0 || eng == 3 || eng == 4 || eng == 6 || eng == 7 || eng == 10 || eng == 12; HfstBasicTransducer b = to_basic(t); FCon fc = fcon(b, true, w); bool cyc, tcyc; graph_facts(fc, cyc, tcyc);
    Rel want = frel(fc, L); c.trans(); c.state(mc::hs(t.str())); if (!want.empty()) c.nontrivial();
    auto relcmp = [&](const Rel &g) { return rel_diff(want, g, U, w); };
    if (eng < 4 || eng >= 12) { if (cyc) { c.skip(); return; } ImplementationType ty = eng == 12 ? TROPICAL_OPENFST_TYPE : eng == 13 ? SFST_TYPE : ALL[eng]; HfstTransducer h(b, ty); HfstTwoLevelPaths r; h.extract_paths_fd(r, -1, -1, eng < 12); Rel g; for (auto &p : r) { SP k; std::string e; if (!conv(p, k, e, eng < 12)) return c.fail(e); put(g, k, w ? p.first : 0);
            if (eng >= 12) { Val v; for (auto &x : p.second) { Flag f; if (is_flag(x.first, &f) && !fapply(v, f)) return c.fail("extracted a path that its flag diacritics forbid"); } } }
        PSet p = paths(fc, 9); std::string d = relcmp(g); if (!d.empty()) return c.fail(d); c.outcome(rel_hash(g)); return; }
    if (eng < 7) { // lookups, every input
        if (eng == 4 && cyc) { c.skip(); return; } std::unique_ptr<HfstTransducer> h; if (eng > 4) h.reset(new HfstTransducer(b, eng == 5 ? HFST_OL_TYPE : HFST_OLW_TYPE)); bool epsc = false, anyc = false; { int n = fc.st.size(); std::vector<std::vector<char>> R(n, std::vector<char>(n)); for (int s = 0; s < n; ++s) for (auto &a : fc.st[s]) if (!a.i) R[s][a.t] = 1; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (R[i][k] && R[k][j]) R[i][j] = 1; for (int s = 0; s < n; ++s) { if (R[s][s]) anyc = true; for (auto &a : fc.st[s]) if (!a.i && a.flag < 0 && R[a.t][s]) epsc = true; for (auto &a : fc.st[s]) if (!a.i && a.flag < 0 && a.t == s) epsc = true; } }
        if (epsc) { c.skip(); return; }
        for (int l = 0; l <= 3; ++l) for (int i = 0; i < (1 << l); ++i) { Str s = 0; std::string str; StringVector sv; for (int j = 0; j < l; ++j) { s = sapp(s, (i >> j & 1) + 1); str += U.name[i >> j & 1]; sv.push_back(U.name[i >> j & 1]); }
            Rel g; std::string e; SP k; if (eng == 4) { HfstTwoLevelPaths r; b.lookup(sv, r, NULL, NULL, -1, true); for (auto &p : r) { if (!conv(p, k, e, false)) return c.fail(e); put(g, k, p.first); } }
            else { std::unique_ptr<HfstOneLevelPaths> r(h->lookup_fd(str)); for (auto &p : *r) { HfstTwoLevelPath q; q.first = p.first; for (auto &x : p.second) q.second.push_back(StringPair("", x)); if (!conv(q, k, e, false)) return c.fail(e); k.first = s; put(g, k, w ? p.first : 0); }
                if (!anyc && h->is_lookup_infinitely_ambiguous(str)) return c.fail("is_lookup_infinitely_ambiguous says yes for an input without epsilon cycle"); }
            Rel ww; for (auto &x : want) if (x.first.first == s) ww.insert(x); c.trans(); for (auto it = g.begin(); it != g.end();) if (slen(it->first.second) > L) it = g.erase(it); else ++it; std::string d = rel_diff(ww, g, U, w); if (!d.empty()) return c.fail("lookup of '" + str + "':" + d); c.outcome(rel_hash(g)); }
        c.sample(c.key); return; }
    if (eng >= 10) { bool has = false; for (auto &x : t.arcs) { Flag f; if (is_flag(x.i, &f) && f.f == "F") has = true; } if (!has) { c.skip(); return; } } // eliminate_flag requires the feature to occur
    if (eng == 9 || eng == 11) { // precondition for libfoma's own elimination: every require flag has a setter, no negative setting next to a unification
        bool n = false, u = false; std::vector<Flag> all; /* libfoma lets @D.F.x@ fail after @N.F.y@ */ for (auto &x : t.arcs) { Flag f; if (is_flag(x.i, &f)) { all.push_back(f); n |= f.op == 'N'; u |= f.op == 'U' || (f.op == 'D' && !f.v.empty()); } } bool skip = n && u; for (auto &r : all) if (r.op == 'R') { bool ok = false; for (auto &f : all) if (f.f == r.f && ((f.op == 'P' || f.op == 'U') && (r.v.empty() || r.v == f.v)) || (f.op == 'N' && r.v.empty())) ok = true; if (!ok) skip = true; } if (skip) { c.skip(); return; } }
    HfstTransducer h(b, eng == 7 || eng == 10 ? TROPICAL_OPENFST_TYPE : eng == 8 ? SFST_TYPE : FOMA_TYPE);
    if (eng < 10) h.eliminate_flags(); else h.eliminate_flag("F"); HfstBasicTransducer o(h);
    for (auto &s : o.get_alphabet()) { Flag f; if (is_flag(s, &f) && (eng < 10 || f.f == "F")) return c.fail("flag diacritic " + s + " still in the alphabet"); }
    int s = 0; for (auto it = o.begin(); it != o.end(); ++it, ++s) for (auto &tr : *it) { Flag f; if ((is_flag(tr.get_input_symbol(), &f) || is_flag(tr.get_output_symbol(), &f)) && (eng < 10 || f.f == "F")) return c.fail("flag diacritic still on a transition"); }
    FCon oc = fcon(o, true, w); if (!oc.err.empty()) return c.fail(oc.err); Rel g = frel(oc, L); std::string d = relcmp(g); if (!d.empty()) return c.fail(d); c.outcome(rel_hash(g)); c.sample(c.key);
}
static std::vector<std::string> FL = {"@P.F.x@", "@P.F.y@", "@N.F.x@", "@R.F@", "@R.F.x@", "@D.F@", "@D.F.x@", "@C.F@", "@U.F.x@", "@U.F.y@", "@R.F.y@", "@N.F.y@"};
static std::vector<std::string> FG = {"@P.F.x@", "@U.F.x@", "@U.F.y@", "@R.F.x@", "@P.G.x@", "@U.G.y@", "@D.G@"};
static void valid_case(mc::Ctx &c, const std::vector<int> &seq) { // FdTable / FdState themselves
    std::string k; StringVector sv; bool want = true; Val v; for (int i : seq) { k += FL[i]; sv.push_back(FL[i]); Flag f; is_flag(FL[i], &f); if (want && !fapply(v, f)) want = false; } c.k("sequence|" + k); c.trans(); c.state(mc::hs(k)); c.nontrivial();
    FlagDiacriticTable T1; bool g = T1.is_valid_string(sv); c.outcome(g); if (g != want) return c.fail(std::string("FlagDiacriticTable::is_valid_string says ") + (g ? "yes" : "no"));
    FdTable<unsigned short> tb; for (size_t i = 0; i < FL.size(); ++i) tb.define_diacritic(i + 1, FL[i]); FdState<unsigned short> st(tb); bool ok = true; for (int i : seq) if (!st.apply_operation((unsigned short)(i + 1))) { ok = false; break; } if (ok != want) return c.fail(std::string("FdState::apply_operation says ") + (ok ? "yes" : "no"));
}
extern "C" int rand(void) noexcept { if (!CACT) return 0; if (CPOS < CHOICE.size()) return CHOICE[CPOS++]; return 0; }
int main(int argc, char **argv) {
    std::string P = mc::prop_arg(argc, argv); mc::Harness h; h.property = P;
    h.spaces = [P](bool th) { std::vector<mc::Space> v;
        Label aa = {"a", "a"}, bb = {"b", "b"}, ab = {"a", "b"}, ba = {"b", "a"}, a0 = {"a", EPS}, zb = {EPS, "b"}, zz = {EPS, EPS}, ii = {IDN, IDN}, ua = {UNK, "a"};
        if (P == "C10") { U = Univ({"a", "b", IDN, UNK}); std::vector<T> s; enum_T(1, {aa, ab, zb}, 2, true, s); enum_T(2, {aa, ab, a0, zb, zz, ii, ua}, 2, true, s); enum_T(2, {aa, ab, ba}, th ? 4 : 3, true, s); enum_T(3, {aa, ab, zb}, th ? 4 : 3, true, s); if (th) enum_T(4, {aa, ba}, 4, true, s);
            for (auto &t : s) { S.push_back(t); S.push_back(generic_weights(t)); } fprintf(stderr, "shapes %zu\n", S.size()); mc::u64 n = S.size();
            v.push_back({"extract", n * 35, [](mc::u64 i, mc::Ctx &c) { extract_case(c, S[i / 35], ALL[i % 5], i / 5 % 7); }, 500, 20});
            { std::vector<T> q; Label fp = {"@P.F.x@", "@P.F.x@"}, fr = {"@R.F.x@", "@R.F.x@"}; enum_T(2, {aa, ab, zb, ii}, 3, true, q); enum_T(3, {aa, zb}, 3, true, q); enum_T(2, {aa, fp, fr}, 3, true, q); for (size_t i = 0; i < q.size(); ++i) if (th || i % 5 == 0) RS.push_back(generic_weights(q[i])); fprintf(stderr, "random %zu\n", RS.size()); }
            v.push_back({"random", (mc::u64)RS.size() * 12, [th](mc::u64 i, mc::Ctx &c) { static const ImplementationType y[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}; int m = i / 3 % 4; random_case(c, RS[i / 12], y[i % 3], m, (th ? 6 : 5) - (m == 1)); }, 20, 20});
            v.push_back({"queries", n * 5, [](mc::u64 i, mc::Ctx &c) { query_case(c, S[i / 5], ALL[i % 5]); }, 200, 20}); }
        else { U = Univ({"a", "b"}); static mc::u64 K = FL.size(); int D = th ? 6 : 4; static std::vector<mc::u64> off{0}; mc::u64 p = 1; for (int d = 0; d <= D; ++d, p *= K) off.push_back(off.back() + p);
            v.push_back({"sequence", off.back(), [](mc::u64 i, mc::Ctx &c) { int d = 0; while (i >= off[d + 1]) ++d; mc::u64 x = i - off[d]; std::vector<int> s; for (int j = 0; j < d; ++j, x /= K) s.push_back(x % K); valid_case(c, s); }, 5000});
            // chains: flag sequences of length <= 3 (thorough 4) with letters between them, on every engine
            static std::vector<T> ch; int D2 = th ? 4 : 3; { mc::u64 q = 1; for (int d = 1; d <= D2; ++d) { q *= K; for (mc::u64 i = 0; i < q; ++i) { T t; t.n = d + 1; mc::u64 x = i; for (int j = 0; j < d; ++j, x /= K) { t.arcs.push_back({j, j + 1, FL[x % K], FL[x % K], (float)(1 << j) / 2}); } t.arcs.push_back({0, d, "a", "b", 8}); t.arcs.push_back({d, d + 1, "a", "a", 16}); t.n = d + 2; t.fin[d + 1] = 32; ch.push_back(t); } } }
            v.push_back({"chains", ch.size() * NENG, [](mc::u64 i, mc::Ctx &c) { flag_case(c, ch[i / NENG], i % NENG, 4); }, 300});
            // loops that change the flags: 0 -f-> 1, 1 -g-> 2 -h-> 1 (or a loop of one arc), 1 -k-> 3, then a letter
            v.push_back({"loops", (mc::u64)K * (K + 1) * K * K * 3, [th](mc::u64 i, mc::Ctx &c) { static const int en[] = {6, 7, 5}; int e = en[i % 3]; i /= 3; int k = i % K; i /= K; int hh = i % K; i /= K; int g = i % (K + 1); int f = i / (K + 1); if (!th && (e == 5 || (f != 0 && f != 2 && f != 7) || (k != 3 && k != 4 && k != 6 && k != 10))) { c.skip(); return; }
                T t; t.n = 5; auto ar = [&](int a, int b, int x, float w) { t.arcs.push_back({a, b, FL[x], FL[x], w}); }; ar(0, 1, f, 1); if (g < (int)K) { ar(1, 2, g, 2); ar(2, 1, hh, 0.5); } else ar(1, 1, hh, 2); ar(1, 3, k, 4); t.arcs.push_back({3, 4, "a", "b", 8}); t.fin[4] = 16; flag_case(c, t, e, 3); }, 300});
            // two loops of one arc at a state that also consumes
            v.push_back({"self-loops", (mc::u64)K * K * K * 2, [](mc::u64 i, mc::Ctx &c) { int e = i % 2 ? 7 : 6; i /= 2; T t; t.n = 3; auto ar = [&](int a, int b, const std::string &x, const std::string &y, float w) { t.arcs.push_back({a, b, x, y, w}); }; std::string f = FL[i % K], g = FL[i / K % K], k = FL[i / K / K]; ar(0, 0, f, f, 1); ar(0, 0, g, g, 0.5); ar(0, 1, "a", "b", 2); ar(0, 2, k, k, 4); ar(2, 0, "a", "a", 8); t.fin[1] = 16; flag_case(c, t, e, 3); }, 100});
            std::vector<Label> fl = {aa, ab, zb}; std::vector<Label> f3; for (auto &x : FG) fl.push_back({x, x}); for (int i : th ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 1, 2}) f3.push_back({FG[i], FG[i]}); f3.push_back(aa);
            std::vector<T> s; enum_T(2, fl, 2, false, s); enum_T(3, f3, th ? 4 : 3, false, s); for (auto &t : s) S.push_back(generic_weights(t)); fprintf(stderr, "graphs %zu\n", S.size());
            v.push_back({"graphs", (mc::u64)S.size() * NENG, [](mc::u64 i, mc::Ctx &c) { flag_case(c, S[i / NENG], i % NENG, 3); }, 300}); }
        return v; };
    return mc::drive(argc, argv, h);
}
