// C25 lookup tools: every transducer, option and input line of a bounded set, against the paths of the graph
#include "tools.h"
#include <cmath>
using namespace ref; using namespace hfst;
namespace {
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, HFST_OL_TYPE, HFST_OLW_TYPE};
static bool wty(int t) { return t == 0 || t == 4; }
static bool olty(int t) { return t >= 3; }
typedef std::vector<std::string> Toks;
struct Res { std::vector<std::pair<std::string, std::string>> p; float w; }; // the pairs of the path, epsilons and flags included
struct Ans { std::vector<Res> r; bool cyc = false, cut = false; };
static int turns = 1; // how many times a cycle of epsilons and flags is gone round
static bool is_flag(const std::string &s) { return FdOperation::is_diacritic(s); }
struct Flags { std::map<std::string, std::pair<bool, std::string>> v; // (negated, value)
    bool apply(const std::string &s) { char op = s[1]; size_t d = s.find('.', 3); std::string f = s.substr(3, (d == std::string::npos ? s.size() - 1 : d) - 3), val = d == std::string::npos ? "" : s.substr(d + 1, s.size() - d - 2); auto it = v.find(f); bool set = it != v.end();
        switch (op) { case 'P': v[f] = {false, val}; return true; case 'N': v[f] = {true, val}; return true; case 'C': v.erase(f); return true;
            case 'R': if (val.empty()) return set; return set && !it->second.first && it->second.second == val;
            case 'D': if (val.empty()) return !set; return !(set && !it->second.first && it->second.second == val);
            case 'U': if (!set) { v[f] = {false, val}; return true; } if (it->second.first ? it->second.second != val : it->second.second == val) { v[f] = {false, val}; return true; } return false; }
        return true; } };
// all paths that read the tokens
static void walk(const T &t, const std::set<std::string> &al, const Toks &in, int s, size_t pos, Flags fl, bool obey, Res &cur, std::map<std::pair<int, size_t>, int> &on, Ans &out) {
    if (out.r.size() > 2000) { out.cut = true; return; } int &v = on[{s, pos}]; if (v) { out.cyc = true; if (v > turns) return; } ++v;
    auto f = t.fin.find(s); if (f != t.fin.end() && pos == in.size()) { Res r = cur; r.w += f->second; out.r.push_back(r); }
    for (auto &a : t.arcs) if (a.s == s) { size_t np = pos; Flags nf = fl; std::string o = a.o, i = a.i;
        if (a.i == EPS) {} else if (is_flag(a.i)) { if (obey && !nf.apply(a.i)) continue; } else { if (pos >= in.size()) continue; if (a.i == IDN) { if (al.count(in[pos])) continue; i = o = in[pos]; } else if (a.i != in[pos]) continue; np = pos + 1; }
        cur.p.push_back({i, o}); float w = cur.w; cur.w += a.w; walk(t, al, in, a.t, np, nf, obey, cur, on, out); cur.w = w; cur.p.pop_back(); }
    --on[{s, pos}]; }
static Ans look(T t, const Toks &in, bool w, bool obey = true) { if (!w) { for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; } Ans r; Res cur; cur.w = 0; std::map<std::pair<int, size_t>, int> on; walk(t, t.alphabet(), in, 0, 0, Flags(), obey, cur, on, r); return r; }
static Toks outs(const Res &r) { Toks o; for (auto &x : r.p) if (x.second != EPS && !is_flag(x.second)) o.push_back(x.second); return o; }
static std::string join(const Toks &v, const std::string &sep = "") { std::string r; for (auto &x : v) { if (!r.empty() && !sep.empty()) r += sep; r += x; } return r; }
static std::string q(const std::string &s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; return r; }
static std::string num(float w) { char b[64]; snprintf(b, 64, "%f", w); return b; }
static std::string squeeze(const std::string &s) { std::string r; bool sp = true; for (char c : s) { if (c == ' ') { if (!sp) r += c; sp = true; } else { r += c; sp = c == '\t' || c == '\n'; } } std::string x; for (size_t i = 0; i < r.size(); ++i) if (!(r[i] == ' ' && (i + 1 == r.size() || r[i + 1] == '\t' || r[i + 1] == '\n'))) x += r[i]; return x; }

enum { XEROX, CG, APERTIUM, PAIRS };
struct Opt { std::vector<std::string> a; int fmt = XEROX; bool spaced_in = false, space_out = false, flags = false, obey = true, stats = false; float beam = -1; int n = 0; std::string eps; int only = 0; /* 1: not optimized lookup, 2: only that */ };
static auto &OP = *new std::vector<Opt>;
struct In { std::string line, spaced; Toks t; };
static auto &IN = *new std::vector<In>; static auto &INA = *new std::vector<In>;
static std::string text_of(const Toks &v, bool sp) { return join(v, sp ? " " : ""); }
// what is printed for one result
static std::string show(const In &in, const Res &r, const Opt &o, bool ol) {
    std::string i = text_of(in.t, o.space_out && o.fmt != PAIRS && (!ol || o.spaced_in)); // the optimized format splits the line itself
    if (o.fmt == PAIRS) { std::string s; for (auto &x : r.p) { if (!o.flags && is_flag(x.second)) continue; if (ol && x.first == EPS && x.second == EPS) continue; auto e = [&](const std::string &y) { return y == EPS ? o.eps : y; }; if (o.space_out && !s.empty()) s += " "; s += e(x.first) + ":" + e(x.second); } return i + "\t" + s + "\t" + num(r.w); }
    Toks v; for (auto &x : r.p) { if (x.second == EPS) { if (!o.eps.empty()) v.push_back(o.eps); } else if (is_flag(x.second)) { if (o.flags) v.push_back(x.second); } else v.push_back(x.second); }
    std::string l = text_of(v, o.space_out);
    if (o.fmt == XEROX) return i + "\t" + l + "\t" + num(r.w);
    if (o.fmt == CG) { size_t c = std::string::npos; for (char ch : {'+', ' ', '<', '['}) if ((c = l.find(ch)) != std::string::npos) break; if (c == std::string::npos) c = l.size(); return "\t\"" + l.substr(0, c) + "\"" + l.substr(c) + "\t" + num(r.w); }
    return l; }
static std::string none(const In &in, const Opt &o, bool ol) { std::string i = text_of(in.t, o.space_out && o.fmt != PAIRS && (!ol || o.spaced_in)); return o.fmt == CG ? "\t\"" + i + "\" ?\tInf" : o.fmt == APERTIUM ? "*" + i : i + "\t" + i + "+?\tinf"; }
// the answers of a cascade
static Ans cascade(const std::vector<T> &ts, int mode, const Toks &in, bool w, bool obey) {
    if (mode == 2) { Ans a = look(ts[0], in, w, obey); for (size_t k = 1; k < ts.size(); ++k) { Ans b; b.cyc = a.cyc; for (auto &r : a.r) { Ans x = look(ts[k], outs(r), w, obey); b.cyc |= x.cyc; for (auto &y : x.r) { Res z = y; z.w += r.w; b.r.push_back(z); } } a = b; } return a; }
    Ans a; for (auto &t : ts) { Ans x = look(t, in, w, obey); a.cyc |= x.cyc; a.r.insert(a.r.end(), x.r.begin(), x.r.end()); if (mode == 1 && !a.r.empty()) break; } return a; }
static const char *CASC[] = {"union", "priority-union", "composition"};
// the symbol yz is one token if the transducers read it
static std::vector<In> retok(const std::vector<T> &ts, const std::vector<In> &ins, bool ol, bool spaced) { if (spaced) return ins; bool in = false, out = false, idn = false; for (auto &t : ts) for (auto &a : t.arcs) { in |= a.i == "yz"; out |= a.o == "yz"; idn |= a.i == IDN; } if (in) return ins; std::vector<In> r; for (auto x : ins) { bool has = false; Toks n; for (auto &y : x.t) if (y == "yz") { n.push_back("y"); n.push_back("z"); has = true; } else n.push_back(y); if (has && ol && out && idn) continue; x.t = n; r.push_back(x); } return r; }
// the optimized format takes symbols that are only on the output side for unknown ones
static bool outonly(const T &t) { std::set<std::string> in, out; bool q = false; for (auto &a : t.arcs) { in.insert(a.i); out.insert(a.o); q |= a.i == IDN; } if (q) for (auto &x : out) if (x != EPS && x != IDN && !in.count(x)) return true; return false; }
static void lookup_case(mc::Ctx &c, const std::vector<T> &ts, const Opt &o, int ty, int mode, bool inverse, const std::vector<In> &all_ins) {
    tl::Case guard; std::vector<In> ins = retok(ts, all_ins, olty(ty), o.spaced_in && !olty(ty)); if ((o.only == 1 && olty(ty)) || (o.only == 2 && !olty(ty))) return c.skip(); if (olty(ty)) for (auto &t : ts) { if (outonly(t)) return c.skip(); if (ts.size() > 1) for (auto &a : t.arcs) if (a.i == IDN) for (auto &u : ts) for (auto &b : u.arcs) if (b.i == "yz" || b.o == "yz") return c.skip(); }
    std::vector<std::string> a = o.a; if (ts.size() > 1) { a.push_back("-C"); a.push_back(CASC[mode]); } a.push_back("-s"); std::string tool = inverse ? "flookup" : "lookup"; std::string key = "hfst-" + tool; for (auto &x : a) key += " " + x; key += std::string("|") + tyname(TY[ty]) + "|"; for (auto &t : ts) key += t.str() + " "; c.k(key);
    std::vector<T> given = ts; if (inverse) for (auto &t : given) { for (auto &x : t.arcs) std::swap(x.i, x.o); }
    if (olty(ty) && o.flags && o.fmt != PAIRS) for (auto &t : ts) for (auto &x : t.arcs) if (is_flag(x.i)) return c.skip(); // lookup of the optimized format gives no flags
    if (!o.a.empty() && o.a[0] == "-t") for (auto &x : ins) if (cascade(ts, mode, x.t, false, o.obey).cyc) return c.skip(); // goes on until the time is out
    { std::vector<In> k; for (auto &x : ins) if (x.t.size() < 2 || !cascade(ts, mode, x.t, false, o.obey).cyc) k.push_back(x); ins = k; } // cycles multiply with every symbol
    tl::put("f", tl::stream(given, TY[ty])); std::string in; for (auto &x : ins) in += (o.spaced_in ? x.spaced : x.line) + "\n"; bool pipe = mc::hs(key) % 2; if (!pipe) { tl::put("s", in); a.push_back("-I"); a.push_back("s"); } else a.push_back("-p"); if (mc::hs(key) % 3) a.push_back("f"); else { a.push_back("-i"); a.push_back("f"); }
    tl::Run r = tl::run(tool, a, pipe ? in : ""); c.trans(ins.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    std::string out = r.out; for (size_t p; (p = out.find("> ")) != std::string::npos && !pipe && false;) out.erase(p, 2);
    std::vector<std::string> lines; { std::stringstream s(out); std::string l; while (std::getline(s, l)) lines.push_back(l); } size_t p = 0; unsigned long found = 0, missing = 0, res = 0; bool fuzzy = false;
    for (auto &x : ins) {
        Ans want = cascade(ts, mode, x.t, wty(ty), o.obey); std::string at = "input `" + x.line + "': "; c.state(mc::hs(key) ^ mc::hs(x.line)); if (!want.r.empty()) c.nontrivial();
        float best = 1e9; for (auto &y : want.r) best = std::min(best, y.w); std::vector<std::string> got; std::string id = text_of(x.t, o.space_out && (!olty(ty) || o.spaced_in)); bool marked = false;
        if (o.fmt == APERTIUM) { if (p >= lines.size()) return c.fail(at + "nothing is printed"); std::string l = lines[p++]; if (l.compare(0, 1 + id.size(), "^" + id) || l.empty() || l.back() != '$') return c.fail(at + "prints `" + q(l) + "'"); l = l.substr(1 + id.size(), l.size() - 2 - id.size()); while (!l.empty()) { if (l[0] != '/') return c.fail(at + "prints `" + q(l) + "'"); size_t e = l.find('/', 1); if (e == std::string::npos) e = l.size(); got.push_back(l.substr(1, e - 1)); l = l.substr(e); } if (!got.empty() && got.back() == "...") { got.pop_back(); marked = true; } }
        else { if (o.fmt == CG) { if (p >= lines.size()) return c.fail(at + "nothing is printed"); if (lines[p] != "\"<" + id + ">\"") return c.fail(at + "prints `" + q(lines[p]) + "'"); ++p; } while (p < lines.size() && !lines[p].empty()) got.push_back(lines[p++]); if (p >= lines.size()) return c.fail(at + "no empty line after the results"); ++p; if (!got.empty() && (got.back() == id + "\t[...cyclic...]" || got.back() == "\t\"" + id + "\"...cyclic...")) { got.pop_back(); marked = true; } }
        if (o.space_out) for (auto &g : got) g = squeeze(g);
        std::set<std::string> w, g(got.begin(), got.end()); size_t cnt = 0; for (auto &y : want.r) if (o.n || o.beam < 0 || y.w <= best + o.beam + 1e-6) { std::string s = show(x, y, o, olty(ty)); if (o.space_out) s = squeeze(s); w.insert(s); ++cnt; } if (want.r.empty()) { std::string s = none(x, o, olty(ty)); if (o.space_out) s = squeeze(s); w.insert(s); ++missing; } else { ++found; res += got.size(); }
        if (marked && !want.cyc) return c.fail(at + "is said to have infinitely many results"); for (auto &y : g) c.outcome(mc::hs(y));
        if (want.cyc) { fuzzy = true; if (o.n || mode == 2) continue; if (want.r.empty()) { if (g != w) return c.fail(at + "prints `" + q(got.empty() ? "" : got[0]) + "'"); continue; }
            if (got.empty()) return c.fail(at + "prints no results"); // infinitely many results: those printed are paths, within the beam, and going round once is enough to be printed
            float low = best; if (olty(ty) && o.fmt != APERTIUM) { size_t tb = got[0].rfind('\t'); low = tb == std::string::npos ? 0 : strtof(got[0].c_str() + tb + 1, 0); } // those find some results, not the best ones
            if (o.beam >= 0 && o.fmt != APERTIUM) for (auto &y : got) { size_t tb = y.rfind('\t'); if (tb == std::string::npos || strtof(y.c_str() + tb + 1, 0) > low + o.beam + 1e-4) return c.fail(at + "prints `" + q(y) + "' beyond the beam"); }
            if (olty(ty)) continue; // those go round hundreds of times
            turns = 6; Ans deep = cascade(ts, mode, x.t, wty(ty), o.obey); turns = 1; if (!deep.cut) { std::set<std::string> all; for (auto &y : deep.r) if (o.beam < 0 || y.w <= best + o.beam + 1e-6) { std::string s = show(x, y, o, olty(ty)); if (o.space_out) s = squeeze(s); all.insert(s); } for (auto &y : g) if (!all.count(y)) return c.fail(at + "prints `" + q(y) + "'"); for (auto &y : w) if (!g.count(y)) return c.fail(at + "does not print `" + q(y) + "'"); }
            continue; }
        for (auto &y : g) if (!w.count(y)) return c.fail(at + "prints `" + q(y) + "'");
        if (o.n) { if ((int)got.size() > o.n) return c.fail(at + std::to_string(got.size()) + " results"); if (g.size() < std::min<size_t>(o.n, w.size()) && g.empty()) return c.fail(at + "only " + std::to_string(g.size()) + " of " + std::to_string(w.size()) + " results"); continue; }
        if (olty(ty) && wty(ty)) { // of results that differ in weight alone the best is enough
            for (auto &y : want.r) { if (o.beam >= 0 && y.w > best + o.beam + 1e-6) continue; bool ok = false; for (auto &z : want.r) if (outs(z) == outs(y) && z.w <= y.w) { std::string s = show(x, z, o, true); if (o.space_out) s = squeeze(s); ok |= g.count(s) > 0; } if (!ok) return c.fail(at + "does not print `" + q(show(x, y, o, true)) + "'"); } if (want.r.empty() && g != w) return c.fail(at + "prints nothing"); }
        else for (auto &y : w) if (!g.count(y)) return c.fail(at + "does not print `" + q(y) + "'");
        if (wty(ty) && (o.fmt == XEROX || o.fmt == CG)) { float last = -1e9; for (auto &y : got) { size_t tb = y.rfind('\t'); float v = tb == std::string::npos ? 0 : strtof(y.c_str() + tb + 1, 0); if (y.size() > 4 && (y.substr(y.size() - 3) == "inf" || y.substr(y.size() - 3) == "Inf")) v = 1e9; if (v < last - 1e-4) return c.fail(at + "results are not in order of weight: `" + q(y) + "'"); last = v; } }
    }
    if (o.stats) { if (p + 4 != lines.size()) return c.fail("no statistics"); unsigned long a1, a2, a3, a4; if (sscanf(lines[p + 1].c_str(), "%lu %lu %lu %lu", &a1, &a2, &a3, &a4) != 4 || a1 != ins.size() || a2 != found || a3 != missing || (!fuzzy && a4 != res)) return c.fail("statistics `" + q(lines[p + 1]) + "', should be " + std::to_string(ins.size()) + " " + std::to_string(found) + " " + std::to_string(missing) + " " + std::to_string(res)); }
    else if (p != lines.size()) return c.fail("more is printed: `" + q(lines[p]) + "'");
    c.sample(c.key); }
// ---- hfst-optimized-lookup
static void oplookup_case(mc::Ctx &c, const T &t, bool w, bool fast, bool uniq, bool weights, int n, float beam, bool echo, const std::vector<In> &all_ins) {
    tl::Case guard; for (auto &a : t.arcs) if (a.i == IDN) return c.skip(); std::vector<In> ins = retok({t}, all_ins, true, false); std::vector<std::string> a; if (fast) a.push_back("-f"); if (uniq) a.push_back("-u"); if (weights) a.push_back("-w"); if (n) { a.push_back("-n"); a.push_back(std::to_string(n)); } if (beam >= 0) { char b[32]; snprintf(b, 32, "-b%g", beam); a.push_back(b); } if (echo) a.push_back("-e"); std::string key = "hfst-optimized-lookup"; for (auto &x : a) key += " " + x; c.k(key + (w ? "|weighted|" : "|unweighted|") + t.str());
    for (auto &x : ins) if (look(t, x.t, w).cyc) return c.skip(); // documented to loop
    tl::put("f", tl::stream(std::vector<T>{t}, w ? HFST_OLW_TYPE : HFST_OL_TYPE)); std::string in; for (auto &x : ins) in += x.line + "\n"; a.push_back("-p"); a.push_back("f"); tl::Run r = tl::run("optimized-lookup", a, in); c.trans(ins.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    std::vector<std::string> lines; { std::stringstream s(r.out); std::string l; while (std::getline(s, l)) lines.push_back(l); } size_t p = 0;
    for (auto &x : ins) { std::string at = "input `" + x.line + "': "; Ans want = look(t, x.t, w); c.state(mc::hs(c.key) ^ mc::hs(x.line)); if (!want.r.empty()) c.nontrivial(); float best = 1e9; for (auto &y : want.r) best = std::min(best, y.w);
        if (echo) { if (p >= lines.size() || lines[p].find(x.line) == std::string::npos) return c.fail(at + "not echoed"); ++p; }
        std::vector<std::pair<std::string, float>> got; while (p < lines.size() && !lines[p].empty()) { std::string l = lines[p++]; c.outcome(mc::hs(l)); if (l.compare(0, x.line.size() + 1, x.line + "\t")) return c.fail(at + "prints `" + q(l) + "'"); l = l.substr(x.line.size() + 1); float v = 0; if (l == x.line + "\t+?") { got.push_back({l, 0}); continue; } if (w && weights) { size_t tb = l.rfind('\t'); if (tb != std::string::npos) { v = strtof(l.c_str() + tb + 1, 0); l = l.substr(0, tb); } else if (l != "+?" && l != x.line + "+?") return c.fail(at + "prints no weight: `" + q(l) + "'"); } got.push_back({l, v}); } if (p >= lines.size()) return c.fail(at + "no empty line after the results"); ++p;
        if (want.r.empty()) { while (p < lines.size() && lines[p].empty()) ++p; if (got.size() != 1 || (got[0].first != x.line + "\t+?" && got[0].first != "+?" && got[0].first != x.line + "+?")) return c.fail(at + "prints `" + (got.empty() ? "" : q(got[0].first)) + "' although there is no result"); continue; }
        std::map<std::string, float> bw; std::multimap<std::string, float> all; for (auto &y : want.r) { if (beam >= 0 && y.w > best + beam + 1e-6) continue; std::string s = join(outs(y)); auto it = bw.find(s); if (it == bw.end() || y.w < it->second) bw[s] = y.w; all.insert({s, y.w}); } float last = -1e9; std::map<std::string, int> times;
        for (auto &y : got) { bool ok = false; for (auto it = all.lower_bound(y.first); it != all.upper_bound(y.first); ++it) if (!(w && weights) || weq(it->second, y.second, 1e-4f)) ok = true; if (!ok) return c.fail(at + "prints `" + q(y.first) + "' " + std::to_string(y.second)); if (++times[y.first] > 1 && uniq && !fast) return c.fail(at + "prints `" + q(y.first) + "' twice"); if (w && weights && !fast) { if (y.second < last - 1e-4) return c.fail(at + "not in order of weight"); last = y.second; } }
        if (n && !fast) { if ((int)got.size() > n) return c.fail(at + std::to_string(got.size()) + " results"); if (got.size() < std::min<size_t>(n, times.empty() ? bw.size() : 1)) return c.fail(at + "too few results"); if (w) { float mx = -1e9; for (auto &y : times) mx = std::max(mx, bw[y.first]); size_t better = 0; for (auto &y : bw) if (!times.count(y.first) && y.second < mx - 1e-4) ++better; if (better) return c.fail(at + "a better result is left out"); } continue; }
        for (auto &y : bw) { if (!times.count(y.first)) return c.fail(at + "does not print `" + q(y.first) + "'"); if (w && weights) { bool ok = false; for (auto &z : got) if (z.first == y.first && weq(z.second, y.second, 1e-4f)) ok = true; if (!ok) return c.fail(at + "best weight of `" + q(y.first) + "' is not printed"); } } }
    if (p != lines.size()) return c.fail("more is printed: `" + q(lines[p]) + "'"); c.sample(c.key); }
static auto &GS = *new std::vector<T>; static auto &GF = *new std::vector<T>; static auto &GC = *new std::vector<T>; static auto &GN = *new std::vector<T>;
static const char *NAMEA[] = {"a", "b", "yz"};
static void build(bool th) {
    typedef std::vector<std::pair<std::string, std::string>> Lab; auto graphs = [](const Lab &lab, int maxarcs, bool loops0, std::vector<T> &out) { std::vector<std::pair<std::pair<int, int>, int>> al; for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) for (size_t l = 0; l < lab.size(); ++l) { if (s == t && !loops0 && lab[l].first == EPS) continue; al.push_back({{s, t}, (int)l}); }
        std::function<void(size_t, std::vector<int>)> rec = [&](size_t from, std::vector<int> cur) { for (int f = 1; f < 4; ++f) { T t; t.n = 2; mc::u64 h = 7; for (int x : cur) { h = mc::mix(h * 31 + x); t.arcs.push_back({al[x].first.first, al[x].first.second, lab[al[x].second].first, lab[al[x].second].second, (float)(h % 5) / 2}); } bool used = false; for (auto &a : t.arcs) used |= a.s == 0; if (!used && !(cur.empty() && f == 1)) continue; if (f & 1) t.fin[0] = (h >> 8) % 3 / 2.f; if (f & 2) t.fin[1] = (h >> 12) % 3; bool reach = false; for (auto &a : t.arcs) reach |= a.s == 0 && a.t == 1; if (!reach && (f & 2)) continue; if (!reach) { bool bad = false; for (auto &a : t.arcs) bad |= a.s == 1; if (bad) continue; } out.push_back(t); } if ((int)cur.size() < maxarcs) for (size_t k = from; k < al.size(); ++k) { auto n = cur; n.push_back(k); rec(k + 1, n); } }; rec(0, {}); };
    Lab l1 = {{"a", "a"}, {"a", "b"}, {"b", EPS}, {EPS, "b"}, {"a", "yz"}, {"yz", "a"}, {IDN, IDN}, {"a", "+c"}, {"b", " "}, {":", "b"}}; graphs(l1, 2, true, GS); if (th) { Lab l2 = {{"a", "a"}, {"a", "b"}, {EPS, "b"}, {"a", EPS}, {"yz", "a"}}; graphs(l2, 3, true, GS); }
    Lab lf = {{"a", "a"}, {"b", "a"}, {EPS, "b"}, {"@P.F.x@", "@P.F.x@"}, {"@R.F.x@", "@R.F.x@"}, {"@D.F@", "@D.F@"}, {"@U.F.y@", "@U.F.y@"}}; graphs(lf, th ? 3 : 3, false, GF); if (!th) { std::vector<T> k; for (size_t i = 0; i < GF.size(); ++i) { int fl = 0; for (auto &a : GF[i].arcs) fl += is_flag(a.i); if (fl && (GF[i].arcs.size() < 3 || mc::mix(i) % 4 == 0)) k.push_back(GF[i]); } GF = k; } { std::vector<T> k; for (auto &t : GF) { bool cyc = false; for (auto &a : t.arcs) if (is_flag(a.i) || a.i == EPS) { if (a.s == a.t) cyc = true; for (auto &b : t.arcs) if ((is_flag(b.i) || b.i == EPS) && b.s == a.t && b.t == a.s) cyc = true; } if (!cyc) k.push_back(t); } GF = k; }
    { std::vector<std::string> ops; for (const char *o : {"P", "N", "R", "D", "U"}) for (const char *v : {".x", ".y"}) ops.push_back(std::string("@") + o + ".F" + v + "@"); for (const char *o : {"C", "R", "D"}) ops.push_back(std::string("@") + o + ".F@"); // sequences of flags, the last of which tells the branches apart
        std::vector<Toks> seq{{}}, pre; for (int l = 0; l <= (th ? 3 : 2); ++l) { pre.insert(pre.end(), seq.begin(), seq.end()); std::vector<Toks> nx; for (auto &x : seq) for (auto &y : ops) { auto z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
        for (auto &x : pre) { T t; int q = 0; t.n = x.size() + 2 + ops.size(); for (auto &y : x) { t.arcs.push_back({q, q + 1, y, y, 0}); ++q; } int end = q + 1; for (size_t k = 0; k < ops.size(); ++k) { int m = end + 1 + k; t.arcs.push_back({q, m, ops[k], ops[k], (float)(k % 3) / 2}); t.arcs.push_back({m, end, "a", std::string(1, 'c' + k), 0}); } t.fin[end] = 0; GN.push_back(t); } }
    Lab lc = {{"a", "a"}, {"a", "b"}, {"b", EPS}, {EPS, "b"}, {"b", "yz"}, {"yz", "a"}, {IDN, IDN}}; std::vector<T> g; graphs(lc, 2, false, g); for (size_t i = 0; i < g.size(); ++i) if (mc::mix(i * 3 + 1) % (th ? 12 : 28) == 0 || g[i].arcs.size() < 2) if (g[i].arcs.size() != 1 || mc::mix(i) % 2) GC.push_back(g[i]);
    std::vector<std::string> al = {"a", "b", "yz", "x"}; std::vector<Toks> seq{{}}, all; for (int l = 0; l <= (th ? 3 : 2); ++l) { all.insert(all.end(), seq.begin(), seq.end()); std::vector<Toks> nx; for (auto &s : seq) for (auto &x : al) { auto t = s; t.push_back(x); nx.push_back(t); } seq = nx; } all.push_back({":"}); all.push_back({"a", ":"}); all.push_back({":", "a"}); all.push_back({"a", "a", "a"}); all.push_back({"a", "b", "a"}); all.push_back(Toks(70, "x"));
    for (auto &x : all) { In i; i.t = x; i.line = join(x); i.spaced = join(x, " "); IN.push_back(i); bool f = true; for (auto &y : x) if (y != "a" && y != "b") f = false; if (f) INA.push_back(i); }
    auto add = [&](std::vector<std::string> a, std::function<void(Opt &)> f) { Opt o; o.a = a; f(o); OP.push_back(o); };
    add({}, [](Opt &) {}); add({"-O", "cg"}, [](Opt &o) { o.fmt = CG; }); add({"-O", "apertium", "-F", "text"}, [](Opt &o) { o.fmt = APERTIUM; }); add({"-X", "print-pairs"}, [](Opt &o) { o.fmt = PAIRS; }); add({"-X", "print-pairs", "-X", "print-space"}, [](Opt &o) { o.fmt = PAIRS; o.space_out = true; });
    add({"-X", "print-space"}, [](Opt &o) { o.space_out = true; }); add({"-F", "spaced"}, [](Opt &o) { o.spaced_in = true; }); add({"-x"}, [](Opt &o) { o.stats = true; }); add({"-b", "0"}, [](Opt &o) { o.beam = 0; }); add({"-b", "0.5", "-O", "cg"}, [](Opt &o) { o.beam = 0.5f; o.fmt = CG; }); add({"-n", "1"}, [](Opt &o) { o.n = 1; o.only = 2; }); add({"-n", "2", "-b", "1"}, [](Opt &o) { o.n = 2; o.beam = 1; o.only = 2; });
    add({"-e", "E"}, [](Opt &o) { o.eps = "E"; o.only = 1; }); add({"-e", "E", "-X", "print-pairs", "-b", "1"}, [](Opt &o) { o.eps = "E"; o.fmt = PAIRS; o.only = 1; o.beam = 1; }); add({"-t", "5"}, [](Opt &) {}); add({"-X", "show-flags"}, [](Opt &o) { o.flags = true; }); add({"-X", "obey-flags"}, [](Opt &o) { o.obey = false; o.only = 1; }); add({"-X", "show-flags", "-X", "obey-flags", "-X", "print-pairs"}, [](Opt &o) { o.obey = false; o.flags = true; o.only = 1; o.fmt = PAIRS; });
}
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C25";
    h.spaces = [](bool th) { build(th); std::vector<mc::Space> v; fprintf(stderr, "graphs %zu flags %zu cascade %zu inputs %zu\n", GS.size(), GF.size(), GC.size(), IN.size());
        v.push_back({"lookup", (mc::u64)GS.size() * 5 * 15, [](mc::u64 i, mc::Ctx &c) { mc::u64 k = i / 75; lookup_case(c, {GS[k]}, OP[i / 5 % 15], i % 5, 0, false, IN); }, 40, 20});
        v.push_back({"flags", (mc::u64)GF.size() * 5 * 18, [](mc::u64 i, mc::Ctx &c) { lookup_case(c, {GF[i / 90]}, OP[i / 5 % 18], i % 5, 0, false, INA); }, 40, 20});
        v.push_back({"flag-sequences", (mc::u64)GN.size() * 5 * 4, [](mc::u64 i, mc::Ctx &c) { static const int os[] = {0, 4, 13, 15}; lookup_case(c, {GN[i / 20]}, OP[os[i / 5 % 4]], i % 5, 0, false, INA); }, 40, 20});
        v.push_back({"cascade", (mc::u64)GC.size() * GC.size() * 5 * 3, [](mc::u64 i, mc::Ctx &c) { int ty = i % 5, m = i / 5 % 3; i /= 15; static const int os[] = {0, 1, 5, 8}; lookup_case(c, {GC[i % GC.size()], GC[i / GC.size()]}, OP[os[mc::mix(i) % 4]], ty, m, false, IN); }, 40, 20});
        v.push_back({"inverse", (mc::u64)GS.size() * 5 * 2, [](mc::u64 i, mc::Ctx &c) { if (olty(i % 5)) return c.skip(); static const int os[] = {2, 5, 6, 7, 8}; lookup_case(c, {GS[i / 10]}, OP[i / 5 % 2 ? os[mc::mix(i / 10) % 5] : 0], i % 5, 0, true, IN); }, 40, 20});
        v.push_back({"optimized-lookup", (mc::u64)(GS.size() + GF.size() + GN.size()) * 16, [](mc::u64 i, mc::Ctx &c) { int k = i % 16; i /= 16; bool fl = i >= GS.size(), sq = i >= GS.size() + GF.size(); if (k == 2) return c.skip(); struct O { bool f, u, w; int n; float b; bool e; }; static const O os[8] = {{0, 0, 1, 0, -1, 0}, {1, 0, 1, 0, -1, 0}, {0, 1, 1, 0, -1, 0}, {0, 0, 1, 1, -1, 0}, {0, 1, 0, 2, -1, 0}, {0, 0, 1, 0, 0.5f, 0}, {0, 0, 0, 0, -1, 0}, {0, 1, 1, 2, 1, 0}}; auto &o = os[k / 2]; oplookup_case(c, sq ? GN[i - GS.size() - GF.size()] : fl ? GF[i - GS.size()] : GS[i], k % 2, o.f, o.u, o.w, o.n, o.b, o.e, fl ? INA : IN); }, 40, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
