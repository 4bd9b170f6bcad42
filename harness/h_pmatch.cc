// C17: pattern matching (pmatch): rule sets compiled by the real compiler and run by the real matcher over all short
// texts, against a direct evaluation of the rules (leftmost, longest, lightest).
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstExceptionDefs.h"
#include "parsers/PmatchCompiler.h"
#include "implementations/ConvertTransducerFormat.h"
#include "implementations/optimized-lookup/pmatch.h"
#include <memory>
#include <sys/stat.h>
#include <tuple>
using std::string; using namespace hfst;
namespace {
// ---- rules: text and meaning
struct Node; typedef std::shared_ptr<Node> P;
struct Node { char k; string s, o; std::vector<P> c; float w = 0; ref::Con g; };
static ref::Univ UV;
struct X { string t; P n; };
static P mk(char k, std::vector<P> c = {}, string s = "", string o = "") { P p(new Node); p->k = k; p->c = c; p->s = s; p->o = o; return p; }
static X lit(const string &s) { if (s.empty()) return {"[]", mk('e')}; std::vector<P> v; for (size_t i = 0; i < s.size();) { size_t n = (unsigned char)s[i] >= 0xc0 ? 2 : 1; v.push_back(mk('s', {}, s.substr(i, n))); i += n; } return {"{" + s + "}", v.size() == 1 ? v[0] : mk('.', v)}; }
static X cat(std::vector<X> v) { string t = "["; std::vector<P> c; for (auto &x : v) { t += " " + x.t; c.push_back(x.n); } return {t + " ]", mk('.', c)}; }
static X alt(X a, X b) { return {"[ " + a.t + " | " + b.t + " ]", mk('|', {a.n, b.n})}; }
static X star(X a) { return {"[ " + a.t + " ]*", mk('*', {a.n})}; }
static X plus(X a) { return {"[ " + a.t + " ]+", mk('+', {a.n})}; }
static X opt(X a) { return {"( " + a.t + " )", mk('|', {a.n, mk('e')})}; }
static X any() { return {"?", mk('?')}; }
static X pairx(const string &a, const string &b) { return {(a.empty() ? "0" : "\"" + a + "\"") + ":" + (b.empty() ? "0" : "\"" + b + "\""), mk('p', {}, a, b)}; }
static X tag(const string &t) { return {"EndTag(" + t + ")", mk('T', {}, t)}; }
static X ctx(const string &k, X a) { return {k + "(" + a.t + ")", mk('C', {a.n}, k)}; }
static X bnd() { return {"#", mk('#')}; }
static X cls(const string &c) { return {c, mk('A', {}, c)}; }
static X wt(X a, float w) { P p = mk('w', {a.n}); p->w = w; std::ostringstream o; o << w; return {"[ " + a.t + " ]::" + o.str(), p}; }
static X scope(X a) { return {"Define( " + a.t + " )", mk('D', {a.n})}; }
static X lst(const string &s, bool exc) { string t = exc ? "Exc([" : "Lst(["; for (size_t i = 0; i < s.size(); ++i) t += string(i ? " | " : " ") + "{" + s.substr(i, 1) + "}"; return {t + " ])", mk(exc ? 'x' : 'l', {}, s)}; }
static X refd(const string &n) { return {n, mk('R', {}, n)}; }      // a definition by name
static X ins(const string &n) { return {"Ins(" + n + ")", mk('R', {}, n)}; }
static bool has(const P &n, const string &kinds) { if (kinds.find(n->k) != string::npos) return true; for (auto &c : n->c) if (has(c, kinds)) return true; return false; }
// is there a tag or a context outside any inner scope: the definition is a scope then
static bool needs(const P &n) { if (n->k == 'T' || n->k == 'C' || n->k == 'K') return true; for (auto &c : n->c) if (needs(c)) return true; return false; }
struct Rules { std::vector<std::pair<string, X>> defs; bool sep = false; string opts; std::map<string, P> by() const { std::map<string, P> m; for (auto &d : defs) m[d.first] = needs(d.second.n) ? mk('D', {d.second.n}) : d.second.n; return m; }
    string text() const { string t = sep ? "" : "set need-separators off\n"; t += opts; for (auto &d : defs) t += "Define " + d.first + " " + d.second.t + " ;\n"; return t; } };
// ---- meaning
struct Res { int pos; string out; float w; bool operator<(const Res &b) const { return std::tie(pos, out, w) < std::tie(b.pos, b.out, b.w); } };
typedef std::set<Res> RS;
struct Ev { std::vector<string> in; std::map<string, P> defs; int depth = 0; bool over = false;
    bool inclass(const string &c, const string &s) { unsigned char u = s[0]; bool low = (u >= 'a' && u <= 'z') || s == "\xc3\xa4", up = u >= 'A' && u <= 'Z'; if (c == "Alpha") return low || up; if (c == "LowercaseAlpha") return low; if (c == "UppercaseAlpha") return up; if (c == "Num") return u >= '0' && u <= '9'; if (c == "Whitespace") return s == " "; if (c == "Punct") return s == "." || s == ","; return false; }
    // all ways n can go from pos; rev: the part of the text read is checked only (contexts)
    RS ev(const P &n, int pos, int entry) {
        RS r; if (over) return r; if (++depth > 60) { over = true; --depth; return r; } int N = in.size(); bool more = pos < N; string s = more ? in[pos] : "";
        switch (n->k) {
        case 'e': r.insert({pos, "", 0}); break;
        case 's': if (more && s == n->s) r.insert({pos + 1, s, 0}); break;
        case '#': if (more && s == "#") r.insert({pos + 1, "", 0}); break;
        case '?': if (more && s != "#") r.insert({pos + 1, s, 0}); break;
        case 'A': if (more && s != "#" && inclass(n->s, s)) r.insert({pos + 1, s, 0}); break;
        case 'l': if (more && s != "#" && n->s.find(s) != string::npos) r.insert({pos + 1, s, 0}); break;
        case 'x': if (more && s != "#" && n->s.find(s) == string::npos) r.insert({pos + 1, s, 0}); break;
        case 'p': if (n->s.empty()) r.insert({pos, n->o, 0}); else if (more && s == n->s) r.insert({pos + 1, n->o, 0}); break;
        case 'w': for (auto x : ev(n->c[0], pos, entry)) { x.w += n->w; r.insert(x); } break;
        case '|': for (auto &c : n->c) for (auto &x : ev(c, pos, entry)) r.insert(x); break;
        case '.': { r.insert({pos, "", 0}); for (auto &c : n->c) { RS q; for (auto &x : r) for (auto &y : ev(c, x.pos, entry)) q.insert({y.pos, x.out + y.out, x.w + y.w}); r = q; } break; }
        case '*': case '+': { RS fr; if (n->k == '*') { r.insert({pos, "", 0}); fr = r; } else fr = r = ev(n->c[0], pos, entry); while (!fr.empty()) { RS nx; for (auto &x : fr) for (auto &y : ev(n->c[0], x.pos, entry)) { Res z{y.pos, x.out + y.out, x.w + y.w}; if (z.pos == x.pos && (!y.out.empty() || y.w)) { over = true; break; } if (!r.count(z)) { nx.insert(z); r.insert(z); } } if (over) break; fr = nx; } break; }
        case 'G': { std::set<std::tuple<int, int, string>> seen; std::vector<std::tuple<int, int, string>> q = {{0, pos, ""}}; seen.insert(q[0]); while (!q.empty()) { auto [st, p, o] = q.back(); q.pop_back(); if (o.size() > 12) { over = true; break; } if (n->g.fin[st].first) r.insert({p, o, 0}); for (auto &a : n->g.st[st]) { if (a.i && (p >= N || in[p] != UV.name[a.i - 1])) continue; std::tuple<int, int, string> x{a.t, p + (a.i != 0), a.o ? o + UV.name[a.o - 1] : o}; if (seen.insert(x).second) q.push_back(x); } } break; }
        case 'T': r.insert({pos, "\3" + n->s + ";", 0}); break;
        case 'D': for (auto &x : ev(n->c[0], pos, pos)) if (x.pos == pos && x.out.find('\3') != string::npos) { over = true; break; } else r.insert({x.pos, "\1" + x.out + "\2", x.w}); break;
        case 'R': r = ev(defs.at(n->s), pos, entry); break;
        case 'C': { bool neg = n->s[0] == 'N', left = n->s.find("LC") != string::npos, ok = false; if (!left) ok = !ev(n->c[0], pos, pos).empty(); else for (int b = 0; b <= entry && !ok; ++b) for (auto &x : ev(n->c[0], b, b)) if (x.pos == entry) { ok = true; break; } if (ok != neg) r.insert({pos, "", 0}); break; }
        }
        --depth; return r;
    }
};
static char OPT = 0; // e extract, d delete, m no marks
static string render(const string &o) { string r; std::vector<size_t> st; for (size_t i = 0; i < o.size(); ++i) { if (o[i] == 1) st.push_back(r.size()); else if (o[i] == 2) st.pop_back(); else if (o[i] == 3) { size_t e = o.find(';', i); string t = o.substr(i + 1, e - i - 1); if (OPT == 'd') r.replace(st.back(), string::npos, "<" + t + ">"); else if (OPT != 'm') { r.insert(st.back(), "<" + t + ">"); r += "</" + t + ">"; } i = e; } else if (OPT != 'e' || !st.empty()) r += o[i]; } return r; }
static string plain(const string &o, string *tg = nullptr) { string r; for (size_t i = 0; i < o.size(); ++i) { if (o[i] == 3) { size_t e = o.find(';', i); if (tg) *tg = o.substr(i + 1, e - i - 1); i = e; } else if (o[i] > 2 || o[i] < 0) r += o[i]; } return r; }
struct Want { std::set<string> text; std::vector<std::set<string>> loc; bool over = false; };
static string locstr(int start, int len, const string &in, const string &out, const string &tg, float w) { std::ostringstream o; o << start << "+" << len << " " << in << ">" << out << " " << tg << " " << w; return o.str(); }
static float CUT = 1e9;
static Want want(const Rules &R, const std::vector<string> &txt, bool boundary) {
    Ev e; e.defs = R.by(); if (boundary) e.in.push_back("#"); for (auto &s : txt) e.in.push_back(s); if (boundary) e.in.push_back("#");
    P top = e.defs.at("TOP"); if (R.sep) { X sp = {"", mk('|', {mk('A', {}, "Whitespace"), mk('A', {}, "Punct"), mk('#')})}; P l = mk('C', {sp.n}, "LC"), r = mk('C', {sp.n}, "RC"); top = mk('D', {mk('.', {l, top, r})}); }
    Want w; w.text = {""}; int pos = 0, pr = 0, N = e.in.size(); string non; auto flush = [&]() { if (!non.empty()) { int n = 0; for (unsigned char c : non) n += (c & 0xc0) != 0x80; w.loc.push_back({locstr(pr - n, n, non, "@_NONMATCHING_@", "", 0)}); non.clear(); } };
    while (pos < N) { RS r = e.ev(top, pos, pos); for (auto it = r.begin(); it != r.end();) if (it->w > CUT) it = r.erase(it); else ++it; if (e.over) { w.over = true; return w; } int best = pos; for (auto &x : r) best = std::max(best, x.pos);
        if (best == pos) { if (!r.empty()) { w.over = true; return w; } string s = e.in[pos] == "#" ? "" : e.in[pos]; std::set<string> t; for (auto &p : w.text) t.insert(p + (OPT == 'e' ? "" : s)); w.text = t; if (!s.empty()) { non += s; ++pr; } ++pos; continue; }
        float bw = 1e9; for (auto &x : r) if (x.pos == best) bw = std::min(bw, x.w); std::set<string> t; string src; int n = 0; for (int k = pos; k < best; ++k) if (e.in[k] != "#") { src += e.in[k]; ++n; } std::set<string> L;
        for (auto &x : r) if (x.pos == best) { if (x.w == bw) for (auto &p : w.text) t.insert(p + render(x.out)); string tg, o = plain(x.out, &tg); L.insert(locstr(pr, n, src, o, tg, x.w)); } w.text = t; flush(); w.loc.push_back(L); pr += n; pos = best; }
    flush(); return w;
}
// ---- the real thing, as hfst-pmatch2fst and hfst-pmatch do it
static string base;
static bool compile(const Rules &R, const string &file, bool flatten, std::vector<HfstTransducer> *vec = nullptr) {
    pmatch::PmatchCompiler comp(TROPICAL_OPENFST_TYPE); comp.set_flatten(flatten); std::map<string, HfstTransducer *> d = comp.compile(R.text()); if (!d.count("TOP")) return false;
    HfstTransducer harm(TROPICAL_OPENFST_TYPE); for (auto &x : d) for (auto &s : x.second->get_alphabet()) harm.insert_to_alphabet(s); harm.convert(HFST_OLW_TYPE);
    if (vec) { vec->push_back(*d["TOP"]); vec->back().set_name("TOP"); for (auto &x : d) if (x.first != "TOP") { vec->push_back(*x.second); vec->back().set_name(x.first); } for (auto &x : d) delete x.second; return true; }
    HfstOutputStream out(file, HFST_OLW_TYPE);
    auto put = [&](const string &name, HfstTransducer *t) { HfstBasicTransducer *b = implementations::ConversionFunctions::hfst_transducer_to_hfst_basic_transducer(*t); hfst_ol::Transducer *h = implementations::ConversionFunctions::hfst_basic_transducer_to_hfst_ol(b, true, name == "TOP" ? "" : "empty_alphabet", &harm); HfstTransducer *o = implementations::ConversionFunctions::hfst_ol_to_hfst_transducer(h); o->set_name(name); if (name == "TOP") for (auto &p : t->get_properties()) o->set_property(p.first, p.second); out << *o; delete b; delete o; };
    put("TOP", d["TOP"]); for (auto &x : d) if (x.first != "TOP") put(x.first, x.second); out.close(); for (auto &x : d) delete x.second; return true;
}
static string join(const std::set<string> &s) { string r; for (auto &x : s) r += " {" + x + "}"; return r; }
static void run(mc::Ctx &c, const Rules &R, const std::vector<string> &al, int maxlen, int mode, float cut = 1e9) {
    CUT = cut; OPT = R.opts.find("extract") != string::npos ? 'e' : R.opts.find("delete") != string::npos ? 'd' : R.opts.find("mark") != string::npos ? 'm' : 0;
    string k = R.text(); for (auto &ch : k) if (ch == '\n') ch = ' '; c.k(k + (mode == 1 ? " flatten" : mode == 2 ? " vector" : "") + (cut < 1e8 ? " cutoff " + std::to_string(cut) : "")); c.state(mc::hs(k));
    string w = base + "/" + std::to_string(getpid()); bool boundary = R.sep; for (auto &d : R.defs) if (has(d.second.n, "#")) boundary = true;
    bool ls = false, an = false; for (auto &d : R.defs) { ls |= has(d.second.n, "lx"); an |= has(d.second.n, "?"); } if (ls && (an || R.sep)) { c.skip(); return; } // the members of a list are not seen by "?"
    std::unique_ptr<hfst_ol::PmatchContainer> pc; std::vector<HfstTransducer> vec; if (!compile(R, w, mode == 1, mode == 2 ? &vec : nullptr)) return c.fail("does not compile");
    if (mode == 2) pc.reset(new hfst_ol::PmatchContainer(vec)); else { std::ifstream is(w, std::ios::binary); pc.reset(new hfst_ol::PmatchContainer(is)); unlink(w.c_str()); }
    std::vector<std::vector<string>> texts = {{}}; for (size_t i = 0; i < texts.size(); ++i) if ((int)texts[i].size() < maxlen) for (auto &s : al) { auto t = texts[i]; t.push_back(s); texts.push_back(t); }
    bool nt = false; mc::u64 oh = 0;
    for (auto &t : texts) { c.trans(); Want e = want(R, t, boundary); if (e.over) { continue; } string s; for (auto &x : t) s += x;
        string got = pc->match(s, 0.0, cut > 1e8 ? hfst_ol::INFINITE_WEIGHT : cut); if (!e.text.count(got)) return c.fail("match(\"" + s + "\") = " + got + ", expected one of" + join(e.text)); if (!e.loc.empty() && e.loc[0].begin()->find("@_NON") == string::npos) nt = true; oh = mc::hs(got, oh);
        auto L = pc->locate(s, 0.0, cut > 1e8 ? hfst_ol::INFINITE_WEIGHT : cut); std::vector<std::set<string>> g; for (auto &v : L) { std::set<string> q; for (auto &x : v) { string tg = x.tag; if (tg.size() > 2) tg = tg.substr(1, tg.size() - 2); q.insert(locstr(x.start, x.length, x.input, x.output, tg, x.weight)); } g.push_back(q); for (size_t i = 1; i < v.size(); ++i) if (v[i].weight < v[i - 1].weight) return c.fail("locate(\"" + s + "\"): analyses not in order of weight"); }
        if (g != e.loc) { string a, b; for (auto &q : g) a += " [" + join(q) + " ]"; for (auto &q : e.loc) b += " [" + join(q) + " ]"; return c.fail("locate(\"" + s + "\") =" + a + "\n expected" + b); }
        // asking again gives the same answer
        if (pc->match(s, 0.0, cut > 1e8 ? hfst_ol::INFINITE_WEIGHT : cut) != got) return c.fail("match(\"" + s + "\") differs when asked again"); }
    if (nt) c.nontrivial(); c.outcome(oh); c.sample(c.key);
}
static std::vector<X> F, CX; static std::vector<Rules> RU, SEP, BIG, FUN, OPTS, CASE, CASEW, WTS, EXPR;
static void setup() { UV = ref::Univ({"a", "b", "c", "d"});
    F = {lit("a"), lit("b"), lit("ab"), plus(lit("a")), star(lit("ab")), opt(lit("b")), alt(lit("a"), lit("bb")), any(), cat({lit("a"), any()}), pairx("a", "b"), cat({lit("b"), pairx("", "c")}), pairx("b", ""), cls("Alpha"), wt(lit("a"), 1), alt(wt(pairx("a", "c"), 1), wt(lit("a"), 2)), alt(wt(lit("ba"), 0.5), wt(pairx("b", "a"), 0)), lst("ab", false), lst("a", true), plus(alt(lit("a"), lit("c"))), lit("\xc3\xa4")};
    CX = {lit("a"), lit("b"), lit("ab"), alt(lit("b"), lit("ca")), cat({any(), lit("a")}), cat({lit("b"), star(lit("a"))}), bnd(), alt(bnd(), lit("b")), cls("Alpha"), lst("ac", false)};
    std::vector<std::function<X(X, X)>> tails = {[](X e, X) { return cat({e, tag("T")}); }, [](X e, X) { return e; }};
    for (auto &f : F) for (auto &g : F) { X fg = cat({f, g}); RU.push_back({{{"TOP", cat({fg, tag("T")})}}}); RU.push_back({{{"TOP", alt(f, cat({g, tag("T")}))}}}); RU.push_back({{{"Dx", cat({f, tag("S")})}, {"TOP", cat({refd("Dx"), g, tag("T")})}}}); RU.push_back({{{"Dx", cat({f, tag("S")})}, {"TOP", cat({opt(lit("c")), ins("Dx"), g})}}}); RU.push_back({{{"TOP", cat({g, scope(cat({f, tag("S")}))})}}}); }
    for (auto &f : F) for (auto &x : CX) for (string k : {"LC", "RC", "NLC", "NRC"}) { RU.push_back({{{"TOP", cat({f, ctx(k, x), tag("T")})}}}); RU.push_back({{{"TOP", cat({f, tag("T"), ctx(k, x)})}}}); RU.push_back({{{"TOP", alt(cat({f, ctx(k, x), tag("T")}), cat({lit("a"), tag("U")}))}}}); }
    for (auto &f : F) { SEP.push_back({{{"TOP", cat({f, tag("T")})}}, true}); SEP.push_back({{{"TOP", f}}, true}); SEP.push_back({{{"Dx", cat({f, tag("S")})}, {"TOP", alt(refd("Dx"), cat({lit("a"), any(), tag("T")}))}}, true}); }
    // two contexts, alternatives with different contexts and tags
    for (size_t i = 0; i < CX.size(); ++i) for (size_t j = 0; j < CX.size(); ++j) for (string k : {"LC", "NLC", "RC", "NRC"}) for (string l : {"RC", "NRC", "LC", "NLC"}) { BIG.push_back({{{"TOP", cat({plus(lit("a")), ctx(k, CX[i]), ctx(l, CX[j]), tag("T")})}}}); BIG.push_back({{{"TOP", cat({alt(lit("a"), lit("c")), alt(cat({ctx(k, CX[i]), tag("T")}), cat({ctx(l, CX[j]), tag("U")}))})}}}); }
    // functions and grouped contexts
    struct Fn { string head; std::function<X(std::vector<X>)> body; size_t n; }; std::vector<Fn> fns = {{"Fa(x)", [](std::vector<X> a) { return cat({a[0], star(lit("a"))}); }, 1}, {"Fb(x, y)", [](std::vector<X> a) { return cat({a[1], opt(a[0]), lit("b")}); }, 2}, {"Fc(x)", [](std::vector<X> a) { return cat({a[0], tag("F")}); }, 1}, {"Fd(x, y)", [](std::vector<X> a) { return cat({lit("a"), ctx("RC", a[0]), ctx("LC", a[1]), tag("G")}); }, 2}, {"Fe(x)", [](std::vector<X> a) { return alt(cat({a[0], a[0]}), lit("c")); }, 1}};
    std::vector<X> args = {lit("a"), lit("bc"), alt(lit("a"), lit("b")), pairx("b", "c"), plus(lit("b"))};
    auto call = [](const Fn &f, std::vector<X> a) { X b = f.body(a); string t = f.head.substr(0, f.head.find('(') + 1); for (size_t i = 0; i < a.size(); ++i) t += string(i ? ", " : "") + a[i].t; return X{t + ")", needs(b.n) ? mk('D', {b.n}) : b.n}; };
    auto decl = [](const Fn &f) { std::vector<X> a = {{"x", mk('e')}, {"y", mk('e')}}; a.resize(f.n); return std::make_pair(f.head, X{f.body(a).t, mk('e')}); };
    for (auto &f : fns) for (auto &x : args) for (auto &y : args) { if (f.n == 1 && &y != &args[0]) continue; std::vector<X> a = {x, y}; a.resize(f.n); X q = call(f, a); bool tr = has(x.n, "p") || has(y.n, "p"); if (f.head[1] == 'd' && tr) continue; FUN.push_back({{decl(f), {"TOP", cat({q, tag("T")})}}}); FUN.push_back({{decl(f), {"Dx", q}, {"TOP", alt(refd("Dx"), cat({lit("b"), tag("T")}))}}});
        for (auto &g : fns) { if (g.n != 1 || f.head == g.head) continue; FUN.push_back({{decl(f), decl(g), {"TOP", call(g, {q})}}}); } }
    for (auto &x : CX) for (auto &y : CX) for (string k : {"LC", "RC", "NLC", "NRC"}) for (string l : {"LC", "RC", "NLC", "NRC"}) for (string g : {"OR", "AND"}) { X a = ctx(k, x), b = ctx(l, y); FUN.push_back({{{"TOP", cat({lit("a"), X{g + "(" + a.t + ", " + b.t + ")", mk(g == "OR" ? '|' : '.', {a.n, b.n})}, tag("T")})}}}); }
    FUN.push_back({{{"Dx", lit("a")}, {"Dx", lit("b")}, {"TOP", cat({refd("Dx"), tag("T")})}}});
    // letter case: both sides, or one side of the result
    std::vector<std::vector<string>> words = {{"ab"}, {"aB"}, {"B"}, {"ab", "b"}, {"ba", "Ab"}, {"a a"}, {"a a a"}, {"aa aa", "a"}}; auto up = [](char ch) { return (char)toupper(ch); }; auto lo = [](char ch) { return (char)tolower(ch); };
    std::vector<std::pair<string, std::function<std::set<string>(const string &)>>> fc = {{"Cap", [=](const string &s) { string r = s; for (size_t i = 0; i < s.size(); ++i) if (!i || s[i - 1] == ' ') r[i] = up(r[i]); return std::set<string>{r}; }}, {"OptCap", [=](const string &s) { std::set<string> z{s}; for (size_t i = 0; i < s.size(); ++i) if (!i || s[i - 1] == ' ') { auto y = z; for (string r : y) { r[i] = up(r[i]); z.insert(r); } } return z; }}, {"UpCase", [=](const string &s) { string r = s; for (auto &x : r) x = up(x); return std::set<string>{r}; }}, {"DownCase", [=](const string &s) { string r = s; for (auto &x : r) x = lo(x); return std::set<string>{r}; }}, {"OptUpCase", [=](const string &s) { string r = s; for (auto &x : r) x = up(x); return std::set<string>{r, s}; }}, {"OptDownCase", [=](const string &s) { string r = s; for (auto &x : r) x = lo(x); return std::set<string>{r, s}; }}, {"AnyCase", [=](const string &s) { std::set<string> r; for (int m = 0; m < 1 << s.size(); ++m) { string q = s; for (size_t i = 0; i < s.size(); ++i) q[i] = m >> i & 1 ? up(q[i]) : lo(q[i]); r.insert(q); } return r; }}};
    for (auto &g : fc) if (g.first != "OptUpCase" && g.first != "OptDownCase" && g.first != "AnyCase") for (auto &ws : words) for (string side : {"", ", U", ", L"}) { string t; std::vector<P> alts; for (auto &x : ws) { t += (t.empty() ? "" : " | ") + string("{") + x + "}"; for (auto &y : g.second(x)) { string in = side == ", L" ? x : y, out = side == ", U" ? x : y; std::vector<P> sq; for (size_t i = 0; i < in.size(); ++i) sq.push_back(mk('p', {}, string(1, in[i]), string(1, out[i]))); alts.push_back(mk('.', sq)); } } X e{g.first + "( " + t + side + " )", mk('|', alts)}; auto &CASE = ws[0].find(' ') == string::npos ? ::CASE : CASEW; CASE.push_back({{{"TOP", cat({e, tag("T")})}}}); CASE.push_back({{{"Dx", e}, {"TOP", cat({opt(lit("a")), refd("Dx"), tag("T")})}}}); }
    for (auto &f : F) FUN.push_back({{{"TOP", cat({lit("b"), X{"[ " + f.t + " ].t(T)", mk('D', {mk('.', {f.n, mk('T', {}, "T")})})}})}}});
    // the operators of expressions
    { using namespace ref; struct E { string t; Con c; bool acc; }; auto s1 = [](const string &a) { return x_pair(UV.id.at(a), UV.id.at(a)); }; auto D = [](E e) { P p = mk('G'); p->g = x_trim(e.c); return X{"[ " + e.t + " ]", p}; };
      std::vector<E> B = {{"{a}", s1("a"), true}, {"{ab}", x_concat(s1("a"), s1("b")), true}, {"[{a}|{b}]", x_union(s1("a"), s1("b")), true}, {"[{b} {a}*]", x_concat(s1("b"), x_star(s1("a"))), true}, {"[{c} | {ab}]", x_union(s1("c"), x_concat(s1("a"), s1("b"))), true}, {"[{a}:{b}]", x_pair(UV.id.at("a"), UV.id.at("b")), false}, {"[{b}:{ca}]", x_cross(s1("b"), x_concat(s1("c"), s1("a"))), false}, {"[? {b}]", x_concat(x_any(UV), s1("b")), true}, {"[{b}:0 {c}]", x_concat(x_pair(UV.id.at("b"), 0), s1("c")), false}};
      std::vector<E> all = B; auto any = x_star(x_any(UV));
      for (auto &e : B) { all.push_back({e.t + "^2", x_power(e.c, 2, 2), e.acc}); all.push_back({e.t + "^{1,2}", x_power(e.c, 1, 2), e.acc}); all.push_back({e.t + "^>1", x_power(e.c, 2, -1), e.acc}); all.push_back({e.t + "^<3", x_power(e.c, 0, 2), e.acc}); all.push_back({e.t + ".i", x_inv(e.c), e.acc}); all.push_back({e.t + ".r", x_rev(e.c), e.acc}); all.push_back({e.t + ".u", x_up(e.c), true}); all.push_back({e.t + ".l", x_down(e.c), true}); if (e.acc) { all.push_back({"~" + e.t, x_compl(e.c, UV), true}); all.push_back({"$" + e.t, x_contains(e.c, UV), true}); } }
      all.push_back({"\\{a}", x_minus(x_any(UV), s1("a"), UV), true}); all.push_back({"\\[{a}|{c}]", x_minus(x_any(UV), x_union(s1("a"), s1("c")), UV), true});
      for (auto &e : B) for (auto &g : B) { auto put = [&](const string &op, Con c, bool a) { all.push_back({e.t + " " + op + " " + g.t, c, a}); }; put("|", x_union(e.c, g.c), e.acc && g.acc); put(".o.", x_compose(e.c, g.c), false); bool un = e.t.find('?') != string::npos || g.t.find('?') != string::npos; if (!un && e.acc) put("/", x_ignore(e.c, g.c), false); if (e.acc && g.acc) { put("&", x_and(e.c, g.c), true); put("-", x_minus(e.c, g.c, UV), true); if (!un) put(".x.", x_cross(e.c, g.c), false); } put(".P.", x_prio(e.c, g.c, UV), false); put(".p.", x_inv(x_prio(x_inv(e.c), x_inv(g.c), UV)), false); }
      for (auto &e : all) { EXPR.push_back({{{"TOP", cat({D(e), tag("T")})}}}); EXPR.push_back({{{"Dx", D(e)}, {"TOP", cat({opt(lit("c")), refd("Dx"), tag("T")})}}}); if (e.acc && !x_strings(e.c, 4).empty()) for (string k : {"LC", "RC", "NLC", "NRC"}) EXPR.push_back({{{"TOP", cat({lit("a"), ctx(k, D(e)), tag("T")})}}}); } }
    // what is printed
    for (string o : {"extract-patterns on", "delete-patterns on", "mark-patterns off"}) for (auto &f : F) { Rules r{{{"TOP", cat({f, tag("T")})}}}; r.opts = "set " + o + "\n"; OPTS.push_back(r); r = Rules{{{"Dx", cat({f, tag("S")})}, {"TOP", cat({refd("Dx"), any(), ins("Dx"), tag("T")})}}}; r.opts = "set " + o + "\n"; OPTS.push_back(r); r = Rules{{{"TOP", cat({opt(lit("c")), scope(cat({f, tag("S")})), f})}}}; r.opts = "set " + o + "\n"; OPTS.push_back(r); }
    // weights
    for (float p : {0.f, 0.5f, 2.f}) for (float q : {0.f, 1.f, 1.5f}) for (int k = 0; k < 6; ++k) { X a = wt(lit("a"), p), b = wt(pairx("a", "b"), q), c = wt(lit("ab"), q), d = wt(pairx("b", ""), p); X e = k == 0 ? alt(a, b) : k == 1 ? plus(alt(a, b)) : k == 2 ? alt(a, c) : k == 3 ? cat({alt(a, b), d}) : k == 4 ? alt(cat({a, d}), wt(c, p)) : plus(alt(c, alt(a, d))); WTS.push_back({{{"TOP", cat({e, tag("T")})}}}); WTS.push_back({{{"Dx", cat({e, tag("S")})}, {"TOP", cat({ins("Dx"), opt(wt(lit("c"), 0.25))})}}}); }
    // a recursive rule: balanced a...b
    RU.push_back({{{"Bal", cat({lit("a"), opt(ins("Bal")), lit("b")})}, {"TOP", cat({ins("Bal"), tag("T")})}}}); RU.push_back({{{"Bal", cat({lit("a"), star(ins("Bal")), lit("b"), tag("S")})}, {"TOP", cat({ins("Bal"), star(lit("c")), tag("T")})}}});
}
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C17"; char tmpl[] = "/tmp/verif-pmatch-XXXXXX"; base = mkdtemp(tmpl); pid_t me = getpid();
    h.spaces = [](bool th) { setup(); std::vector<mc::Space> v; static const std::vector<string> A3 = {"a", "b", "c"}, AU = {"a", "b", "\xc3\xa4"}, AS = {"a", "b", " ", "."};
        v.push_back({"rules", RU.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, RU[i], A3, th ? 6 : 4, 0); }, 20});
        v.push_back({"rules-unknown", RU.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, RU[i], AU, th ? 4 : 3, 0); }, 20});
        v.push_back({"separators", SEP.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, SEP[i], AS, th ? 5 : 4, 0); }, 5});
        v.push_back({"contexts", BIG.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, BIG[i], A3, th ? 5 : 3, 0); }, 20});
        v.push_back({"functions", FUN.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, FUN[i], A3, th ? 5 : 3, 0); }, 20});
        v.push_back({"letter-case-words", CASEW.size(), [=](mc::u64 i, mc::Ctx &c) { static const std::vector<string> AC = {"a", "A", " "}; run(c, CASEW[i], AC, th ? 6 : 5, 0); }, 5});
        v.push_back({"letter-case", CASE.size(), [=](mc::u64 i, mc::Ctx &c) { static const std::vector<string> AC = {"a", "b", "A", "B"}; run(c, CASE[i], AC, th ? 6 : 4, 0); }, 5});
        v.push_back({"expressions", EXPR.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, EXPR[i], A3, th ? 5 : 4, 0); }, 10});
        v.push_back({"printing", OPTS.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, OPTS[i], A3, th ? 6 : 4, 0); }, 5});
        v.push_back({"weights", WTS.size() * 4, [=](mc::u64 i, mc::Ctx &c) { static const float cuts[] = {1e9, 0.6, 1.5, 3.25}; run(c, WTS[i / 4], A3, th ? 6 : 4, 0, cuts[i % 4]); }, 10});
        v.push_back({"flatten", RU.size(), [=](mc::u64 i, mc::Ctx &c) { if (i + 2 >= RU.size()) { c.k("recursive"); return c.skip(); } run(c, RU[i], A3, 3, 1); }, 20});
        v.push_back({"vector", RU.size(), [=](mc::u64 i, mc::Ctx &c) { run(c, RU[i], A3, 3, 2); }, 20});
        return v; };
    int r = mc::drive(argc, argv, h); if (getpid() == me) { string cmd = "rm -rf '" + base + "'"; if (system(cmd.c_str())) {} } return r;
}
