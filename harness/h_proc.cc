// C27 hfst-proc: every lexicon, text and option of a bounded set, against longest match over the lexicon
#include "tools.h"
using namespace ref; using namespace hfst;
namespace {
typedef std::vector<std::string> Toks; typedef std::vector<std::pair<std::string, std::string>> Path;
struct Tok { std::string t; bool blank = false, raw = false; std::string text() const { return raw ? t : blank ? "[" + t + "]" : esc(t); } static std::string esc(const std::string &s) { return s.size() == 1 && strchr("[]{}^$/\\@<>", s[0]) ? "\\" + s : s; } std::string sym() const { return blank ? " " : t; } };
typedef std::vector<Tok> Text;
static bool alpha(const Tok &t) { return !t.blank && (isalpha((unsigned char)t.t[0]) || t.t == "^" || t.t == "$" || t.t == "é" || t.t == "É"); }
static std::string low(const std::string &s) { return s == "É" ? "é" : s.size() == 1 && isupper(s[0]) ? std::string(1, tolower(s[0])) : s; }
static std::string up(const std::string &s) { return s == "é" ? "É" : s.size() == 1 && islower(s[0]) ? std::string(1, toupper(s[0])) : s; }
static bool upper(const std::string &s) { return low(s) != s; }
static bool lower(const std::string &s) { return up(s) != s; }
static bool tag(const std::string &s) { return (s.size() > 1 && s[0] == '<' && s.back() == '>') || (s.size() > 1 && s[0] == '+'); }
struct Opt { Toks a; char fmt = 'p'; bool weights = false, comp = false, keep = false, rawcg = false, nul = false; char caps = 0; int n = 0, cls = 0; };
static auto &OP = *new std::vector<Opt>;
static bool is_flag(const std::string &s) { return FdOperation::is_diacritic(s); }
struct Flags { std::map<std::string, std::pair<bool, std::string>> v; // (negated, value)
    bool apply(const std::string &s) { char op = s[1]; size_t d = s.find('.', 3); std::string f = s.substr(3, (d == std::string::npos ? s.size() - 1 : d) - 3), val = d == std::string::npos ? "" : s.substr(d + 1, s.size() - d - 2); auto it = v.find(f); bool set = it != v.end();
        switch (op) { case 'P': v[f] = {false, val}; return true; case 'N': v[f] = {true, val}; return true; case 'C': v.erase(f); return true;
            case 'R': if (val.empty()) return set; return set && !it->second.first && it->second.second == val;
            case 'D': if (val.empty()) return !set; return !(set && !it->second.first && it->second.second == val);
            case 'U': if (!set) { v[f] = {false, val}; return true; } if (it->second.first ? it->second.second != val : it->second.second == val) { v[f] = {false, val}; return true; } return false; }
        return true; } };
typedef std::map<Toks, float> Out; // output symbols and best weight
static void walk(const T &t, const std::vector<std::vector<std::string>> &in, int s, size_t pos, Toks &o, float w, Out &out, Flags fl = Flags(), int depth = 0) {
    if (depth > 40) return; auto f = t.fin.find(s); if (f != t.fin.end() && pos == in.size()) { float v = w + f->second; auto it = out.find(o); if (it == out.end() || v < it->second) out[o] = v; }
    for (auto &a : t.arcs) if (a.s == s) { size_t np = pos; Flags nf = fl; bool flag = is_flag(a.i); if (flag) { if (!nf.apply(a.i)) continue; } else if (a.i != EPS) { if (pos >= in.size() || std::find(in[pos].begin(), in[pos].end(), a.i) == in[pos].end()) continue; ++np; } bool sym = a.o != EPS && !flag; if (sym) o.push_back(a.o); walk(t, in, a.t, np, o, w + a.w, out, nf, depth + 1); if (sym) o.pop_back(); } }
static Out analyses(const T &t, const Text &x, size_t b, size_t e, char caps) { std::vector<std::vector<std::string>> in; for (size_t k = b; k < e; ++k) { std::vector<std::string> v{x[k].sym()}; if (caps != 'c' && caps != 'X' && upper(v[0])) v.push_back(low(v[0])); in.push_back(v); } Out o; Toks cur; walk(t, in, 0, 0, cur, 0, o); return o; }
static std::string num(float w) { std::ostringstream s; s << w; return s.str(); }
static int bounds(const Toks &s) { int n = 0; for (auto &x : s) if (x == "+" || x.back() == '+' || x.back() == '#') ++n; return n; }
// the case of the words is taken from the first two letters
static int state(const Text &x, size_t b, size_t e) { const Tok &f = x[b], &l = e - b > 1 ? x[b + 1] : x[b]; if (f.blank || l.blank) return 0; if (lower(f.t) && lower(l.t)) return 1; if (upper(f.t) && lower(l.t)) return 2; if (upper(f.t) && upper(l.t)) return 3; return 0; }
static std::string form(const Toks &s, int caps, bool raw) { std::string r; bool first = true; for (auto &x : s) { if (!raw && !tag(x)) r += x.size() == 1 && strchr("[]{}^$/\\@<>", x[0]) ? "\\" : ""; r += caps == 3 || (caps == 2 && first) ? up(x) : x; first = false; } return r; }
static std::string cgform(const Toks &s, int caps) { std::string r = "\""; size_t st = 0; while (true) { size_t ts = s.size(), cs = s.size(); for (size_t i = s.size(); i-- > st;) { if (tag(s[i])) ts = i; if (s[i] == "#" || s[i] == "+") cs = i; } size_t end = std::min(ts, cs); r += form(Toks(s.begin() + st, s.begin() + end), caps, false); if (cs < s.size()) { r += "#"; st = cs + 1; continue; } r += "\""; for (size_t i = ts; i < s.size(); ++i) { std::string g = s[i]; if (g[0] == '<') { g = g.substr(1); if (!g.empty() && g.back() == '>') g.pop_back(); } if (!g.empty() && g[0] == '+') g = g.substr(1); r += (i == ts ? "\t" : " ") + g; } return r; } }
struct Fail { std::string s; };
static std::string take(const std::string &o, size_t &p, char stop) { std::string r; while (p < o.size() && o[p] != stop) { if (o[p] == '\\' && p + 1 < o.size()) r += o[p++]; r += o[p++]; } if (p >= o.size()) throw Fail{"unfinished output"}; ++p; return r; }
// the analyses printed for a word: those of the lexicon, best first
static void judge(const std::vector<std::string> &got, const Out &all, const Opt &o, int caps, bool w, const std::string &surf) {
    Out use = all; if (o.comp && !o.keep) { int best = 1000; for (auto &x : all) best = std::min(best, bounds(x.first)); for (auto it = use.begin(); it != use.end();) if (bounds(it->first) > best) it = use.erase(it); else ++it; }
    if (o.cls && w) { std::set<float> cl; for (auto &x : use) cl.insert(x.second); int k = 0; float lim = 0; for (float f : cl) if (k++ < o.cls) lim = f; for (auto it = use.begin(); it != use.end();) if (it->second > lim) it = use.erase(it); else ++it; }
    if (caps < 0) caps = 0; std::multimap<std::string, float> exp; for (auto &x : use) { std::string s = o.fmt == 'C' ? cgform(x.first, caps) + (o.rawcg ? " ∏\"" + form(x.first, caps, false) + "\"" : "") : form(x.first, caps, o.fmt == 'x'); if (o.weights && w && o.fmt != 'C') s += (o.fmt == 'x' ? "\t" : "~") + num(x.second) + (o.fmt == 'x' ? "" : "~"); exp.insert({s, x.second}); }
    size_t n = o.n ? std::min<size_t>(o.n, exp.size()) : exp.size(); if (got.size() != n) throw Fail{"`" + surf + "' has " + std::to_string(n) + " analyses, but " + std::to_string(got.size()) + " are printed: " + (got.empty() ? "" : got[0])};
    float last = -1e9, mx = -1e9; for (auto &g : got) { auto r = exp.equal_range(g); if (r.first == r.second) throw Fail{"analysis `" + g + "' of `" + surf + "' is wrong"}; float best = 1e9; auto use = exp.end(); for (auto it = r.first; it != r.second; ++it) if (it->second < best) { best = it->second; use = it; } exp.erase(use); if (w) { if (best < last) throw Fail{"analyses of `" + surf + "' are not in order of weight"}; last = best; mx = std::max(mx, best); } }
    if (w) for (auto &x : exp) if (x.second < mx) throw Fail{"a better analysis of `" + surf + "' is left out: " + x.first}; }
static void text_case(mc::Ctx &c, const T &t, bool w, const Opt &o, const std::vector<Text> &texts, bool newline) {
    tl::Case guard; std::string key = "hfst-proc"; for (auto &x : o.a) key += " " + x; c.k(key + (w ? "|weighted|" : "|unweighted|") + t.str() + (newline ? "" : " no newline at the end")); T u = t; if (!w) { for (auto &a : u.arcs) a.w = 0; for (auto &f : u.fin) f.second = 0; }
    tl::put("f", tl::stream(std::vector<T>{t}, w ? HFST_OLW_TYPE : HFST_OL_TYPE)); const std::string SEP = o.nul ? std::string(1, '\0') : "\n"; std::string in; Text x; for (size_t k = 0; k < texts.size(); ++k) { Text tx = texts[k]; if (o.fmt == 'x' || o.caps == 'X') { tx.clear(); auto put = [&](const std::string &z) { Tok n{z}; n.raw = true; tx.push_back(n); }; for (auto &y : texts[k]) if (y.blank) { put("["); for (char z : y.t) put(std::string(1, z)); put("]"); } else put(y.t); } for (auto &y : tx) { in += y.text(); x.push_back(y); } if (newline || k + 1 < texts.size()) { in += SEP; Tok n{SEP}; n.raw = true; x.push_back(n); } }
    Toks a = o.a; a.push_back("f"); bool file = mc::hs(c.key) % 2; if (file) { tl::put("in", in); a.push_back("in"); } tl::Run r = tl::run("proc", a, file ? "" : in); c.trans(texts.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    const std::string &out = r.out; size_t q = 0, p = 0; std::string at;
    try { while (p < x.size()) {
        size_t b0 = p, b1 = p; while (b0 > 0 && x[b0 - 1].t != SEP) --b0; while (b1 < x.size() && x[b1].t != SEP) ++b1; at = "text `"; for (size_t k = b0; k < b1; ++k) at += x[k].text(); at += "': ";
        size_t best = 0; Out an; for (size_t e = p + 1; e <= b1 && e <= x.size(); ++e) { if (e < x.size() && alpha(x[e - 1]) && alpha(x[e])) continue; Out m = analyses(u, x, p, e, o.caps); if (!m.empty()) { best = e; an = m; } }
        if (best && !alpha(x[best - 1]) && best < x.size() && alpha(x[best])) { // words that end in other than a letter may be given up if a longer one goes on with letters
            std::string surf; for (size_t k = p; k < best; ++k) surf += x[k].blank ? " " : x[k].text(); std::string h = o.fmt == 'p' ? "^" + surf + "/" : o.fmt == 'x' ? surf + "\t" : "\"<" + surf + ">\"\n"; if (out.compare(q, h.size(), h)) best = 0; }
        if (best) { c.nontrivial(); c.state(mc::hs(at) ^ mc::hs(c.key)); std::string surf, blanks; for (size_t k = p; k < best; ++k) { surf += x[k].blank ? " " : x[k].text(); if (x[k].blank) blanks += x[k].text(); } std::vector<std::string> got; int cs = o.caps == 'w' || o.caps == 'X' || (o.fmt == 'C' && !o.caps) ? 0 : state(x, p, best);
            if (o.fmt == 'p') { if (q >= out.size() || out[q] != '^') throw Fail{"word `" + surf + "' is not analysed"}; ++q; std::string body = take(out, q, '$'), cur; std::vector<std::string> f; for (size_t k = 0; k < body.size(); ++k) { if (body[k] == '\\') { cur += body[k++]; cur += body[k]; } else if (body[k] == '/') { f.push_back(cur); cur.clear(); } else cur += body[k]; } f.push_back(cur); if (f[0] != surf) throw Fail{"word `" + surf + "' is printed as `" + f[0] + "'"}; got.assign(f.begin() + 1, f.end()); if (out.compare(q, blanks.size(), blanks)) throw Fail{"blanks of `" + surf + "' are lost"}; q += blanks.size(); }
            else if (o.fmt == 'x') { while (q < out.size() && out[q] != '\n') { size_t e = out.find('\n', q); std::string l = out.substr(q, e - q); q = e + 1; if (l.compare(0, surf.size() + 1, surf + "\t")) throw Fail{"word `" + surf + "' is printed as `" + l + "'"}; got.push_back(l.substr(surf.size() + 1)); } ++q; }
            else { std::string h = "\"<" + surf + ">\"\n"; if (out.compare(q, h.size(), h)) throw Fail{"word `" + surf + "' is not printed"}; q += h.size(); while (q < out.size() && out[q] == '\t') { size_t e = out.find('\n', q); got.push_back(out.substr(q + 1, e - q - 1)); q = e + 1; } }
            for (auto &g : got) c.outcome(mc::hs(g)); judge(got, an, o, cs, w, surf); p = best; }
        else if (!alpha(x[p])) { if (o.fmt == 'p' || x[p].t == std::string(1, '\0')) { std::string s = x[p].text(); if (out.compare(q, s.size(), s)) throw Fail{"`" + s + "' is not copied to the output"}; q += s.size(); } ++p; }
        else { size_t e = p + 1; while (e < x.size() && alpha(x[e])) ++e; bool ok = false; for (size_t k = e; k <= b1 && !ok; ++k) { std::string s, s2; for (size_t i = p; i < k; ++i) { s += x[i].text(); s2 += x[i].blank ? " " : x[i].text(); } std::string h = o.fmt == 'p' ? "^" + s + "/*" + s + "$" : o.fmt == 'x' ? s2 + "\t+?\n\n" : "\"<" + s2 + ">\"\n\t\"*" + s2 + "\"\n"; if (!out.compare(q, h.size(), h)) { q += h.size(); p = k; ok = true; } } if (!ok) throw Fail{"word at `" + x[p].t + "' is not reported as unknown"}; }
    } if (q != out.size()) { at = ""; throw Fail{"more is printed: " + tl::oneline(out.substr(q), 60)}; } }
    catch (const Fail &f) { return c.fail(at + f.s); }
    c.sample(c.key); }
// transliteration prints the analyses only, everything else as in the analysis
static void translit_case(mc::Ctx &c, const T &t, bool w, bool weights, const std::vector<Text> &texts) {
    tl::Case guard; c.k(std::string("hfst-proc -j") + (weights ? " -W" : "") + (w ? "|weighted|" : "|unweighted|") + t.str()); tl::put("f", tl::stream(std::vector<T>{t}, w ? HFST_OLW_TYPE : HFST_OL_TYPE)); std::string in; for (auto &x : texts) { for (auto &y : x) in += y.text(); in += "\n"; }
    Toks a; if (weights) a.push_back("-W"); a.push_back("-p"); a.push_back("f"); tl::Run p = tl::run("proc", a, in); a[a.size() - 2] = "-j"; tl::Run r = tl::run("proc", a, in); c.trans(texts.size()); if (p.crashed || r.crashed || p.rc || r.rc) return c.fail("failed: " + tl::oneline(r.err));
    std::string e; for (size_t k = 0; k < p.out.size(); ++k) { char z = p.out[k]; if (z == '\\') { e += z; e += p.out[++k]; continue; } if (z == '[') { while (p.out[k] != ']') e += p.out[k++]; e += ']'; continue; } if (z != '^') { e += z; continue; } std::string surf, rest; ++k; bool first = true; for (; p.out[k] != '$'; ++k) { std::string &d = first ? surf : rest; if (p.out[k] == '[') { while (p.out[k] != ']') d += p.out[k++]; } if (p.out[k] == '\\') { d += p.out[k++]; d += p.out[k]; } else if (p.out[k] == '/' && first) first = false; else d += p.out[k]; } if (rest.compare(0, 1, "*") == 0 && rest.substr(1) == surf) e += surf; else { c.nontrivial(); e += rest; } }
    c.outcome(mc::hs(e)); c.state(mc::hs(e) ^ mc::hs(c.key)); if (e != r.out) { size_t k = 0; while (k < e.size() && k < r.out.size() && e[k] == r.out[k]) ++k; c.fail("the transliteration differs from the analyses: expected ..." + tl::oneline(e.substr(k ? k - 1 : 0), 30) + " but got ..." + tl::oneline(r.out.substr(k ? k - 1 : 0), 30)); } c.sample(c.key); }
// ---- generation
static void gen_case(mc::Ctx &c, const T &t, bool w, char mode, char caps, int n, const std::vector<Toks> &lemmas) {
    tl::Case guard; Toks a{std::string("-") + mode}; if (caps) a.push_back(std::string("-") + caps); if (n) { a.push_back("-N"); a.push_back(std::to_string(n)); } std::string key = "hfst-proc"; for (auto &x : a) key += " " + x; T u = t; for (auto &x : u.arcs) std::swap(x.i, x.o); c.k(key + (w ? "|weighted|" : "|unweighted|") + u.str());
    tl::put("f", tl::stream(std::vector<T>{u}, w ? HFST_OLW_TYPE : HFST_OL_TYPE)); if (!w) { for (auto &x : u.arcs) x.w = 0; for (auto &f : u.fin) f.second = 0; } std::string in; for (auto &x : lemmas) { in += "x^"; for (auto &y : x) in += y; in += "$[b] \\^\n"; } a.push_back("f"); tl::Run r = tl::run("proc", a, in); c.trans(lemmas.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    std::set<std::string> al; for (auto &y : u.arcs) { al.insert(y.i); al.insert(y.o); } std::stringstream s(r.out); for (auto &x : lemmas) { std::string l, lem; for (auto &y : x) lem += y; std::string at = "`^" + lem + "$': "; if (!std::getline(s, l)) return c.fail(at + "nothing is printed"); if (l.size() < 7 || l[0] != 'x' || l.substr(l.size() - 6) != "[b] \\^") return c.fail(at + "the text around it is changed: `" + l + "'"); l = l.substr(1, l.size() - 7); c.outcome(mc::hs(l)); c.state(mc::hs(c.key) ^ mc::hs(lem));
        auto strip = [&](const Toks &v) { std::string q; for (auto &y : v) if (mode == 'd' || !(y[0] == '<')) q += y == "<" || y == ">" ? "" : mode == 'd' && y[0] == '<' ? "\\" + y.substr(0, y.size() - 1) + "\\>" : y; return q; };
        if (!x.empty() && x[0] == "*") { std::string e = (mode == 'n' ? "" : "*"); for (size_t k = 1; k < x.size() && x[k][0] != '<'; ++k) e += x[k]; if (l != e) return c.fail(at + "prints `" + l + "', not `" + e + "'"); continue; }
        if (!x.empty() && x[0] == "@") { std::string e = (mode == 'n' ? "" : "\\@"); if (mode == 'd') e += strip(Toks(x.begin() + 1, x.end())); else for (size_t k = 1; k < x.size() && x[k][0] != '<'; ++k) e += x[k]; if (l != e) return c.fail(at + "prints `" + l + "', not `" + e + "'"); continue; }
        Toks body = x; std::string inv; for (size_t k = 0; k < x.size(); ++k) if (x[k] == "#") { body = Toks(x.begin(), x.begin() + k); for (size_t j = k + 1; j < x.size(); ++j) for (char z : x[j]) inv += z == '<' || z == '>' ? std::string("\\") + z : std::string(1, z); break; }
        auto look = [&](const Toks &v) { std::vector<std::vector<std::string>> q; for (auto &y : v) { std::vector<std::string> z{y}; if (caps != 'c' && upper(y)) z.push_back(low(y)); q.push_back(z); } Out o; Toks cur; walk(u, q, 0, 0, cur, 0, o); return o; };
        std::vector<Toks> parts{body}; if (look(body).empty()) { parts.clear(); Toks cur; for (size_t k = 0; k < body.size(); ++k) if (body[k] == "+" && k && tag(body[k - 1]) && al.count(body[k - 1])) { parts.push_back(cur); cur.clear(); } else cur.push_back(body[k]); if (!cur.empty()) parts.push_back(cur); }
        // what may be printed: each part in its possible orders
        std::vector<std::string> alts{""}; for (auto &v : parts) { Out o = look(v); std::vector<std::string> mine; if (o.empty()) mine.push_back((mode == 'n' ? "" : "#") + strip(v)); else { c.nontrivial(); std::vector<std::pair<float, std::string>> f; for (auto &y : o) { std::string z; for (auto &k : y.first) z += k; f.push_back({y.second, z}); } std::sort(f.begin(), f.end()); do { bool ok = true; for (size_t k = 1; k < f.size(); ++k) ok &= f[k - 1].first <= f[k].first; if (!ok) continue; std::string z; for (size_t k = 0; k < f.size() && (!n || (int)k < n); ++k) z += (k ? "/" : "") + f[k].second; mine.push_back(z); } while (f.size() < 5 && std::next_permutation(f.begin(), f.end(), [](const std::pair<float, std::string> &p, const std::pair<float, std::string> &q) { return p.second < q.second; })); std::sort(f.begin(), f.end(), [](const std::pair<float, std::string> &p, const std::pair<float, std::string> &q) { return p.second < q.second; }); do { bool ok = true; for (size_t k = 1; k < f.size(); ++k) ok &= f[k - 1].first <= f[k].first; if (!ok) continue; std::string z; for (size_t k = 0; k < f.size() && (!n || (int)k < n); ++k) z += (k ? "/" : "") + f[k].second; mine.push_back(z); } while (f.size() < 6 && std::next_permutation(f.begin(), f.end(), [](const std::pair<float, std::string> &p, const std::pair<float, std::string> &q) { return p.second < q.second; })); }
            std::vector<std::string> nx; for (auto &y : alts) for (auto &z : mine) nx.push_back(y + z); alts = nx; }
        bool ok = false; for (auto &y : alts) ok |= l == y + inv; if (!ok) return c.fail(at + "prints `" + l + "', not `" + alts[0] + inv + "'"); }
    std::string l; if (std::getline(s, l)) return c.fail("more is printed: `" + l + "'"); c.sample(c.key); }
struct Entry { Path p; float w; };
static auto &EN = *new std::vector<Entry>; static auto &LX = *new std::vector<T>; static auto &LG = *new std::vector<T>; static auto &GN = *new std::vector<T>; static auto &TX = *new std::vector<Text>; static auto &TS = *new std::vector<Text>; static auto &LM = *new std::vector<Toks>;
static T lexicon(const std::vector<int> &v, unsigned salt) { T t; int n = 2; for (size_t k = 0; k < v.size(); ++k) { auto &e = EN[v[k]]; int q = 0; for (size_t i = 0; i < e.p.size(); ++i) { int to = i + 1 == e.p.size() ? 1 : n++; t.arcs.push_back({q, to, e.p[i].first, e.p[i].second, i == 0 ? e.w : 0}); q = to; } } t.n = n; t.fin[1] = salt % 2 ? 0.5f : 0; return t; }
static void build(bool th) {
    auto E = [](std::vector<std::pair<std::string, std::string>> p, float w) { EN.push_back({p, w}); };
    E({{"a", "a"}, {EPS, "<n>"}}, 0.5f); E({{"a", "b"}, {EPS, "<v>"}}, 0); E({{"a", "a"}, {"b", "b"}, {EPS, "<n>"}}, 1); E({{EPS, "a"}, {"a", "<n>"}}, 0.25f); E({{EPS, "a"}, {EPS, "<n>"}, {"a", EPS}}, 1.5f); E({{"a", "m"}, {" ", " "}, {"b", "w"}, {EPS, "<n>"}}, 0.5f); E({{"A", "A"}, {EPS, "<n>"}}, 0); E({{"a", "b"}, {"b", "#"}, {EPS, "a"}, {EPS, "<n>"}}, 0);
    E({{"é", "é"}, {EPS, "<v>"}}, 0); E({{"a", "a"}, {EPS, "+N"}}, 2); E({{"b", "^"}, {EPS, "/"}}, 1); E({{"a", "a"}, {".", EPS}, {EPS, "<v>"}}, 0); E({{"b", "b"}, {EPS, "<n>"}, {EPS, "+"}, {EPS, "a"}, {EPS, "<n>"}}, 0.5f); E({{"b", "b"}, {EPS, "<v>"}}, 0.5f); E({{"a", "a"}, {"b", EPS}, {" ", EPS}, {"a", "a"}, {"a", EPS}}, 0); E({{"b", EPS}, {"b", "a"}, {EPS, "<n>"}}, 0); E({{"b", "b"}, {EPS, "#"}}, 0.5f);
    int n = EN.size(); std::vector<std::vector<int>> sets; for (int i = 0; i < n; ++i) { sets.push_back({i}); for (int j = i + 1; j < n; ++j) { sets.push_back({i, j}); for (int k = j + 1; k < n; ++k) if (th || mc::mix(i * 331 + j * 17 + k) % 3 == 0) { sets.push_back({i, j, k}); if (th) for (int l = k + 1; l < n; ++l) if (mc::mix(i * 331 + j * 17 + k + l * 10007) % 3 == 0) sets.push_back({i, j, k, l}); } } } sets.push_back({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}); sets.push_back({0, 1, 3, 4, 9}); sets.push_back({2, 7, 14}); unsigned s = 0; for (auto &v : sets) LX.push_back(lexicon(v, mc::mix(s++)));
    // graphs with two states
    std::vector<std::pair<std::string, std::string>> lab = {{"a", "a"}, {"a", "<n>"}, {"b", EPS}, {EPS, "b"}, {"b", "a"}, {" ", "+"}}; std::vector<Arc> al; for (int f = 0; f < 2; ++f) for (int g = 0; g < 2; ++g) for (auto &l : lab) if (!(f == g && l.first == EPS)) al.push_back({f, g, l.first, l.second, 0}); int m = al.size(); for (int i = 0; i < m; ++i) for (int j = i; j < m; ++j) for (int k = j; k < m; ++k) { if ((i == j) != (j == k) && i == j) continue; if (!th && mc::mix(i * 1009 + j * 31 + k) % 4) continue; std::set<int> u{i, j, k}; T t; t.n = 2; for (int x : u) { Arc a = al[x]; a.w = (float)(mc::mix(x + i + k) % 4) / 2; t.arcs.push_back(a); } bool r0 = false, e1 = false, e2 = false; for (auto &a : t.arcs) { r0 |= a.s == 0 && a.t == 1; if (a.i == EPS) (a.s ? e2 : e1) = true; } if (!r0 || (e1 && e2)) continue; t.fin[1] = (float)(mc::mix(i + j + k) % 3) / 2; if (mc::mix(i * 7 + j + k) % 5 == 0) t.fin[0] = 0; if (t.fin.count(0)) continue; LG.push_back(t); }
    { std::vector<std::string> ops; for (const char *o : {"P", "N", "R", "D", "U"}) for (const char *v : {".x", ".y"}) ops.push_back(std::string("@") + o + ".F" + v + "@"); for (const char *o : {"C", "R", "D"}) ops.push_back(std::string("@") + o + ".F@"); // sequences of flags, the last of which tells the branches apart
        std::vector<Toks> seq{{}}, pre; for (int l = 0; l <= (th ? 3 : 2); ++l) { pre.insert(pre.end(), seq.begin(), seq.end()); std::vector<Toks> nx; for (auto &x : seq) for (auto &y : ops) { auto z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
        for (auto &x : pre) { T t; int q = 0; t.n = x.size() + 2 + ops.size(); for (auto &y : x) { t.arcs.push_back({q, q + 1, y, y, 0}); ++q; } int end = q + 1; for (size_t k = 0; k < ops.size(); ++k) { int m = end + 1 + k; t.arcs.push_back({q, m, ops[k], ops[k], (float)(k % 3) / 2}); t.arcs.push_back({m, end, "a", std::string(1, 'c' + k), 0}); } t.fin[end] = 0; GN.push_back(t); } }
    std::vector<Tok> ab; for (const char *x : {"a", "b", "A", "x", " ", "."}) ab.push_back(Tok{x}); std::vector<Text> seq{{}}; for (int l = 0; l <= (th ? 5 : 4); ++l) { for (auto &x : seq) { if (l < 4 || th || mc::mix(TX.size() + l) % 1 == 0) TX.push_back(x); if (l <= 2 && !x.empty()) TS.push_back(x); } std::vector<Text> nx; for (auto &x : seq) for (auto &y : ab) { Text z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
    auto add = [&](std::vector<Tok> v) { TX.push_back(v); TS.push_back(v); }; Tok B{"s", true}, B2{"<p>", true}; for (const char *z : {"a", "b", "x"}) for (auto &y : {B, B2}) { add({Tok{"a"}, y, Tok{z}}); add({y, Tok{z}}); add({Tok{z}, y}); add({Tok{"a"}, y, Tok{z}, y, Tok{"b"}}); } for (const char *z : {"^", "$", "/", "@", "<", "[", "{", "\\"}) { add({Tok{z}}); add({Tok{"a"}, Tok{z}, Tok{"b"}}); add({Tok{"x"}, Tok{z}}); } add({Tok{"é"}}); add({Tok{"É"}}); add({Tok{"é"}, Tok{"a"}}); add({Tok{"a"}, Tok{" "}, Tok{"É"}, Tok{"x"}}); add({Tok{"a"}, Tok{"b"}, Tok{" "}, Tok{"a"}, Tok{"a"}}); add({Tok{"a"}, Tok{"b"}, Tok{" "}, Tok{"a"}}); add({Tok{"a"}, Tok{"b"}, Tok{" "}, Tok{"a"}, Tok{"x"}});
    auto opt = [](Toks a, std::function<void(Opt &)> f) { Opt o; o.a = a; f(o); OP.push_back(o); }; opt({}, [](Opt &) {}); opt({"-W"}, [](Opt &o) { o.weights = true; }); opt({"-x", "-W"}, [](Opt &o) { o.fmt = 'x'; o.weights = true; }); opt({"-C"}, [](Opt &o) { o.fmt = 'C'; }); opt({"-e", "-a"}, [](Opt &o) { o.comp = true; }); opt({"-e", "-k"}, [](Opt &o) { o.comp = o.keep = true; }); opt({"-c", "-p"}, [](Opt &o) { o.caps = 'c'; }); opt({"-w", "-W"}, [](Opt &o) { o.caps = 'w'; o.weights = true; }); opt({"-N", "1"}, [](Opt &o) { o.n = 1; }); opt({"-N", "2", "-W", "-e"}, [](Opt &o) { o.n = 2; o.comp = true; o.weights = true; }); opt({"--weight-classes", "1", "-x"}, [](Opt &o) { o.cls = 1; o.fmt = 'x'; }); opt({"-X", "-W"}, [](Opt &o) { o.caps = 'X'; o.weights = true; }); opt({"-C", "-r"}, [](Opt &o) { o.fmt = 'C'; o.rawcg = true; }); opt({"-z"}, [](Opt &o) { o.nul = true; }); opt({"-x", "-z"}, [](Opt &o) { o.fmt = 'x'; o.nul = true; }); opt({"--weight-classes", "2", "-w"}, [](Opt &o) { o.cls = 2; o.caps = 'w'; });
    Toks la = {"a", "b", "<n>", "<v>", "+", "m", "<z>"}; std::vector<Toks> ls{{}}; for (int l = 0; l <= (th ? 5 : 4); ++l) { if (l) LM.insert(LM.end(), ls.begin(), ls.end()); std::vector<Toks> nx; for (auto &x : ls) for (auto &y : la) { auto z = x; z.push_back(y); nx.push_back(z); } ls = nx; } for (auto &x : std::vector<Toks>{{"*", "a"}, {"*", "x", "b"}, {"*", "a", "<n>"}, {"@", "a", "b"}, {"@", "a", "<n>"}, {"a", "<n>", "#", "b"}, {"a", "<n>", "#", " ", "x"}, {"b", "<v>", "#", "a", "b"}, {"a", "<n>", "+", "b", "<v>", "#", "x"}, {"m", " ", "w", "<n>"}, {"é", "<v>"}, {"b", "#", "a", "<n>"}, {"a", "b", "<n>"}, {"b", "<n>", "+", "a", "<n>"}, {"a", "+N"}}) LM.push_back(x);
}
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C27";
    h.spaces = [](bool th) { build(th); fprintf(stderr, "lexicons %zu graphs %zu texts %zu short %zu lemmas %zu\n", LX.size(), LG.size(), TX.size(), TS.size(), LM.size()); std::vector<mc::Space> v; static mc::u64 NO = OP.size();
        v.push_back({"analysis", (mc::u64)LX.size() * 2 * NO, [](mc::u64 i, mc::Ctx &c) { text_case(c, LX[i / 2 / NO], i & 1, OP[i / 2 % NO], TX, true); }, 60, 20});
        v.push_back({"graphs", (mc::u64)LG.size() * 2 * 3, [](mc::u64 i, mc::Ctx &c) { mc::u64 k = i / 6; static const int os[] = {1, 2, 8}; text_case(c, LG[k], i & 1, OP[i / 2 % 3 ? (i / 2 % 3 == 1 ? 3 + mc::mix(k) % (NO - 3) : 2) : os[0]], TX, true); }, 60, 20});
        v.push_back({"flags", (mc::u64)GN.size() * 2 * 4, [](mc::u64 i, mc::Ctx &c) { static const int os[] = {1, 2, 3, 9}; text_case(c, GN[i / 8], i & 1, OP[os[i / 2 % 4]], TS, true); }, 60, 20});
        v.push_back({"last-line", (mc::u64)17 * TS.size() * 2, [](mc::u64 i, mc::Ctx &c) { mc::u64 k = i / 2 % TS.size(), l = i / 2 / TS.size(); static const int os[] = {0, 2, 3, 7}; text_case(c, l < 16 ? LX[l * 37 % LX.size()] : LX[LX.size() - 3], i & 1, OP[os[mc::mix(i) % 4]], {TS[k]}, false); }, 30, 20});
        v.push_back({"transliteration", (mc::u64)LX.size() * 4, [](mc::u64 i, mc::Ctx &c) { translit_case(c, LX[i / 4], i & 1, i & 2, TX); }, 60, 20});
        v.push_back({"generation", (mc::u64)LX.size() * 2 * 6, [](mc::u64 i, mc::Ctx &c) { static const char ms[] = "gndgnd", cs[] = "\0\0\0ccw"; int o = i / 2 % 6; gen_case(c, LX[i / 12], i & 1, ms[o], cs[o], o == 4 ? 1 : 0, LM); }, 60, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
