// C28 hfst-tokenize: every dictionary, text and option of a bounded set, against longest match between word boundaries
#include "tools.h"
#include <iomanip>
static const float DEF = 4294967295.0f / 2; // the weight of tokens that are not in the dictionary
using namespace ref; using namespace hfst;
namespace {
typedef std::vector<std::string> Toks;
struct Opt { Toks a; char fmt = 'z'; bool all = false, weights = false, uniq = false, lines = true, multi = false; float beam = -1; int cls = 0; };
struct Entry { Toks in, out; float w; };
static auto &EN = *new std::vector<Entry>; static auto &LX = *new std::vector<T>; static auto &OP = *new std::vector<Opt>; static auto &TX = *new std::vector<Toks>; static auto &TN = *new std::vector<Toks>; static auto &TB = *new std::vector<Toks>;
static bool bnd(const std::string &c) { return c == " " || c == "." || c == "\n" || c == "," || c == "-"; }
static std::string cat(const Toks &x, size_t b, size_t e) { std::string s; for (size_t k = b; k < e; ++k) s += x[k]; return s; }
struct An { Toks o; float w; };
static void walk(const T &t, const Toks &x, size_t pos, int s, Toks &o, float w, std::map<size_t, std::vector<An>> &out, int depth = 0) { if (depth > 30) return; auto f = t.fin.find(s); if (f != t.fin.end()) out[pos].push_back({o, w + f->second}); for (auto &a : t.arcs) if (a.s == s) { size_t np = pos; if (a.i != EPS) { if (pos >= x.size() || x[pos] != a.i) continue; ++np; } bool sym = a.o != EPS; if (sym) o.push_back(a.o); walk(t, x, np, a.t, o, w + a.w, out, depth + 1); if (sym) o.pop_back(); } }
struct Word { std::string in; std::vector<std::pair<std::string, float>> an; std::vector<Toks> sy; bool known = false; bool none = false; };
// the text as the dictionary sees it
static std::vector<Word> segment(const T &t, const Toks &x) {
    std::vector<Word> r; std::string un; auto flush = [&] { if (!un.empty()) { Word w; w.in = un; w.none = true; r.push_back(w); un.clear(); } };
    for (size_t p = 0; p < x.size();) { bool left = p == 0 || bnd(x[p - 1]); size_t best = 0; Word w; if (left) { std::map<size_t, std::vector<An>> m; Toks o; walk(t, x, p, 0, o, 0, m); for (size_t e = x.size(); e > p; --e) { if (e < x.size() && !bnd(x[e])) continue; auto it = m.find(e); bool plain = true; for (size_t k = p; k < e; ++k) plain &= !bnd(x[k]); if (it == m.end() && !plain) continue; best = e; if (it != m.end()) { w.known = true; for (auto &a : it->second) { w.an.push_back({cat(a.o, 0, a.o.size()), a.w}); w.sy.push_back(a.o); } } if (plain) { w.an.push_back({cat(x, p, e), DEF}); w.sy.push_back(Toks(x.begin() + p, x.begin() + e)); } break; } }
        if (best) { flush(); w.in = cat(x, p, best); r.push_back(w); p = best; } else un += x[p++]; }
    flush(); return r; }
static std::string num(float w, bool fix = false) { std::ostringstream s; if (fix) s << std::fixed << std::setprecision(10); s << w; return s.str(); }
struct Fail { std::string s; };
static std::string line(const std::string &o, size_t &q) { size_t e = o.find('\n', q); if (e == std::string::npos) throw Fail{"unfinished output `" + o.substr(q) + "'"}; std::string r = o.substr(q, e - q); q = e + 1; return r; }
static void want(const std::string &o, size_t &q, const std::string &s) { if (o.compare(q, s.size(), s)) throw Fail{"expected `" + tl::oneline(s) + "' but got `" + tl::oneline(o.substr(q, s.size() + 10)) + "'"}; q += s.size(); }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\\') r += c; r += c; } return r; }
static std::string gw(float w) { char b[64]; snprintf(b, sizeof b, "%.9f", w); std::string s = b; bool z = s.back() == '0'; while (s.back() == '0') s.pop_back(); return z ? s + "0" : s; }
static std::string reading(const Toks &o, float w) { std::string r = "\t"; bool in = false; for (auto &x : o) { bool tag = x.size() > 1 && (unsigned char)x[0] < 128; if (in == tag) { r += "\""; in = !in; } r += x; } if (in) r += "\""; return r + " <W:" + gw(w) + ">\n"; }
static void giella_case(mc::Ctx &c, const T &t0, ImplementationType ty, bool sb, const std::vector<Toks> &texts) {
    tl::Case guard; c.k(std::string("hfst-tokenize -g") + (sb ? " -S" : "") + "|" + tyname(ty) + "|" + t0.str()); tl::put("f", tl::stream(std::vector<T>{t0}, ty)); std::string in; for (auto &x : texts) in += cat(x, 0, x.size()) + "\n"; Toks a{"-g"}; if (sb) a.push_back("-S"); a.push_back(tl::path("f")); tl::Run r = tl::run("tokenize", a, in); c.trans(texts.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    const std::string &out = r.out; size_t q = 0; std::string at; auto none = [&](const std::string &s) { std::string e; for (char z : s) e += z == '\n' ? std::string("\\n") : std::string(1, z); want(out, q, ":" + e + "\n"); };
    try { for (auto &x0 : texts) { at = "text `" + cat(x0, 0, x0.size()) + "': "; Toks x = x0; x.push_back("\n"); for (size_t b = 0; b < x.size();) { if (x[b][0] == '[') { std::string s; while (b < x.size() && x[b][0] == '[') s += x[b++]; none(s); continue; } size_t e = b; while (e < x.size() && x[e][0] != '[') ++e; Toks part(x.begin() + b, x.begin() + e); b = e;
        for (auto &w : segment(t0, part)) { if (w.none) { none(w.in); continue; } if (w.known) c.nontrivial(); c.state(mc::hs(at) ^ mc::hs(c.key)); want(out, q, "\"<" + w.in + ">\"\n"); std::set<float> cl; for (auto &y : w.an) if (!y.first.empty()) cl.insert(y.second); float lim = 1e30f; int k = 0; for (float f : cl) if (k++ < 2) lim = f; std::map<std::string, float> exp; bool real = false; for (size_t i = 0; i < w.an.size(); ++i) if (!w.an[i].first.empty() && w.an[i].second <= lim) { exp[reading(w.sy[i], w.an[i].second)] = w.an[i].second; real = true; }
            if (!real) { want(out, q, "\t\"" + w.in + "\" ?\n"); continue; } float last = -1; while (q < out.size() && out[q] == '\t') { std::string l = line(out, q) + "\n"; auto it = exp.find(l); if (it == exp.end()) throw Fail{"`" + w.in + "' has no reading `" + tl::oneline(l) + "'"}; if (it->second < last) throw Fail{"readings of `" + w.in + "' are not in order of weight"}; last = it->second; exp.erase(it); c.outcome(mc::hs(l)); } if (!exp.empty()) throw Fail{"`" + w.in + "': reading `" + tl::oneline(exp.begin()->first) + "' is not printed"}; } } }
        if (q != out.size()) { at = ""; throw Fail{"more is printed: " + tl::oneline(out.substr(q), 60)}; } }
    catch (const Fail &f) { return c.fail(at + f.s); }
    c.sample(c.key); }
static void tok_case(mc::Ctx &c, const T &t0, ImplementationType ty, const Opt &o, const std::vector<Toks> &texts) {
    tl::Case guard; std::string key = "hfst-tokenize"; for (auto &x : o.a) key += " " + x; c.k(key + "|" + tyname(ty) + "|" + t0.str()); T t = t0; bool wt = ty == TROPICAL_OPENFST_TYPE || ty == HFST_OLW_TYPE || ty == LOG_OPENFST_TYPE; if (!wt) { for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; }
    tl::put("f", tl::stream(std::vector<T>{t0}, ty)); std::string in; for (auto &x : texts) in += cat(x, 0, x.size()) + (o.lines ? "\n" : "\n\n"); Toks a = o.a; a.push_back(tl::path("f")); tl::Run r = tl::run("tokenize", a, in); c.trans(texts.size()); if (r.crashed) return c.fail("died from signal " + std::to_string(r.rc - 1000) + " " + tl::oneline(r.err)); if (r.rc) return c.fail("exit status " + std::to_string(r.rc) + ": " + tl::oneline(r.err));
    const std::string &out = r.out; size_t q = 0; std::string at;
    try { for (auto &x : texts) { at = "text `" + tl::oneline(cat(x, 0, x.size())) + "': "; int number = 0; auto ws = segment(t, x); for (auto &w : ws) {
        if (w.none) { if (!o.all) continue; switch (o.fmt) { case 'z': want(out, q, w.in + "\n"); break; case 'i': want(out, q, w.in + "\n"); break; case 'x': want(out, q, w.in + "\t" + w.in + "+?\n"); break; case 'c': want(out, q, "\"<" + w.in + ">\"\n\t\"" + w.in + "\" ?\n"); break; case 'C': want(out, q, w.in + "\n"); break; } continue; }
        ++number; if (w.known) c.nontrivial(); c.state(mc::hs(at) ^ mc::hs(c.key));
        // what may be printed: the analyses, all of the best classes
        std::map<std::pair<std::string, float>, int> m; for (auto &y : w.an) ++m[y]; if (o.uniq && !o.weights) { std::map<std::string, float> b; for (auto &y : w.an) { auto it = b.find(y.first); if (it == b.end() || y.second < it->second) b[y.first] = y.second; } /* which weight stays is free */ }
        float best = DEF; for (auto &y : w.an) best = std::min(best, y.second); std::set<float> cl; for (auto &y : w.an) if (!y.first.empty()) cl.insert(y.second); float lim = DEF; if (o.cls) { int k = 0; for (float f : cl) if (k++ < o.cls) lim = f; }
        if (o.fmt == 'z') want(out, q, w.in + (o.weights ? "\t" + num(best) : "") + "\n");
        else if (o.fmt == 'i') want(out, q, w.in + (o.weights ? "\t" + num(best) : "") + " ");
        else if (o.fmt == 'C') { std::string h = std::to_string(number) + "\t" + w.in + "\t_\t_\t_\t_\t_\t_\t_\t"; want(out, q, h); std::string l = line(out, q); bool ok = false; for (auto &y : w.an) if (y.second == best && l == (y.first.empty() ? "_" : y.first) + (o.weights ? "\t" + num(best) : "")) ok = true; if (!ok) throw Fail{"`" + w.in + "' is analysed as `" + l + "'"}; }
        else { std::multimap<std::string, float> exp; std::set<std::string> must; bool any = false;
            auto str = [&](const std::pair<std::string, float> &y) { return (o.fmt == 'x' ? w.in + "\t" + y.first : y.first.compare(0, w.in.size(), w.in) == 0 ? "\t\"" + w.in + "\"" + y.first.substr(w.in.size()) : "\t" + y.first) + (o.weights ? "\t" + num(y.second, o.fmt == 'c') : ""); };
            for (auto &y : m) { bool none = y.first.first.empty() && o.cls; if (y.first.second > lim && !none) continue; if (o.fmt == 'x' && (y.first.first == w.in || (o.beam >= 0 && y.first.second > best + o.beam))) continue; any = true; for (int k = 0; k < (o.uniq ? 1 : y.second); ++k) exp.insert({str(y.first), y.first.second}); if (!none) must.insert(str(y.first)); }
            if (o.fmt == 'x' && !any) { exp.insert({str({w.in, best}), best}); must.insert(str({w.in, best})); }
            if (o.fmt == 'c') want(out, q, "\"<" + w.in + ">\"\n"); float last = -1; std::set<std::string> seen; while (q < out.size() && out[q] != '\n') { std::string l = line(out, q); auto rg = exp.equal_range(l); if (rg.first == rg.second) throw Fail{"`" + w.in + "' has no analysis `" + l + "'"}; auto use = rg.first; for (auto it = rg.first; it != rg.second; ++it) if (it->second >= last && (use->second < last || it->second < use->second)) use = it; if (use->second < last) throw Fail{"analyses of `" + w.in + "' are not in order of weight"}; last = use->second; exp.erase(use); if (o.uniq && !seen.insert(l).second) throw Fail{"`" + l + "' is printed twice"}; must.erase(l); c.outcome(mc::hs(l)); }
            if (!must.empty()) throw Fail{"`" + w.in + "': `" + *must.begin() + "' is not printed"}; ++q; } }
        if (o.fmt == 'z' || o.fmt == 'x') want(out, q, "\n"); else if ((o.fmt == 'i' || o.fmt == 'C') && q < out.size() && out[q] == '\n') ++q; }
        if (q != out.size()) { at = ""; throw Fail{"more is printed: " + tl::oneline(out.substr(q), 60)}; } }
    catch (const Fail &f) { return c.fail(at + f.s); }
    c.sample(c.key); }
static T lexicon(const std::vector<int> &v, unsigned salt) { T t; int n = 2; for (size_t k = 0; k < v.size(); ++k) { auto &e = EN[v[k]]; int q = 0; size_t l = std::max(e.in.size(), e.out.size()); for (size_t i = 0; i < l; ++i) { int to = i + 1 == l ? 1 : n++; t.arcs.push_back({q, to, i < e.in.size() ? e.in[i] : EPS, i < e.out.size() ? e.out[i] : EPS, i == 0 ? e.w : 0}); q = to; } } t.n = n; t.fin[1] = salt % 2 ? 0.5f : 0; return t; }
static void build(bool th) {
    EN = {{{"a"}, {"a", "<n>"}, 0.5f}, {{"a"}, {"b", "<v>"}, 0}, {{"a"}, {"a"}, 1}, {{"a", "b"}, {"a", "b", "<n>"}, 0}, {{"b"}, {"b", "<n>"}, 1}, {{"a", " ", "b"}, {"a", "b", "<n>"}, 0}, {{"a", "."}, {"a", ".", "<x>"}, 0.5f}, {{"."}, {".", "<p>"}, 0}, {{"é"}, {"e", "<n>"}, 0.5f}, {{"b", " ", "x"}, {"b"}, 2}, {{"a", "a"}, {"a"}, 0.5f}, {{" "}, {"<s>"}, 0}, {{"a", " "}, {"a", "<s>"}, 0}, {{"ab"}, {"<m>"}, 0}};
    int m = EN.size() - 1; for (int i = 0; i < m; ++i) { LX.push_back(lexicon({i}, i)); for (int j = i + 1; j < m; ++j) { LX.push_back(lexicon({i, j}, i + j)); for (int k = j + 1; k < m; ++k) if (th || mc::mix(i * 100 + j * 10 + k) % 3 == 0) LX.push_back(lexicon({i, j, k}, i + j + k)); } }
    { T t = lexicon({0}, 0); t.arcs.push_back({0, 1, "a", "a", 2}); t.arcs.push_back({0, 1, "b", EPS, 0}); LX.push_back(t); T u = lexicon({0, 3}, 0); for (size_t k = 0, z = u.arcs.size(); k < z; ++k) { Arc a = u.arcs[k]; int off = u.n; if (a.s > 1) a.s += off; if (a.t > 1) a.t += off; u.arcs.push_back(a); } u.n *= 2; LX.push_back(u); }
    Toks ab = {"a", "b", "x", " ", "."}; std::vector<Toks> seq{{}}; for (int l = 0; l <= (th ? 5 : 4); ++l) { if (l) { TX.insert(TX.end(), seq.begin(), seq.end()); } std::vector<Toks> nx; for (auto &x : seq) for (auto &y : ab) { Toks z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
    for (auto &x : std::vector<Toks>{{"é"}, {"é", "a"}, {"a", " ", "é"}, {"é", ".", "é"}, {"a", "-", "b"}, {"a", ",", " ", "b"}, {"a", " ", "b", " ", "x"}, {"b", " ", "x", " ", "a"}, {"a", "b", " ", "a", " ", "b"}, {"x", " ", "x", ".", " ", "a", "."}}) TX.push_back(x);
    seq = {{}}; ab = {"a", "b", "x", " ", ".", "\n"}; for (int l = 0; l <= (th ? 4 : 3); ++l) { if (l) for (auto &x : seq) { bool ok = x[0] != "\n" && x.back() != "\n"; for (size_t k = 1; k < x.size(); ++k) ok &= !(x[k] == "\n" && x[k - 1] == "\n"); if (ok) TN.push_back(x); } std::vector<Toks> nx; for (auto &x : seq) for (auto &y : ab) { Toks z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
    seq = {{}}; ab = {"a", "b", " ", ".", "[z]", "[\\]\n]"}; for (int l = 0; l <= (th ? 4 : 3); ++l) { if (l) for (auto &x : seq) TB.push_back(x); std::vector<Toks> nx; for (auto &x : seq) for (auto &y : ab) { Toks z = x; z.push_back(y); nx.push_back(z); } seq = nx; }
    auto opt = [](Toks a, std::function<void(Opt &)> f) { Opt o; o.a = a; f(o); OP.push_back(o); };
    opt({"-n"}, [](Opt &) {}); opt({"-z", "-a", "-w"}, [](Opt &o) { o.all = o.weights = true; o.lines = false; }); opt({"-x", "-n"}, [](Opt &o) { o.fmt = 'x'; }); opt({"--xerox", "-a", "-w", "-n"}, [](Opt &o) { o.fmt = 'x'; o.all = o.weights = true; }); opt({"-x", "-u", "-a"}, [](Opt &o) { o.fmt = 'x'; o.uniq = o.all = true; o.lines = false; }); opt({"-x", "-b", "0.5", "-n", "--print-weights"}, [](Opt &o) { o.fmt = 'x'; o.beam = 0.5f; o.weights = true; }); opt({"-x", "-l", "1", "-n", "-w", "-u"}, [](Opt &o) { o.fmt = 'x'; o.cls = 1; o.weights = o.uniq = true; }); opt({"-x", "-l2", "-n", "-w", "-W"}, [](Opt &o) { o.fmt = 'x'; o.cls = 2; });
    opt({"-c", "-n", "-a"}, [](Opt &o) { o.fmt = 'c'; o.all = true; }); opt({"--cg", "-w", "-l", "1"}, [](Opt &o) { o.fmt = 'c'; o.weights = true; o.lines = false; o.cls = 1; }); opt({"-i", "-n"}, [](Opt &o) { o.fmt = 'i'; }); opt({"--space-separated", "-n", "--print-all"}, [](Opt &o) { o.fmt = 'i'; o.all = true; }); opt({"-C", "-n"}, [](Opt &o) { o.fmt = 'C'; }); opt({"--conllu", "-w", "-n", "-a"}, [](Opt &o) { o.fmt = 'C'; o.weights = o.all = true; });
}
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C28";
    h.spaces = [](bool th) { build(th); fprintf(stderr, "dictionaries %zu texts %zu %zu options %zu\n", LX.size(), TX.size(), TN.size(), OP.size()); std::vector<mc::Space> v; static mc::u64 NO = OP.size(); static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, HFST_OLW_TYPE, HFST_OL_TYPE, SFST_TYPE, FOMA_TYPE};
        v.push_back({"dictionaries", (mc::u64)LX.size() * 2 * NO, [](mc::u64 i, mc::Ctx &c) { const Opt &o = OP[i / 2 % NO]; tok_case(c, LX[i / 2 / NO], TY[i & 1], o, o.lines ? TX : TN); }, 60, 20});
        v.push_back({"giella-cg", (mc::u64)LX.size() * 4, [](mc::u64 i, mc::Ctx &c) { giella_case(c, LX[i / 4], TY[i & 1], i & 2, i & 2 ? TB : TX); }, 60, 20});
        v.push_back({"other-types", (mc::u64)LX.size() * 3 * 4, [](mc::u64 i, mc::Ctx &c) { static const int os[] = {0, 3, 6, 8}; tok_case(c, LX[i / 12], TY[2 + i % 3], OP[os[i / 3 % 4]], TX); }, 60, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
