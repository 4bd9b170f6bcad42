// C26 hfst-pair-test: every small rule set and a file of all short pair strings, against a direct run of the rules
#include "tools.h"
using namespace ref; using namespace hfst;
namespace {
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
typedef std::pair<std::string, std::string> PR; typedef std::vector<PR> PV; static const std::string WB = "@#@";
static std::set<std::string> syms(const T &t) { std::set<std::string> r; for (auto &a : t.arcs) r.insert(a.i), r.insert(a.o); return r; }
// the state after a pair, or -1
static int step(const T &t, int s, const PR &p, const std::set<std::string> &known) { int id = -1; for (auto &a : t.arcs) if (a.s == s) { if (a.i == p.first && a.o == p.second) return a.t; if (a.i == IDN) id = a.t; } return p.first == p.second && !known.count(p.first) ? id : -1; }
// no symbol is only on transitions that are on no accepted path: a conversion may drop them
static bool useful(const T &t) { std::set<int> f{0}, b; for (auto &x : t.fin) b.insert(x.first); for (int k = 0; k < t.n; ++k) for (auto &a : t.arcs) { if (f.count(a.s)) f.insert(a.t); if (b.count(a.t)) b.insert(a.s); } for (auto &a : t.arcs) if (!f.count(a.s) || !b.count(a.t)) return false; return true; }
static bool accepts(const T &t, const PV &v, const std::set<std::string> &known) { int s = 0; for (auto &p : v) if ((s = step(t, s, p, known)) < 0) return false; return t.fin.count(s); }
// can an accepted pair string with the rest of the input begin here
static bool alive(const T &t, int s, const std::vector<std::string> &in, size_t pos, const std::set<std::string> &known) { std::set<std::pair<int, size_t>> seen{{s, pos}}; std::vector<std::pair<int, size_t>> q{{s, pos}};
    while (!q.empty()) { auto [x, k] = q.back(); q.pop_back(); if (k == in.size() && t.fin.count(x)) return true; for (auto &a : t.arcs) if (a.s == x) { size_t n = k; if (a.i == EPS) {} else if (k < in.size() && (a.i == in[k] || (a.i == IDN && !known.count(in[k])))) ++n; else continue; if (seen.insert({a.t, n}).second) q.push_back({a.t, n}); } } return false; }
static std::string un(const std::string &s) { return s == EPS ? "0" : s == WB ? "#" : s; }
static std::string text(const PR &p) { return p.first == p.second ? un(p.first) : un(p.first) + ":" + un(p.second); }
struct Line { std::string t; PV v; bool comment = false; };
static auto &LN = *new std::vector<Line>; static auto &XL = *new std::vector<std::pair<std::string, std::string>>; static auto &G = *new std::vector<T>; static auto &G2 = *new std::vector<T>;
static PV bounded(PV v) { v.insert(v.begin(), PR(WB, EPS)); v.push_back(PR(WB, EPS)); return v; }
// the rule reads the word boundaries: by loops, or only at the ends
static T wrap(const T &g, int how) { T t = g; if (how == 0) { for (int s = 0; s < t.n; ++s) t.arcs.push_back({s, s, WB, EPS, 0}); return t; } for (auto &a : t.arcs) a.s += 1, a.t += 1; T r; r.n = t.n + 2; r.arcs = t.arcs; r.arcs.push_back({0, 1, WB, EPS, 0}); for (auto &f : t.fin) r.arcs.push_back({f.first + 1, t.n + 1, WB, EPS, 0}); r.fin[t.n + 1] = 0; return r; }
static void one(mc::Ctx &c, const std::vector<T> &rules, const std::string &file, const std::vector<Line> &lines, const std::vector<bool> &pos, std::vector<std::string> opt, const std::vector<std::string> &names, const std::string &what) {
    std::set<std::string> known = syms(rules[0]); bool silent = false, verbose = false; for (auto &o : opt) silent |= o == "-s", verbose |= o == "-v"; std::string want; int rc = 0;
    for (size_t i = 0; i < lines.size(); ++i) { if (lines[i].comment) continue; PV v = bounded(lines[i].v); bool all = true; std::vector<std::string> in; for (auto &p : v) if (p.first != EPS) in.push_back(p.first);
        for (size_t r = 0; r < rules.size(); ++r) if (!accepts(rules[r], v, known)) { all = false; if (!pos[i]) continue; want += "Rule " + names[r] + " fails:\n"; int s = 0; size_t k = 0, n = 0; bool ok = alive(rules[r], 0, in, 0, known); for (; ok && k < v.size(); ++k) { int x = step(rules[r], s, v[k], known); size_t m = n + (v[k].first != EPS); if (x < 0 || !alive(rules[r], x, in, m, known)) break; s = x; n = m; want += text(v[k]) + " "; } want += "HERE ---> "; for (; k < v.size(); ++k) want += text(v[k]) + " "; want += "\n\n"; }
        if (pos[i] ? !all : all) { rc = 1; want += "FAIL: " + lines[i].t + (pos[i] ? " REJECTED\n\n" : " PASSED\n\n"); } else if (verbose) want += lines[i].t + (pos[i] ? " PASSED\n\n" : " REJECTED\n\n"); }
    want += rc ? "Test failed.\n" : "Test passed.\n"; if (silent) want = ""; tl::put("in", file); opt.insert(opt.end(), {"-i", "rules", "-I", "in", "-o", "out"}); tl::Run r = tl::run("pair-test", opt); c.trans(1); std::string got = tl::get("out"); c.state(mc::hs(file)); c.outcome(mc::hs(got));
    std::string at = what + ": "; if (r.crashed || (r.rc != 0 && r.rc != 1)) return c.fail(at + "ends with " + std::to_string(r.rc) + " " + tl::oneline(r.err)); if (r.rc != rc) return c.fail(at + "exit status " + std::to_string(r.rc) + ", should be " + std::to_string(rc));
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; size_t b = got.rfind('\n', k ? k - 1 : 0); b = b == std::string::npos || b > k ? 0 : b; return c.fail(at + "prints `" + tl::oneline(got.substr(b, 120)) + "', should be `" + tl::oneline(want.substr(b, 120)) + "'"); } }
static void pair_case(mc::Ctx &c, const std::vector<T> &rules, int ty, int mode) {
    tl::Case cs; c.key = "pair-test"; for (auto &r : rules) c.key += " " + r.str(); c.key += "|" + std::to_string(ty) + " mode " + std::to_string(mode); std::set<std::string> k0 = syms(rules[0]); bool id = false; for (auto &r : rules) if (!useful(r)) return c.skip(); for (auto &r : rules) id |= syms(r).count(IDN) > 0; for (auto &r : rules) if (id && syms(r) != k0) return c.skip();
    std::vector<HfstTransducer> v; std::vector<std::string> names; for (size_t i = 0; i < rules.size(); ++i) { HfstTransducer t = to_hfst(rules[i], TY[ty]); t.set_name(i ? "second" : "__HFST_TWOLC_RULE_NAME=the__HFST_TWOLC_SPACErule"); names.push_back(i ? "second" : "the rule"); v.push_back(t); } tl::put("rules", tl::stream(v, TY[ty]));
    std::set<std::string> known = k0; bool some = false; for (auto &l : LN) if (!l.comment) { bool a = true; for (auto &r : rules) a = a && accepts(r, bounded(l.v), known); some |= a; } if (some) c.nontrivial();
    if (mode < 4) { static const std::vector<std::string> M[] = {{}, {"-N"}, {"-s"}, {"-v", "-N"}}; bool pos = !(mode & 1); std::string all; for (auto &l : LN) all += l.t + "\n"; one(c, rules, all, LN, std::vector<bool>(LN.size(), pos), M[mode], names, "all lines");
        // the exit status: a few lines of one kind, or of both
        std::vector<Line> acc, rej; for (auto &l : LN) if (!l.comment) { bool a = true; for (auto &r : rules) a = a && accepts(r, bounded(l.v), known); (a ? acc : rej).push_back(l); } std::vector<std::vector<Line>> fs; if (acc.size() > 1) fs.push_back({acc[0], acc.back()}); if (rej.size() > 1) fs.push_back({rej[0], rej.back()}); if (!acc.empty() && !rej.empty()) fs.push_back({acc.back(), rej.back()}), fs.push_back({rej[0], acc[0]}); fs.push_back({});
        for (auto &f : fs) { std::string s; for (auto &l : f) s += (s.empty() ? "" : "\n") + l.t; one(c, rules, s, f, std::vector<bool>(f.size(), pos), M[mode], names, "lines " + tl::oneline(s)); } }
    else { // cases in the comments of a twolc file: the strings are split into the symbols of the rules and paired from left to right
        auto split = [&](const std::string &s) { std::vector<std::string> r; for (size_t i = 0; i < s.size();) { std::string ch; if (s[i] == '%') ch = s.substr(i + 1, 1), i += 2; else if (known.count("yz") && s.compare(i, 2, "yz") == 0) ch = "yz", i += 2; else ch = s.substr(i, 1), i += 1; r.push_back(ch); } return r; };
        std::vector<Line> ls; std::vector<bool> pos; std::string f = "Alphabet a b ;\n"; std::vector<Line> neg; std::string nf; for (size_t i = 0; i < XL.size(); ++i) { auto a = split(XL[i].first), b = split(XL[i].second); Line l; l.t = XL[i].first + " : " + XL[i].second; for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) { std::string x = k < a.size() ? a[k] : "0", y = k < b.size() ? b[k] : "0"; l.v.push_back({x == "0" ? EPS : x, y == "0" ? EPS : y}); } bool p = mode == 4 || (mode == 6 && i % 2); std::string pre = p ? "!!€ " : "  !!$"; f += pre + XL[i].first + "\n! a comment\n" + pre + XL[i].second + (i % 3 ? " \n" : "\n"); if (p) ls.push_back(l); else neg.push_back(l); }
        pos.assign(ls.size(), true); for (auto &l : neg) ls.push_back(l), pos.push_back(false); one(c, rules, f, ls, pos, {"-X"}, names, "twolc comments"); }
    c.sample(c.key); }
static void build(bool th) {
    std::vector<PR> lab = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"a", EPS}, {EPS, "b"}, {IDN, IDN}, {"yz", "a"}}; std::vector<std::tuple<int, int, int>> al; for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) for (size_t l = 0; l < lab.size(); ++l) al.push_back({s, t, (int)l});
    std::function<void(size_t, std::vector<int>)> rec = [&](size_t from, std::vector<int> cur) { std::set<std::pair<int, int>> d; bool det = true; for (int x : cur) det = det && d.insert({std::get<0>(al[x]), std::get<2>(al[x])}).second; if (!det) return;
        for (int f = 1; f < 4; ++f) { T t; t.n = 2; for (int x : cur) t.arcs.push_back({std::get<0>(al[x]), std::get<1>(al[x]), lab[std::get<2>(al[x])].first, lab[std::get<2>(al[x])].second, 0}); for (int k = 0; k < 2; ++k) if (f >> k & 1) t.fin[k] = 0; mc::u64 h = f; for (int x : cur) h = mc::mix(h * 41 + x); if (cur.size() < 3 || h % (th ? 2 : 8) == 0) G.push_back(t); if (h % (th ? 60 : 110) == 0 && !cur.empty()) G2.push_back(t); }
        if (cur.size() < 3) for (size_t i = from; i < al.size(); ++i) { auto n = cur; n.push_back(i); rec(i + 1, n); } };
    rec(0, {}); std::vector<PR> toks = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"a", EPS}, {EPS, "b"}, {"x", "x"}, {"x", "a"}, {"yz", "a"}, {":", ":"}}; auto w = [](const std::string &s) { return s == EPS ? "0" : s == ":" ? "\\:" : s; };
    std::vector<PV> seq{{}}, all; for (int l = 0; l <= (th ? 3 : 2); ++l) { all.insert(all.end(), seq.begin(), seq.end()); std::vector<PV> n; for (auto &s : seq) for (auto &t : toks) { auto x = s; x.push_back(t); n.push_back(x); } seq = n; } for (PV v : {PV{{"a", "a"}, {"a", "b"}, {"b", "b"}}, PV{{"a", "a"}, {"a", "a"}, {"a", "a"}}, PV{{EPS, "b"}, {"a", EPS}, {"x", "x"}, {"b", "b"}}}) all.push_back(v);
    for (auto &v : all) { if (v.empty()) continue; Line l; l.v = v; int k = mc::mix(LN.size()) % 4; if (k == 0) l.t = "  "; for (auto &p : v) l.t += (l.t.empty() || l.t == "  " ? "" : " ") + (p.first == p.second ? std::string(w(p.first)) : std::string(w(p.first)) + ":" + w(p.second)); LN.push_back(l); if (k == 1) { Line e; e.comment = true; e.t = LN.size() % 2 ? " ! a b" : ""; LN.push_back(e); } }
    for (std::string i : {"a", "b", "ab", "aab", "yz", "ayz", "x", "a0b", "%:"}) for (std::string o : {"a", "b", "bb", "ab", "0b", "a", "xa", "%:"}) XL.push_back({i, o}); }
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C26";
    h.spaces = [](bool th) { build(th); std::vector<mc::Space> v; fprintf(stderr, "rules %zu pairs of %zu lines %zu\n", G.size(), G2.size(), LN.size());
        v.push_back({"one-rule", (mc::u64)G.size() * 7, [](mc::u64 i, mc::Ctx &c) { mc::u64 k = i / 7; pair_case(c, {wrap(G[k], k % 2)}, k % 3, i % 7); }, 40, 20});
        v.push_back({"two-rules", (mc::u64)G2.size() * G2.size() * 2, [](mc::u64 i, mc::Ctx &c) { int m = i % 2; i /= 2; size_t x = i % G2.size(), y = i / G2.size(); pair_case(c, {wrap(G2[x], x % 2), wrap(G2[y], y % 2)}, (x + y) % 3, m ? (x + y) % 7 : 0); }, 40, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
