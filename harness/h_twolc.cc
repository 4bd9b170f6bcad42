// C15: two-level grammars: the compiled rules accept exactly the pair strings that the rules allow.
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstExceptionDefs.h"
#include "parsers/TwolcCompiler.h"
#include <sys/stat.h>
using namespace ref; using namespace hfst; using std::string;
typedef std::vector<string> SV; typedef std::pair<string, string> PR; typedef std::vector<int> W;
namespace {
static const string WBS = "@#@";
// the pairs that strings are made of: 1.. = sig[0..]; feasible or not
struct Sig { std::vector<PR> p; std::vector<char> ok; int id(const string &i, const string &o) const { for (size_t k = 0; k < p.size(); ++k) if (p[k] == PR(i, o)) return k + 1; return -1; }
    Con set(std::function<bool(const PR &)> f) const { Con c = x_new(2); c.fin[1] = {true, 0}; for (size_t k = 0; k < p.size(); ++k) if (ok[k] && f(p[k])) c.st[0].push_back({1, (int)k + 1, (int)k + 1, 0}); return c; }
    Univ univ() const { SV v; for (auto &x : p) v.push_back(x.first + ":" + x.second); return Univ(v); } };
struct Ex { string t; std::function<Con(const Sig &)> m; };
static Ex pr(const string &i, const string &o) { return {i == o ? i : i + ":" + o, [=](const Sig &s) { return s.set([&](const PR &x) { return x == PR(i, o); }); }}; }
static Ex in(const string &i) { return {i + ":", [=](const Sig &s) { return s.set([&](const PR &x) { return x.first == i; }); }}; }
static Ex out(const string &o) { return {":" + o, [=](const Sig &s) { return s.set([&](const PR &x) { return x.second == o && x.first != WBS; }); }}; }
static Ex any() { return {"?", [](const Sig &s) { return s.set([](const PR &) { return true; }); }}; }
static Ex wb() { return {"#", [](const Sig &s) { return s.set([](const PR &x) { return x.first == WBS; }); }}; }
static Ex eps() { return {"", [](const Sig &) { return x_eps(); }}; }
static Ex cat(Ex a, Ex b) { return {a.t + " " + b.t, [=](const Sig &s) { return x_concat(a.m(s), b.m(s)); }}; }
static Ex uni(Ex a, Ex b) { return {"[ " + a.t + " | " + b.t + " ]", [=](const Sig &s) { return x_union(a.m(s), b.m(s)); }}; }
static Ex star(Ex a) { return {"[ " + a.t + " ]*", [=](const Sig &s) { return x_star(a.m(s)); }}; }
static Ex plus(Ex a) { return {"[ " + a.t + " ]+", [=](const Sig &s) { return x_star(a.m(s), true); }}; }
static Ex opt(Ex a) { return {"( " + a.t + " )", [=](const Sig &s) { return x_opt(a.m(s)); }}; }
static Con sigma(const Sig &s) { return s.set([](const PR &) { return true; }); }
static Con sstar(const Sig &s) { return x_star(sigma(s)); }
static Con minus(const Con &a, const Con &b, const Sig &s) { return x_minus(a, b, s.univ()); }
static Ex tcompl(Ex a) { return {"\\" + a.t, [=](const Sig &s) { return minus(sigma(s), a.m(s), s); }}; }
static Ex compl_(Ex a) { return {"~[ " + a.t + " ]", [=](const Sig &s) { return minus(sstar(s), a.m(s), s); }}; }
static Ex contains(Ex a) { return {"$[ " + a.t + " ]", [=](const Sig &s) { return x_concat(x_concat(sstar(s), a.m(s)), sstar(s)); }}; }
static Ex diff(Ex a, Ex b) { return {"[ " + a.t + " - " + b.t + " ]", [=](const Sig &s) { return minus(a.m(s), b.m(s), s); }}; }
static Ex conj(Ex a, Ex b) { return {"[ " + a.t + " & " + b.t + " ]", [=](const Sig &s) { return x_and(a.m(s), b.m(s)); }}; }
static Ex pow_(Ex a, int n) { return {"[ " + a.t + " ]^" + std::to_string(n), [=](const Sig &s) { return x_power(a.m(s), n, n); }}; }
static Ex ins(Ex a, Ex b) { return {"[ " + a.t + " / " + b.t + " ]", [=](const Sig &s) { return x_ignore(a.m(s), b.m(s)); }}; }
static Ex setany(const string &n, SV v) { return {n, [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(v.begin(), v.end(), x.first) && std::count(v.begin(), v.end(), x.second); }); }}; }
static Ex setin(const string &n, SV v) { return {n + ":", [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(v.begin(), v.end(), x.first); }); }}; }
static Ex setout(const string &n, SV v) { return {":" + n, [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(v.begin(), v.end(), x.second); }); }}; }
static Ex named(const string &n, Ex a) { return {n, a.m}; }
struct TCtx { Ex l, r; string str() const { return l.t + " _ " + r.t + " ;"; } };
struct TRule { std::vector<PR> centers; string op; std::vector<TCtx> pos, neg; string ctext, where; SV diac; Ex rx; bool isrx = false;
    string text(const string &name) const { string s = "\"" + name + "\"\n"; if (isrx) s += "<[ " + rx.t + " ]>"; else if (!ctext.empty()) s += ctext; else for (size_t i = 0; i < centers.size(); ++i) s += (i ? " | " : "") + centers[i].first + ":" + centers[i].second;
        s += " " + (!isrx ? op : op == "=>" ? "==>" : op == "<=" ? "<==" : op == "<=>" ? "<==>" : "/<==") + "\n"; for (auto &c : pos) s += "  " + c.str() + "\n"; if (!neg.empty()) { s += "except\n"; for (auto &c : neg) s += "  " + c.str() + "\n"; } if (!where.empty()) s += "where " + where + " ;\n"; return s; } };
// the definition, evaluated on a pair string w (with the boundaries)
struct Dfa { Con c; std::vector<std::vector<int>> d; void make(const Con &a, const Sig &s) { c = x_det(a, s.univ(), false); d.assign(c.st.size(), std::vector<int>(s.p.size() + 1, -1)); for (size_t q = 0; q < c.st.size(); ++q) for (auto &x : c.st[q]) d[q][x.i] = x.t; } };
static bool accepts(const Dfa &d, const W &w, size_t a, size_t b) { int q = 0; for (size_t k = a; k < b; ++k) q = d.d[q][w[k]]; return d.c.fin[q].first; }
struct CSet { std::vector<std::pair<Dfa, Dfa>> pos, neg; Con lang; // the contexts of one rule
    bool at(const W &w, size_t b, size_t e) const { auto any = [&](const std::vector<std::pair<Dfa, Dfa>> &v) { for (auto &c : v) if (accepts(c.first, w, 0, b) && accepts(c.second, w, e, w.size())) return true; return false; }; return any(pos) && !any(neg); } };
static CSet comp_ctx(const TRule &r, const Sig &s, bool lang) { CSet c; Con lp = x_empty(), ln = x_empty(); int mark = s.p.size() + 1; for (auto *v : {&r.pos, &r.neg}) for (auto &x : *v) { std::pair<Dfa, Dfa> p; Con l = x_concat(sstar(s), x.l.m(s)), t = x_concat(x.r.m(s), sstar(s)); p.first.make(l, s); p.second.make(t, s); (v == &r.pos ? c.pos : c.neg).push_back(p); if (lang) { Con &u = v == &r.pos ? lp : ln; u = x_union(u, x_concat(x_concat(l, x_pair(mark, mark)), t)); } }
    if (lang) { SV n = s.univ().name; n.push_back("_"); Univ U(n); int wb = s.id(WBS, "0"); Con in1 = x_new(1); in1.fin[0] = {true, 0}; for (int k = 1; k <= mark; ++k) if (k != wb) in1.st[0].push_back({0, k, k, 0}); Con form = x_concat(x_concat(x_pair(wb, wb), in1), x_pair(wb, wb)); c.lang = x_and(x_minus(lp, ln, U), form); } return c; }
static bool x_isempty(const Con &a) { Con t = x_trim(a); for (auto &f : t.fin) if (f.first) return false; return true; }
// the demands of a grammar after its conflicts are resolved
struct Demand { PR center; char kind; std::vector<CSet> ctx, except; TRule rx; Dfa cen; SV diac; }; // kind: R(ight) L(eft) N(ot)
static std::vector<Demand> demands(const std::vector<TRule> &rules, const Sig &s, bool rl, bool rr) { std::vector<Demand> d; size_t done = 0; for (auto &r : rules) { while (done < d.size()) ++done; struct Att { std::vector<Demand> &d; size_t from; const SV &v; ~Att() { for (size_t k = from; k < d.size(); ++k) d[k].diac = v; } } att{d, done, r.diac}; CSet cs = comp_ctx(r, s, rl && (r.op == "<=" || r.op == "<=>") && !r.isrx); if (r.isrx) { Demand x; x.kind = 'X'; x.rx = r; x.ctx = {cs}; x.cen.make(r.rx.m(s), s); d.push_back(x); continue; }
        for (auto &c : r.centers) { if (r.op == "=>" || r.op == "<=>") { Demand *old = nullptr; if (rr) for (auto &x : d) if (x.kind == 'R' && x.center == c) old = &x; if (old) old->ctx.push_back(cs); else d.push_back({c, 'R', {cs}, {}}); }
            if (r.op == "<=" || r.op == "<=>") { Demand n = {c, 'L', {cs}, {}}; if (rl) for (auto &x : d) if (x.kind == 'L' && x.center.first == c.first) { SV nm = s.univ().name; nm.push_back("_"); Univ U(nm); if (x_isempty(x_and(x.ctx[0].lang, n.ctx[0].lang))) continue; if (x_isempty(x_minus(n.ctx[0].lang, x.ctx[0].lang, U))) { x.except.push_back(n.ctx[0]); x.ctx[0].lang = x_minus(x.ctx[0].lang, n.ctx[0].lang, U); } else if (x_isempty(x_minus(x.ctx[0].lang, n.ctx[0].lang, U))) { n.except.push_back(x.ctx[0]); n.ctx[0].lang = x_minus(n.ctx[0].lang, x.ctx[0].lang, U); } } d.push_back(n); }
            if (r.op == "/<=") d.push_back({c, 'N', {cs}, {}}); } } return d; }
static bool holds(const Demand &d, const W &w, const Sig &s) { auto at = [&](size_t b, size_t e) { for (auto &c : d.except) if (c.at(w, b, e)) return false; for (auto &c : d.ctx) if (c.at(w, b, e)) return true; return false; };
    if (d.kind == 'X') { auto &r = d.rx; for (size_t b = 0; b <= w.size(); ++b) for (size_t e = b; e <= w.size(); ++e) { bool cen = accepts(d.cen, w, b, e); if (cen && (r.op == "=>" || r.op == "<=>") && !at(b, e)) return false; if (cen && r.op == "/<=" && at(b, e)) return false;
            if (!cen && (r.op == "<=" || r.op == "<=>") && at(b, e)) { std::vector<std::set<int>> q(e - b + 1); q[0] = {0}; for (size_t k = b; k < e; ++k) for (int x : q[k - b]) for (size_t y = 0; y < s.p.size(); ++y) if (s.ok[y] && s.p[y].first == s.p[w[k] - 1].first) q[k - b + 1].insert(d.cen.d[x][y + 1]); for (int x : q[e - b]) if (d.cen.c.fin[x].first) return false; } } return true; }
    for (size_t p = 0; p < w.size(); ++p) { auto &x = s.p[w[p] - 1]; if (d.kind == 'R' && x == d.center && !at(p, p + 1)) return false; if (d.kind == 'N' && x == d.center && at(p, p + 1)) return false; if (d.kind == 'L' && x != d.center && x.first == d.center.first && at(p, p + 1)) return false; } return true; }
// ---- running the compiler ----
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static int compile(const string &text, std::vector<HfstBasicTransducer> &out, ImplementationType ty, bool rl, bool rr) {
    string f = "/tmp/verif-twolc-" + std::to_string(getpid()), o = f + ".out"; { std::ofstream x(f); x << text; } int r; { r = hfst::twolc::TwolcCompiler::compile(f, o, true, false, rl, rr, ty); }
    if (r == 0) { HfstInputStream i(o); while (i.is_good()) { HfstTransducer t(i); out.push_back(HfstBasicTransducer(t)); } i.close(); } unlink(f.c_str()); unlink(o.c_str()); return r; }
// the pair string is accepted by a rule transducer
struct Run { std::vector<std::vector<std::pair<int, int>>> a; std::vector<char> fin; string err; };
static Run prep(const HfstBasicTransducer &b, const Sig &s) { Run r; auto &al = b.get_alphabet(); int n = 0; for (auto &st : b) { r.a.push_back({}); r.fin.push_back(b.is_final_state(n)); std::set<PR> seen; for (auto &t : st) { PR x(t.get_input_symbol(), t.get_output_symbol()); if (!seen.insert(x).second) r.err = "a rule is not deterministic"; if (x.first == EPS && x.second == EPS) r.err = "a rule has an empty transition"; if (t.get_weight() != 0) r.err = "a rule has weights";
            if (x.first == IDN) { for (size_t k = 0; k < s.p.size(); ++k) if (s.p[k].first == s.p[k].second && !al.count(s.p[k].first)) r.a.back().push_back({(int)k + 1, (int)t.get_target_state()}); } else { if (x.first == EPS) x.first = "0"; if (x.second == EPS) x.second = "0"; int k = s.id(x.first, x.second); if (k > 0) r.a.back().push_back({k, (int)t.get_target_state()}); } } ++n; } return r; }
static bool accept(const Run &r, const W &w) { int q = 0; for (int x : w) { int t = -1; for (auto &y : r.a[q]) if (y.first == x) t = y.second; if (t < 0) return false; q = t; } return r.fin[q]; }
struct Gram { string head; std::vector<PR> decl; std::vector<TRule> rules, texts; SV diac; bool rl = false, rr = true, samename = false; };
static string show(const Sig &s, const W &w) { string r; for (int x : w) r += s.p[x - 1].first + ":" + s.p[x - 1].second + " "; return r; }
static string text(const Gram &g) { string t = "Alphabet"; for (auto &p : g.decl) t += " " + (p.first == p.second ? p.first : p.first + ":" + p.second); t += " ;\n"; if (!g.diac.empty()) { t += "Diacritics"; for (auto &d : g.diac) t += " " + d; t += " ;\n"; } t += g.head + "Rules\n"; auto &v = g.texts.empty() ? g.rules : g.texts; for (size_t i = 0; i < v.size(); ++i) t += v[i].text(g.samename ? "r" : "r" + std::to_string(i)); return t; }
static void check(mc::Ctx &c, const Gram &g, std::vector<PR> probe, ImplementationType ty, int L, const string &pre = "") {
    string src = text(g); c.k(string(tyname(ty)) + (g.rl ? "|resolve-left" : "") + (g.rr ? "" : "|dont-resolve-right") + "|" + (pre.empty() ? "" : "after " + pre + "\n") + src); c.trans();
    Sig s; std::set<PR> feas(g.decl.begin(), g.decl.end()); for (auto &r : g.rules) for (auto &x : r.centers) feas.insert(x); for (auto &d : g.diac) feas.insert(PR(d, "0")); for (auto &p : probe) { s.p.push_back(p); s.ok.push_back(p.first == "d" || p.first == WBS || feas.count(p)); }
    std::vector<Demand> cr = demands(g.rules, s, g.rl, g.rr); std::vector<HfstBasicTransducer> out; int rc = compile(src, out, ty, g.rl, g.rr); if (rc) return c.fail("the grammar was refused with code " + std::to_string(rc));
    std::vector<Run> rs; for (auto &b : out) { rs.push_back(prep(b, s)); if (!rs.back().err.empty()) return c.fail(rs.back().err); }
    int n = s.p.size(), wbi = s.id(WBS, "0"); uint64_t h = 7; long good = 0, all = 0; W w; std::function<bool(int)> rec = [&](int l) { { W x = {wbi}; x.insert(x.end(), w.begin(), w.end()); x.push_back(wbi); bool want = true; for (int y : w) if (!s.ok[y - 1]) want = false; if (want) for (auto &r : cr) { W z; for (int y : x) { auto &n = s.p[y - 1].first; if (!std::count(g.diac.begin(), g.diac.end(), n) || std::count(r.diac.begin(), r.diac.end(), n)) z.push_back(y); } if (!holds(r, z, s)) want = false; } bool got = true; for (auto &r : rs) if (!accept(r, x)) got = false; ++all; good += want; h = h * 1000003 + got; if (want != got) { c.fail(string(got ? "accepts " : "rejects ") + show(s, w)); return false; } } if (l == 0) return true; for (int k = 1; k <= n; ++k) if (k != wbi) { w.push_back(k); bool r = rec(l - 1); w.pop_back(); if (!r) return false; } return true; };
    if (rec(L)) { c.sample(c.key); c.outcome(h); if (good < all) c.nontrivial(); c.state(h); } }
// variables: the assignments of where clauses
typedef std::map<string, string> Asg; struct Block { std::vector<std::pair<string, SV>> v; string matcher; };
static std::vector<Asg> assignments(const std::vector<Block> &bs) { std::vector<Asg> r = {{}}; for (auto &b : bs) { std::vector<Asg> n; for (auto &a : r) { std::vector<size_t> ix(b.v.size(), 0); for (;;) { bool ok = true; if (b.matcher == "matched") for (size_t k : ix) ok = ok && k == ix[0]; if (b.matcher == "mixed") for (size_t x = 0; x < ix.size(); ++x) for (size_t y = 0; y < x; ++y) ok = ok && ix[x] != ix[y]; if (ok) { Asg z = a; for (size_t k = 0; k < ix.size(); ++k) z[b.v[k].first] = b.v[k].second[ix[k]]; n.push_back(z); } size_t k = 0; while (k < ix.size() && ++ix[k] == b.v[k].second.size()) ix[k++] = 0; if (k == ix.size()) break; } } r = n; } return r; }
static string wtext(const std::vector<Block> &bs, bool sets) { string t; for (size_t i = 0; i < bs.size(); ++i) { if (i) t += " and "; for (auto &x : bs[i].v) { t += x.first + " in "; if (sets && x.second == SV{"a", "b"}) t += "V "; else { t += "( "; for (auto &y : x.second) t += y + " "; t += ") "; } } t += bs[i].matcher; } return t; }
typedef std::function<TRule(Asg)> Tmpl; static string val(Asg &a, const string &n) { return a.count(n) ? a[n] : n; }
static bool varcase(Gram &g, const Tmpl &t, const std::vector<Block> &bs, bool sets) { TRule x = t({}); x.where = wtext(bs, sets); g.texts.push_back(x); for (auto &a : assignments(bs)) g.rules.push_back(t(a)); return true; }
static std::vector<Ex> LC, RC; static std::vector<std::vector<PR>> CEN; static const std::vector<PR> D1 = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"a", "0"}};
static const std::vector<PR> PROBE = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"a", "0"}, {"0", "b"}, {"d", "d"}, {WBS, "0"}};
static void init() { if (!LC.empty()) return; auto a = pr("a", "a"), b = pr("b", "b"), ab = pr("a", "b"), a0 = pr("a", "0");
    LC = {eps(), a, b, in("a"), out("b"), ab, wb(), cat(a, b), uni(a, b), cat(b, star(a)), cat(opt(b), a), tcompl(b), any(), cat(wb(), star(any())), cat(in("a"), plus(b)), compl_(cat(star(any()), b)), contains(a0), pow_(a, 2), diff(in("a"), a), conj(in("a"), out("b")), ins(cat(a, b), a0), cat(wb(), opt(b)), star(b), out("0")};
    RC = {eps(), a, b, in("a"), out("b"), wb(), cat(a, b), uni(a0, cat(b, wb())), cat(star(b), a), tcompl(a), any(), cat(star(any()), wb()), cat(contains(ab), wb()), compl_(cat(a, star(any())))};
    CEN = {{{"a", "b"}}, {{"a", "0"}}, {{"a", "a"}}, {{"0", "b"}}, {{"a", "b"}, {"a", "0"}}, {{"a", "b"}, {"b", "b"}}}; }
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C15"; init();
    h.spaces = [](bool th) { std::vector<mc::Space> v; typedef mc::u64 u64; static const char *ops[] = {"=>", "<=", "<=>", "/<="}; u64 nl = LC.size(), nr = RC.size(), nc = CEN.size();
        v.push_back({"one-rule", nl * nr * nc * 4, [=](u64 i, mc::Ctx &c) { TRule r; r.op = ops[i % 4]; i /= 4; r.centers = CEN[i % nc]; i /= nc; if ((r.op == "<=" || r.op == "<=>") && (r.centers[0].first == "0" || (r.centers.size() > 1 && r.centers[0].first == r.centers[1].first))) { c.skip(); return; } r.pos.push_back(TCtx{LC[i % nl], RC[i / nl]}); Gram g; g.decl = D1; g.rules = {r}; check(c, g, PROBE, TROPICAL_OPENFST_TYPE, th ? 5 : 4); }, 200});
        // several contexts and negative contexts
        static std::vector<TCtx> CP; if (CP.empty()) { auto a = pr("a", "a"), b = pr("b", "b"), ab = pr("a", "b"); CP = {TCtx{b, eps()}, TCtx{eps(), b}, TCtx{b, b}, TCtx{wb(), eps()}, TCtx{eps(), wb()}, TCtx{in("a"), eps()}, TCtx{eps(), cat(a, wb())}, TCtx{ab, in("a")}, TCtx{eps(), eps()}, TCtx{cat(wb(), b), tcompl(a)}}; }
        u64 np = CP.size(); static const std::vector<std::vector<PR>> C2 = {{{"a", "b"}}, {{"a", "0"}}, {{"0", "b"}}, {{"a", "b"}, {"b", "b"}}};
        v.push_back({"contexts", np * (np + 1) * (np + 1) * 16, [=](u64 i, mc::Ctx &c) { TRule r; r.op = ops[i % 4]; i /= 4; r.centers = C2[i % 4]; i /= 4; if ((r.op == "<=" || r.op == "<=>") && r.centers[0].first == "0") { c.skip(); return; } u64 x = i % np, y = i / np % (np + 1), z = i / np / (np + 1); if (!th && (x + y + z) % 2) { c.skip(); return; } r.pos.push_back(CP[x]); if (y < np) r.pos.push_back(CP[y]); if (z < np) r.neg.push_back(CP[z]); Gram g; g.decl = D1; g.rules = {r}; check(c, g, PROBE, TROPICAL_OPENFST_TYPE, th ? 4 : 3); }, 200});
        // two rules, with the three ways of resolving conflicts
        static const std::vector<PR> C3 = {{"a", "b"}, {"a", "0"}, {"a", "a"}, {"b", "b"}};
        v.push_back({"two-rules", 16 * 16 * 36 * 3, [=](u64 i, mc::Ctx &c) { u64 i0 = i; Gram g; int m = i % 3; g.rr = m != 1; g.rl = m == 2; i /= 3; g.decl = D1; for (int k = 0; k < 2; ++k) { TRule r; r.op = ops[i % 4]; i /= 4; r.centers = {C3[i % 4]}; i /= 4; r.pos = {CP[i % 6 == 5 ? 8 : i % 6]}; i /= 6; g.rules.push_back(r); } if (!th && (m == 0 ? (i0 / 3 + i0 / 288) % 2 : 0)) { c.skip(); return; } if (!th && m && g.rules[0].centers[0].first != g.rules[1].centers[0].first) { c.skip(); return; }
            if (g.rl && g.rules[0].pos[0].str() == g.rules[1].pos[0].str()) { c.skip(); return; } check(c, g, PROBE, TROPICAL_OPENFST_TYPE, th ? 4 : 3); }, 200});
        // regular expressions as centers
        static std::vector<Ex> XC; if (XC.empty()) { auto a = pr("a", "a"), b = pr("b", "b"), ab = pr("a", "b"), a0 = pr("a", "0"); XC = {ab, cat(ab, b), uni(ab, a0), cat(a, opt(a0)), uni(cat(a0, a), b), cat(ab, in("a")), plus(a0)}; }
        u64 nx = XC.size(); v.push_back({"regex-center", nx * np * 4, [=](u64 i, mc::Ctx &c) { TRule r; r.isrx = true; r.op = ops[i % 4]; i /= 4; r.pos = {CP[i % np]}; r.rx = XC[i / np]; Gram g; g.decl = D1; g.rules = {r}; check(c, g, PROBE, TROPICAL_OPENFST_TYPE, th ? 5 : 4); }, 50});
        // rules with variables
        static std::vector<Tmpl> TM; static std::vector<std::vector<Block>> BL; if (TM.empty()) { auto sy = [](Asg &a, const string &n) { string x = val(a, n); return pr(x, x); };
            TM = {[=](Asg a) { TRule r; r.centers = {{val(a, "X"), val(a, "Y")}}; r.pos = {TCtx{pr("b", "b"), eps()}}; return r; }, [=](Asg a) { TRule r; r.centers = {{"a", "b"}}; r.pos = {TCtx{sy(a, "X"), sy(a, "Y")}}; return r; }, [=](Asg a) { TRule r; r.centers = {{"a", val(a, "Y")}}; r.pos = {TCtx{eps(), in(val(a, "X"))}}; return r; },
                [=](Asg a) { TRule r; r.centers = {{val(a, "X"), "0"}}; r.pos = {TCtx{out(val(a, "Y")), eps()}, TCtx{eps(), cat(sy(a, "X"), wb())}}; return r; }, [=](Asg a) { TRule r; r.centers = {{"a", "0"}}; r.pos = {TCtx{eps(), any()}}; r.neg = {TCtx{sy(a, "X"), eps()}, TCtx{eps(), sy(a, "Y")}}; return r; } };
            for (SV xs : {SV{"a", "b"}, SV{"b", "a"}, SV{"b"}}) for (SV ys : {SV{"a", "b"}, SV{"b", "a"}, SV{"a"}, SV{"b"}}) { for (auto m : {"", "matched", "mixed", "freely"}) if (string(m) != "matched" || xs.size() == ys.size()) BL.push_back({{{{"X", xs}, {"Y", ys}}, m}}); for (auto m : {"freely", "matched"}) BL.push_back({{{{"X", xs}}, m}, {{{"Y", ys}}, "freely"}}); }
            for (auto m : {"mixed", "matched"}) BL.push_back({{{{"X", {"a", "b"}}, {"Y", {"a", "0"}}}, m}}), BL.push_back({{{{"X", {"a", "b", "a"}}, {"Y", {"0", "a", "b"}}}, m}}); }
        static const std::vector<PR> D2 = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"b", "a"}, {"a", "0"}}; static const std::vector<PR> PROBE2 = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"b", "a"}, {"a", "0"}, {"b", "0"}, {"d", "d"}, {WBS, "0"}};
        u64 nt = TM.size(), nb = BL.size(); v.push_back({"variables", nt * nb * 4 * 3, [=](u64 i, mc::Ctx &c) { Gram g; g.decl = D2; string op = ops[i % 4]; i /= 4; int m = i % 3; g.rr = m != 1; bool sets = m == 2; i /= 3; auto &t = TM[i % nt]; auto &b = BL[i / nt]; if (sets) g.head = "Sets\nV = a b ;\n"; bool zero = false; for (auto &x : b) for (auto &y : x.v) for (auto &z : y.second) zero |= z == "0"; if (zero && i % nt != 0 && i % nt != 2) { c.skip(); return; } if (assignments(b).empty()) { c.skip(); return; } varcase(g, [&](Asg a) { TRule r = t(a); r.op = op; return r; }, b, sets);
            check(c, g, PROBE2, TROPICAL_OPENFST_TYPE, th ? 4 : 3); }, 50});
        // three variables in a block
        static std::vector<Tmpl> T3; static std::vector<std::vector<Block>> B3; if (T3.empty()) { auto sy = [](Asg &a, const string &n) { string x = val(a, n); return pr(x, x); };
            T3 = {[=](Asg a) { TRule r; r.centers = {{val(a, "X"), val(a, "Y")}}; r.pos = {TCtx{sy(a, "Z"), eps()}}; return r; }, [=](Asg a) { TRule r; r.centers = {{"a", "b"}}; r.pos = {TCtx{cat(sy(a, "X"), sy(a, "Y")), eps()}, TCtx{eps(), cat(sy(a, "Z"), wb())}}; return r; }};
            for (SV xs : {SV{"a", "b", "c"}, SV{"b", "a", "c"}}) for (SV ys : {SV{"b", "c", "a"}, SV{"a", "b", "c"}}) for (SV zs : {SV{"c", "a", "b"}, SV{"a", "b", "c"}, SV{"c", "b", "b"}}) { for (auto m : {"matched", "mixed", "freely"}) B3.push_back({{{{"X", xs}, {"Y", ys}, {"Z", zs}}, m}}); B3.push_back({{{{"X", xs}, {"Y", ys}}, "mixed"}, {{{"Z", zs}}, "freely"}}); } }
        static const std::vector<PR> D9 = {{"a", "a"}, {"b", "b"}, {"c", "c"}, {"a", "b"}, {"a", "c"}, {"b", "c"}, {"c", "a"}, {"b", "a"}, {"c", "b"}}; static std::vector<PR> PROBE9 = D9; if (PROBE9.size() == D9.size()) PROBE9.push_back({WBS, "0"});
        v.push_back({"three-variables", T3.size() * B3.size() * 4, [=](u64 i, mc::Ctx &c) { Gram g; g.decl = D9; string op = ops[i % 4]; i /= 4; g.rr = true; auto &t = T3[i % T3.size()]; auto &b = B3[i / T3.size()]; varcase(g, [&](Asg a) { TRule r = t(a); r.op = op; return r; }, b, false); check(c, g, PROBE9, TROPICAL_OPENFST_TYPE, th ? 4 : 3); }, 10});
        // sets and definitions
        static std::vector<Ex> SE; static std::vector<std::pair<string, std::vector<PR>>> SC; if (SE.empty()) { SV V = {"a", "b"}, Wv = {"b", "c"}, Z = {"a", "b", "c"}; SE = {setany("V", V), setin("V", V), setout("V", V), setany("W", Wv), setin("W", Wv), setout("W", Wv), setout("VW", Z), setin("VW", Z), setany("VW", Z), {"V:W", [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(V.begin(), V.end(), x.first) && std::count(Wv.begin(), Wv.end(), x.second); }); }}, {"V:b", [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(V.begin(), V.end(), x.first) && x.second == "b"; }); }}, {"a:W", [=](const Sig &s) { return s.set([&](const PR &x) { return x.first == "a" && std::count(Wv.begin(), Wv.end(), x.second); }); }}, {"W:0", [=](const Sig &s) { return s.set([&](const PR &x) { return std::count(Wv.begin(), Wv.end(), x.first) && x.second == "0"; }); }}, named("Def", uni(pr("a", "b"), cat(in("b"), star(setany("V", V))))), named("Def2", cat(pr("c", "0"), setout("W", Wv))), tcompl(setin("W", Wv)), cat(star(setany("V", V)), named("Def2", cat(pr("c", "0"), setout("W", Wv))))};
            SC = {{"", {{"a", "b"}}}, {"", {{"c", "0"}}}, {"V:W", {{"a", "b"}, {"b", "b"}}}, {"a:W", {{"a", "b"}}}, {"W:0", {{"c", "0"}}}, {"V:V", {{"a", "a"}, {"a", "b"}, {"b", "b"}}}, {"[ a:b | c:0 ]", {{"a", "b"}, {"c", "0"}}}, {"a:", {{"a", "a"}, {"a", "b"}}}}; }
        static const std::vector<PR> D3 = {{"a", "a"}, {"b", "b"}, {"c", "c"}, {"a", "b"}, {"c", "0"}}; static const std::vector<PR> PROBE3 = {{"a", "a"}, {"b", "b"}, {"c", "c"}, {"a", "b"}, {"c", "0"}, {"c", "b"}, {"d", "d"}, {WBS, "0"}};
        u64 ns = SE.size(), nsc = SC.size(); v.push_back({"sets", ns * 2 * nsc * 4, [=](u64 i, mc::Ctx &c) { Gram g; g.decl = D3; TRule r; r.op = ops[i % 4]; i /= 4; auto &sc = SC[i % nsc]; i /= nsc; r.ctext = sc.first; r.centers = sc.second; if (r.op[0] == '<' && sc.second.size() > 1 && sc.second[0].first == sc.second[1].first) { c.skip(); return; } Ex e = SE[i / 2]; r.pos = {i % 2 ? TCtx{e, eps()} : TCtx{eps(), e}}; g.rules = {r}; g.head = "Sets\nV = a b ;\nW = b c ;\nVW = V c ;\nDefinitions\nDef2 = c:0 :W ;\nDef = a:b | b: [ V ]* ;\n"; check(c, g, PROBE3, TROPICAL_OPENFST_TYPE, th ? 4 : 3); }, 50});
        // diacritics
        static std::vector<TCtx> DC; if (DC.empty()) { auto a = pr("a", "a"), b = pr("b", "b"); auto D = in("D"), E = in("E"); DC = {TCtx{b, eps()}, TCtx{eps(), b}, TCtx{b, b}, TCtx{eps(), wb()}, TCtx{in("a"), cat(b, any())}, TCtx{D, eps()}, TCtx{eps(), D}, TCtx{cat(b, D), eps()}, TCtx{cat(D, b), E}, TCtx{eps(), cat(any(), D)}}; }
        static const std::vector<PR> PROBE4 = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"D", "0"}, {"E", "0"}, {"d", "d"}, {WBS, "0"}};
        u64 nd = DC.size(); v.push_back({"diacritics", nd * (nd + 1) * 16, [=](u64 i, mc::Ctx &c) { Gram g; g.decl = {{"a", "a"}, {"b", "b"}, {"a", "b"}}; g.diac = {"D", "E"}; for (int k = 0; k < 2; ++k) { TRule r; r.op = ops[i % 4]; i /= 4; r.centers = {{"a", k ? "a" : "b"}}; u64 x = k ? i : i % nd; if (!k) i /= nd; if (x == nd) continue; r.pos = {DC[x]}; if (x >= 5) r.diac = x == 8 ? SV{"D", "E"} : SV{"D"}; g.rules.push_back(r); } check(c, g, PROBE4, TROPICAL_OPENFST_TYPE, th ? 5 : 4); }, 100});
        // one compilation after another (also after grammars that are refused); types
        static std::vector<std::pair<Gram, std::vector<PR>>> GR; static std::vector<string> BAD; if (GR.empty()) { auto a = pr("a", "a"), b = pr("b", "b"); auto add = [&](Gram g, const std::vector<PR> &p) { GR.push_back({g, p}); }; auto rule = [](std::vector<PR> c, const string &op, TCtx x, SV d = {}) { TRule r; r.centers = c; r.op = op; r.pos = {x}; r.diac = d; return r; };
            { Gram g; g.decl = D1; g.rules = {rule({{"a", "b"}}, "=>", TCtx{b, eps()}), rule({{"a", "b"}}, "=>", TCtx{eps(), b})}; add(g, PROBE); g.rr = false; add(g, PROBE); }
            { Gram g; g.decl = D1; g.rules = {rule({{"a", "b"}}, "<=", TCtx{b, eps()}), rule({{"a", "0"}}, "<=", TCtx{cat(b, b), eps()})}; g.rl = true; add(g, PROBE); g.rl = false; add(g, PROBE); }
            { Gram g; g.decl = {{"a", "a"}, {"b", "b"}, {"a", "b"}}; g.diac = {"D", "E"}; g.rules = {rule({{"a", "b"}}, "=>", TCtx{cat(b, in("D")), eps()}, {"D"}), rule({{"a", "a"}}, "/<=", TCtx{eps(), b})}; add(g, PROBE4); }
            { Gram g; g.decl = {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"D", "D"}, {"D", "0"}}; g.rules = {rule({{"a", "b"}}, "=>", TCtx{b, eps()})}; add(g, {{"a", "a"}, {"b", "b"}, {"a", "b"}, {"D", "0"}, {"D", "D"}, {WBS, "0"}}); }
            { Gram g; g.decl = D2; varcase(g, [](Asg x) { TRule r; r.op = "<=>"; r.centers = {{val(x, "X"), val(x, "Y")}}; r.pos = {TCtx{pr("b", "b"), eps()}}; return r; }, {{{{"X", {"a", "b"}}, {"Y", {"b", "0"}}}, "matched"}}, false); add(g, PROBE2); }
            { Gram g; g.decl = D3; g.head = "Sets\nV = a b ;\nX = b c ;\nDefinitions\nDef = c:0 :X ;\n"; g.rules = {rule({{"a", "b"}}, "=>", TCtx{named("Def", cat(pr("c", "0"), setout("X", {"b", "c"}))), setany("V", {"a", "b"})})}; add(g, PROBE3); }
            { Gram g; g.decl = {{"a", "a"}, {"V", "V"}, {"a", "V"}}; g.rules = {rule({{"a", "V"}}, "=>", TCtx{pr("V", "V"), eps()})}; add(g, {{"a", "a"}, {"V", "V"}, {"a", "V"}, {"d", "d"}, {WBS, "0"}}); }
            BAD = {"Alphabet a b a:b ;\nRules\n\"r\"\na:b => [ b _ ;\n\"s\"\na:b <= _ b ;\n", "Alphabet a b a:b ;\nRules\n\"r\"\nX:Y => b _ ;\nwhere X in ( a b ) Y in ( b ) matched ;\n\"s\"\na:b <= _ b ;\n", "Alphabet a b a:b ;\nSets\nV = a b ;\nZ = c ;\nRules\n\"r\"\na:b => Z: _ ;\n\"s\"\na:b <= _ b ;\n", "Alphabet a b a:b ;\nDiacritics D ;\nRules\n\"r\"\na:b => b _ ", "Alphabet a b"}; }
        u64 ng = GR.size(), nbad = BAD.size(); static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
        v.push_back({"histories", (ng + nbad) * (ng + nbad + 1) * ng * 3, [=](u64 i, mc::Ctx &c) { auto ty = TY[i % 3]; i /= 3; auto &g = GR[i % ng]; i /= ng; string pre; std::vector<u64> h = {i % (ng + nbad), i / (ng + nbad)}; if (ty != TROPICAL_OPENFST_TYPE && h[1] != ng + nbad) { c.skip(); return; } for (int k = 1; k >= 0; --k) { u64 x = h[k]; if (x == ng + nbad) continue; std::vector<HfstBasicTransducer> o; if (x < ng) { auto &y = GR[x].first; compile(text(y), o, ty, y.rl, y.rr); pre += "good " + std::to_string(x) + " "; } else { int rc = compile(BAD[x - ng], o, ty, false, true); pre += "bad " + std::to_string(x - ng) + " "; if (rc == 0) { c.k(BAD[x - ng]); return c.fail("the grammar was accepted"); } } }
            check(c, g.first, g.second, ty, 3, pre); }, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
