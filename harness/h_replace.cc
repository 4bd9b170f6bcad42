// C16: replace rules.  Every rule built from small lists of centres, outputs, contexts, arrows and context marks is
// compiled by the real regular-expression compiler; the result is compared, input string by input string, with a
// brute-force rewriting of the string straight from the definition of the operators.
#include "mc.h"
#include "refx.h"
#include "parsers/XreCompiler.h"
using namespace ref; using namespace hfst; typedef std::vector<std::string> SV;
static const Univ U({"a", "b", "c", "x"});   // x is never mentioned in a rule
typedef std::set<std::string> SS;
// a small language given as an explicit finite set (of strings over a b c), or with a star; contexts may mention the boundary #
struct Lang { std::string text; SS s; };
static const std::vector<Lang> CEN = {{"a", {"a"}}, {"a b", {"ab"}}, {"a|b", {"a", "b"}}, {"a+", {"a", "aa", "aaa", "aaaa"}}, {"a b|b a", {"ab", "ba"}}, {"a|a b", {"a", "ab"}}, {"a a|b", {"aa", "b"}}, {"a b a|b", {"aba", "b"}}, {"a|a a b", {"a", "aab"}}};
static const std::vector<Lang> OUT = {{"b", {"b"}}, {"0", {""}}, {"c a", {"ca"}}, {"b|c", {"b", "c"}}, {"a", {"a"}}, {"a a", {"aa"}}};
static const std::vector<Lang> CTX = {{"", {""}}, {"a", {"a"}}, {"b", {"b"}}, {".#.", {"#"}}, {"a b", {"ab"}}, {"a|.#.", {"a", "#"}}, {"c", {"c"}}, {"b a", {"ba"}}};
enum Arrow { RIGHT, OPT, LEFT, OPTLEFT, LTRL, LTRS, RTLL, RTLS }; static const char *AN[] = {"->", "(->)", "<-", "(<-)", "@->", "@>", "->@", ">@"};
static const char *MK[] = {"||", "//", "\\\\", "\\/"};
struct Map { Lang a, b; int markup = 0; }; // markup: a -> b ... c
struct Rule { std::vector<Map> maps; std::vector<std::pair<Lang, Lang>> ctx; int mark = 0; };
static bool suf(const std::string &s, const SS &l) { for (auto &x : l) if (s.size() >= x.size() && !s.compare(s.size() - x.size(), x.size(), x)) return true; return false; }
static bool pre(const std::string &s, const SS &l) { for (auto &x : l) if (!s.compare(0, x.size(), x)) return true; return false; }
struct Seg { int i, j; std::string out; bool rep; int rule; };
// all rewritings of u (input side of the arrow) for rules applied in parallel
struct Rew {
    const std::vector<Rule> &R; Arrow ar; std::string u; SS out;
    Rew(const std::vector<Rule> &R, Arrow ar, const std::string &u) : R(R), ar(ar), u(u) {}
    // can rule r replace [i,j)?  in: the input, left/right output strings for output-side contexts
    bool ctx(const Rule &r, int i, int j, const std::string &lo, const std::string &ro) const {
        if (r.ctx.empty()) return true; bool L_out = r.mark == 1 || r.mark == 3, R_out = r.mark == 2 || r.mark == 3; // left context on the output side for // and \/
        std::string l = "#" + (L_out ? lo : u.substr(0, i)), rr = (R_out ? ro : u.substr(j)) + "#";
        for (auto &c : r.ctx) if (suf(l, c.first.s) && pre(rr, c.second.s)) return true; return false; }
    SS outs(const Rule &r, int i, int j) const { SS o; std::string s = u.substr(i, j - i); for (auto &m : r.maps) if (m.a.s.count(s)) { if (m.markup) o.insert("b" + s + "c"); else o.insert(m.b.s.begin(), m.b.s.end()); } return o; }
    void run() { std::vector<Seg> s; go(0, s); }
    void go(int i, std::vector<Seg> &s) {
        if (i == (int)u.size()) { check(s); return; }
        s.push_back({i, i + 1, u.substr(i, 1), false, -1}); go(i + 1, s); s.pop_back();
        for (size_t r = 0; r < R.size(); ++r) for (int j = i + 1; j <= (int)u.size(); ++j) for (auto &o : outs(R[r], i, j)) { s.push_back({i, j, o, true, (int)r}); go(j, s); s.pop_back(); } }
    void check(const std::vector<Seg> &s) {
        std::string o; std::vector<int> pos; for (auto &x : s) { pos.push_back(o.size()); o += x.out; } pos.push_back(o.size());
        for (size_t k = 0; k < s.size(); ++k) if (s[k].rep && !ctx(R[s[k].rule], s[k].i, s[k].j, o.substr(0, pos[k]), o.substr(pos[k + 1]))) return;
        auto match = [&](int i, int j, const std::string &lo, const std::string &ro) { for (auto &r : R) if (!outs(r, i, j).empty() && ctx(r, i, j, lo, ro)) return true; return false; };
        int n = u.size();
        if (ar == RIGHT || ar == LEFT) { // no unreplaced stretch contains a match
            for (size_t k = 0; k < s.size(); ++k) for (size_t m = k; m < s.size() && !s[m].rep; ++m) if (match(s[k].i, s[m].j, o.substr(0, pos[k]), o.substr(pos[m + 1]))) return; }
        else if (ar == LTRL || ar == LTRS) { int p = 0; size_t k = 0; while (p < n) { int L = 0; for (int j = p + 1; j <= n; ++j) if (match(p, j, "", "")) { L = j; if (ar == LTRS) break; } while (s[k].i < p) ++k; if (L ? !(s[k].rep && s[k].i == p && s[k].j == L) : s[k].rep) return; p = s[k].j; } }
        else if (ar == RTLL || ar == RTLS) { int p = n; size_t k = s.size(); while (p > 0) { int L = -1; for (int i = p - 1; i >= 0; --i) if (match(i, p, "", "")) { L = i; if (ar == RTLS) break; } --k; if (L >= 0 ? !(s[k].rep && s[k].i == L) : s[k].rep) return; p = s[k].i; } }
        out.insert(o); }
};
static std::string text(const std::vector<Rule> &R, Arrow ar) { std::string s; for (size_t k = 0; k < R.size(); ++k) { if (k) s += " ,, "; for (size_t m = 0; m < R[k].maps.size(); ++m) { if (m) s += " , "; auto &mp = R[k].maps[m]; s += "[" + mp.a.text + "] " + AN[ar] + " " + (mp.markup ? std::string("b ... c") : "[" + mp.b.text + "]"); }
        if (!R[k].ctx.empty()) { s += std::string(" ") + MK[R[k].mark]; for (size_t m = 0; m < R[k].ctx.size(); ++m) { if (m) s += " ,"; auto &c = R[k].ctx[m]; if (!c.first.text.empty()) s += " [" + c.first.text + "]"; s += " _"; if (!c.second.text.empty()) s += " [" + c.second.text + "]"; } } } return s; }
static Str pack(const std::string &s) { Str r = 0; for (char ch : s) r = sapp(r, U.of(std::string(1, ch))); return r; }
static bool rel2(const Con &c, int Lu, int Lv, Rel &out) {
    std::set<std::pair<int, SP>> seen; std::vector<std::pair<int, SP>> w = {{0, SP(0, 0)}}; seen.insert(w[0]);
    for (size_t h = 0; h < w.size(); ++h) { auto x = w[h]; if (h > 300000) return false; if (c.fin[x.first].first) out[x.second] = 0;
        for (auto &a : c.st[x.first]) { auto y = x; y.first = a.t; if (a.i) { if (slen(y.second.first) >= Lu) continue; y.second.first = sapp(y.second.first, a.i); } if (a.o) { if (slen(y.second.second) >= Lv) continue; y.second.second = sapp(y.second.second, a.o); } if (seen.insert(y).second) w.push_back(y); } }
    return true; }
static int LEN = 4;
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
static void judge(mc::Ctx &c, const std::vector<Rule> &R, Arrow ar, ImplementationType ty) {
    if (ar >= LTRL) for (auto &r : R) if (r.mark && !r.ctx.empty()) { c.skip(); return; }
    // \\/ with left and right contexts lets replacements justify each other; the manuals leave the result open
    { bool l = false, r2 = false; for (auto &r : R) if (r.mark == 3) for (auto &x : r.ctx) { l |= !x.first.text.empty(); r2 |= !x.second.text.empty(); } if (l && r2) { c.skip(); return; } }
    std::string t = text(R, ar); c.k(std::string(tyname(ty)) + " " + t); c.trans();
    xre::XreCompiler comp(ty); comp.set_verbosity(false); std::ostringstream err; comp.set_error_stream(&err); std::unique_ptr<HfstTransducer> h(comp.compile(t)); if (!h) return c.fail("refused: " + err.str());
    bool left = ar == LEFT || ar == OPTLEFT; Con g = concretize(*h, U); if (!g.err.empty()) return c.fail(g.err); if (left) g = x_inv(g);
    std::vector<Rule> S = R; if (left) for (auto &r : S) for (auto &m : r.maps) std::swap(m.a, m.b);
    bool relaxed = false; if (ar == RIGHT || ar == LEFT) for (auto &r : R) if (r.mark && !r.ctx.empty()) relaxed = true;
    Rel want, got; if (!rel2(g, LEN, 10, got)) return c.fail("diverges");
    std::vector<Str> ws; x_allstr(U, LEN, ws); for (Str w : ws) { std::string u; for (int i = 0; i < slen(w); ++i) u += U.name[sat(w, i) - 1]; Rew rw(S, ar, u); rw.run(); for (auto &o : rw.out) if (o.size() <= 10) want[SP(w, pack(o))] = 0;
        // with contexts on the output side, two replacements can justify or exclude each other, and several results
        // satisfy the definition; the compiler may prefer some of these, but must give at least one, and no others
        if (relaxed && rw.out.size() > 1) { std::vector<SP> miss; bool some = false; for (auto &o : rw.out) if (o.size() <= 10) { SP x(w, pack(o)); if (got.count(x)) some = true; else miss.push_back(x); } if (some) for (auto &x : miss) want.erase(x); } }
    std::string d = rel_diff(want, got, U, false); if (!d.empty()) return c.fail("the rule" + std::string(left ? " (inverted)" : "") + " differs:" + d); c.outcome(rel_hash(got)); c.state(rel_hash(want)); c.nontrivial(); c.sample(c.key); }
// the 20 combinations of arrow and context mark whose meaning is documented
static void am(mc::u64 &i, Arrow &ar, int &mark) { int k = i % 20; i /= 20; if (k < 16) { ar = (Arrow)(k % 4); mark = k / 4; } else { ar = (Arrow)(LTRL + k - 16); mark = 0; } }
static Map mp(Arrow ar, const Lang &a, const Lang &b, bool mk = false) { Map m{a, b, mk}; if (!mk && (ar == LEFT || ar == OPTLEFT)) std::swap(m.a, m.b); return m; }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C16";
    h.spaces = [](bool th) { std::vector<mc::Space> v; int nC = CEN.size(), nO = OUT.size(), nX = CTX.size();
        v.push_back({"single", (mc::u64)nC * nO * 8, [=](mc::u64 i, mc::Ctx &c) { Rule r; Arrow ar = (Arrow)(i % 8); i /= 8; r.maps = {mp(ar, CEN[i % nC], OUT[i / nC])}; for (auto ty : TY) if (!c.failed) judge(c, {r}, ar, ty); }, 8});
        // one rule, one context
        int qC = th ? nC : 6, qO = th ? nO : 2, qX = th ? nX : 5;
        v.push_back({"context", (mc::u64)20 * qX * qX * qC * qO, [=](mc::u64 i, mc::Ctx &c) { Rule r; Arrow ar; am(i, ar, r.mark); r.ctx = {{CTX[i % qX], CTX[i / qX % qX]}}; i /= qX * qX; r.maps = {mp(ar, CEN[i % qC], OUT[i / qC])}; judge(c, {r}, ar, TY[0]); }, 8});
        // one rule, two contexts
        v.push_back({"contexts", (mc::u64)20 * 3 * 25 * 25, [=](mc::u64 i, mc::Ctx &c) { if (!th && i / 20 % 3) { c.skip(); return; } Rule r; Arrow ar; am(i, ar, r.mark); int k = i % 3; i /= 3; r.ctx = {{CTX[i % 5], CTX[i / 5 % 5]}, {CTX[i / 25 % 5], CTX[i / 125]}}; if (i % 25 >= i / 25 || (!th && (i % 5 == 3 || i / 5 % 5 == 3 || i / 25 % 5 == 4 || i / 125 == 2))) { c.skip(); return; } r.maps = {mp(ar, CEN[k], OUT[k])}; judge(c, {r}, ar, TY[0]); }, 8});
        // two mappings in one rule, with and without a context
        v.push_back({"mappings", (mc::u64)20 * 36 * 9 * 4, [=](mc::u64 i, mc::Ctx &c) { Rule r; Arrow ar; am(i, ar, r.mark); int k = i % 36; i /= 36; int o = i % 9; i /= 9; if (k % 6 >= k / 6 || (!th && k / 6 > 3) || (!th && o % 4)) { c.skip(); return; } if (i) r.ctx = {{CTX[i == 1 || i == 3 ? 1 : 0], CTX[i == 2 ? 2 : i == 3 ? 3 : 0]}}; else if (r.mark) { c.skip(); return; } r.maps = {mp(ar, CEN[k % 6], OUT[o % 3]), mp(ar, CEN[k / 6], OUT[o / 3])}; judge(c, {r}, ar, TY[0]); }, 8});
        // two parallel rules, each with its own context
        v.push_back({"parallel", (mc::u64)20 * 16 * 9 * 16, [=](mc::u64 i, mc::Ctx &c) { std::vector<Rule> R(2); Arrow ar; int mark; am(i, ar, mark); int k = i % 16; i /= 16; int o = i % 9; i /= 9; if (!th && (o % 4 != 1 || k % 4 > 1 || (k + i + mark) % 2)) { c.skip(); return; }
            for (int q = 0; q < 2; ++q) { R[q].mark = mark; int x = q ? i / 4 : i % 4; if (x) R[q].ctx = {{CTX[x == 1 || x == 3 ? 1 : 0], CTX[x == 2 ? 2 : x == 3 ? 3 : 0]}}; R[q].maps = {mp(ar, CEN[q ? k / 4 : k % 4], OUT[q ? o / 3 : o % 3])}; } if (R[0].ctx.empty() && R[1].ctx.empty() && mark) { c.skip(); return; } judge(c, R, ar, TY[0]); }, 8});
        // markup
        v.push_back({"markup", (mc::u64)20 * nC * 16, [=](mc::u64 i, mc::Ctx &c) { Rule r; Arrow ar; am(i, ar, r.mark); if (ar == LEFT || ar == OPTLEFT) { c.skip(); return; } int k = i % nC; i /= nC; if (i) r.ctx = {{CTX[i % 4], CTX[i / 4]}}; else if (r.mark) { c.skip(); return; } r.maps = {mp(ar, CEN[k], OUT[0], true)}; judge(c, {r}, ar, TY[0]); }, 8});
        // markup together with a second mapping, or in parallel with a second rule
        v.push_back({"markup2", (mc::u64)20 * 4 * 4 * 2 * 2 * 4, [=](mc::u64 i, mc::Ctx &c) { std::vector<Rule> R(1); Arrow ar; int mark; am(i, ar, mark); if (ar == LEFT || ar == OPTLEFT) { c.skip(); return; } int k = i % 16; i /= 16; bool par = i % 2, swap = i / 2 % 2; int x = i / 4; if (!th && x % 2) { c.skip(); return; } Map m1 = mp(ar, CEN[k % 4], OUT[0], true), m2 = mp(ar, CEN[6 + k / 8], OUT[k / 4 % 2]);
            m2 = mp(ar, k / 8 ? CEN[1] : Lang{"c|b", {"c", "b"}}, OUT[k / 4 % 2]); if (swap) std::swap(m1, m2); R[0].maps = {m1}; R[0].mark = mark; if (x) R[0].ctx = {{CTX[x == 1 || x == 3 ? 1 : 0], CTX[x == 2 ? 2 : x == 3 ? 3 : 0]}}; else if (mark) { c.skip(); return; }
            if (par) { R.push_back(R[0]); R[1].maps = {m2}; } else R[0].maps.push_back(m2); judge(c, R, ar, TY[0]); }, 8});
        // parallel rules of which one or both have two contexts
        v.push_back({"parallel2", (mc::u64)20 * 3 * 9 * 9, [=](mc::u64 i, mc::Ctx &c) { std::vector<Rule> R(2); Arrow ar; int mark; am(i, ar, mark); int k = i % 3; i /= 3; int x = i % 9, y = i / 9; if ((!x && !y) || (!th && x > 3)) { c.skip(); return; } auto cx = [](int q) { std::vector<std::pair<Lang, Lang>> v; if (q) { --q; v = {{CTX[1 + q % 2], CTX[0]}, {CTX[q / 2 % 2 ? 3 : 0], CTX[q / 4 ? 2 : 3]}}; } return v; };
            R[0].maps = {mp(ar, CEN[0], OUT[0])}; R[1].maps = {mp(ar, k ? CEN[1] : Lang{"c", {"c"}}, OUT[k == 2])}; R[0].mark = R[1].mark = mark; R[0].ctx = cx(x); R[1].ctx = cx(y); judge(c, R, ar, TY[0]); }, 8});
        return v; };
    return mc::drive(argc, argv, h);
}
