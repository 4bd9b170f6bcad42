// C09 lookup: every input against every small transducer, on the real lookup engines.
#include "mc.h"
#include "ref.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstExceptionDefs.h"
using namespace ref; using namespace hfst;
static Univ U;
typedef std::map<Str, std::set<float>> Res;
struct Look { Res r; bool infinite = false, epsloop = false, dead = false; };
// all results of reading s: (output, weight) of every accepting path.  epsloop: an input-epsilon cycle can be entered
// while reading s; infinite: one that lies on an accepting path
static Look look(const Con &c, Str s) {
    Look L; int n = c.st.size(), m = slen(s) + 1; auto id = [&](int q, int p) { return q * m + p; };
    std::vector<char> acc(n * m), co(n * m); std::vector<int> w{id(0, 0)}; acc[id(0, 0)] = 1;
    while (!w.empty()) { int x = w.back(); w.pop_back(); int q = x / m, p = x % m; for (auto &a : c.st[q]) { int y = -1; if (!a.i) y = id(a.t, p); else if (p < m - 1 && sat(s, p) == a.i) y = id(a.t, p + 1); if (y >= 0 && !acc[y]) { acc[y] = 1; w.push_back(y); } } }
    for (int q = 0; q < n; ++q) if (c.fin[q].first) co[id(q, m - 1)] = 1;
    for (bool ch = true; ch;) { ch = false; for (int q = 0; q < n; ++q) for (int p = 0; p < m; ++p) if (!co[id(q, p)]) for (auto &a : c.st[q]) { int y = -1; if (!a.i) y = id(a.t, p); else if (p < m - 1 && sat(s, p) == a.i) y = id(a.t, p + 1); if (y >= 0 && co[y]) { co[id(q, p)] = 1; ch = true; break; } } }
    for (int i = 0; i < n * m; ++i) if (acc[i] && !co[i]) L.dead = true;
    // epsilon cycles
    for (int q = 0; q < n; ++q) { std::vector<char> seen(n); std::vector<int> st{q}; bool cyc = false; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &a : c.st[x]) if (!a.i) { if (a.t == q) cyc = true; if (!seen[a.t]) { seen[a.t] = 1; st.push_back(a.t); } } }
        if (cyc) for (int p = 0; p < m; ++p) if (acc[id(q, p)]) { L.epsloop = true; if (co[id(q, p)]) L.infinite = true; } }
    if (!L.infinite) { std::function<void(int, int, Str, float)> go = [&](int q, int p, Str o, float ww) { if (!co[id(q, p)]) return; if (p == m - 1 && c.fin[q].first) L.r[o].insert(ww + c.fin[q].second);
            for (auto &a : c.st[q]) { if (a.i && !(p < m - 1 && sat(s, p) == a.i)) continue; if (a.o && slen(o) >= 14) continue; go(a.t, a.i ? p + 1 : p, a.o ? sapp(o, a.o) : o, ww + a.w); } };
        go(0, 0, 0, 0); }
    return L;
}
static bool member(const Con &c, Str s, Str o, float w, bool ignw) { // is (s,o) related with a path of weight w (within 40 arcs)?
    std::set<std::tuple<int, int, int, float>> cur, all; cur.insert({0, 0, 0, 0.f}); all = cur; int ls = slen(s), lo = slen(o);
    for (int k = 0; k < 60 && !cur.empty(); ++k) { std::set<std::tuple<int, int, int, float>> nx; for (auto &x : cur) { int q, p, r; float ww; std::tie(q, p, r, ww) = x; if (p == ls && r == lo && c.fin[q].first && (ignw || weq(ww + c.fin[q].second, w, 1e-4f))) return true; if (ignw) ww = 0;
            for (auto &a : c.st[q]) { if (a.i && !(p < ls && sat(s, p) == a.i)) continue; if (a.o && !(r < lo && sat(o, r) == a.o)) continue; auto y = std::make_tuple(a.t, a.i ? p + 1 : p, a.o ? r + 1 : r, ignw ? 0.f : ww + a.w); if ((ignw || ww + a.w <= w + 1) && all.insert(y).second) nx.insert(y); } } cur = nx; }
    return false; }
static bool pack(const StringVector &v, Str &o, std::string &err) { o = 0; for (auto &x : v) { if (x.empty() || x == EPS) continue; int k = U.of(x); if (k <= 0) { err = "output symbol '" + x + "' is not a symbol of the transducer or input"; return false; } if (slen(o) >= 14) { err = "long"; return false; } o = sapp(o, k); } return true; }
static std::string in_str(Str s, StringVector *v) { std::string r; for (int i = 0; i < slen(s); ++i) { r += U.name[sat(s, i) - 1]; if (v) v->push_back(U.name[sat(s, i) - 1]); } return r; }

static std::vector<T> S; static std::vector<Str> IN;
static std::string cmp(const Con &c, Str s, const Look &want, const Res &got, ssize_t limit, size_t count, bool exactcount) {
    if (limit >= 0 && (ssize_t)count > limit) return "more than limit results";
    if (!want.infinite && limit < 0) {
        std::ostringstream o; for (auto &x : want.r) { auto it = got.find(x.first); if (it == got.end()) o << " missing " << sshow(x.first, U); else if (!weq(*it->second.begin(), *x.second.begin(), 1e-4f)) o << " best weight of '" << sshow(x.first, U) << "' is " << *it->second.begin() << " should be " << *x.second.begin(); }
        for (auto &x : got) { auto it = want.r.find(x.first); if (it == want.r.end()) o << " extra '" << sshow(x.first, U) << "'"; else for (float w : x.second) { bool ok = false; for (float y : it->second) if (weq(y, w, 1e-4f)) ok = true; if (!ok) o << " weight " << w << " of '" << sshow(x.first, U) << "' belongs to no path"; } }
        return o.str(); }
    for (auto &x : got) for (float w : x.second) if (slen(x.first) < 12 && !member(c, s, x.first, w, want.infinite)) return " result '" + sshow(x.first, U) + "' is not in the relation";
    if (limit > 0 && !want.infinite && !want.r.empty() && got.empty()) return "no result although there is one";
    if (limit > 0 && exactcount && !want.infinite && limit >= 40 && got.size() != want.r.size()) return "fewer results than exist and fit the limit";
    return "";
}
static const char *ENG[] = {"ol", "olw", "basic"};
static void lookup_case(mc::Ctx &c, const T &t, int eng, int limit) {
    c.k(std::string(ENG[eng]) + "|limit" + std::to_string(limit) + "|" + t.str());
    bool w = eng != 0; Con con = concretize(t, U); if (!w) { for (auto &s : con.st) for (auto &a : s) a.w = 0; for (auto &f : con.fin) f.second = 0; }
    HfstBasicTransducer b = to_basic(t); std::unique_ptr<HfstTransducer> h; if (eng < 2) h.reset(new HfstTransducer(b, eng ? HFST_OLW_TYPE : HFST_OL_TYPE));
    bool anyinf = false, anycyc = false; std::string dbg;
    for (Str s : IN) {
        Look want = look(con, s); StringVector sv; std::string str = in_str(s, &sv); c.state(mc::hs(t.str()) ^ s * 77); c.trans(); if (want.r.size() > 1) c.nontrivial();
        bool amb = eng < 2 ? h->is_lookup_infinitely_ambiguous(str) : b.is_lookup_infinitely_ambiguous(sv);
        if (want.infinite && !amb) return c.fail("input '" + str + "' has infinitely many analyses but is_lookup_infinitely_ambiguous says no");
        if (!want.epsloop && amb) return c.fail("is_lookup_infinitely_ambiguous says yes for input '" + str + "' but no epsilon cycle is reachable on it");
        if (want.epsloop && (limit < 0 || limit > 2 || want.dead)) { c.skip(); continue; } // lookup is allowed to get stuck there
        Res got; size_t count = 0; std::string err; auto add = [&](const StringVector &o, float ww) { if (!eng) ww = 0; /* unweighted: weights carry no promise */ Str p; ++count; if (pack(o, p, err)) got[p].insert(ww); else if (err == "long") err = ""; };
        if (eng < 2) { for (int rep = 0; rep < 2; ++rep) { got.clear(); count = 0; std::unique_ptr<HfstOneLevelPaths> r(rep ? h->lookup_fd(sv, limit) : h->lookup_fd(str, limit)); for (auto &p : *r) add(p.second, p.first); if (!err.empty()) break;
                std::string d = cmp(con, s, want, got, limit, count, false); if (!d.empty()) return c.fail("lookup of '" + str + "': " + d); }
            std::unique_ptr<HfstTwoLevelPaths> r(h->lookup_pairs(str, limit)); got.clear(); count = 0; for (auto &p : *r) { StringVector o; std::string i; for (auto &x : p.second) { o.push_back(x.second); if (x.first != EPS && x.first != UNK && x.first != IDN) i += x.first; } add(o, p.first); } }
        else { HfstTwoLevelPaths r; size_t cyc = 3; b.lookup(sv, r, want.epsloop ? &cyc : NULL, NULL, limit); for (auto &p : r) { StringVector o; std::string i; for (auto &x : p.second) { o.push_back(x.second); if (x.first != EPS) i += x.first; } add(o, p.first); if (i != str) return c.fail("lookup of '" + str + "' returned a path whose input side is '" + i + "'"); } }
        if (!err.empty()) return c.fail("lookup of '" + str + "': " + err);
        std::string d = cmp(con, s, want, got, limit, count, true); if (!d.empty()) return c.fail("lookup of '" + str + "': " + d);
        c.outcome(mc::mix(got.size() * 131 + count)); 
    }
    c.sample(c.key);
}
// histories: lookups must leave the transducer as it was
static void history_case(mc::Ctx &c, const T &t, int eng, int act) {
    static const char *A[] = {"convert", "write+read", "copy+lookup"};
    c.k(std::string(ENG[eng]) + "|lookups then " + A[act] + "|" + t.str());
    HfstTransducer h(to_basic(t), eng ? HFST_OLW_TYPE : HFST_OL_TYPE); Con before = concretize(h, U); auto al0 = h.get_alphabet(); Con con = concretize(t, U);
    for (Str s : IN) { if (look(con, s).epsloop) { h.is_lookup_infinitely_ambiguous(in_str(s, NULL)); continue; } delete h.lookup_fd(in_str(s, NULL)); c.trans(); }
    HfstTransducer g(h); std::string f = "/dev/shm/verif_lk." + std::to_string(getpid());
    if (act == 0) g.convert(TROPICAL_OPENFST_TYPE);
    if (act == 1) { { HfstOutputStream o(f, h.get_type()); o << h << h; o.close(); } { HfstInputStream in(f); HfstTransducer x(in); HfstTransducer y(in); in.close(); g = y; } unlink(f.c_str()); }
    Con after = concretize(g, U); c.state(mc::hs(c.key)); c.nontrivial(); if (!after.err.empty()) return c.fail(after.err);
    std::string d = rel_diff(plang(before, 3), plang(after, 3), U); if (!d.empty()) return c.fail("transducer changed by lookups:" + d);
    if (g.get_alphabet() != al0) { std::string x; for (auto &y : g.get_alphabet()) x += y + " "; return c.fail("alphabet changed by lookups: " + x); }
    c.outcome(mc::hs(A[act])); c.sample(c.key);
}
// tokenization inside lookup: longest match from the left over the input symbols, one UTF-8 character when nothing matches
static std::vector<std::string> POOL = {"a", "b", "ab", "aba", "ba", "bb", "c", "abc", "\xc3\xa4", "\xc3\xa4" "a", "b\xc3\xa4"}; static std::vector<std::string> CH = {"a", "b", "c", "\xc3\xa4", "\xe2\x82\xac"}; static int TL = 4;
static std::vector<std::string> ref_tok(const std::set<std::string> &al, const std::string &s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t best = 0; for (auto &x : al) if (x.size() > best && s.compare(p, x.size(), x) == 0) best = x.size(); if (!best) { unsigned char c = s[p]; best = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; } r.push_back(s.substr(p, best)); p += best; } return r; }
static void tok_case(mc::Ctx &c, unsigned mask, int eng, bool unk, int order) {
    std::set<std::string> al; for (size_t i = 0; i < POOL.size(); ++i) if (mask >> i & 1) al.insert(POOL[i]); std::string k; for (auto &x : al) k += x + " "; c.k(std::string("tokenize|") + ENG[eng] + "|" + k + (unk ? "+?" : "")+ "|order" + std::to_string(order));
    HfstBasicTransducer b; for (auto &x : al) b.add_transition(0, HfstBasicTransition(0, x, x, 0)); if (unk) b.add_transition(0, HfstBasicTransition(0, IDN, IDN, 0)); b.set_final_weight(0, 0); HfstTransducer h(b, eng ? HFST_OLW_TYPE : HFST_OL_TYPE);
    int K = CH.size(); long tot = 1; std::vector<std::string> ins; for (int l = 0; l <= TL; ++l, tot *= K) for (long i = 0; i < tot; ++i) { std::string s; long x = i; for (int j = 0; j < l; ++j, x /= K) s += CH[x % K]; ins.push_back(s); }
    for (auto &s : std::vector<std::string>(ins.begin(), ins.begin() + 1 + K)) for (std::string tail : {"\xc3", "\xe2\x82", "\xe2", "\xf0\x9d\x84"}) { c.trans(); std::unique_ptr<HfstOneLevelPaths> r(h.lookup_fd(s + tail)); if (r->size()) return c.fail("input ending in half a character gives results"); }
    if (order) std::reverse(ins.begin(), ins.end());
    std::set<std::string> known = al; 
    for (auto &s : ins) { auto want = ref_tok(al, s); bool ok = unk; if (!unk) { ok = true; for (auto &x : want) if (!al.count(x)) ok = false; }
        std::unique_ptr<HfstOneLevelPaths> r(h.lookup_fd(s)); c.trans(); if (want.size() > 1) c.nontrivial(); c.state(mc::hs(s) ^ mask * 1000003);
        if (r->size() != (ok ? 1u : 0u)) return c.fail("'" + s + "' gives " + std::to_string(r->size()) + " results");
        if (ok && r->begin()->second != want) { std::string g; for (auto &x : r->begin()->second) g += x + " "; return c.fail("'" + s + "' was tokenized as " + g); } c.outcome(want.size()); }
    c.sample(c.key);
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C09";
    h.rule = "every transducer shape of the stated bound x every input string over {a,b,x} up to length 3 (x is outside the alphabet) x engine (OL, OLW, HfstBasicTransducer) x limit; non-trivial = more than one result, or a token sequence of more than one token";
    h.spaces = [](bool th) {
        U = Univ({"a", "b", "x"}); std::vector<mc::Space> v;
        Label aa = {"a", "a"}, bb = {"b", "b"}, ab = {"a", "b"}, ba = {"b", "a"}, a0 = {"a", EPS}, zb = {EPS, "b"}, zz = {EPS, EPS}, ii = {IDN, IDN}, ua = {UNK, "a"}, u0 = {UNK, EPS};
        for (int l = 0; l <= 3; ++l) { long n = 1; for (int i = 0; i < l; ++i) n *= 3; for (long i = 0; i < n; ++i) { Str s = 0; long x = i; for (int j = 0; j < l; ++j, x /= 3) s = sapp(s, x % 3 + 1); IN.push_back(s); } }
        std::vector<T> s; enum_T(1, {aa, ab, a0, zb, ii, ua, ba}, 3, true, s); enum_T(2, {aa, ab, ba, a0, zb, zz, ii, ua}, th ? 3 : 2, true, s); enum_T(2, {ab, zb, ii}, 3, true, s); enum_T(3, {aa, ba, zb}, 3, true, s);
        for (auto &t : s) { bool q = false; for (auto &a : t.arcs) if (a.i == IDN || a.i == UNK) q = true; if (q) { std::set<std::string> in, out; for (auto &a : t.arcs) { in.insert(a.i); out.insert(a.o); } bool oo = false; for (auto &x : out) if (x != EPS && x != UNK && x != IDN && !in.count(x)) oo = true; if (oo) continue; } S.push_back(t); S.push_back(generic_weights(t)); }
        mc::u64 n = S.size(); fprintf(stderr, "shapes %llu\n", (unsigned long long)n); static const int LIM[] = {-1, 0, 1, 2, 40};
        v.push_back({"lookup", n * 15, [](mc::u64 i, mc::Ctx &c) { lookup_case(c, S[i / 15], i % 3, LIM[i / 3 % 5]); }, 300, 4});
        v.push_back({"history", n * 6, [](mc::u64 i, mc::Ctx &c) { history_case(c, S[i / 6], i % 2, i / 2 % 3); }, 300});
        TL = th ? 5 : 4; mc::u64 M = 1 << POOL.size();
        v.push_back({"tokenize", M * 8, [](mc::u64 i, mc::Ctx &c) { tok_case(c, i / 8, i % 2, i / 2 % 2, i / 4 % 2); }, 50});
        return v; };
    return mc::drive(argc, argv, h);
}
