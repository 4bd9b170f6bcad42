// C22 combining transducers that have flag diacritics.
#include "mc.h"
#include "ref.h"
#include "refx.h"
#include "HfstExceptionDefs.h"
#include "HfstFlagDiacritics.h"
#include "HfstSymbolDefs.h"
using namespace ref; using namespace hfst;
namespace {
static Univ U, UF; // letters; letters and flags
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE};
static bool wty(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE; }
struct Flag { char op; std::string f, v; };
static bool is_flag(const std::string &s, Flag *f) { if (s.size() < 5 || s[0] != '@' || s.back() != '@' || s[2] != '.' || !strchr("PNRDCU", s[1])) return false; std::string b = s.substr(3, s.size() - 4); size_t d = b.find('.'); if (f) { f->op = s[1]; f->f = b.substr(0, d); f->v = d == std::string::npos ? "" : b.substr(d + 1); } return true; }
typedef std::map<std::string, std::string> Val; // feature -> "v" or "!v"; absent: neutral
static bool fapply(Val &v, const Flag &f) {
    auto it = v.find(f.f); std::string cur = it == v.end() ? "" : it->second; bool neg = !cur.empty() && cur[0] == '!';
    switch (f.op) {
    case 'P': v[f.f] = f.v; return true; case 'N': v[f.f] = "!" + f.v; return true; case 'C': v.erase(f.f); return true;
    case 'R': return f.v.empty() ? !cur.empty() : cur == f.v; case 'D': return f.v.empty() ? cur.empty() : cur != f.v;
    case 'U': if (cur.empty() || cur == f.v || (neg && cur.substr(1) != f.v)) { v[f.f] = f.v; return true; } return false; } return false; }
struct FArc { int t; int i, o; float w; int flag; };
struct FCon { std::vector<std::vector<FArc>> st; std::vector<std::pair<bool, float>> fin; std::vector<Flag> flags; std::string err; };
static FCon fcon(const HfstBasicTransducer &b, bool useflags, bool weights, bool outflags = false) {
    FCon c; int n = 0; for (auto it = b.begin(); it != b.end(); ++it) ++n; c.st.resize(n ? n : 1); c.fin.assign(n ? n : 1, {false, 0}); int s = 0; std::map<std::string, int> fid;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) { for (auto &t : *it) { std::string i = t.get_input_symbol(), o = t.get_output_symbol(); Flag f; float w = weights ? t.get_weight() : 0;
            if (useflags && is_flag(i, &f)) { if (!fid.count(i)) { fid[i] = c.flags.size(); c.flags.push_back(f); } int oo = is_flag(o, NULL) ? 0 : U.of(o); if (oo < 0) { c.err = "symbol " + o; continue; } c.st[s].push_back({(int)t.get_target_state(), 0, oo, w, fid[i]}); }
            else if (outflags && i != o && is_flag(o, &f)) { if (!fid.count(o)) { fid[o] = c.flags.size(); c.flags.push_back(f); } int ii = U.of(i); if (ii < 0) { c.err = "symbol " + i; continue; } c.st[s].push_back({(int)t.get_target_state(), ii, 0, w, fid[o]}); }
            else { int a = U.of(i), bb = U.of(o); if (useflags && is_flag(o, NULL)) bb = 0; if (a < 0 || bb < 0) { c.err = "unexpected symbols " + i + ":" + o; continue; } c.st[s].push_back({(int)t.get_target_state(), a, bb, w, -1}); } }
        if (b.is_final_state(s)) c.fin[s] = {true, weights ? b.get_final_weight(s) : 0}; }
    return c; }

// the same relation without flags: states are pairs of a state and a setting of the features
static Con elim(const FCon &c) { std::map<std::pair<int, Val>, int> id; std::vector<std::pair<int, Val>> w; Con r; r.err = c.err; auto get = [&](int q, const Val &v) { auto k = std::make_pair(q, v); auto it = id.find(k); if (it != id.end()) return it->second; int n = w.size(); id[k] = n; w.push_back(k); r.st.push_back({}); r.fin.push_back(c.fin[q]); return n; };
    get(0, {}); for (size_t h = 0; h < w.size(); ++h) { auto k = w[h]; for (auto &a : c.st[k.first]) { Val v = k.second; if (a.flag >= 0 && !fapply(v, c.flags[a.flag])) continue; int t = get(a.t, v); r.st[h].push_back({t, a.i, a.o, a.w}); } } return r; }
static Con flagfree(const HfstBasicTransducer &b, bool w, bool out = false) { return elim(fcon(b, true, w, out)); }
static bool hasflag(const T &t, const char *f = NULL) { for (auto &a : t.arcs) { Flag x; if (is_flag(a.i, &x) && (!f || x.f == f)) return true; } return false; }
// flags as ordinary symbols; known: unknown and identity symbols do not stand for flags
static Con symbols(HfstBasicTransducer b, bool known, bool w) { if (known) for (auto &n : UF.name) if (is_flag(n, NULL)) b.add_symbol_to_alphabet(n); Con c = concretize(b, UF); return w ? c : x_unweight(c); }
static std::vector<T> A, B, TS, XA, XB; static std::string G(const std::string &s) { std::string r = s; size_t p = r.find(".F"); if (p != std::string::npos) r.replace(p, 2, ".G"); return r; }
static const char *MN[] = {"compose", "concatenate", "intersect", "compose with flags as epsilons", "compose (features differ)"};
static void pair_case(mc::Ctx &c, const T &ta, const T &tb0, ImplementationType ty, int mode) {
    T tb = tb0; if (mode == 3 || mode == 4) { for (auto &a : tb.arcs) { a.i = is_flag(a.i, NULL) ? G(a.i) : a.i; a.o = is_flag(a.o, NULL) ? G(a.o) : a.o; } }
    if (mode == 2 && (!ta.automaton() || !tb.automaton())) { c.skip(); return; }
    c.k(std::string(MN[mode]) + "|" + tyname(ty) + "|" + ta.str() + " and " + tb.str()); bool w = wty(ty); HfstBasicTransducer ba = to_basic(ta), bb = to_basic(tb); Con fa = flagfree(ba, w), fb = flagfree(bb, w);
    Con want = mode == 1 ? x_concat(fa, fb) : x_compose(fa, fb); HfstTransducer x(ba, ty), y(bb, ty); c.trans();
    if (mode == 4) { x.insert_freely_missing_flags_from(y); y.insert_freely_missing_flags_from(x); x.compose(y); }
    else if (mode == 3) { hfst::set_flag_is_epsilon_in_composition(true); x.compose(y); hfst::set_flag_is_epsilon_in_composition(false); }
    else { x.harmonize_flag_diacritics(y, mode != 1); switch (mode) { case 0: x.compose(y); break; case 1: x.concatenate(y); break; case 2: x.intersect(y); break; } }
    HfstBasicTransducer bx(x); Con got = flagfree(bx, w); if (!got.err.empty()) return c.fail(got.err); bool lg = ty == LOG_OPENFST_TYPE;
    Rel r1 = rel(want, 3), r2 = rel(got, 3); c.state(rel_hash(r1)); c.outcome(rel_hash(r2)); if (!r1.empty()) c.nontrivial(); std::string d = rel_diff(r1, r2, U, w && !lg); if (!d.empty()) return c.fail(d);
    if (flagfree(to_basic(ta), w).st.size() && x.get_type() != ty) return c.fail("the type of the transducer changed"); c.sample(c.key);
}
static void one_case(mc::Ctx &c, const T &t, ImplementationType ty) { // flags on one side only
    c.k(std::string("twosided|") + tyname(ty) + "|" + t.str()); bool w = wty(ty); HfstBasicTransducer b = to_basic(t); HfstTransducer x(b, ty); x.twosided_flag_diacritics(); c.trans(); HfstBasicTransducer o(x);
    for (auto &s : o) for (auto &tr : s) { Flag f; std::string i = tr.get_input_symbol(), oo = tr.get_output_symbol(); if ((is_flag(i, &f) || is_flag(oo, &f)) && i != oo) return c.fail("flag diacritic on one side only: " + i + ":" + oo); }
    Rel r1 = rel(flagfree(b, w, true), 4), r2 = rel(flagfree(o, w), 4); c.state(rel_hash(r1)); c.outcome(rel_hash(r2)); if (!r1.empty()) c.nontrivial(); std::string d = rel_diff(r1, r2, U, w && ty != LOG_OPENFST_TYPE); if (!d.empty()) return c.fail(d); c.sample(c.key); }
static void sym_case(mc::Ctx &c, const T &ta, const T &tb, ImplementationType ty, bool xerox) { // flags are symbols in composition
    c.k(std::string(xerox ? "flags match ?|" : "flags do not match ?|") + tyname(ty) + "|" + ta.str() + " and " + tb.str()); bool w = wty(ty); HfstBasicTransducer ba = to_basic(ta), bb = to_basic(tb);
    Con want = x_compose(symbols(ba, !xerox, w), symbols(bb, !xerox, w)); HfstTransducer x(ba, ty), y(bb, ty); c.trans(); if (xerox) hfst::set_xerox_composition(true); x.compose(y); hfst::set_xerox_composition(false);
    HfstBasicTransducer o(x); for (auto &s : o.get_alphabet()) if (s[0] == '%') return c.fail("symbol " + s + " in the result"); Con got = symbols(o, !xerox, w); if (!got.err.empty()) return c.fail(got.err);
    Rel r1 = rel(want, 3), r2 = rel(got, 3); c.state(rel_hash(r1)); c.outcome(rel_hash(r2)); if (!r1.empty()) c.nontrivial(); std::string d = rel_diff(r1, r2, UF, w && ty != LOG_OPENFST_TYPE); if (!d.empty()) return c.fail(d);
    HfstBasicTransducer yb(y); Rel r3 = rel(symbols(bb, true, w), 3), r4 = rel(symbols(yb, true, w), 3); d = rel_diff(r3, r4, UF, w && ty != LOG_OPENFST_TYPE); if (!d.empty()) return c.fail("the second transducer changed: " + d); c.sample(c.key); }
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C22";
    h.spaces = [](bool th) { std::vector<mc::Space> v; U = Univ({"a", "b"});
        UF = Univ({"a", "b", "x", "@P.F.x@", "@R.F.x@", "@D.F.x@"});
        auto L = [](const char *a, const char *b) { return Label{a, b}; }; auto Fl = [](const char *a) { return Label{a, a}; };
        std::vector<T> s; enum_T(2, {L("a", "a"), L("a", "b"), Fl("@P.F.x@"), Fl("@R.F.x@"), Fl("@D.F.x@")}, 2, false, s); enum_T(3, {L("a", "b"), Fl("@P.F.x@"), Fl("@R.F.x@"), Fl("@U.F.y@")}, th ? 3 : 2, false, s); enum_T(3, {L("a", "a"), L("b", "a"), Fl("@P.F.y@"), Fl("@D.F.y@")}, th ? 3 : 2, false, s);
        for (auto &t : s) A.push_back(generic_weights(t)); size_t nb = 0; for (auto &t : A) { ++nb; if (th || nb % 29 == 0) B.push_back(t); }
        { std::vector<T> q; for (const char *f : {"@P.F.x@", "@R.F.x@", "@D.F.x@", "@N.F.x@", "@C.F@", "@U.F.x@", "@R.F@", "@D.F@"}) for (const char *g : {"@P.F.x@", "@R.F.x@", "@D.F.y@", "@U.F.y@", "@C.F@", "@R.F@"}) { T t; t.n = 4; t.arcs = {{0, 1, f, f, 0}, {1, 2, "a", "a", 0}, {2, 3, g, g, 0}, {1, 1, "b", "b", 0}}; t.fin[3] = 0; q.push_back(generic_weights(t)); t.arcs[3] = {2, 1, g, g, 0}; q.push_back(generic_weights(t)); }
          for (size_t i = 0; i < q.size(); ++i) { A.push_back(q[i]); if (th || i % 11 == 0) B.push_back(q[i]); } }
        fprintf(stderr, "A %zu B %zu\n", A.size(), B.size());
        v.push_back({"pairs", (mc::u64)A.size() * B.size() * 20, [](mc::u64 i, mc::Ctx &c) { int m = i % 5, ty = i / 5 % 4; i /= 20; pair_case(c, A[i / B.size()], B[i % B.size()], TY[ty], m); }, 100, 20});
        { std::vector<Label> l = {L("a", "b"), Fl("@P.F.x@"), {"@P.F.x@", EPS}, {EPS, "@R.F.x@"}, {"@D.F.x@", EPS}, {EPS, "b"}}; std::vector<T> q; enum_T(2, l, 3, false, q); enum_T(3, l, 3, false, q); for (auto &t : q) TS.push_back(generic_weights(t)); }
        v.push_back({"twosided", (mc::u64)TS.size() * 4, [](mc::u64 i, mc::Ctx &c) { one_case(c, TS[i / 4], TY[i % 4]); }, 300, 20});
        { std::vector<T> q; enum_T(2, {L("a", "a"), L("a", "b"), Fl("@P.F.x@"), Fl("@R.F.x@"), Label{IDN, IDN}, Label{UNK, "a"}}, 2, false, q); for (auto &t : q) XA.push_back(generic_weights(t)); q.clear(); enum_T(1, {L("a", "a"), Fl("@P.F.x@"), Fl("@D.F.x@"), Label{IDN, IDN}, Label{UNK, "b"}}, 3, false, q); enum_T(2, {L("a", "b"), Fl("@P.F.x@"), Label{IDN, IDN}}, 2, false, q); for (auto &t : q) XB.push_back(generic_weights(t)); }
        fprintf(stderr, "XA %zu XB %zu\n", XA.size(), XB.size());
        v.push_back({"symbols", (mc::u64)XA.size() * XB.size() * 8, [](mc::u64 i, mc::Ctx &c) { int m = i % 2, ty = i / 2 % 4; i /= 8; sym_case(c, XA[i / XB.size()], XB[i % XB.size()], TY[ty], m); }, 200, 20});
        return v; };
    return mc::drive(argc, argv, h);
}
