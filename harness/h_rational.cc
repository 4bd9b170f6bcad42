// C01: rational operations denote what their definition says, on every back end.
#include "mc.h"
#include "ref.h"
using namespace ref; using namespace hfst;

static std::vector<T> units, bins; static Univ U;
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE};
enum Un { STAR, PLUS, N0, N1, N2, N3, NMINUS0, NMINUS1, NMINUS2, NPLUS0, NPLUS1, NPLUS2, NTOK00, NTOK02, NTOK12, NTOK13, NTOK22, OPT, INV, REV, IPROJ, OPROJ, COPY, UN_END };
static const char *UNN[] = {"repeat_star", "repeat_plus", "repeat_n(0)", "repeat_n(1)", "repeat_n(2)", "repeat_n(3)", "repeat_n_minus(0)", "repeat_n_minus(1)", "repeat_n_minus(2)", "repeat_n_plus(0)", "repeat_n_plus(1)", "repeat_n_plus(2)", "repeat_n_to_k(0,0)", "repeat_n_to_k(0,2)", "repeat_n_to_k(1,2)", "repeat_n_to_k(1,3)", "repeat_n_to_k(2,2)", "optionalize", "invert", "reverse", "input_project", "output_project", "copy"};
static const int L = 3;

static Rel r_range(const Rel &a, int lo, int hi) { Rel r; for (int i = lo; i <= hi; ++i) r = r_union(r, r_power(a, i, L)); return r; }
static Rel spec(int op, const Rel &a) {
    switch (op) {
    case STAR: return r_star(a, L); case PLUS: return r_concat(a, r_star(a, L), L);
    case N0: return r_power(a, 0, L); case N1: return a; case N2: return r_power(a, 2, L); case N3: return r_power(a, 3, L);
    case NMINUS0: return r_range(a, 0, 0); case NMINUS1: return r_range(a, 0, 1); case NMINUS2: return r_range(a, 0, 2);
    case NPLUS0: return r_star(a, L); case NPLUS1: return r_concat(a, r_star(a, L), L); case NPLUS2: return r_concat(r_power(a, 2, L), r_star(a, L), L);
    case NTOK00: return r_range(a, 0, 0); case NTOK02: return r_range(a, 0, 2); case NTOK12: return r_range(a, 1, 2); case NTOK13: return r_range(a, 1, 3); case NTOK22: return r_range(a, 2, 2);
    case OPT: return r_union(a, r_eps()); case INV: return r_invert(a); case REV: return r_reverse(a);
    case COPY: return a;
    }
    return a;
}
static void impl(int op, HfstTransducer &t) {
    switch (op) {
    case STAR: t.repeat_star(); break; case PLUS: t.repeat_plus(); break;
    case N0: t.repeat_n(0); break; case N1: t.repeat_n(1); break; case N2: t.repeat_n(2); break; case N3: t.repeat_n(3); break;
    case NMINUS0: t.repeat_n_minus(0); break; case NMINUS1: t.repeat_n_minus(1); break; case NMINUS2: t.repeat_n_minus(2); break;
    case NPLUS0: t.repeat_n_plus(0); break; case NPLUS1: t.repeat_n_plus(1); break; case NPLUS2: t.repeat_n_plus(2); break;
    case NTOK00: t.repeat_n_to_k(0, 0); break; case NTOK02: t.repeat_n_to_k(0, 2); break; case NTOK12: t.repeat_n_to_k(1, 2); break; case NTOK13: t.repeat_n_to_k(1, 3); break; case NTOK22: t.repeat_n_to_k(2, 2); break;
    case OPT: t.optionalize(); break; case INV: t.invert(); break; case REV: t.reverse(); break;
    case IPROJ: t.input_project(); break; case OPROJ: t.output_project(); break;
    case COPY: { HfstTransducer c(t); HfstTransducer d(t.get_type()); d = c; t = d; break; }
    }
}
static bool unweighted(ImplementationType ty) { return ty == SFST_TYPE || ty == FOMA_TYPE; }

static bool has_eps(const T &t) { for (auto &a : t.arcs) if (a.i == EPS && a.o == EPS) return true; return false; }
static void un_case(mc::Ctx &c, const T &t, int op, ImplementationType ty) {
    if (unweighted(ty) && t.weighted()) { c.skip(); return; }
    if (ty == LOG_OPENFST_TYPE && has_eps(t)) { c.skip(); return; }
    c.k(std::string(UNN[op]) + "|" + tyname(ty) + "|" + t.str());
    HfstTransducer h = to_hfst(t, ty); impl(op, h); c.trans();
    Con got = concretize(h, U); if (!got.err.empty()) return c.fail(got.err);
    Con in = concretize(t, U);
    bool pl = !(op == IPROJ || op == OPROJ);
    Rel want, g;
    if (pl) { want = spec(op, plang(in, L)); g = plang(got, L); }
    else { // projection: a projection may not lengthen: compute the relation of the model with projected labels
        Con p = in; for (auto &s : p.st) for (auto &a : s) (op == IPROJ ? a.o = a.i : a.i = a.o);
        want = rel(p, L); g = rel(got, L); }
    c.state(rel_hash(want) ^ op); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U, ty != LOG_OPENFST_TYPE);
    if (!d.empty()) c.fail(d); else c.sample(c.key + " -> " + std::to_string(g.size()) + " pairs");
}
static void bin_case(mc::Ctx &c, const T &a, const T &b, int op, ImplementationType ty, bool self) {
    if (unweighted(ty) && (a.weighted() || b.weighted())) { c.skip(); return; }
    if (ty == LOG_OPENFST_TYPE && (has_eps(a) || has_eps(b))) { c.skip(); return; }
    c.k(std::string(op ? "disjunct" : "concatenate") + "|" + tyname(ty) + "|" + a.str() + "|" + (self ? "itself" : b.str()));
    HfstTransducer h = to_hfst(a, ty);
    if (self) { if (op) h.disjunct(h); else h.concatenate(h); }
    else { HfstTransducer g = to_hfst(b, ty); if (op) h.disjunct(g); else h.concatenate(g); }
    c.trans();
    Con got = concretize(h, U); if (!got.err.empty()) return c.fail(got.err);
    Pl pa = plang(concretize(a, U), L), pb = plang(concretize(b, U), L);
    Rel want = op ? r_union(pa, pb) : r_concat(pa, pb, L), g = plang(got, L);
    c.state(rel_hash(want) ^ op); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U, ty != LOG_OPENFST_TYPE);
    if (!d.empty()) c.fail(d); else c.sample(c.key + " -> " + std::to_string(g.size()) + " pairs");
}

int main(int argc, char **argv) {
    mc::Harness h; h.property = "C01";
    h.rule = "x";
    h.spaces = [](bool th) {
        U = Univ({"a", "b", "x", "y"});
        std::vector<Label> LB = {{"a", "a"}, {"a", "b"}, {"a", EPS}, {EPS, "b"}, {EPS, EPS}, {IDN, IDN}, {UNK, "a"}, {UNK, UNK}};
        std::vector<T> s; enum_T(1, LB, 2, true, s); enum_T(2, LB, 2, true, s); if (th) enum_T(3, LB, 2, false, s);
        for (auto &t : s) { units.push_back(t); if (t.arcs.size() + t.fin.size()) units.push_back(generic_weights(t)); }
        std::vector<Label> LB2 = {{"a", "a"}, {"a", "b"}, {EPS, "b"}, {EPS, EPS}, {IDN, IDN}};
        std::vector<T> s2; enum_T(1, LB2, 1, true, s2); enum_T(2, LB2, th ? 2 : 1, true, s2);
        for (auto &t : s2) { bins.push_back(t); bins.push_back(generic_weights(t)); }
        fprintf(stderr, "units %zu bins %zu\n", units.size(), bins.size());
        mc::u64 nu = units.size(), nb = bins.size();
        std::vector<mc::Space> v;
        v.push_back({"unary", nu * UN_END * TY.size(), [nu](mc::u64 i, mc::Ctx &c) { un_case(c, units[i / (UN_END * 4)], i % UN_END, TY[i / UN_END % 4]); }, 2000});
        v.push_back({"binary", nb * nb * 2 * TY.size(), [nb](mc::u64 i, mc::Ctx &c) { bin_case(c, bins[i / 8 / nb], bins[i / 8 % nb], i % 2, TY[i / 2 % 4], false); }, 2000});
        v.push_back({"self", nu * 2 * TY.size(), [nu](mc::u64 i, mc::Ctx &c) { bin_case(c, units[i / 8], units[i / 8], i % 2, TY[i / 2 % 4], true); }, 2000});
        return v;
    };
    return mc::drive(argc, argv, h);
}
