// C02 composition family, C03 boolean family, C04 symbols known to only one operand.
#include "mc.h"
#include "ref.h"
using namespace ref; using namespace hfst;

static Univ U; static int L = 3;
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
static bool unweighted(ImplementationType ty) { return ty == SFST_TYPE || ty == FOMA_TYPE; }

enum Op { COMPOSE, CROSS, LENIENT, INTERSECT, SUBTRACT, PRIUNION, SHUFFLE, CONCAT, DISJUNCT };
static const char *ON[] = {"compose", "cross_product", "lenient_composition", "intersect", "subtract", "priority_union", "shuffle", "concatenate", "disjunct"};

static Rel lang_shuffle(const Rel &a, const Rel &b) { // on identity relations
    Rel r;
    std::function<void(Str, Str, int, int, Str, float)> go = [&](Str x, Str y, int i, int j, Str acc, float w) {
        if (i == slen(x) && j == slen(y)) { put(r, SP(acc, acc), w); return; }
        if (i < slen(x)) go(x, y, i + 1, j, sapp(acc, sat(x, i)), w);
        if (j < slen(y)) go(x, y, i, j + 1, sapp(acc, sat(y, j)), w);
    };
    for (auto &x : a) for (auto &y : b) if (slen(x.first.first) + slen(y.first.first) <= L) go(x.first.first, y.first.first, 0, 0, 0, x.second + y.second);
    return r;
}
// all strings of the first tape, also those whose images are longer than L: project first
static Rel dom(const Con &c) { Con p = c; for (auto &s : p.st) for (auto &a : s) a.o = a.i; return rel(p, L); }
static Rel pri(const Rel &a, const Rel &da, const Rel &b) { Rel r = a; for (auto &x : b) if (!da.count(SP(x.first.first, x.first.first))) put(r, x.first, x.second); return r; }

// ?:x .o. y:? with the same middle relates a symbol to itself as well; one ?:? transition cannot say so (see DESIGN.md)
static bool unk_in(const T &t) { for (auto &a : t.arcs) if (a.i == UNK) return true; return false; }
static bool unk_out(const T &t) { for (auto &a : t.arcs) if (a.o == UNK) return true; return false; }
static bool include_known = false;

static void bin(mc::Ctx &c, const T &a, const T &b, int op, ImplementationType ty) {
    if (unweighted(ty) && (a.weighted() || b.weighted())) { c.skip(); return; }
    if (op == COMPOSE && unk_in(a) && unk_out(b) && !include_known) { c.skip(); return; }
    c.k(std::string(ON[op]) + "|" + tyname(ty) + "|" + a.str() + "|" + b.str());
    HfstTransducer x = to_hfst(a, ty), y = to_hfst(b, ty);
    Con ca = concretize(a, U), cb = concretize(b, U);
    switch (op) { case COMPOSE: x.compose(y); break; case CROSS: x.cross_product(y); break; case LENIENT: x.lenient_composition(y); break;
        case INTERSECT: x.intersect(y); break; case SUBTRACT: x.subtract(y); break; case PRIUNION: x.priority_union(y); break; case SHUFFLE: x.shuffle(y); break;
        case CONCAT: x.concatenate(y); break; case DISJUNCT: x.disjunct(y); break; }
    c.trans();
    Con got = concretize(x, U); if (!got.err.empty()) return c.fail(got.err);
    Rel want, g; bool w = true;
    switch (op) {
    case COMPOSE: want = rel(c_compose(ca, cb), L); g = rel(got, L); break;
    case CROSS: { Rel p = rel(ca, L), q = rel(cb, L); for (auto &u : p) for (auto &v : q) put(want, SP(u.first.first, v.first.first), u.second + v.second); g = rel(got, L); break; }
    case LENIENT: { Con k = c_compose(ca, cb); want = pri(rel(k, L), dom(k), rel(ca, L)); g = rel(got, L); break; }
    case INTERSECT: want = r_intersect(plang(ca, L), plang(cb, L)); g = plang(got, L); break;
    case SUBTRACT: want = r_minus(plang(ca, L), plang(cb, L)); g = plang(got, L); break;
    case PRIUNION: want = pri(rel(ca, L), dom(ca), rel(cb, L)); g = rel(got, L); break;
    case SHUFFLE: want = lang_shuffle(rel(ca, L), rel(cb, L)); g = rel(got, L); break;
    case CONCAT: want = r_concat(plang(ca, L), plang(cb, L), L); g = plang(got, L); break;
    case DISJUNCT: want = r_union(plang(ca, L), plang(cb, L)); g = plang(got, L); break;
    }
    c.state(rel_hash(want) ^ op); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U, w);
    if (!d.empty()) c.fail(d); else c.sample(c.key + " -> " + std::to_string(g.size()) + " pairs");
}
static void neg(mc::Ctx &c, const T &a, ImplementationType ty) {
    if (unweighted(ty) && a.weighted()) { c.skip(); return; }
    c.k(std::string("negate|") + tyname(ty) + "|" + a.str());
    HfstTransducer x = to_hfst(a, ty); x.negate(); c.trans();
    Con got = concretize(x, U); if (!got.err.empty()) return c.fail(got.err);
    Rel p = rel(concretize(a, U), L), want;
    std::function<void(Str)> go = [&](Str s) { if (!p.count(SP(s, s))) want[SP(s, s)] = 0; if (slen(s) < L) for (size_t k = 1; k <= U.name.size(); ++k) go(sapp(s, k)); };
    go(0);
    Rel g = rel(got, L); c.state(rel_hash(want)); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U);
    if (!d.empty()) c.fail(d);
}
static std::vector<T> A, B, C, D;
static std::vector<T> mk(std::vector<Label> lb, int n, int arcs, bool weights, bool nofinal = true) {
    std::vector<T> s, r; for (int k = 1; k <= n; ++k) enum_T(k, lb, arcs, nofinal, s);
    for (auto &t : s) { r.push_back(t); if (weights && t.arcs.size() + t.fin.size()) r.push_back(generic_weights(t)); }
    return r;
}
static mc::Space pairs(std::string nm, const std::vector<T> *a, const std::vector<T> *b, std::vector<int> ops, std::vector<ImplementationType> ty = TY) {
    mc::u64 na = a->size(), nb = b->size(), no = ops.size(), nt = ty.size();
    fprintf(stderr, "%s: %llu x %llu x %llu x %llu\n", nm.c_str(), (unsigned long long)na, (unsigned long long)nb, (unsigned long long)no, (unsigned long long)nt);
    return {nm, na * nb * no * nt, [=](mc::u64 i, mc::Ctx &c) { int op = ops[i % no]; i /= no; ImplementationType t = ty[i % nt]; i /= nt; bin(c, (*a)[i / nb], (*b)[i % nb], op, t); }, 2000};
}

int main(int argc, char **argv) {
    std::string P = mc::prop_arg(argc, argv);
    mc::Harness h; h.property = P;
    h.spaces = [P](bool th) {
        std::vector<mc::Space> v;
        Label aa = {"a", "a"}, bb = {"b", "b"}, ab = {"a", "b"}, ba = {"b", "a"}, a0 = {"a", EPS}, zb = {EPS, "b"}, zz = {EPS, EPS}, ii = {IDN, IDN}, uu = {UNK, UNK}, ua = {UNK, "a"}, au = {"a", UNK}, u0 = {UNK, EPS}, zu = {EPS, UNK}, cc = {"c", "c"}, cb = {"c", "b"};
        if (P == "C02") {
            U = Univ({"a", "b"});
            static std::vector<T> s1 = mk({aa, ab, ba, a0, zb}, 2, 2, true), s2 = mk({aa, ab, zb, a0, zz}, 2, 2, true), s3 = mk({aa, bb, zz}, 2, 2, false);
            v.push_back(pairs("compose", &s1, &s2, {COMPOSE}, {TROPICAL_OPENFST_TYPE}));
            v.push_back(pairs("compose-sf", &s1, &s2, {COMPOSE}, {SFST_TYPE, FOMA_TYPE}));
            v.push_back(pairs("cross", &s3, &s3, {CROSS}));
            static std::vector<T> s4 = mk({aa, ab, zb, a0}, 2, 2, false);
            v.push_back(pairs("lenient", &s4, &s4, {LENIENT}));
        } else if (P == "C03") {
            U = Univ({"a", "b", "x"});
            static std::vector<T> s1 = mk({aa, ab, zb, zz, ii}, 2, 2, true), s3 = mk({aa, bb, zz, ii}, 2, 3, true);
            static std::vector<T> s1b = th ? s1 : mk({aa, ab, ii}, 2, 2, true); v.push_back(pairs("bool", &s1, &s1b, {INTERSECT, SUBTRACT}));
            static std::vector<T> s4 = mk({aa, ab, zb, a0}, 2, 2, false);
            v.push_back(pairs("priority", &s4, &s4, {PRIUNION}));
            static std::vector<T> s5 = mk({aa, bb, zz, ii}, 2, 2, false);
            v.push_back(pairs("shuffle", &s5, &s5, {SHUFFLE}));
            v.push_back({"negate", s3.size() * TY.size(), [](mc::u64 i, mc::Ctx &c) { neg(c, s3[i / 3], TY[i % 3]); }, 500});
        } else {
            U = Univ({"a", "b", "c", "x", "y"});
            static std::vector<T> s1 = mk({aa, ab, ii, uu, ua, au, u0, zu}, 2, 1, true), s2 = mk({bb, cb, cc, ii, uu}, 2, 1, true);
            static std::vector<T> s1i = mk({aa, ab, ii, a0}, 2, 2, false), s2i = mk({bb, cb, ii, zb}, 2, 2, false);
            v.push_back(pairs("unk", &s1, &s2, {CONCAT, DISJUNCT, INTERSECT, SUBTRACT}));
            v.push_back(pairs("unk-compose", &s1, &s2, {COMPOSE}));
            // the recorded limitation itself
            v.push_back({"unknown-through", TY.size() * 2, [](mc::u64 i, mc::Ctx &c) { include_known = true; T a, b; a.n = b.n = 1 + i / 3; a.arcs = {{0, a.n - 1, UNK, "a", 0}}; b.arcs = {{0, b.n - 1, UNK, UNK, 0}}; a.fin[a.n - 1] = 0; b.fin[b.n - 1] = 0; bin(c, a, b, COMPOSE, TY[i % 3]); include_known = false; }, 10});
            v.push_back(pairs("id-compose", &s1i, &s2i, {COMPOSE}));
        }
        return v;
    };
    return mc::drive(argc, argv, h);
}
