// C05: optimisation operations preserve the weighted relation and deliver their structural promise.
#include "mc.h"
#include "ref.h"
using namespace ref; using namespace hfst;
static Univ U; static const int L = 4;
static const std::vector<ImplementationType> TY = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE};
static bool unweighted(ImplementationType ty) { return ty == SFST_TYPE || ty == FOMA_TYPE; }
enum Op { RMEPS, DET, MIN, OPTM, OPTD, PRUNE, PUSHI, PUSHF, DETENC, MINENC, MINBRZ, PUSHLI, PUSHLF, OP_END };
static const char *ON[] = {"remove_epsilons", "determinize", "minimize", "optimize", "optimize(minimization off)", "prune", "push_weights(initial)", "push_weights(final)", "determinize(encode weights)", "minimize(encode weights)", "minimize(Brzozowski)", "push_labels(initial)", "push_labels(final)"};

static bool cyclic(const T &t) { std::vector<int> col(t.n, 0); bool cyc = false;
    std::function<void(int)> go = [&](int s) { col[s] = 1; for (auto &a : t.arcs) if (a.s == s) { if (col[a.t] == 1) cyc = true; else if (!col[a.t]) go(a.t); } col[s] = 2; };
    for (int s = 0; s < t.n; ++s) if (!col[s]) go(s); return cyc; }
static bool eps_cycle(const T &t) { T e = t; e.arcs.clear(); for (auto &a : t.arcs) if (a.i == EPS && a.o == EPS) e.arcs.push_back(a); return cyclic(e); }
static bool det_already(const T &t) { for (auto &a : t.arcs) { if (a.i == EPS && a.o == EPS) return false; for (auto &b : t.arcs) if (&a < &b && a.s == b.s && a.i == b.i && a.o == b.o) return false; } return true; }

// states of the minimal deterministic pair automaton of a T (labels as atoms), trimmed; 1 for the empty language
static int min_states(const T &t) {
    std::map<std::pair<std::string, std::string>, int> lab; for (auto &a : t.arcs) if (!(a.i == EPS && a.o == EPS)) lab.emplace(std::make_pair(a.i, a.o), 0);
    auto clo = [&](unsigned s) { for (;;) { unsigned n = s; for (auto &a : t.arcs) if (a.i == EPS && a.o == EPS && (s >> a.s & 1)) n |= 1u << a.t; if (n == s) return s; s = n; } };
    std::map<unsigned, int> id; std::vector<unsigned> st; std::vector<std::vector<int>> tr; std::vector<int> fin;
    auto get = [&](unsigned s) { auto it = id.find(s); if (it != id.end()) return it->second; int k = st.size(); id[s] = k; st.push_back(s); return k; };
    get(clo(1));
    for (size_t k = 0; k < st.size(); ++k) { unsigned s = st[k]; int f = 0; for (auto &x : t.fin) if (s >> x.first & 1) f = 1; fin.push_back(f); std::vector<int> row;
        for (auto &l : lab) { unsigned d = 0; for (auto &a : t.arcs) if ((s >> a.s & 1) && a.i == l.first.first && a.o == l.first.second) d |= 1u << a.t; row.push_back(get(clo(d))); } tr.push_back(row); }
    int n = st.size(); std::vector<int> cls(fin);
    for (int it = 0; it < n + 1; ++it) { std::map<std::vector<int>, int> m; std::vector<int> nc(n); for (int k = 0; k < n; ++k) { std::vector<int> sig = {cls[k]}; for (int x : tr[k]) sig.push_back(cls[x]); auto i2 = m.find(sig); if (i2 == m.end()) { int z = m.size(); m[sig] = z; nc[k] = z; } else nc[k] = i2->second; } cls = nc; }
    std::vector<int> live(fin); for (int it = 0; it < n; ++it) for (int k = 0; k < n; ++k) for (int x : tr[k]) if (live[x]) live[k] = 1;
    std::set<int> r; for (int k = 0; k < n; ++k) if (live[k]) r.insert(cls[k]);
    return r.empty() ? 1 : (int)r.size();
}
static std::string struct_check(int op, const T &t, ImplementationType ty, const HfstTransducer &x) {
    HfstBasicTransducer b(x); int n = 0; for (auto it = b.begin(); it != b.end(); ++it) ++n;
    std::vector<std::set<int>> to(n), from(n); int s = 0;
    std::ostringstream o;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) { std::set<std::pair<std::string, std::string>> seen;
        for (auto &tr : *it) { auto k = std::make_pair(tr.get_input_symbol(), tr.get_output_symbol()); to[s].insert(tr.get_target_state()); from[tr.get_target_state()].insert(s);
            bool ee = k.first == EPS && k.second == EPS && !(t.weighted() && (op == MIN || op == OPTM || op == MINBRZ || op == MINENC));
            if (op != PUSHI && op != PUSHF && op != PUSHLI && op != PUSHLF && op != PRUNE && ee) return "an epsilon transition is left";
            if ((op == DET || op == MIN || op == OPTM || op == OPTD || op == MINBRZ) && !seen.insert(k).second) return "two transitions with the same label leave one state"; } }
    if (op == DET || op == MIN || op == OPTM || op == OPTD || op == PRUNE || op == MINBRZ) {
        std::vector<int> acc(n, 0), co(n, 0); std::vector<int> w = {0}; acc[0] = 1; while (!w.empty()) { int q = w.back(); w.pop_back(); for (int d : to[q]) if (!acc[d]) { acc[d] = 1; w.push_back(d); } }
        for (int q = 0; q < n; ++q) if (b.is_final_state(q)) { co[q] = 1; w.push_back(q); } while (!w.empty()) { int q = w.back(); w.pop_back(); for (int d : from[q]) if (!co[d]) { co[d] = 1; w.push_back(d); } }
        if (op == MIN || op == OPTM || op == PRUNE || op == MINBRZ) for (int q = 1; q < n; ++q) if (!acc[q] || !co[q]) return "a state on no accepting path is left";
    }
    if ((op == MIN || op == OPTM || op == MINBRZ) && !t.weighted() && (ty != LOG_OPENFST_TYPE || det_already(t))) { int m = min_states(t); if (n != m) { o << "result has " << n << " states, the minimal automaton has " << m; return o.str(); }
        if (ty != LOG_OPENFST_TYPE && (int)x.number_of_states() != m && !(m == 1 && x.number_of_states() == 0)) { o << "number_of_states() says " << x.number_of_states() << ", should be " << m; return o.str(); } }
    return "";
}
// log semiring: the weight of a pair is the negative logarithm of the sum over its paths (acyclic graphs only)
static Pl logrel(const Con &c) { std::map<SP, double> r; std::vector<int> on(c.st.size()); std::function<void(int, Str, Str, double)> go = [&](int q, Str i, Str o, double w) { if (slen(i) > 12 || slen(o) > 12) return;
        if (c.fin[q].first) r[SP(i, o)] += std::exp(-(w + c.fin[q].second)); for (auto &a : c.st[q]) go(a.t, a.i ? sapp(i, a.i) : i, a.o ? sapp(o, a.o) : o, w + a.w); };
    go(0, 0, 0, 0); Pl p; for (auto &x : r) p[x.first] = -std::log(x.second); return p; }
static bool cyclic(const Con &c) { T t; t.n = c.st.size(); for (int s = 0; s < t.n; ++s) for (auto &a : c.st[s]) t.arcs.push_back({s, a.t, "a", "a", 0}); return cyclic(t); }
static void opt_case(mc::Ctx &c, const T &t, int op, ImplementationType ty) {
    bool w = t.weighted();
    if (unweighted(ty) && (w || op == PUSHI || op == PUSHF || op == DETENC || op == MINENC)) { c.skip(); return; }
    if (op == RMEPS && ty == FOMA_TYPE) { c.skip(); return; } // libfoma 0.10.0 (system library, not hfst) reads freed memory here
    // weighted determinisation is only defined for determinisable machines
    if ((w || ty == LOG_OPENFST_TYPE) && (op == DET || op == MIN || op == OPTM || op == OPTD || op == MINBRZ) && cyclic(t) && !det_already(t)) { c.skip(); return; }
    if (ty == LOG_OPENFST_TYPE && (op == DETENC || op == MINENC || op == MINBRZ)) { c.skip(); return; } // merging equal weighted paths is not exact in the log semiring; one algorithm only
    if (ty == LOG_OPENFST_TYPE && (eps_cycle(t) || ((op == PUSHI || op == PUSHF) && cyclic(t)))) { c.skip(); return; } // infinite sums
    bool pl = op == PUSHLI || op == PUSHLF; if (pl) for (auto &a : t.arcs) if (a.i == IDN || a.i == UNK) { c.skip(); return; } // pairs are taken apart
    if (ty == LOG_OPENFST_TYPE && pl && cyclic(t)) { c.skip(); return; }
    // a negative cycle has no tropical meaning
    bool neg = false; for (auto &a : t.arcs) if (a.w < 0) neg = true; if (neg && cyclic(t)) { c.skip(); return; }
    c.k(std::string(ON[op]) + "|" + tyname(ty) + "|" + t.str());
    HfstTransducer x = to_hfst(t, ty);
    if (op == DETENC || op == MINENC) hfst::set_encode_weights(true);
    if (op == MINBRZ) hfst::set_minimization_algorithm(hfst::BRZOZOWSKI);
    if (op == OPTD) hfst::set_minimization(false);
    switch (op) { case RMEPS: x.remove_epsilons(); break; case DET: case DETENC: x.determinize(); break; case MIN: case MINENC: case MINBRZ: x.minimize(); break;
        case OPTM: case OPTD: x.optimize(); break; case PRUNE: x.prune(); break; case PUSHI: x.push_weights(hfst::TO_INITIAL_STATE); break; case PUSHF: x.push_weights(hfst::TO_FINAL_STATE); break;
        case PUSHLI: x.push_labels(hfst::TO_INITIAL_STATE); break; case PUSHLF: x.push_labels(hfst::TO_FINAL_STATE); break; }
    if (op == DETENC || op == MINENC) hfst::set_encode_weights(false);
    if (op == MINBRZ) hfst::set_minimization_algorithm(hfst::HOPCROFT);
    if (op == OPTD) hfst::set_minimization(true);
    c.trans();
    Con got = concretize(x, U); if (!got.err.empty()) return c.fail(got.err);
    bool lg = ty == LOG_OPENFST_TYPE, lw = lg && !cyclic(t); Con ref = concretize(t, U); if (lw && cyclic(got)) return c.fail("the result of an acyclic transducer is cyclic");
    if (pl && !unweighted(ty)) { if (!lg) { Rel r1 = rel(ref, L), r2 = rel(got, L); c.state(rel_hash(r1) ^ op); c.outcome(rel_hash(r2)); if (r1.size() > 1) c.nontrivial(); std::string d = rel_diff(r1, r2, U); if (!d.empty()) c.fail(d); return; } }
    Pl want = lw ? logrel(ref) : plang(ref, L), g = lw ? logrel(got) : plang(got, L);
    c.state(rel_hash(want) ^ op); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U, !lg || lw, lg ? 5e-3f : 1e-4f); // OpenFst rounds to 1/1024 when it determinizes
    if (d.empty()) d = struct_check(op, t, ty, x);
    if (!d.empty()) c.fail(d); else c.sample(c.key + " -> " + std::to_string(x.number_of_states()) + " states");
}
// ---- n best: brute force enumeration of paths in weight order ----
static void nbest_case(mc::Ctx &c, const T &t, int n) {
    c.k("n_best(" + std::to_string(n) + ")|tropical|" + t.str());
    if (eps_cycle(t)) { c.skip(); return; }
    Con m = concretize(t, U);
    // accepting paths in weight order: every path if acyclic, else best-first over useful states (weights are positive there)
    std::vector<std::pair<float, SP>> paths; std::vector<int> co(t.n, 0);
    for (int q = 0; q < t.n; ++q) co[q] = m.fin[q].first;
    for (int it = 0; it < t.n; ++it) for (int q = 0; q < t.n; ++q) for (auto &a : m.st[q]) if (co[a.t]) co[q] = 1;
    struct P { float w; int q; SP k; bool done; int d; }; auto gt = [](const P &x, const P &y) { return x.w > y.w; };
    std::vector<P> heap; if (co[0]) heap.push_back({0, 0, SP(0, 0), false, 0}); bool acyc = !cyclic(t);
    while (!heap.empty() && (acyc || (int)paths.size() <= n)) {
        std::pop_heap(heap.begin(), heap.end(), gt); P p = heap.back(); heap.pop_back();
        if (p.done) { paths.push_back({p.w, p.k}); continue; }
        if (m.fin[p.q].first) { heap.push_back({p.w + m.fin[p.q].second, p.q, p.k, true, p.d}); std::push_heap(heap.begin(), heap.end(), gt); }
        if (p.d >= 12) continue; // the k-th best path has at most k*states arcs: each removable cycle gives a strictly better path
        for (auto &a : m.st[p.q]) if (co[a.t]) { SP z = p.k; if (a.i) z.first = sapp(z.first, a.i); if (a.o) z.second = sapp(z.second, a.o); heap.push_back({p.w + a.w, a.t, z, false, p.d + 1}); std::push_heap(heap.begin(), heap.end(), gt); } }
    std::stable_sort(paths.begin(), paths.end(), [](auto &a, auto &b) { return a.first < b.first; });
    if (n < (int)paths.size() && n > 0 && paths[n - 1].first == paths[n].first) { c.skip(); return; }  // a tie at the cut: either choice is right
    HfstTransducer x = to_hfst(t, TROPICAL_OPENFST_TYPE); x.n_best(n); c.trans();
    Con got = concretize(x, U); if (!got.err.empty()) return c.fail(got.err);
    Rel want; for (int i = 0; i < n && i < (int)paths.size(); ++i) put(want, paths[i].second, paths[i].first);
    Rel g = rel(got, 13); c.state(rel_hash(want)); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U); if (!d.empty()) c.fail(d);
}
// unweighted types: all paths weigh the same, any n of them are the best ones
static void nbest_un(mc::Ctx &c, const T &t0, int n, ImplementationType ty) {
    T t = t0; for (auto &a : t.arcs) a.w = 0; for (auto &f : t.fin) f.second = 0; if (cyclic(t)) { c.skip(); return; }
    c.k("n_best(" + std::to_string(n) + ")|" + tyname(ty) + "|" + t.str()); HfstTransducer x = to_hfst(t, ty); Con m = concretize(t, U); size_t np = 0; Rel want = rel(m, 9); std::function<void(int)> go = [&](int q) { if (m.fin[q].first) ++np; for (auto &a : m.st[q]) go(a.t); }; go(0);
    x.n_best(n); c.trans(); if (x.get_type() != ty) return c.fail("the type changed"); Con got = concretize(x, U); if (!got.err.empty()) return c.fail(got.err); size_t gp = 0; std::function<void(int, int)> g2 = [&](int q, int d) { if (d > 20) return; if (got.fin[q].first) ++gp; for (auto &a : got.st[q]) g2(a.t, d + 1); }; g2(0, 0);
    Rel g = rel(got, 9); c.state(rel_hash(want)); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial(); for (auto &r : g) if (!want.count(r.first)) return c.fail("a path that is not in the transducer: [" + sshow(r.first.first, U) + "]:[" + sshow(r.first.second, U) + "]");
    if (gp > (size_t)n) return c.fail(std::to_string(gp) + " paths left"); if ((n > 0 && g.empty() && np) || (size_t)n >= np) { std::string d = rel_diff(want, g, U); if (!d.empty()) return c.fail(d); } }
static std::vector<T> S, W, N;
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C05";
    h.spaces = [](bool th) {
        U = Univ({"a", "b", "x"});
        Label aa = {"a", "a"}, bb = {"b", "b"}, ab = {"a", "b"}, a0 = {"a", EPS}, zb = {EPS, "b"}, zz = {EPS, EPS}, ii = {IDN, IDN}, uu = {UNK, UNK};
        std::vector<T> s; enum_T(1, {aa, ab, zb, zz, ii, uu}, 2, true, s); enum_T(2, {aa, ab, a0, zb, zz, ii, uu}, 2, true, s); enum_T(2, {aa, bb, zz}, 4, true, s); enum_T(3, {aa, ab, zz}, 3, true, s); if (th) { enum_T(3, {aa, bb, zz}, 4, true, s); enum_T(4, {aa, bb}, 4, false, s); } else enum_T(3, {aa, zz}, 4, true, s);
        for (auto &t : s) { S.push_back(t); if (t.arcs.size() + t.fin.size()) { S.push_back(generic_weights(t)); T n = generic_weights(t); float k = -0.75f; for (auto &a : n.arcs) { a.w = k; k = -k * 1.5f; } S.push_back(n); } }
        std::vector<T> s2; enum_T(2, {aa, ab, zb, a0}, 3, true, s2); enum_T(3, {aa, bb}, 4, false, s2);
        for (auto &t : s2) { T w = generic_weights(t); N.push_back(w); T q = t; float v = 4; for (auto &a : q.arcs) { a.w = v; v /= 2; } for (auto &f : q.fin) { f.second = v; v = v * 1.5f + 1; } N.push_back(q);
            if (!cyclic(t)) { T n = w; float k = -0.9f; for (auto &a : n.arcs) { a.w = k; k = -k * 0.7f; } N.push_back(n); for (auto &a : n.arcs) a.w = -0.9f - 0.01f * (&a - &n.arcs[0]); N.push_back(n); } }
        fprintf(stderr, "S %zu N %zu\n", S.size(), N.size());
        std::vector<mc::Space> v;
        v.push_back({"optimise", (mc::u64)S.size() * OP_END * 4, [](mc::u64 i, mc::Ctx &c) { opt_case(c, S[i / OP_END / 4], i % OP_END, TY[i / OP_END % 4]); }, 3000, 20});
        v.push_back({"n_best", (mc::u64)N.size() * 4, [](mc::u64 i, mc::Ctx &c) { nbest_case(c, N[i / 4], (int[]){1, 2, 3, 0}[i % 4]); }, 2000, 20});
        v.push_back({"n_best, unweighted", (mc::u64)N.size() * 6, [](mc::u64 i, mc::Ctx &c) { nbest_un(c, N[i / 6], (int[]){1, 2, 5}[i % 3], i / 3 % 2 ? SFST_TYPE : FOMA_TYPE); }, 2000, 20});
        return v;
    };
    return mc::drive(argc, argv, h);
}
