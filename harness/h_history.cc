// C19: histories of operations on two transducer variables.
#include "mc.h"
#include "ref.h"
#include "HfstTransducer.h"
#include "HfstExceptionDefs.h"
using namespace ref; using namespace hfst;
static Univ U;
static const int L = 3;
enum Op { CONCAT, DISJ, COMP, INTER, SUBTR, PRIU, CONCATX, DISJX, COMPX, INTERX, SUBTRX, STAR, OPT, INV, REV, INP, OUTP, MINI, DETE, RMEPS, SUBST, SUBSTP, COPY, SWAP, SELF, ROUND, BASIC, SETA, SETB, SETC, OBS, SPV, ALPHA, PUSH, REP2, YCONCAT, SHUF, SHUFP, REFUSED, CONCATNH, DISJNH, COMPNH, NOP };
static const char *ON[] = {"X.concatenate(Y)", "X.disjunct(Y)", "X.compose(Y)", "X.intersect(Y)", "X.subtract(Y)", "X.priority_union(Y)", "X.concatenate(X)", "X.disjunct(X)", "X.compose(X)", "X.intersect(X)", "X.subtract(X)", "X.repeat_star()", "X.optionalize()", "X.invert()", "X.reverse()", "X.input_project()", "X.output_project()", "X.minimize()", "X.determinize()", "X.remove_epsilons()", "X.substitute(a,b)", "X.substitute(a:b,b:a)", "Y=X", "swap(X,Y)", "X=X", "convert X there and back", "X through HfstBasicTransducer", "set Brzozowski", "set no minimization, harmonize larger", "set encode weights", "observe X and Y", "X.disjunct(trie of a:b, a:b b:b, a:b a:b)", "X.insert_to_alphabet(c), X.set_name", "X.push_weights(initial)", "X.repeat_n(2)", "Y.concatenate(X)", "X.shuffle(Y)", "Z=Y, project X and Z, X.shuffle(Z)", "refused operations", "X.concatenate(Y,false)", "X.disjunct(Y,false)", "X.compose(Y,false)"};
static Rel lang_shuffle(const Rel &a, const Rel &b) { // on identity relations
    Rel r;
    std::function<void(Str, Str, int, int, Str, float)> go = [&](Str x, Str y, int i, int j, Str acc, float w) {
        if (i == slen(x) && j == slen(y)) { put(r, SP(acc, acc), w); return; }
        if (i < slen(x)) go(x, y, i + 1, j, sapp(acc, sat(x, i)), w);
        if (j < slen(y)) go(x, y, i, j + 1, sapp(acc, sat(y, j)), w);
    };
    for (auto &x : a) for (auto &y : b) if (slen(x.first.first) + slen(y.first.first) <= L) go(x.first.first, y.first.first, 0, 0, 0, x.second + y.second);
    return r;
}
static bool ident(const Rel &a) { for (auto &x : a) if (x.first.first != x.first.second) return false; return true; }
static Rel comp(const Rel &a, const Rel &b) { Rel r; for (auto &x : a) for (auto &y : b) if (x.first.second == y.first.first) put(r, SP(x.first.first, y.first.second), x.second + y.second); return r; }
static Rel pri(const Rel &a, const Rel &b) { Rel r = a; std::set<Str> d; for (auto &x : a) d.insert(x.first.first); for (auto &x : b) if (!d.count(x.first.first)) put(r, x.first, x.second); return r; }
static Rel mapl(const Rel &a, std::function<std::pair<int, int>(int, int)> f) { Rel r; for (auto &x : a) { Str i = 0, o = 0; for (int k = 0; k < slen(x.first.first); ++k) { auto p = f(sat(x.first.first, k), sat(x.first.second, k)); i = sapp(i, p.first); o = sapp(o, p.second); } put(r, SP(i, o), x.second); } return r; }
static std::vector<std::pair<T, T>> INIT;
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
static void hist(mc::Ctx &c, mc::u64 i, int depth, int ntypes) {
    int ti = i % ntypes; ImplementationType ty = TY[ti]; i /= ntypes; auto &in = INIT[i % INIT.size()]; i /= INIT.size(); std::vector<int> seq; for (int d = 0; d < depth; ++d, i /= NOP) seq.push_back(i % NOP);
    bool w = ty == TROPICAL_OPENFST_TYPE; if (!w && depth > 2 && &in - &INIT[0] == 2) { c.skip(); return; } if (!w) for (int o : seq) if (o == PUSH || o == SETC) { c.skip(); return; } if (ty == FOMA_TYPE) for (int o : seq) if (o == RMEPS) { c.skip(); return; }
    if (w && in.second.weighted()) { bool g = false; for (auto *t : {&in.first, &in.second}) { for (auto &a : t->arcs) g |= a.w != 1; for (auto &f : t->fin) g |= f.second != 0; } if (g) for (int o : seq) for (int q : {MINI, DETE, PRIU, SUBTR, SUBTRX, OBS, SETB, SHUF, SHUFP}) if (o == q) { c.skip(); return; } }
    std::string k = tyname(ty); k += "|X=" + in.first.str() + "|Y=" + in.second.str(); for (int o : seq) k += std::string("; ") + ON[o]; c.k(k); c.state(mc::hs(k));
    set_minimization_algorithm(HOPCROFT); set_minimization(true); set_harmonize_smaller(true); set_encode_weights(false); // every history starts from the default settings
    HfstTransducer X = to_hfst(in.first, ty), Y = to_hfst(in.second, ty); X.set_name("x"); Y.set_name("y"); Rel x = rel(concretize(in.first, U), L), y = rel(concretize(in.second, U), L); if (!w) { x = r_unweight(x); y = r_unweight(y); } std::string yn = "y"; bool trackname = true;
    StringPairVector spv{StringPair("a", "b"), StringPair("b", "b")}; SP spk(sapp(sapp(0, 1), 2), sapp(sapp(0, 2), 2));
    StringSet ya = Y.get_alphabet();
    for (int o : seq) { c.trans(); switch (o) {
        case CONCAT: X.concatenate(Y); x = r_concat(x, y, L); break; case DISJ: X.disjunct(Y); x = r_union(x, y); break; case COMP: X.compose(Y); x = comp(x, y); break; case INTER: X.intersect(Y); x = r_intersect(x, y); break; case SUBTR: X.subtract(Y); x = r_minus(x, y); break; case PRIU: X.priority_union(Y); x = pri(x, y); break;
        case CONCATX: X.concatenate(X); x = r_concat(x, x, L); break; case DISJX: X.disjunct(X); break; case COMPX: X.compose(X); x = comp(x, x); break; case INTERX: X.intersect(X); x = r_intersect(x, x); break; case SUBTRX: X.subtract(X); x.clear(); break;
        case STAR: X.repeat_star(); x = r_star(x, L); break; case OPT: X.optionalize(); x = r_union(x, r_eps()); break; case INV: X.invert(); x = r_invert(x); break; case REV: X.reverse(); x = r_reverse(x); break; case INP: X.input_project(); x = r_inproj(x); break; case OUTP: X.output_project(); x = r_outproj(x); break;
        case MINI: X.minimize(); break; case DETE: X.determinize(); break; case RMEPS: X.remove_epsilons(); break;
        case SUBST: X.substitute("a", "b"); x = mapl(x, [](int, int) { return std::pair<int, int>(2, 2); }); break; case SUBSTP: X.substitute(StringPair("a", "b"), StringPair("b", "a")); x = mapl(x, [](int p, int q) { return p == 1 && q == 2 ? std::pair<int, int>(2, 1) : std::pair<int, int>(p, q); }); break;
        case COPY: Y = X; y = x; trackname = false; break; case SWAP: std::swap(X, Y); std::swap(x, y); trackname = false; break; case SELF: { HfstTransducer &r = X; X = r; } break;
        case ROUND: X.convert(w ? LOG_OPENFST_TYPE : TROPICAL_OPENFST_TYPE); X.convert(ty); break; case BASIC: X = HfstTransducer(HfstBasicTransducer(X), ty); break;
        case SETA: set_minimization_algorithm(BRZOZOWSKI); break; case SETB: set_minimization(false); set_harmonize_smaller(false); break; case SETC: set_encode_weights(true); break;
        case OBS: { bool eq = X.compare(Y); if (eq && !rel_diff(x, y, U, w).empty()) return c.fail("compare() says yes for different relations"); X.number_of_states(); X.is_cyclic(); Y.get_alphabet(); X.is_automaton(); HfstTwoLevelPaths r; Y.extract_paths(r, 3, 1); HfstTransducer z(X); z.concatenate(Y); z.minimize(); HfstTransducer ol(X); ol.convert(HFST_OLW_TYPE); } break;
        case SPV: { HfstTransducer tr(ty); if (ty == FOMA_TYPE) tr = HfstTransducer(spv, ty); else { StringPairVector one(spv.begin(), spv.begin() + 1), two{spv[0], spv[0]}; tr.disjunct(spv); tr.disjunct(one); tr.disjunct(two); tr.disjunct(spv); put(x, SP(sapp(0, 1), sapp(0, 2)), w ? 1 : 0); put(x, SP(sapp(sapp(0, 1), 1), sapp(sapp(0, 2), 2)), w ? 2 : 0); } tr.transform_weights([](float) { return 1.0f; }); tr.set_final_weights(0); X.disjunct(tr); put(x, spk, w ? 2 : 0); } break; case ALPHA: X.insert_to_alphabet("c"); X.set_name("other"); break; case PUSH: X.push_weights(TO_INITIAL_STATE); break; case REP2: X.repeat_n(2); x = r_concat(x, x, L); break; case YCONCAT: Y.concatenate(X); y = r_concat(y, x, L); trackname = false; break;
        // X and Y as they stand are shuffled if they are automata and refused, without any effect, if not
        case SHUF: { bool ok = true; try { X.shuffle(Y); } catch (const TransducersAreNotAutomataException &) { ok = false; } if (ok) { if (!ident(x) || !ident(y)) return c.fail("shuffle accepts a transducer that is not an automaton"); x = lang_shuffle(x, y); } } break;
        case SHUFP: { HfstTransducer Z(Y); Z.input_project(); X.input_project(); X.shuffle(Z); x = lang_shuffle(r_inproj(x), r_inproj(y)); } break;
        case REFUSED: { HfstTransducer o(ty == SFST_TYPE ? FOMA_TYPE : SFST_TYPE); int n = 0; try { X.concatenate(o); } catch (const TransducerTypeMismatchException &) { ++n; } try { X.disjunct(o); } catch (const TransducerTypeMismatchException &) { ++n; } try { X.substitute("", "a"); } catch (const EmptyStringException &) { ++n; } HfstTransducer p("a", "b", ty); try { X.cross_product(p); } catch (const TransducersAreNotAutomataException &) { ++n; } if (n != 4) return c.fail("an operation with unsuitable arguments was not refused"); } break;
        case CONCATNH: X.concatenate(Y, false); x = r_concat(x, y, L); break; case DISJNH: X.disjunct(Y, false); x = r_union(x, y); break; case COMPNH: X.compose(Y, false); x = comp(x, y); break; }
        if (o != COPY && o != SWAP && o != YCONCAT) { if (Y.get_alphabet() != ya) return c.fail(std::string("the alphabet of Y was changed by ") + ON[o]); } else ya = Y.get_alphabet(); }
    set_minimization_algorithm(HOPCROFT); set_minimization(true); set_harmonize_smaller(true); set_encode_weights(false);
    Rel gx, gy; { Con g = concretize(X, U); if (!g.err.empty()) return c.fail("X: " + g.err); gx = rel(g, L); g = concretize(Y, U); if (!g.err.empty()) return c.fail("Y: " + g.err); gy = rel(g, L); }
    if (!x.empty()) c.nontrivial(); c.outcome(rel_hash(gx)); std::string d = rel_diff(x, gx, U, w); if (!d.empty()) return c.fail("X:" + d); d = rel_diff(y, gy, U, w); if (!d.empty()) return c.fail("Y:" + d);
    if (trackname && Y.get_name() != yn) return c.fail("the name of Y became '" + Y.get_name() + "'"); if (X.get_type() != ty || Y.get_type() != ty) return c.fail("the implementation type changed"); c.sample(c.key); }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C19";
    h.spaces = [](bool th) { U = Univ({"a", "b"}); std::vector<mc::Space> v; Label aa = {"a", "a"}, ab = {"a", "b"}, ba = {"b", "a"}, bb = {"b", "b"};
        auto mk = [](int n, std::vector<Arc> arcs, std::map<int, float> fin) { T t; t.n = n; t.arcs = arcs; for (auto &f : fin) t.fin[f.first] = f.second; return t; };
        // weight = length in every operand: every result of at most 3 operations is then determinizable (see DESIGN.md)
        T t1 = mk(2, {{0, 1, "a", "b", 1}, {1, 1, "b", "b", 1}}, {{1, 0}}), t2 = mk(3, {{0, 1, "b", "b", 1}, {0, 1, "a", "b", 1}, {1, 2, "b", "a", 1}}, {{1, 0}, {2, 0}}), t3 = mk(1, {}, {{0, 0}}), t4 = mk(3, {{0, 1, "a", "a", 1}, {0, 2, "a", "b", 1}, {1, 2, "b", "a", 1}}, {{2, 0}, {0, 0}}), t5 = mk(1, {}, {}), t6 = mk(2, {{0, 1, "b", "a", 1}}, {{0, 0}, {1, 0}});
        // arbitrary weights: operations that determinize are left out
        T g1 = mk(2, {{0, 1, "a", "b", 1}, {1, 1, "b", "b", .5}}, {{1, 2}}), g2 = mk(2, {{0, 1, "b", "b", .25}, {0, 0, "a", "a", 1}}, {{1, 0}}), g4 = mk(3, {{0, 1, "a", "a", 0}, {0, 2, "a", "b", 1}, {1, 2, "b", "a", 3}}, {{2, 1}, {0, 4}});
        INIT = {{t1, t2}, {t4, t6}, {g4, g1}}; if (th) { INIT.push_back({t5, t1}); INIT.push_back({t6, t4}); INIT.push_back({t3, t1}); INIT.push_back({g1, g2}); }
        mc::u64 n = NOP; for (int d = 1; d <= 3; ++d, n *= NOP) v.push_back({"depth-" + std::to_string(d), n * INIT.size() * 3, [d](mc::u64 i, mc::Ctx &c) { hist(c, i, d, 3); }, 2000});
        if (th) { v.push_back({"depth-4", n * INIT.size() * 2, [](mc::u64 i, mc::Ctx &c) { mc::u64 k = i / 2; hist(c, k * 3 + 1 + i % 2, 4, 3); }, 2000}); }
        return v; };
    return mc::drive(argc, argv, h);
}
