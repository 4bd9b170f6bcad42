// C13: the regular-expression compiler.  Every token string up to a length over several token alphabets, and every
// fully bracketed expression of small height, is given to the real XreCompiler and to a reference compiler (recursive
// descent over the documented precedence levels, evaluated on concrete automata).  Malformed strings must be refused,
// well-formed ones must denote the reference relation.
#include "mc.h"
#include "refx.h"
#include "parsers/XreCompiler.h"
#include "HfstXeroxRules.h"
using namespace ref; using namespace hfst; typedef std::vector<std::string> SV;
static const Univ U({"a", "b", "x"});
struct V { Con c; bool skip = false, rej = false; bool weighted = false; bool free_align = false; }; // free_align: a cross product, whose alignment is not specified
struct Bad {}; struct Skip {};
struct Env { std::map<std::string, V> defs; std::map<std::string, std::pair<int, SV>> funs; };
static V mk(const Con &c) { V v; v.c = x_trim(c); return v; }
static V mix(const V &a, const V &b, const Con &c) { V v = mk(c); v.skip = a.skip || b.skip; v.rej = a.rej || b.rej; v.weighted = a.weighted || b.weighted; v.free_align = a.free_align || b.free_align; if (v.c.st.size() > 3000) throw Skip(); return v; }
static bool acc(const V &v) { return x_is_acc(v.c); }
// does the expression mention 'any symbol'? (x is never named)  Whether ? also stands for the word boundary in a restriction is not specified
static bool any(const V &v) { int x = U.of("x"); for (auto &s : v.c.st) for (auto &a : s) if (a.i == x || a.o == x) return true; return false; }
static bool has_eps(const V &v) { return x_strings(v.c, 0).count(0); }
static bool identity(const V &v) { for (auto &x : rel(v.c, 3)) if (x.first.first != x.first.second) return false; return true; }
static Con all() { return x_star(x_any(U)); }
static Con NOT(const Con &c) { return x_compl(c, U); }
struct P {
    const SV &t; size_t i = 0; const Env &E; SV sub; std::vector<V> args;
    P(const SV &t, const Env &E) : t(t), E(E) {}
    std::string la(int k = 0) const { return i + k < t.size() ? t[i + k] : ""; }
    void need(const std::string &s) { if (la() != s) throw Bad(); ++i; }
    static bool curly(const std::string &s) { return s.size() > 2 && s[0] == '{'; }
    static bool weight(const std::string &s) { return s.compare(0, 2, "::") == 0; }
    bool label(const std::string &s) const { return s == "a" || s == "b" || s == "0" || s == "?" || s == "\"a\"" || s == "[]" || s == "\"\"" || s == "%a" || E.defs.count(s); }
    static Con half(const std::string &s) { if (s == "?") return x_any(U); if (s == "0" || s == "[]" || s == "\"\"") return x_eps(); int k = U.of(s == "%a" || s == "\"a\"" ? "a" : s); return x_pair(k, k); }
    V hv(const std::string &s) const { auto it = E.defs.find(s); if (it != E.defs.end()) return it->second; return mk(half(s)); }
    static Con curl(const std::string &s) { Con c = x_eps(); for (size_t k = 1; k + 1 < s.size(); ++k) { int y = U.of(std::string(1, s[k])); c = x_concat(c, x_pair(y, y)); } return c; }
    static V cross(const V &a, const V &b) { V v = mix(a, b, x_cross(a.c, b.c)); v.free_align = true; for (auto *x : {&a, &b}) if (!acc(*x)) { if (identity(*x)) v.skip = true; else v.rej = true; } return v; }
    static V pairs(const std::string &i, const std::string &o) { V v = mk(x_empty()); Con c = x_new(2); c.fin[1] = {true, 0}; auto syms = [](const std::string &s) { std::vector<int> r; Con h = half(s); if (h.fin[0].first) r = {0}; else for (auto &a : h.st[0]) r.push_back(a.i); return r; }; for (int x : syms(i)) for (int y : syms(o)) c.st[0].push_back({1, x, y, 0}); v.c = c; return v; }
    V top() { V v = e2(); if (la() == ";") ++i; if (i != t.size()) throw Bad(); return v; }
    V e2() { V v = e3(); for (;;) { std::string o = la();
            if (o == ".o.") { ++i; V r = e3(); v = mix(v, r, x_compose(v.c, r.c)); }
            else if (o == ".x.") { ++i; V r = e3(); v = cross(v, r); }
            else if (o == ".O.") { ++i; V r = e3(); V w = mix(v, r, x_eps()); if (w.weighted) w.skip = true; w.c = x_prio(x_compose(v.c, r.c), v.c, U); v = w; }
            else return v; } }
    V e3() { V v = e4(); for (;;) { std::string o = la(); if (o != "<" && o != ">") return v; ++i; V r = e4(); V w = mix(v, r, x_eps());
            if (!acc(v) || !acc(r)) w.skip = true; if (w.weighted) w.skip = true; if (!w.skip) { const Con &f = o == "<" ? r.c : v.c, &s = o == "<" ? v.c : r.c; w.c = NOT(x_concat(x_concat(x_concat(x_concat(all(), f), all()), s), all())); } v = w; } }
    V e4() { V v = e5(); while (la() == "=>") { V w = v; if (!acc(v) || has_eps(v) || v.weighted || any(v)) w.skip = true; std::vector<std::pair<V, V>> ctx;
            do { ++i; V l = mk(x_eps()), r = l; bool el = true, er = true; if (la() != "_") { l = e5(); el = false; if (la() == "=>") throw Skip(); } need("_"); std::string n = la(); if (n != "" && n != "," && n != "]" && n != ")" && n != "=>" && n != ";" && n != "<" && n != ">" && n != ".o." && n != ".x.") { r = e5(); er = false; }
                if (la() == "=>") throw Skip(); if (el && er) w.skip = true; if (!acc(l) || !acc(r) || l.weighted || r.weighted || any(l) || any(r)) w.skip = true; w.skip |= l.skip || r.skip; w.rej |= l.rej || r.rej; ctx.push_back({l, r}); } while (la() == ",");
            if (!w.skip) { Con bad = x_empty(); int n = ctx.size(); std::vector<Con> nl, nr; for (auto &c : ctx) { nl.push_back(NOT(x_concat(all(), c.first.c))); nr.push_back(NOT(x_concat(c.second.c, all()))); }
                for (int S = 0; S < 1 << n; ++S) { Con L = all(), R = all(); for (int k = 0; k < n; ++k) if (S >> k & 1) L = x_and(L, nl[k]); else R = x_and(R, nr[k]); bad = x_union(bad, x_concat(x_concat(L, v.c), R)); }
                w.c = NOT(bad); } v = w; } return v; }
    V e5() { V v = e6(); for (;;) { std::string o = la();
            if (o == "|") { ++i; V r = e6(); v = mix(v, r, x_union(v.c, r.c)); }
            else if (o == "&" || o == "-") { ++i; V r = e6(); V w = mix(v, r, x_eps()); if (!acc(v) || !acc(r)) w.skip = true; if (!w.skip) w.c = o == "&" ? x_and(v.c, r.c) : x_minus(v.c, r.c, U); v = w; }
            else if (o == ".P." || o == ".p.") { ++i; V r = e6(); V w = mix(v, r, x_eps()); if (w.weighted) w.skip = true; if (!w.skip) w.c = o == ".P." ? x_prio(v.c, r.c, U) : x_inv(x_prio(x_inv(v.c), x_inv(r.c), U)); v = w; }
            else return v; } }
    bool starts7() const { std::string o = la(); return label(o) || curly(o) || o == "[" || o == "(" || o == "~" || o == "$" || o == "$." || o == "$?" || o == "\\" || o == "F("; }
    V e6() { V v = e7(); while (starts7()) { V r = e7(); v = mix(v, r, x_concat(v.c, r.c)); } return v; }
    V e7() { V v = e8(); while (la() == "/") { ++i; V r = e8(); V w = mix(v, r, x_ignore(v.c, r.c)); if (w.weighted || w.free_align) w.skip = true; v = w; } return v; }
    V e8() { std::string o = la(); if (o != "~" && o != "$" && o != "$." && o != "$?") return e9(); ++i; V v = e8(), w = v; w.weighted = false; if (v.weighted) w.skip = true;
        if (!acc(v)) { if (o == "$" && !w.skip) { w.c = x_contains(v.c, U); return w; }
            if (o == "~" && !identity(v)) w.rej = true; else w.skip = true; return w; }
        if (w.skip) return w;
        if (o == "~") w.c = NOT(v.c); else if (o == "$") w.c = x_contains(v.c, U);
        else { if (has_eps(v)) { w.skip = true; return w; } Con A = v.c, any = all(), pl = x_star(x_any(U), true); Con two = x_union(x_and(x_concat(x_concat(pl, A), any), x_concat(A, any)), x_and(x_concat(A, pl), A)); Con many = NOT(x_contains(two, U)); w.c = o == "$?" ? many : x_and(x_contains(A, U), many); }
        w.c = x_trim(w.c); return w; }
    V e9() { V v = e10(); for (;;) { std::string o = la();
            if (o == "*") v.c = x_star(v.c); else if (o == "+") v.c = x_star(v.c, true); else if (o == ".r") v.c = x_rev(v.c); else if (o == ".i") v.c = x_inv(v.c); else if (o == ".u") v.c = x_up(v.c); else if (o == ".l") v.c = x_down(v.c);
            else if (o.size() > 1 && o[0] == '^') { int n = atoi(o.c_str() + (isdigit(o[1]) ? 1 : 2)), lo = n, hi = n; if (o[1] == '>') { lo = n + 1; hi = -1; } else if (o[1] == '<') { lo = 0; hi = n - 1; if (hi < 0) throw Skip(); } else if (o.find(',') != o.npos) { hi = atoi(o.c_str() + o.find(',') + 1); if (hi < lo) throw Skip(); } v.c = x_power(v.c, lo, hi); }
            else return v; ++i; v.c = x_trim(v.c); if (v.c.st.size() > 3000) throw Skip(); } }
    V e10() { if (la() != "\\") return e11(); ++i; V v = e10(); if (!acc(v)) { v.skip = true; return v; } if (v.skip) return v; v.c = x_minus(x_any(U), v.c, U); v.weighted = false; return v; }
    V w_(V v) { if (weight(la())) { float w = atof(la().c_str() + 2); ++i; v.c = x_finalw(v.c, w); v.weighted = true; } return v; }
    V e11() { std::string o = la();
        if (o == "[") { ++i; if (la() == "]") throw Skip(); V v = e2(); need("]"); if (la() == ":") { ++i; std::string r = la(); if (r == "[") { ++i; V b = e2(); need("]"); return cross(v, b); } if (curly(r)) { ++i; return cross(v, mk(curl(r))); } if (label(r)) { ++i; return cross(v, hv(r)); } throw Bad(); } return w_(v); }
        if (o == "(") { ++i; V v = e2(); need(")"); v.c = x_opt(v.c); return v; }
        if (o == "F(") { ++i; std::vector<V> as; as.push_back(e2()); while (la() == ",") { ++i; as.push_back(e2()); } need(")"); auto it = E.funs.find("F("); if ((int)as.size() != it->second.first) throw Bad(); Env e2_; e2_.funs = E.funs; e2_.defs = E.defs; for (size_t k = 0; k < as.size(); ++k) e2_.defs["\"@F(" + std::to_string(k + 1) + "@\""] = as[k]; P q(it->second.second, e2_); return w_(q.top()); }
        if (curly(o)) { ++i; V v = mk(curl(o)); if (la() == ":") { ++i; std::string r = la(); if (r == "[") { ++i; V b = e2(); need("]"); return cross(v, b); } if (curly(r)) { ++i; return w_(cross(v, mk(curl(r)))); } if (label(r)) { ++i; return w_(cross(v, hv(r))); } throw Bad(); } return w_(v); }
        if (label(o)) { ++i; V v = hv(o); if (la() == ":") { ++i; std::string r = la(); if (r == "[") { ++i; V b = e2(); need("]"); return cross(v, b); } if (curly(r)) { ++i; return w_(cross(v, mk(curl(r)))); } if (label(r)) { ++i; if (!E.defs.count(o) && !E.defs.count(r)) return w_(pairs(o, r)); return w_(cross(v, hv(r))); } throw Bad(); } return w_(v); }
        throw Bad(); }
};
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
struct Real { HfstTransducer *t = nullptr; bool threw = false; std::string ex; };
static Real real(xre::XreCompiler &comp, const std::string &s) { Real r; try { r.t = comp.compile(s); } catch (const HfstException &e) { r.threw = true; r.ex = e.name; } return r; }
static std::ostringstream ERR;
static void setup(xre::XreCompiler &c) { c.set_verbosity(false); c.set_expand_definitions(true); ERR.str(""); c.set_error_stream(&ERR); }
// judge one expression; toks is its token sequence, text what the compiler is given
static void judge(mc::Ctx &c, xre::XreCompiler &comp, ImplementationType ty, const SV &toks, const std::string &text, const Env &E, bool nonsyntax_only = false) {
    V want; bool bad = false; try { P p(toks, E); want = p.top(); } catch (Bad &) { bad = true; } catch (Skip &) { want.skip = true; }
    if (bad && nonsyntax_only) return;
    if (ty != TROPICAL_OPENFST_TYPE && bad) return; // the parser is the same for every type
    setup(comp); c.trans(); Real r = real(comp, text); std::unique_ptr<HfstTransducer> own(r.t);
    if (bad) { if (r.t) return c.fail("an ill-formed expression was compiled"); if (r.threw) return c.fail("an ill-formed expression was not refused as a syntax error but raised " + r.ex); c.outcome(1); return; }
    if (want.skip) { c.skip(); return; }
    if (want.rej) { c.outcome(2); if (r.t) return c.fail("an operation that is only defined for automata was applied to a transducer without complaint"); return; }
    if (!r.t) return c.fail("a well-formed expression was refused" + (r.threw ? " with " + r.ex : ": " + ERR.str()));
    if (r.t->get_type() != ty) return c.fail("the result has the wrong type");
    Con g = concretize(*r.t, U); if (!g.err.empty()) return c.fail(g.err); bool w = want.weighted && ty == TROPICAL_OPENFST_TYPE; Rel a = rel(want.c, 3), b = rel(g, 3); std::string d = rel_diff(a, b, U, w || !want.weighted); if (ty != TROPICAL_OPENFST_TYPE && want.weighted) d = rel_diff(a, b, U, false);
    if (!d.empty()) return c.fail("the compiled transducer differs:" + d); c.outcome(rel_hash(b)); c.state(rel_hash(a) ^ ty); if (a.size() > 1) c.nontrivial(); c.sample(c.key); }
static std::string join(const SV &t) { std::string s; for (auto &x : t) s += (s.empty() ? "" : " ") + x; return s; }
static SV split(const std::string &s) { SV r; std::istringstream i(s); std::string x; while (i >> x) r.push_back(x); return r; }
static mc::u64 cnt(mc::u64 b, int l) { mc::u64 r = 0, p = 1; for (int i = 1; i <= l; ++i) { p *= b; r += p; } return r; }
static SV nth(mc::u64 x, const SV &al) { mc::u64 n = al.size(); int d = 1; while (x >= n) { x -= n; n *= al.size(); ++d; } SV s; for (int j = 0; j < d; ++j, x /= al.size()) s.push_back(al[x % al.size()]); return s; }
static void tokens(mc::Ctx &c, const SV &al, mc::u64 i) { SV t = nth(i, al); std::string s = join(t); c.k(s); static Env E; for (auto ty : TY) { if (c.failed) return; xre::XreCompiler comp(ty); judge(c, comp, ty, t, s, E); if (c.failed) c.msg = std::string(tyname(ty)) + ": " + c.msg; } }
// expressions built from operators, fully bracketed
static SV LEAF = split("a b 0 ? a:b ?:? a:0 {ab} [a|b] [?*] [a:b|b]");
static SV lt(const std::string &l) { static std::map<std::string, SV> m = {{"a:b", split("a : b")}, {"?:?", split("? : ?")}, {"a:0", split("a : 0")}, {"[a|b]", split("[ a | b ]")}, {"[?*]", split("[ ? * ]")}, {"[a:b|b]", split("[ a : b | b ]")}}; auto it = m.find(l); return it == m.end() ? SV{l} : it->second; }
static void add(SV &a, const SV &b) { a.insert(a.end(), b.begin(), b.end()); }
static SV br(const SV &x) { SV r = {"["}; add(r, x); r.push_back("]"); return r; }
static const SV UN = split("~ $ $. $? \\ * + .r .i .u .l ^2 ^>1 ^<3 ^{1,2} ()");
static const SV BIN = split("cat | & - .P. .p. .o. .x. .O. / < > => :");
static SV un(const std::string &o, const SV &x) { SV r; if (o == "()") { r = {"("}; add(r, x); r.push_back(")"); return r; } bool pre = o[0] == '~' || o[0] == '$' || o[0] == '\\'; if (pre) r = {o}; add(r, br(x)); if (!pre) r.push_back(o); return r; }
static SV bin(const std::string &o, const SV &x, const SV &y) { SV r = br(x); if (o == "=>") { r = {"["}; add(r, br(x)); r.push_back("=>"); add(r, br(y)); add(r, {"_", "b", "]"}); return r; } if (o != "cat") r.push_back(o); add(r, br(y)); return r; }
static void ast(mc::Ctx &c, const SV &t, bool tight) { std::string s; if (tight) { for (auto &x : t) s += x; } else s = join(t); c.k(s); static Env E; for (auto ty : TY) { if (c.failed) return; xre::XreCompiler comp(ty); judge(c, comp, ty, t, s, E); if (c.failed) c.msg = std::string(tyname(ty)) + ": " + c.msg; } }
// definitions and functions: a name means what [expression] means, also after redefinition of what it was built from
static const SV CTX = {"D", "D D", "D | b", "~ D", "D : a", "b : D", "D : D", "D : ?", "? : D", "[ D ] : a", "{ab} : D", "D .o. b", "D *", "a D b", "$ D", "D / b", "\\ D", "D ::2", "D => a _ b", "( D )", "F( D , b )", "F( a , D )", "F( F( D , a ) , D )", "F( D , D ) | D", "F( D )", "F( a : b , b )", "b .P. D"};
static const SV DEF = {"a", "a b", "a | b", "?", "a : b", "0", "a *", "~ a", "{ab}", "a ::1", "[ a - a ]", "\\ a", "? *"};
static const SV FUN = {"A B", "A | [ B A ]", "~ A", "A .o. B", "$ A - B", "A B *", "[ A ] : [ B ]"};
static void defs(mc::Ctx &c, mc::u64 i) { std::string d = DEF[i % DEF.size()], x = CTX[i / DEF.size() % CTX.size()], f = FUN[i / DEF.size() / CTX.size() % FUN.size()]; bool redef = i / DEF.size() / CTX.size() / FUN.size(); c.k("D=" + d + "; F=" + f + (redef ? "; redefined" : "") + "; " + x);
    SV ft; for (auto &s : split(f)) ft.push_back(s == "A" ? "\"@F(1@\"" : s == "B" ? "\"@F(2@\"" : s);
    for (auto ty : TY) { if (c.failed) return; xre::XreCompiler comp(ty); setup(comp); Env E; E.funs["F("] = {2, ft}; Env none; V dv; try { P p(split(d), none); SV dt = split(d); P q(dt, none); dv = q.top(); } catch (...) { continue; } if (dv.skip || dv.rej) { c.skip(); continue; }
        if (redef) { comp.define("D", "b"); comp.define("E", "D b"); comp.define_function("F(", 1, "\"@F(1@\""); }
        if (!comp.define("D", d)) return c.fail("define failed"); comp.define_function("F(", 2, join(ft)); E.defs["D"] = dv; if (redef) { SV et = {"b", "b"}; P q(et, none); E.defs["E"] = q.top(); }
        SV t = split(x); judge(c, comp, ty, t, x, E); if (!c.failed && redef) { std::string y = x + " E"; SV t2 = split("[ " + x + " ] E"); judge(c, comp, ty, t2, "[ " + x + " ] E", E); }
        if (!c.failed) judge(c, comp, ty, t, x, E); // a second time: compiling leaves nothing behind
        if (c.failed) c.msg = std::string(tyname(ty)) + ": " + c.msg; } }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C13";
    h.spaces = [](bool th) { std::vector<mc::Space> v;
        static std::vector<SV> AL = {split("a b 0 ? : | & - ~ * [ ] ( ) .o."), split("a ? : $ / \\ + .i [ ] .x. ^2"), split("{ab} a ? 0 : [ ] ::2 |"), split("a b < > => _ , ~ [ ]"), split("a b | - .P. .p. .O. & ~ ^>1 ^<2 ^{0,2}"), split("a \"a\" %a \"\" [] : .r .u .l $. $? ;")};
        static const int LQ[] = {4, 4, 5, 5, 4, 4}, LT[] = {5, 5, 7, 6, 5, 5};
        for (size_t k = 0; k < AL.size(); ++k) v.push_back({"tokens" + std::to_string(k + 1), cnt(AL[k].size(), (th ? LT : LQ)[k]), [k](mc::u64 i, mc::Ctx &c) { tokens(c, AL[k], i); }, 500});
        static mc::u64 nl = LEAF.size(), nu = UN.size(), nb = BIN.size();
        v.push_back({"binary", nb * nl * nl * (nu + 1), [](mc::u64 i, mc::Ctx &c) { mc::u64 u = i % (nu + 1); i /= nu + 1; SV t = bin(BIN[i / nl / nl], lt(LEAF[i % nl]), lt(LEAF[i / nl % nl])); if (u < nu) t = un(UN[u], t); ast(c, t, false); }, 60});
        static SV UL = th ? LEAF : split("a 0 ? a:b [a:b|b]"); static mc::u64 nul = UL.size();
        v.push_back({"unary", nu * nu * nu * nul, [](mc::u64 i, mc::Ctx &c) { SV t = lt(UL[i % nul]); i /= nul; for (int k = 0; k < 3; ++k, i /= nu) t = un(UN[i % nu], t); ast(c, t, true); }, 200});
        v.push_back({"definitions", DEF.size() * CTX.size() * (mc::u64)FUN.size() * 2, [](mc::u64 i, mc::Ctx &c) { defs(c, i); }, 40});
        return v; };
    return mc::drive(argc, argv, h);
}
