// C14: lexicon grammars.  The reference is a graph with one state per lexicon and one fragment per entry.
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstExceptionDefs.h"
#include "parsers/LexcCompiler.h"
using namespace ref; using namespace hfst; using std::string;
typedef std::vector<string> SV;
static Univ U({"a", "b", "c", "+S", "+Sg", "ä", "0", " ", ";", "%", "<", ":", "x", "#", "!"});
static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE};
struct Data { string txt; Con c; };
static Con chain(const SV &u, const SV &v) { Con c = x_eps(); for (size_t i = 0; i < std::max(u.size(), v.size()); ++i) c = x_concat(c, x_pair(i < u.size() ? U.of(u[i]) : 0, i < v.size() ? U.of(v[i]) : 0)); return c; }
// how a word of an entry is written and the symbols it stands for
struct Word { string txt; SV s; };
static const std::vector<Word> W = {{"a", {"a"}}, {"ab", {"a", "b"}}, {"abc", {"a", "b", "c"}}, {"aa", {"a", "a"}}, {"0", {}}, {"a0", {"a"}}, {"0a", {"a"}}, {"a0b", {"a", "b"}}, {"%0", {"0"}}, {"a%0b", {"a", "0", "b"}}, {"% ", {" "}}, {"a% b", {"a", " ", "b"}},
    {"%;", {";"}}, {"%%", {"%"}}, {"%<a", {"<", "a"}}, {"%:", {":"}}, {"+S", {"+S"}}, {"+Sg", {"+Sg"}}, {"a+S", {"a", "+S"}}, {"+S+Sg", {"+S", "+Sg"}}, {"a+Sga", {"a", "+Sg", "a"}}, {"%a", {"a"}}, {"ä", {"ä"}}, {"aä", {"a", "ä"}}, {"%#", {"#"}}, {"%!a", {"!", "a"}}, {"#", {"#"}}, {"%ä", {"ä"}}, {"%0%0", {"0", "0"}}};
static std::vector<Data> D; static std::map<string, int> DI;
static void add(const string &t, const Con &c) { DI[t] = D.size(); D.push_back({t, c}); }
static const Data &dat(const string &t) { return D.at(DI.at(t)); }
static Con P(const string &i, const string &o) { return x_pair(U.of(i), U.of(o)); }
static Con A(const string &i) { return P(i, i); }
static const char *DEFS = "Definitions\n  Dab = a b | c:a ;\n E = Dab a ;\n";
static void init() {
    if (!D.empty()) return;
    add("", x_eps()); add("b", A("b")); add("c", A("c")); for (auto &w : W) add(w.txt, chain(w.s, w.s));
    static const std::vector<Word> PW = {{"", {}}, {"0", {}}, {"a", {"a"}}, {"b", {"b"}}, {"ab", {"a", "b"}}, {"abc", {"a", "b", "c"}}, {"+S", {"+S"}}, {"ä", {"ä"}}, {"a0", {"a"}}, {"0a", {"a"}}, {"%0", {"0"}}, {"% ", {" "}}, {"+Sga", {"+Sg", "a"}}, {"b0a", {"b", "a"}}};
    for (auto &x : PW) for (auto &y : PW) add(x.txt + ":" + y.txt, chain(x.s, y.s));
    Con dab = x_union(x_concat(A("a"), A("b")), P("c", "a")), any = x_any(U);
    add("b:c", P("b", "c")); add("0:c", P(EPS, "c")); add("<a|b>", x_union(A("a"), A("b")));
    add("<a b>", x_concat(A("a"), A("b"))); add("< a | b >", x_union(A("a"), A("b"))); add("<a:b c>", x_concat(P("a", "b"), A("c"))); add("<[a:0]+ b>", x_concat(x_star(P("a", "0" == string("1") ? "" : EPS), true), A("b"))); add("<a*>", x_star(A("a"))); add("<0>", x_eps());
    add("<Dab>", dab); add("<Dab Dab>", x_concat(dab, dab)); add("<E>", x_concat(dab, A("a"))); add("<?>", any); add("<a ? b>", x_concat(x_concat(A("a"), any), A("b"))); add("<\\a>", x_minus(any, A("a"), U)); add("<{ab} %+S>", x_concat(x_concat(A("a"), A("b")), A("+S"))); add("<a -> b>", Con()); D.pop_back(); DI.erase("<a -> b>");
    add("<[a|b] & [b|c]>", A("b")); add("<\"+S\" a>", x_concat(A("+S"), A("a"))); add("<%0 a>", x_concat(A("0"), A("a"))); add("<ä:a>", P("ä", "a")); add("<(a) b>", x_concat(x_opt(A("a")), A("b"))); add("<a ! comment\n b>", x_concat(A("a"), A("b"))); add("<a - a>", x_empty());
    add("<[a::2|b::1] c>", x_concat(x_union(x_pair(1, 1, 2), x_pair(2, 2, 1)), A("c")));
}
struct Ent { string data, cont; float w = 0; string gloss = ""; };
struct Lex { string name; std::vector<Ent> e; };
typedef std::vector<Lex> Gram;
static string wtxt(float w) { std::ostringstream o; o << "\"weight: " << w << "\""; return o.str(); }
static string text(const Gram &g, int layout, bool header = true) {
    string s; if (header) s = string(layout == 2 ? "! a grammar\n" : "") + "Multichar_Symbols +S +Sg\n" + DEFS;
    for (auto &l : g) { s += "LEXICON " + l.name + (layout == 1 ? " " : "\n"); for (auto &e : l.e) { string gl = !e.gloss.empty() ? e.gloss : e.w ? wtxt(e.w) : "";
        s += (layout == 1 ? "\t" : "") + e.data + " " + e.cont + (gl.empty() ? "" : layout == 1 ? gl : " " + gl) + (layout == 1 ? ";" : " ;"); s += layout == 1 ? " " : layout == 2 ? " ! note ; LEXICON no #\n\n" : "\n"; } if (layout == 1) s += "\n"; }
    if (layout == 2) s += "END\nanything ; LEXICON : < goes\n"; return s; }
static Con reference(const Gram &g, bool weights) {
    std::map<string, int> st; Con c = x_new(2); c.fin[1] = {true, 0}; st["#"] = 1; string init;
    for (auto &l : g) { if (init.empty() || l.name == "Root") init = l.name; if (!st.count(l.name)) { st[l.name] = c.st.size(); c.st.push_back({}); c.fin.push_back({false, 0}); } }
    c.st[0].push_back({st[init], 0, 0, 0});
    for (auto &l : g) for (auto &e : l.e) { if (!st.count(e.cont)) continue; const Con &d = dat(e.data).c; int off = c.st.size(); x_app(c, d, off); c.st[st[l.name]].push_back({off, 0, 0, e.w}); for (size_t k = off; k < c.st.size(); ++k) if (c.fin[k].first) { c.st[k].push_back({st[e.cont], 0, 0, c.fin[k].second}); c.fin[k] = {false, 0}; } }
    return weights ? x_trim(c) : x_unweight(x_trim(c)); }
// the LEXNAME flags are obeyed on each side, then dropped
static Con unflag(const HfstBasicTransducer &b0) {
    HfstBasicTransducer b, in(b0); typedef std::tuple<int, string, string> Q; std::map<Q, int> id; std::vector<Q> q; auto get = [&](Q x) { auto it = id.find(x); if (it != id.end()) return it->second; int k = q.size(); id[x] = k; q.push_back(x); if (k) b.add_state(k); return k; }; get(Q(0, "", ""));
    auto step = [](const string &s, string &val, string &out) { if (s.compare(0, 11, "@P.LEXNAME.") == 0) { val = s.substr(11); out = EPS; return true; } if (s.compare(0, 11, "@R.LEXNAME.") == 0) { out = EPS; return val == s.substr(11); } out = s; return true; };
    for (auto &s : in.get_alphabet()) if (s.find(".LEXNAME.") != 2) b.add_symbol_to_alphabet(s);
    for (size_t k = 0; k < q.size(); ++k) { auto [s, vi, vo] = q[k]; if (in.is_final_state(s)) b.set_final_weight(k, in.get_final_weight(s)); for (auto &t : in[s]) { string a = vi, o = vo, x, y; if (!step(t.get_input_symbol(), a, x) || !step(t.get_output_symbol(), o, y)) continue; b.add_transition(k, HfstBasicTransition(get(Q(t.get_target_state(), a, o)), x, y, t.get_weight())); } }
    return concretize(b, U); }
struct Run { lexc::LexcCompiler *c; std::ostringstream err; };
static void parse(lexc::LexcCompiler &c, const string &s) { FILE *f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void *)s.data(), s.size(), "r"); c.parse(f); fclose(f); }
static std::ostringstream ERR;
static HfstTransducer *compile(const string &s, ImplementationType ty, bool align, bool flags) { lexc::LexcCompiler c(ty, flags, align); c.setVerbosity(0); ERR.str(""); c.set_error_stream(&ERR); parse(c, s); return c.compileLexical(); }
static string check(mc::Ctx &c, HfstTransducer *t0, const Gram &g, ImplementationType ty, bool flags, int L) {
    std::unique_ptr<HfstTransducer> t(t0); if (!t) return "a well-formed grammar was refused: " + ERR.str(); if (t->get_type() != ty) return "wrong type";
    Con got = flags ? unflag(HfstBasicTransducer(*t)) : concretize(*t, U); if (!got.err.empty()) return got.err; bool w = ty == TROPICAL_OPENFST_TYPE;
    Rel a = rel(reference(g, w), L), b = rel(got, L); if (!w) b = r_unweight(b); string d = rel_diff(a, b, U, w); c.outcome(rel_hash(b)); c.state(rel_hash(a) ^ ty ^ (flags ? 77 : 0)); if (a.size() > 1) c.nontrivial(); return d.empty() ? d : "the compiled lexicon differs:" + d; }
static void one(mc::Ctx &c, const Gram &g, int ti, int mode, int layout, int L) {
    string s = text(g, layout); c.k(string(tyname(TY[ti])) + (mode & 1 ? " align" : "") + (mode & 2 ? " flags" : "") + "|" + s); c.trans();
    string d = check(c, compile(s, TY[ti], mode & 1, mode & 2), g, TY[ti], mode & 2, L); if (!d.empty()) c.fail(d); else c.sample(c.key); }
static const std::vector<std::pair<string, float>> GL = {{"", 0}, {"\"weight: 1.5\"", 1.5}, {"\"a gloss\"", 0}, {"\"weight: -2\"", -2}, {"\"x weight: 3 y\"", 3}, {"\"weight:0.25\"", .25}, {"\"\"", 0}, {"\"; LEXICON # !\"", 0}};
// token strings after LEXICON Root
static void tokens(mc::Ctx &c, const SV &t) {
    string s = "LEXICON Root\n"; for (auto &x : t) s += x + " "; s += "\n"; c.k(s);
    // reference parser
    Gram g = {{"Root", {}}}; bool ok = true; size_t i = 0; auto word = [&](size_t k) { return k < t.size() && (t[k] == "a" || t[k] == "bx" || t[k] == "#"); };
    while (ok && i < t.size()) {
        if (t[i] == "LEXICON A") { if (g.back().e.empty()) ok = false; g.push_back({"A", {}}); ++i; continue; }
        if (t[i] == "\nEND\n") { if (g.back().e.empty()) ok = false; break; }
        Ent e; size_t j = i; bool name_last = false;
        auto islast = [&](size_t k) { return k + 1 < t.size() && (t[k + 1] == ";" || t[k + 1][0] == '"'); };
        if (j < t.size() && t[j] == "<b>") { e.data = t[j++]; }
        else { if (word(j) && !islast(j)) e.data = t[j++]; if (j < t.size() && t[j] == ":") { e.data += ":"; ++j; if (word(j) && !islast(j)) e.data += t[j++]; } }
        if (!word(j) || !islast(j)) { ok = false; break; } e.cont = t[j++];
        if (t[j][0] == '"') { e.w = 1.5; e.gloss = t[j++]; } if (j >= t.size() || t[j] != ";") { ok = false; break; } i = j + 1; g.back().e.push_back(e); (void)name_last;
    }
    if (g.back().e.empty()) ok = false;
    c.trans(); HfstTransducer *r = compile(s, TROPICAL_OPENFST_TYPE, false, false);
    if (!ok) { c.outcome(1); if (r) { delete r; return c.fail("an ill-formed grammar was compiled"); } return; }
    auto side = [](const string &x) { SV r; if (x == "a") r = {"a"}; else if (x == "bx") r = {"b", "x"}; else if (x == "#") r = {"#"}; return r; };
    for (auto &l : g) for (auto &e : l.e) if (!DI.count(e.data)) { if (e.data == "<b>") add(e.data, A("b")); else { size_t p = e.data.find(':'); if (p == string::npos) add(e.data, chain(side(e.data), side(e.data))); else add(e.data, chain(side(e.data.substr(0, p)), side(e.data.substr(p + 1)))); } }
    string d = check(c, r, g, TROPICAL_OPENFST_TYPE, false, 4); if (!d.empty()) c.fail(d); else c.sample(c.key); }
// histories in one process
static const std::vector<Gram> HG = {
    {{"Root", {{"a", "#", 1}, {"b:c", "A"}}}, {"A", {{"+S", "#"}, {"<a|b>", "Root", 2}}}},
    {{"First", {{"ab", "Next"}}}, {"Next", {{"0:c", "#", 3}}}},
    {{"Noun", {{"a", "#"}}}, {"Root", {{"b", "Noun"}, {"", "#"}}}},
    {{"A", {{"a", "#"}, {"b", "Root"}}}},
    {{"Root", {{"<Dab>", "#"}, {"+Sg", "Root", 1}}}},
    {{"Root", {{"c", "B"}}}, {"B", {{"<E>", "#"}, {"a", "#"}}}}};
static void hist(mc::Ctx &c, std::vector<int> seq, int ti, bool flags) {
    ImplementationType ty = TY[ti]; int n = HG.size(); string k = string(tyname(ty)) + (flags ? " flags" : ""); static const char *AN[] = {"malformed", "undefined", "compile twice", "regex error", "reset and reuse"};
    for (int o : seq) { k += "; "; if (o < n) k += "compile G" + std::to_string(o); else if (o < 2 * n) k += "one compiler: G" + std::to_string(o - n) + " then G3"; else k += AN[o - 2 * n]; } c.k(k); string err;
    auto run = [&](std::vector<string> txt, const Gram *g, int times) { lexc::LexcCompiler lc(ty, flags, false); lc.setVerbosity(0); ERR.str(""); lc.set_error_stream(&ERR); for (auto &t : txt) { c.trans(); parse(lc, t); } for (int i = 0; i < times && err.empty(); ++i) { HfstTransducer *r = lc.compileLexical(); if (!g) { if (r) { delete r; err = "an ill-formed grammar was compiled"; } } else err = check(c, r, *g, ty, flags, 3); } };
    for (int o : seq) { if (!err.empty()) break;
        if (o < n) run({text(HG[o], 0)}, &HG[o], 1);
        else if (o < 2 * n) { Gram g = HG[o - n]; if (g.size() == 1 && g[0].name == "A") { run({text(g, 0)}, &g, 1); continue; } for (auto &l : HG[3]) g.push_back(l); run({text(HG[o - n], 0), text(HG[3], 0, false)}, &g, 1); }
        else if (o == 2 * n) run({"Multichar_Symbols +S\nLEXICON Root\na # ;\nb : : # ;\n"}, nullptr, 1);
        else if (o == 2 * n + 1) { Gram g = {{"Root", {{"a", "Nowhere"}, {"b", "#"}}}}; run({text(g, 0)}, &g, 1); }
        else if (o == 2 * n + 2) { run({text(HG[0], 2)}, &HG[0], 2); }
        else if (o == 2 * n + 3) run({"LEXICON Root\na # ;\n<a ( b> # ;\n"}, nullptr, 1);
        else { lexc::LexcCompiler lc(ty, flags, false); lc.setVerbosity(0); ERR.str(""); lc.set_error_stream(&ERR); parse(lc, "LEXICON Root\n <a> : # ;\n"); lc.reset(); parse(lc, text(HG[1], 0)); err = check(c, lc.compileLexical(), HG[1], ty, flags, 3); if (err.empty()) { lc.reset(); parse(lc, text(HG[0], 0)); err = check(c, lc.compileLexical(), HG[0], ty, flags, 3); } } }
    if (!err.empty()) c.fail(err); else c.sample(c.key); }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C14"; init();
    h.spaces = [](bool th) { std::vector<mc::Space> v; typedef mc::u64 u64;
        u64 nd = D.size(), ng = GL.size();
        v.push_back({"entry", nd * ng * 12 * 3, [=](u64 i, mc::Ctx &c) { int lay = i % 3; i /= 3; int gl = i % ng; i /= ng; int m = i % 4; i /= 4; int ti = i % 3; i /= 3; if (!((gl == 1 && lay == 1) || (m == 0 && (gl + lay) % 3 == 0 && ti == 0) || (lay == 0 && gl == 0))) { c.skip(); return; }
            Ent e = {D[i].txt, "#", GL[gl].second, GL[gl].first}; one(c, {{"Root", {e}}}, ti, m, lay, 4); }, 500});
        static std::vector<string> S1; for (auto &x : D) if (th || x.txt.size() > 2 + 0 * x.txt.size() || x.txt.find(':') == string::npos) S1.push_back(x.txt);
        static SV S2; S2.clear(); for (auto s : {"", "a", "ab", "0", "a0b", "%0", "+S", "+S+Sg", "ä", "a:b", "ab:a", ":a", "a:", "0:ab", "abc:b", "+S:0", "<a b>", "<a|b>", "<Dab>", "<?>", "<a ? b>", "<\\a>", "<a*>", "<[a:0]+ b>", "<a - a>", "<[a::2|b::1] c>", "<0>"}) if (DI.count(s)) S2.push_back(s);
        u64 n2 = S2.size();
        v.push_back({"two-entries", n2 * n2 * 3 * 3, [=](u64 i, mc::Ctx &c) { int ti = i % 3; i /= 3; int sh = i % 3; i /= 3; string x = S2[i % n2], y = S2[i / n2]; Gram g;
            if (sh == 0) g = {{"Root", {{x, "#", 1}, {y, "#", 2}}}}; else if (sh == 1) g = {{"Root", {{x, "A", 1}}}, {"A", {{y, "#", 2}, {"c", "#"}}}}; else g = {{"Root", {{x, "A", 1}, {y, "B", 2}}}, {"A", {{y, "#"}}}, {"B", {{"c", "#"}, {x, "#"}}}};
            one(c, g, ti, i % 4, 0, 3); }, 100});
        for (auto &x : {"b:c", "a"}) if (!DI.count(x)) add(x, x[1] ? P("b", "c") : A("a")); for (auto &x : {"a", "b", "c"}) if (!DI.count(string("<") + x + ">")) add(string("<") + x + ">", A(x)); static const SV CT = {"#", "A", "B", "Root", "Nowhere"}, DT = {"a", "b:c", ""};
        v.push_back({"structure", (u64)15 * 15 * (th ? 15 * 15 : 10 * 5), [=](u64 i, mc::Ctx &c) { int ti = i % 7 < 5 ? 0 : i % 7 - 4; int mode = i % 5 == 4 ? 2 : 0; auto en = [&](float w, int nd) { Ent e; e.data = DT[i % nd]; i /= nd; e.cont = CT[i % 5]; i /= 5; e.w = w; return e; };
            Ent r1 = en(1, 3), r2 = en(2, 3), a1 = en(4, th ? 3 : 2), b1 = en(8, th ? 3 : 1); Gram g = {{"Root", {r1, r2}}, {"A", {a1}}, {"B", {b1}}}; one(c, g, ti, mode, 0, 4); }, 100});
        static const SV NM = {"A", "A_B", "B", "B_C", "C", "_", "A_", "Root"}, CN = {"A", "A_B", "B_C", "C", "_C", "#"};
        v.push_back({"names", NM.size() * NM.size() * CN.size() * CN.size() * 4, [=](u64 i, mc::Ctx &c) { int k = i % 4; i /= 4; string n1 = NM[i % NM.size()]; i /= NM.size(); string n2 = NM[i % NM.size()]; i /= NM.size(); string c1 = CN[i % CN.size()], c2 = CN[i / CN.size()]; if (n1 == n2) { c.skip(); return; }
            bool rx = k & 1; Gram g; g.push_back({"Root", {{"a", n1}, {"b", n2}, {"c", "C", 1}}}); auto ad = [&](string n, Ent e) { for (auto &l : g) if (l.name == n) { l.e.push_back(e); return; } g.push_back({n, {e}}); }; ad(n1, {rx ? "<a>" : "a", c1, 2}); ad(n2, {rx ? "<b>" : "b", c2, 4}); ad("C", {"c", "#", 8}); if (!DI.count("<a>")) { add("<a>", A("a")); add("<b>", A("b")); }
            if (k & 2) ad(n1, {rx ? "<c>" : "c", c1, 16}); if (!DI.count("<c>")) add("<c>", A("c")); one(c, g, rx && i % 3 == 1 ? 1 : 0, 0, 0, 3); }, 200});
        static const SV TK = {"a", "bx", "#", ":", ";", "\"weight: 1.5\"", "<b>", "LEXICON A", "\nEND\n"};
        for (int l = 1; l <= (th ? 7 : 5); ++l) { u64 n = 1; for (int k = 0; k < l; ++k) n *= TK.size(); v.push_back({"tokens-" + std::to_string(l), n, [l](u64 i, mc::Ctx &c) { SV t; for (int k = 0; k < l; ++k, i /= TK.size()) t.push_back(TK[i % TK.size()]); tokens(c, t); }, 1000}); }
        v.push_back({"entries-6", (u64)9 * 9 * 9 * 9 * 9, [](u64 i, mc::Ctx &c) { SV t = {"a", "#", ";"}; for (int k = 0; k < 5; ++k, i /= TK.size()) t.push_back(TK[i % TK.size()]); t.push_back(";"); tokens(c, t); }, 1000});
        u64 no = HG.size() * 2 + 5; for (int d = 1; d <= (th ? 4 : 3); ++d) { int nt = d > 2 && !th ? 1 : 4; u64 n = nt; for (int k = 0; k < d; ++k) n *= no; v.push_back({"history-" + std::to_string(d), n, [=](u64 i, mc::Ctx &c) { int ti = i % nt; i /= nt; std::vector<int> q; for (int k = 0; k < d; ++k, i /= no) q.push_back(i % no); hist(c, q, ti % 3, ti == 3); }, 1}); v.back().chunk = d == 1 ? 1 : d == 2 ? 4 : 60; }
        return v; };
    return mc::drive(argc, argv, h);
}
