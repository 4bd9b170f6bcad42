// C18: the interactive interpreter (hfst-xfst): histories of commands against a model of its stack and definitions.
#include "mc.h"
#include "refx.h"
#include "HfstTransducer.h"
#include "HfstExceptionDefs.h"
#include "parsers/XfstCompiler.h"
#include <sys/stat.h>
using namespace ref; using namespace hfst; using std::string;
namespace {
static Univ U, UP; static const int L = 3; // a b c are used in the expressions, d never
static string dir;
struct Net { Con c; std::set<string> al; bool ol = false; };
struct M { std::vector<Net> st; std::map<string, Net> defs; bool topol() const { return !st.empty() && st.back().ol; } bool anyol() const { for (auto &n : st) if (n.ol) return true; return false; } std::map<string, std::vector<Net>> file; std::map<string, std::map<string, Net>> dfile; std::map<string, string> vars; };
static int sid(const string &s) { return U.id.at(s); }
static Con sy(const string &s) { return x_pair(sid(s), sid(s)); }
static Con pr(const string &a, const string &b) { return x_pair(a == "0" ? 0 : sid(a), b == "0" ? 0 : sid(b)); }
static bool l2l(const Con &c0) { Con c = x_trim(c0); for (auto &s : c.st) for (auto &a : s) if ((a.i == 0) != (a.o == 0)) return false; return true; }
static bool acc(const Con &c0) { return x_is_acc(x_trim(c0)); }
static bool unk(const Con &c0) { Con c = x_trim(c0); int d = sid("d"); for (auto &s : c.st) for (auto &a : s) if (a.i == d || a.o == d) return true; return false; }
static bool empty(const Con &c0) { Con c = x_trim(c0); for (auto &f : c.fin) if (f.first) return false; return true; }
static Con enc(Con c) { int n = U.name.size(); for (auto &s : c.st) for (auto &a : s) if (a.i) { a.i = a.o = (a.i - 1) * n + a.o; } return c; }
static Con dec(Con c) { int n = U.name.size(); for (auto &s : c.st) for (auto &a : s) if (a.i) { int k = a.i - 1; a.i = k / n + 1; a.o = k % n + 1; } return c; }
static Con p_minus(const Con &a, const Con &b) { return dec(x_minus(enc(a), enc(b), UP)); }
static Con p_and(const Con &a, const Con &b) { return dec(x_and(enc(a), enc(b))); }
// a cycle of arcs that satisfy f, at least one of which satisfies g
static bool cycle(const Con &c0, std::function<bool(const CArc &)> f, std::function<bool(const CArc &)> g) { Con c = x_trim(c0); int n = c.st.size(); std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
    for (int s = 0; s < n; ++s) for (auto &a : c.st[s]) if (f(a)) r[s][a.t] = 1; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (r[i][k]) for (int j = 0; j < n; ++j) if (r[k][j]) r[i][j] = 1;
    for (int s = 0; s < n; ++s) for (auto &a : c.st[s]) if (f(a) && g(a) && (a.t == s || r[a.t][s])) return true; return false; }
static bool infin(const Con &c) { return cycle(c, [](const CArc &) { return true; }, [](const CArc &a) { return a.i != 0; }); }
static bool infout(const Con &c) { return cycle(c, [](const CArc &) { return true; }, [](const CArc &a) { return a.o != 0; }); }
static bool infamb(const Con &c) { return cycle(c, [](const CArc &a) { return a.i == 0; }, [](const CArc &a) { return a.o != 0; }); }
static Con letters() { return x_star(x_any(U)); }
static Con lshuffle(const Con &a0, const Con &b0) { Con a = x_trim(a0), b = x_trim(b0); int n = a.st.size(), m = b.st.size(); Con c = x_new(n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { for (auto &x : a.st[i]) c.st[i * m + j].push_back({x.t * m + j, x.i, x.o, x.w}); for (auto &x : b.st[j]) c.st[i * m + j].push_back({i * m + x.t, x.i, x.o, x.w}); c.fin[i * m + j] = {a.fin[i].first && b.fin[j].first, 0}; } return c; }
static Con ren(Con c, int from, int to) { for (auto &s : c.st) for (auto &a : s) { if (a.i == from) a.i = to; if (a.o == from) a.o = to; } return c; }
static Con into(const Con &c0, int lab, const Con &b) { Con c = x_trim(c0); int n = c.st.size(); for (int s = 0; s < n; ++s) for (size_t k = 0; k < c.st[s].size(); ++k) { CArc a = c.st[s][k]; if (a.i != lab || a.o != lab) continue; int off = c.st.size(); x_app(c, b, off); c.st[s][k] = {off, 0, 0, a.w}; for (size_t q = off; q < c.st.size(); ++q) if (c.fin[q].first) { c.st[q].push_back({a.t, 0, 0, c.fin[q].second}); c.fin[q] = {false, 0}; } } return c; }
struct Cmd { string t; std::function<int(M &)> f; }; // f: 0 done or refused (then the model is unchanged), -1 not modelled
static std::vector<Cmd> CMD; static std::vector<string> CMD2; static std::vector<std::vector<string>> PRE; static std::map<string, std::function<int(M &)>> BY;
static std::set<string> AL(const Con &c0) { std::set<string> r; Con c = x_trim(c0); for (auto &s : c.st) for (auto &a : s) { if (a.i) r.insert(U.name[a.i - 1]); if (a.o) r.insert(U.name[a.o - 1]); } r.erase("d"); return r; }
static void add(const string &t, std::function<int(M &)> f, bool pre = false) { if (!pre) CMD.push_back({t, f}); BY[t] = f; }
static std::function<int(M &)> push(std::function<Con(M &)> g) { return [=](M &m) { Con c = g(m); m.st.push_back({c, AL(c)}); return 0; }; }
static std::function<int(M &)> un(std::function<Con(const Con &)> g) { return [=](M &m) { if (m.st.empty() || m.topol()) return 0; m.st.back().c = x_trim(g(m.st.back().c)); return 0; }; }
// the whole stack, top first
static std::function<int(M &)> all(std::function<int(const Con &, const Con &, Con &)> g) { return [=](M &m) { if (m.st.size() < 2) return 0; if (m.anyol()) return 0; Con r = m.st.back().c; for (int k = (int)m.st.size() - 2; k >= 0; --k) { Con q; int e = g(r, m.st[k].c, q); if (e == 1) { if (k != (int)m.st.size() - 2) return -1; return 0; } if (e) return e; r = x_trim(q); } m.st.clear(); m.st.push_back({r, AL(r)}); return 0; }; }
static std::function<int(M &)> two(std::function<int(const Con &, const Con &, Con &)> g) { return [=](M &m) { if (m.st.size() < 2) return 0; if (m.topol() || m.st[m.st.size() - 2].ol) return 0; Con q; int e = g(m.st.back().c, m.st[m.st.size() - 2].c, q); if (e) return e == 1 ? 0 : e; m.st.pop_back(); m.st.pop_back(); q = x_trim(q); m.st.push_back({q, AL(q)}); return 0; }; }
static Con look(const M &m, const string &n) { auto it = m.defs.find(n); return it == m.defs.end() ? x_new(0) : it->second.c; }
static void setup() {
    string F = "s.bin", D = "d.bin";
    // what goes on the stack
    add("regex a b;", push([](M &) { return x_concat(sy("a"), sy("b")); })); add("regex [a:b | c]* b;", push([](M &) { return x_concat(x_star(x_union(pr("a", "b"), sy("c"))), sy("b")); })); add("regex a:0 | 0:b c;", push([](M &) { return x_union(pr("a", "0"), x_concat(pr("0", "b"), sy("c"))); }));
    add("regex ? b*;", push([](M &) { return x_concat(x_any(U), x_star(sy("b"))); })); add("regex [a|b];", push([](M &) { return x_union(sy("a"), sy("b")); }), true); add("regex [b|c] (a);", push([](M &) { return x_concat(x_union(sy("b"), sy("c")), x_opt(sy("a"))); }), true); add("regex [a [b|c]]*;", push([](M &) { return x_star(x_concat(sy("a"), x_union(sy("b"), sy("c")))); }), true); add("regex b:c;", push([](M &) { return pr("b", "c"); }), true); add("regex ?*;", push([](M &) { return letters(); }), true); add("regex a:?;", push([](M &) { Con c = x_new(2); c.fin[1] = {true, 0}; for (int k = 1; k <= (int)U.name.size(); ++k) if (k != sid("a")) c.st[0].push_back({1, sid("a"), k, 0}); return c; }), true);
    add("regex a b", [](M &) { return 0; }); BY["regex a b"] = [](M &m) { return push([](M &) { return x_concat(sy("a"), sy("b")); })(m); }; CMD.back().f = BY["regex a b"];
    add("regex [ a ;", [](M &) { return 0; });
    // definitions: a name that is not defined stands for itself, outside the universe of the check
    add("regex X a;", [](M &m) { if (!m.defs.count("X")) return -1; Con c = x_concat(look(m, "X"), sy("a")); m.st.push_back({c, AL(c)}); return 0; });
    add("define X c | a:b;", [](M &m) { Con c = x_union(sy("c"), pr("a", "b")); m.defs["X"] = {c, AL(c)}; return 0; }); add("define X [X a]* b;", [](M &m) { if (!m.defs.count("X")) return -1; Con c = x_concat(x_star(x_concat(look(m, "X"), sy("a"))), sy("b")); m.defs["X"] = {c, AL(c)}; return 0; });
    add("define X;", [](M &m) { if (m.st.empty() || m.topol()) return 0; m.defs["X"] = m.st.back(); m.st.pop_back(); return 0; }); add("define Y a | b;", [](M &m) { Con c = x_union(sy("a"), sy("b")); m.defs["Y"] = {c, AL(c)}; return 0; });
    add("undefine X", [](M &m) { m.defs.erase("X"); return 0; }); add("undefine X Y", [](M &m) { m.defs.erase("X"); m.defs.erase("Y"); return 0; });
    add("push X", [](M &m) { if (m.defs.count("X")) m.st.push_back(m.defs["X"]); return 0; }); add("push defined", [](M &m) { for (auto &d : m.defs) m.st.push_back(d.second); return 0; });
    // the stack
    add("pop", [](M &m) { if (!m.st.empty()) m.st.pop_back(); return 0; }); add("clear stack", [](M &m) { m.st.clear(); return 0; }); add("turn stack", [](M &m) { std::reverse(m.st.begin(), m.st.end()); return 0; });
    add("rotate stack", [](M &m) { if (!m.st.empty()) { m.st.insert(m.st.begin(), m.st.back()); m.st.pop_back(); } return 0; });
    // one network
    add("invert net", un([](const Con &c) { return x_inv(c); })); add("upper-side net", un([](const Con &c) { return x_up(c); })); add("lower-side net", un([](const Con &c) { return x_down(c); })); add("reverse net", un([](const Con &c) { return x_rev(c); })); add("zero-plus net", un([](const Con &c) { return x_star(c); })); add("one-plus net", un([](const Con &c) { return x_star(c, true); }));
    add("determinize net", un([](const Con &c) { return c; })); add("minimize net", un([](const Con &c) { return c; })); add("prune net", un([](const Con &c) { return c; })); add("epsilon-remove net", un([](const Con &c) { return c; })); add("compact sigma", [](M &m) { if (!m.st.empty() && unk(m.st.back().c)) return -1; return 0; }); add("complete net", un([](const Con &c) { return c; })); add("name net foo", [](M &) { return 0; });
    add("negate net", [](M &m) { if (m.st.empty() || m.topol()) return 0; if (!acc(m.st.back().c)) return l2l(m.st.back().c) ? 0 : -1; m.st.back().c = x_compl(m.st.back().c, U); return 0; });
    add("substitute symbol c for b", [](M &m) { if (m.st.empty() || m.topol()) return 0; if (unk(m.st.back().c)) return -1; m.st.back().c = ren(m.st.back().c, sid("b"), sid("c")); return 0; });
    add("substitute defined X for a", [](M &m) { if (m.st.empty() || m.topol() || !m.defs.count("X")) return 0; Con c = x_trim(m.st.back().c); if (unk(c) || unk(look(m, "X")) || !l2l(c)) return -1; for (auto &s : c.st) for (auto &a : s) if (a.i != a.o && (a.i == sid("a") || a.o == sid("a"))) return 0; m.st.back().c = into(c, sid("a"), look(m, "X")); return 0; });
    // several networks
    add("union net", all([](const Con &a, const Con &b, Con &r) { r = x_union(a, b); return 0; })); add("concatenate net", all([](const Con &a, const Con &b, Con &r) { r = x_concat(a, b); return 0; })); add("compose net", all([](const Con &a, const Con &b, Con &r) { r = x_compose(a, b); return 0; }));
    add("intersect net", all([](const Con &a, const Con &b, Con &r) { if (!l2l(a) || !l2l(b)) return -1; r = p_and(a, b); return 0; })); add("shuffle net", all([](const Con &a, const Con &b, Con &r) { if (!acc(a) || !acc(b)) return l2l(a) && l2l(b) ? 1 : -1; r = lshuffle(a, b); return 0; }));
    add("minus net", two([](const Con &a, const Con &b, Con &r) { if (!l2l(a) || !l2l(b)) return -1; r = p_minus(a, b); return 0; })); add("crossproduct net", two([](const Con &a, const Con &b, Con &r) { if (!acc(a) || !acc(b)) return l2l(a) && l2l(b) ? 1 : -1; r = x_cross(a, b); return 0; })); add("ignore net", two([](const Con &a, const Con &b, Con &r) { r = x_ignore(a, b); return 0; }));
    // formats and files
    add("lookup-optimize", [](M &m) { if (!m.st.empty() && !m.topol()) for (auto &n : m.st) n.ol = true; return 0; }); add("remove-optimization", [](M &m) { if (m.topol()) for (auto &n : m.st) n.ol = false; return 0; });
    add("save stack " + F, [=](M &m) { if (m.anyol()) return -1; if (!m.st.empty()) m.file[F] = m.st; return 0; }); add("load stack " + F, [=](M &m) { if (m.file.count(F)) for (auto &n : m.file[F]) m.st.push_back(n); return 0; });
    add("save defined " + D, [=](M &m) { if (!m.defs.empty()) m.dfile[D] = m.defs; return 0; }); add("load defined " + D, [=](M &m) { if (m.dfile.count(D)) for (auto &d : m.dfile[D]) m.defs[d.first] = d.second; return 0; });
    add("write att > t.att", [](M &m) { if (m.st.empty() || m.topol()) return -1; if (unk(m.st.back().c)) return -1; m.file["t.att"] = {m.st.back()}; return 0; }); add("read att t.att", [](M &m) { if (m.file.count("t.att")) m.st.push_back(m.file["t.att"][0]); return 0; });
    add("write prolog > t.pl", [](M &m) { if (m.st.empty() || m.topol()) return -1; if (unk(m.st.back().c)) return -1; m.file["t.pl"] = {m.st.back()}; return 0; }); add("read prolog t.pl", [](M &m) { if (m.file.count("t.pl")) m.st.push_back(m.file["t.pl"][0]); return 0; });
    // functions, text, lexicons and scripts: histories of their own
    size_t keep = CMD.size();
    auto fun = [](M &m, const string &n, int k) { m.vars[n] = std::to_string(k); return 0; }; // which definition a function has
    add("define Fn(x) x a*;", [=](M &m) { return fun(m, "Fn", 1); }); add("define Fn(xy, z) z xy b;", [=](M &m) { return fun(m, "Fn", 2); }); add("define F(x) [x | x:c];", [=](M &m) { return fun(m, "F", 3); }); add("define Fn(x) [X x]*;", [=](M &m) { if (!m.defs.count("X")) return -1; m.vars["Fn"] = "4"; return m.defs.count("X") ? 0 : -1; });
    add("regex Fn(b);", [](M &m) { string v = m.vars["Fn"]; Con c; if (v == "1") c = x_concat(sy("b"), x_star(sy("a"))); else if (v == "2") return 0; else return -1; m.st.push_back({c, AL(c)}); return 0; });
    add("regex Fn([a|b], c);", [](M &m) { string v = m.vars["Fn"]; if (v == "1" || v == "4") return 0; if (v != "2") return -1; Con c = x_concat(sy("c"), x_concat(x_union(sy("a"), sy("b")), sy("b"))); m.st.push_back({c, AL(c)}); return 0; });
    add("regex F(a) F(b);", [](M &m) { if (!m.vars.count("F")) return -1; Con c = x_concat(x_union(sy("a"), pr("a", "c")), x_union(sy("b"), pr("b", "c"))); m.st.push_back({c, AL(c)}); return 0; });
    add("regex Fn(F(a));", [](M &m) { if (m.vars["Fn"] == "2" && m.vars.count("F")) return 0; if (!m.vars.count("F") || m.vars["Fn"] != "1") return -1; Con c = x_concat(x_union(sy("a"), pr("a", "c")), x_star(sy("a"))); m.st.push_back({c, AL(c)}); return 0; });
    add("read text w.txt", push([](M &) { return x_union(x_concat(sy("a"), sy("b")), x_union(sy("c"), x_concat(sy("c"), sy("c")))); })); add("read spaced-text w2.txt", push([](M &) { return x_union(x_concat(sy("a"), sy("b")), x_concat(pr("a", "b"), sy("c"))); })); add("read text missing.txt", [](M &) { return 0; });
    add("read lexc l.lexc", push([](M &) { return x_union(x_concat(sy("a"), sy("b")), x_concat(pr("c", "a"), x_star(sy("b"), true))); })); add("source s.xfst", [](M &m) { Con c = x_union(sy("b"), pr("a", "c")); m.defs["X"] = {c, AL(c)}; Con d = x_concat(c, sy("b")); m.st.push_back({d, AL(d)}); d = x_inv(d); m.st.back().c = d; return 0; });
    add("define X a | b; regex X c;", [](M &m) { Con c = x_union(sy("a"), sy("b")); m.defs["X"] = {c, AL(c)}; Con d = x_concat(c, sy("c")); m.st.push_back({d, AL(d)}); return 0; });
    add("! a comment", [](M &) { return 0; }); add("regex a ! pop\n b;", push([](M &) { return x_concat(sy("a"), sy("b")); })); add("no-such-command", [](M &) { return 0; });
    for (size_t k = keep; k < CMD.size(); ++k) CMD2.push_back(CMD[k].t); CMD.resize(keep); for (auto t : {"regex X a;", "define X c | a:b;", "define X;", "undefine X", "pop", "turn stack", "union net", "compose net", "invert net", "clear stack"}) CMD2.push_back(t);
    // settings that must not change what is computed
    add("set minimal OFF", [](M &) { return 0; }); add("set hopcroft-min OFF", [](M &) { return 0; });
}
static string run1(xfst::XfstCompiler &x, std::ostringstream &o, const string &l) { o.str(""); x.parse_line(l + "\n"); return o.str(); }
static std::set<string> lines(const string &s) { std::set<string> r; std::istringstream is(s); string l; while (std::getline(is, l)) r.insert(l); return r; }
static string txt(Str s) { string r; for (int i = 0; i < slen(s); ++i) r += U.name[sat(s, i) - 1]; return r; }
static string stackdiff(const xfst::XfstCompiler &x, const M &m) { std::stack<HfstTransducer *> s = x.get_stack(); if (s.size() != m.st.size()) return "the stack has " + std::to_string(s.size()) + " networks, expected " + std::to_string(m.st.size());
    for (int k = (int)m.st.size() - 1; k >= 0; --k) { HfstTransducer t(*s.top()); bool isol = t.get_type() == HFST_OL_TYPE || t.get_type() == HFST_OLW_TYPE; if (isol != m.st[k].ol) return "network " + std::to_string(k) + " has the wrong format"; if (isol) t.convert(TROPICAL_OPENFST_TYPE); s.pop(); Con g = concretize(t, U); if (!g.err.empty()) return g.err; string d = rel_diff(rel(m.st[k].c, L), rel(g, L), U, false); if (!d.empty()) return "network " + std::to_string(k) + " of the stack:" + d; } return ""; }
static string show(const std::set<string> &s) { string r = "{"; for (auto &x : s) r += x + " "; return r + "}"; }
static void hist(mc::Ctx &c, const std::vector<string> &seq, const ImplementationType ty, bool script) {
    M m; string k = tyname(ty); if (script) k += "|script"; for (auto &s : seq) k += "; " + s; c.k(k); c.state(mc::hs(k));
    if (script) for (size_t q = 0; q < seq.size(); ++q) if (seq[q] == "regex a b" || seq[q] == "regex [ a ;") { c.skip(); return; } // an unfinished expression goes on in the next line
    for (auto &s : seq) if (BY[s](m) || (ty == FOMA_TYPE && s == "epsilon-remove net")) { c.skip(); return; }
    { std::ofstream("w.txt") << "ab\nc\ncc\n"; std::ofstream("w2.txt") << "a b\na:b c\n"; std::ofstream("l.lexc") << "LEXICON Root\nab # ;\nc:a B ;\nLEXICON B\nb B ;\nb # ;\n"; std::ofstream("s.xfst") << "define X b | a:c;\nregex X b;\ninvert net\n"; }
    for (auto f : {"s.bin", "d.bin", "t.att", "t.pl"}) unlink(f);
    set_minimization(true); set_minimization_algorithm(HOPCROFT); set_encode_weights(false);
    std::ostringstream o, e; string d; M w;
    { xfst::XfstCompiler x(ty); x.set_output_stream(o); x.set_error_stream(e); x.setVerbosity(false);
      if (script) { string all; for (auto &s : seq) all += s + "\n"; o.str(""); x.parse_line(all); c.trans(seq.size()); } else for (auto &s : seq) { c.trans(); run1(x, o, s); }
      d = stackdiff(x, m); if (!d.empty()) return c.fail(d + "\n messages: " + e.str());
      if (!empty(m.st.empty() ? x_new(1) : m.st.back().c)) c.nontrivial();
      c.outcome(m.st.empty() ? 0 : rel_hash(rel(m.st.back().c, L)));
      // definitions as expressions see them
      for (auto &df : m.defs) { run1(x, o, "regex " + df.first + ";"); auto s = x.get_stack(); if (s.size() != m.st.size() + 1) return c.fail("regex " + df.first + "; does not push a network"); Con g = concretize(*s.top(), U); d = rel_diff(rel(df.second.c, L), rel(g, L), U, false); if (!d.empty()) return c.fail("the definition of " + df.first + ":" + d); run1(x, o, "pop"); }
      // the questions
      auto ask = [&](const string &q, bool want) { string r = run1(x, o, q); string ex = want ? "1, (1 = TRUE, 0 = FALSE)\n" : "0, (1 = TRUE, 0 = FALSE)\n"; if (r != ex) { c.fail(q + " answers '" + r + "', expected " + (want ? "1" : "0")); return false; } return true; };
      if (!m.st.empty()) { const Con &t = m.st.back().c; std::vector<Str> ss; x_allstr(U, 2, ss); Con ti = x_inv(t);
        if (!m.topol()) { if (!ask("test null", empty(t)) || !ask("test non-null", !empty(t))) return; bool mini = true; for (auto &q : seq) if (q == "set minimal OFF") mini = false; if (ty != FOMA_TYPE && mini) if (!ask("test lower-bounded", !infin(t)) || !ask("test upper-bounded", !infout(t))) return; if (!ask("test infinitely-ambiguous", infamb(t))) return;
          if (!ask("test upper-universal", empty(x_compl(x_up(t), U))) || !ask("test lower-universal", empty(x_compl(x_down(t), U)))) return;
          if (m.st.size() == 2 && !m.anyol()) { const Con &b = m.st[0].c; if (l2l(t) && l2l(b)) { bool sub = empty(p_minus(t, b)); if (!ask("test sublanguage", sub) || !ask("test overlap", !empty(p_and(t, b))) || !ask("test equivalent", sub && empty(p_minus(b, t)))) return; } }
          for (int up = 0; up < 2; ++up) { Con p = up ? x_up(t) : x_down(t); if (unk(p) || infin(p)) continue; string cmd = up ? "print upper-words" : "print lower-words"; std::set<string> want; for (auto &y : rel(p, 8)) want.insert(txt(y.first.first)); std::set<string> got = lines(run1(x, o, cmd)); if (got != want) return c.fail(cmd + " prints " + show(got) + ", expected " + show(want)); }
          if (acc(t) && !unk(t) && !empty(t)) { int mn = 99, mx = 0; for (auto &y : rel(t, 8)) { mn = std::min(mn, slen(y.first.first)); mx = std::max(mx, slen(y.first.first)); } (void)mn; if (!infin(t) && ty != FOMA_TYPE && mini) { string r = run1(x, o, "print longest-string-size"); string ex = "Upper: " + std::to_string(mx) + "\nLower: " + std::to_string(mx) + "\n"; if (r != ex) return c.fail("print longest-string-size prints " + r + ", expected " + ex); std::set<string> want, got = lines(run1(x, o, "print words")); for (auto &y : rel(t, 8)) want.insert(txt(y.first.first)); if (got != want) return c.fail("print words prints " + show(got) + ", expected " + show(want)); } } }
        for (int up = 0; up < 2; ++up) if (!up || !m.topol()) for (Str s : ss) { if (!s) continue; Con q = x_compose(x_set({s}), up ? ti : t); if (infout(q)) continue; std::set<string> want; for (auto &y : rel(x_down(q), 8)) want.insert(txt(y.first.first)); if (want.empty()) want.insert("???"); string cmd = (up ? "apply up " : "apply down ") + txt(s); std::set<string> got = lines(run1(x, o, cmd)); if (got != want) return c.fail(cmd + " prints " + show(got) + ", expected " + show(want)); }
        if (!m.topol() && !infamb(t)) { std::set<string> want; bool ok = true; for (const char *w : {"a", "cb", "ab"}) { Str s = 0; for (const char *p = w; *p; ++p) s = sapp(s, sid(string(1, *p))); Con q = x_compose(x_set({s}), t); if (infout(q)) ok = false; std::set<string> one; if (ok) for (auto &y : rel(x_down(q), 8)) one.insert(txt(y.first.first)); if (one.empty()) one.insert("???"); want.insert(one.begin(), one.end()); } if (ok) { std::set<string> got = lines(run1(x, o, "apply down\na\ncb\nab\n<ctrl-d>\nturn stack\nturn stack")); if (got != want) return c.fail("apply down a cb ab prints " + show(got) + ", expected " + show(want)); } }
        d = stackdiff(x, m); if (!d.empty()) return c.fail("after the questions: " + d); } }
    c.sample(c.key);
}
}
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C18"; char tmpl[] = "/tmp/verif-xfst-XXXXXX"; static string base = mkdtemp(tmpl); pid_t me = getpid();
    h.spaces = [](bool th) { U = Univ({"a", "b", "c", "d"}); std::vector<string> pn; for (auto &x : U.name) for (auto &y : U.name) pn.push_back(x + y); UP = Univ(pn); setup(); std::vector<mc::Space> v;
        PRE = {{}, {"regex [a|b];", "regex [b|c] (a);"}, {"regex a:0 | 0:b c;", "regex b:c;", "regex [a [b|c]]*;"}, {"define X c | a:b;", "define Y a | b;", "regex [a|b];"}, {"regex ? b*;", "regex [a|b];"}};
        static const ImplementationType TY[] = {TROPICAL_OPENFST_TYPE, FOMA_TYPE, SFST_TYPE};
        static std::vector<string> C1; for (auto &x : CMD) C1.push_back(x.t);
        auto sp = [&](const string &name, int depth, int nty, bool script, const std::vector<string> &C) { mc::u64 n = PRE.size() * nty; for (int k = 0; k < depth; ++k) n *= C.size();
            v.push_back({name, n, [=, &C](mc::u64 i, mc::Ctx &c) { string w = base + "/" + std::to_string(getpid()); mkdir(w.c_str(), 0700); if (chdir(w.c_str())) return c.fail("chdir"); ImplementationType ty = TY[i % nty]; i /= nty; std::vector<string> seq = PRE[i % PRE.size()]; i /= PRE.size(); for (int k = 0; k < depth; ++k, i /= C.size()) seq.push_back(C[i % C.size()]); hist(c, seq, ty, script); }, 200}); };
        sp("depth-1", 1, 3, false, C1); sp("depth-2", 2, 3, false, C1); sp("scripts", 2, 1, true, C1); sp("texts", 2, 2, false, CMD2); sp("text-scripts", 2, 1, true, CMD2); if (th) { sp("depth-3", 3, 1, false, C1); sp("texts-3", 3, 1, false, CMD2); }
        return v; };
    int r = mc::drive(argc, argv, h); if (getpid() == me) { string cmd = "rm -rf '" + base + "'"; if (system(cmd.c_str())) {} } return r;
}
