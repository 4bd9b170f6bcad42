// C06 conversions, C07 binary streams, C08 text formats, C22 damaged streams.
#include "mc.h"
#include "ref.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstExceptionDefs.h"
#include "HfstFlagDiacritics.h"
using namespace ref; using namespace hfst;
static Univ U, U5; static int L = 4;
static const std::vector<ImplementationType> ALL = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE, HFST_OL_TYPE, HFST_OLW_TYPE};
static bool wty(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE || t == HFST_OLW_TYPE; }
static std::string tmpdir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = "/dev/shm/verif_io." + std::to_string(p); } return d; }
static std::string tmpf(const char *n) { return tmpdir() + "." + n; }
static void rmf(const char *n) { unlink(tmpf(n).c_str()); }

typedef std::multiset<std::string> Graph;
static std::string wstr(float w) { char b[32]; snprintf(b, 32, "%.6g", w == 0 ? 0.0f : w); return b; }
static Graph graph(const HfstBasicTransducer &b) { Graph g; int s = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) { for (auto &t : *it) g.insert(std::to_string(s) + ">" + std::to_string(t.get_target_state()) + " " + t.get_input_symbol() + " : " + t.get_output_symbol() + " / " + wstr(t.get_weight()));
        if (b.is_final_state(s)) g.insert(std::to_string(s) + " F / " + wstr(b.get_final_weight(s))); }
    return g; }
static std::string gdiff(const Graph &a, const Graph &b) { if (a == b) return ""; std::string r; int n = 0; for (auto &x : a) if (b.count(x) != a.count(x) && n++ < 3) r += " wanted {" + x + "}x" + std::to_string(a.count(x)) + " got x" + std::to_string(b.count(x)); for (auto &x : b) if (!a.count(x) && n++ < 6) r += " extra {" + x + "}"; return r; }
static std::set<std::string> alpha(const HfstTransducer &t) { std::set<std::string> r; for (auto &s : t.get_alphabet()) if (s != EPS && s != UNK && s != IDN) r.insert(s); return r; }
static std::string show(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += x + " "; return r; }

// ---------------- C06
static std::vector<T> S6; static std::vector<std::vector<ImplementationType>> CH;
static void conv_case(mc::Ctx &c, const T &t, const std::vector<ImplementationType> &ch, bool alphabet, const Univ &U) {
    bool w = true; std::string k; for (auto x : ch) { k += std::string(">") + tyname(x); if (!wty(x)) w = false; }
    c.k("basic" + k + "|" + t.str());
    HfstTransducer h(to_basic(t), ch[0]);
    for (size_t i = 1; i < ch.size(); ++i) h.convert(ch[i]);
    c.trans(ch.size());
    if (h.get_type() != ch.back()) return c.fail("get_type() does not report the type converted to");
    Con got = concretize(h, U); if (!got.err.empty()) return c.fail(got.err);
    Con in = concretize(t, U); if (!w) { for (auto &s : in.st) for (auto &a : s) a.w = 0; for (auto &f : in.fin) f.second = 0; }
    Pl want = plang(in, L), g = plang(got, L); c.state(rel_hash(want)); c.outcome(rel_hash(g)); if (want.size() > 1) c.nontrivial();
    std::string d = rel_diff(want, g, U); if (!d.empty()) return c.fail(d);
    bool viafoma = false; for (auto x : ch) if (x == FOMA_TYPE) viafoma = true;
    if (alphabet && !(viafoma && want.empty())) { auto al = alpha(h), tl = t.alphabet(); if (al != tl) return c.fail("alphabet is { " + show(al) + "} should be { " + show(tl) + "}"); }
    c.sample(c.key);
}
// large shapes: checked by exact graph language on long strings, via a second conversion to basic and lookup of every path
static T dense(int k) { // three states; bit s*5+j of k: state s has an arc on symbol j to state (s+1)%3 .. last state final
    T t; t.n = 4; const char *sy[] = {"a", "b", "c", "d", "e"};
    for (int s = 0; s < 3; ++s) for (int j = 0; j < 5; ++j) if (k >> (5 * s + j) & 1) t.arcs.push_back({s, s + 1, sy[j], sy[(j + s) % 5], (float)((s + 1) * 8 + j) / 8});
    t.fin[3] = 0.25f; if (k & 1) t.fin[1] = 2; for (auto x : sy) t.extra_alpha.insert(x); return t; }
static void wide_case(mc::Ctx &c, int nsym, int shape, ImplementationType ty, ImplementationType via) {
    c.k("wide nsym=" + std::to_string(nsym) + " shape=" + std::to_string(shape) + "|" + tyname(ty) + ">" + tyname(via));
    HfstBasicTransducer b; Graph g; int n = nsym; auto sym = [](int i) { static const char *pre[] = {"s", "ä", "€", "𝄞"}; return std::string(pre[i % 4]) + std::to_string(i); };
    if (shape == 0) { for (int i = 0; i < n; ++i) b.add_transition(0, HfstBasicTransition(1, sym(i), sym((i + 1) % n), 0.5f * (i % 7))); b.set_final_weight(1, 0.5); }
    if (shape == 1) { for (int i = 0; i < n; ++i) b.add_transition(i, HfstBasicTransition(i + 1, sym(i), i % 3 == 2 ? EPS : sym((i * 7) % n), 0.25f)); b.set_final_weight(n, 1); }
    if (shape == 2) { for (int i = 0; i < n; ++i) { b.add_transition(0, HfstBasicTransition(i + 1, sym(i), sym(i), 0)); b.add_transition(i + 1, HfstBasicTransition((i * 5 + 1) % n + 1, sym(n - 1 - i), sym(i), 1)); b.set_final_weight(i + 1, (float)(i % 5)); } }
    HfstTransducer h(b, via); h.convert(ty); c.trans(2); h.convert(via); c.trans();
    bool w = wty(ty) && wty(via);
    // the inputs are deterministic: read off every path of length <= 2 (shape 1: the one path)
    auto paths = [&](const HfstBasicTransducer &x, bool keepw) { std::map<std::string, std::string> r; std::vector<int> st; int ns = 0; for (auto it = x.begin(); it != x.end(); ++it) ++ns;
        std::function<void(int, std::string, float, int)> go = [&](int q, std::string a, float ww, int d) {
            if (x.is_final_state(q)) r[a] += (keepw ? wstr(ww + x.get_final_weight(q)) : "") + std::string("|");
            if (d < (shape == 1 ? n + 1 : 2)) for (auto &t : x[q]) go(t.get_target_state(), a + t.get_input_symbol() + ":" + t.get_output_symbol() + " ", keepw ? ww + t.get_weight() : 0, d + 1); };
        go(0, "", 0, 0); return r; };
    auto p1 = paths(b, w), p2 = paths(HfstBasicTransducer(h), w); c.state(mc::hs(c.key)); c.outcome(p2.size()); c.nontrivial();
    if (p1 != p2) { std::string m; for (auto &x : p1) if (!p2.count(x.first) || p2[x.first] != x.second) { m = x.first.substr(0, 300) + " w " + x.second + " got " + (p2.count(x.first) ? p2[x.first] : "nothing"); break; } return c.fail("paths differ: " + std::to_string(p1.size()) + " vs " + std::to_string(p2.size()) + " first: " + m); }
}

// ---------------- C07
static std::vector<T> S7; static const std::vector<std::string> NAMES = {"", "foo", "näme with spaces", std::string(300, 'n')};
static void wr(const std::string &f, ImplementationType ty, std::vector<HfstTransducer> &v, bool fmt = true) { HfstOutputStream o(f, ty, fmt); for (auto &t : v) o << t; o.flush(); o.close(); }
static std::map<std::string, std::string> props(const HfstTransducer &h) { auto p = h.get_properties(); p.erase("type"); p.erase("version"); p.erase("minimal"); /* SFST: a fact about the automaton */ if (p.count("name") && p["name"].empty()) p.erase("name"); return p; }
static std::string pshow(const std::map<std::string, std::string> &p) { std::string s; for (auto &x : p) s += x.first + "=" + x.second.substr(0, 20) + " "; return s; }
static void stream_case(mc::Ctx &c, const std::vector<int> &seq, ImplementationType ty, int nm) {
    std::string k; for (int i : seq) k += S7[i].str() + ";"; c.k(std::string(tyname(ty)) + "|name" + std::to_string(nm) + "|" + k);
    std::vector<HfstTransducer> v; int n = 0;
    for (int i : seq) { HfstTransducer h(to_basic(S7[i]), ty); const std::string &N = NAMES[(nm + n) % NAMES.size()]; if (!N.empty()) h.set_name(N); /* otherwise never named */ if (nm & 1) { h.set_property("prop" + std::to_string(n), "välue " + std::to_string(i)); if (n == 1) h.set_property("aaa", ""); if (n == 0) h.set_property("zzz", std::string(200, 'z')); } v.push_back(h); ++n; }
    wr(tmpf("s"), ty, v); c.trans(v.size());
    HfstInputStream in(tmpf("s")); n = 0;
    if (in.get_type() != ty) { rmf("s"); return c.fail("stream type differs"); }
    std::string err;
    while (in.is_good() && err.empty()) {
        if (n >= (int)seq.size()) { err = "more transducers read than written"; break; }
        HfstTransducer h(in); c.trans();
        const T &t = S7[seq[n]];
        if (h.get_type() != ty) err = "type of read transducer differs";
        else if (h.get_name() != NAMES[(nm + n) % NAMES.size()]) err = "name read is '" + h.get_name() + "'";
        else if ((nm & 1) && h.get_property("prop" + std::to_string(n)) != "välue " + std::to_string(seq[n])) err = "property read is '" + h.get_property("prop" + std::to_string(n)) + "'";
        else if (props(h) != props(v[n])) err = "properties read are " + pshow(props(h)) + " written " + pshow(props(v[n]));
        else { Con got = concretize(h, U); err = got.err; Con w = concretize(t, U); if (!wty(ty)) { for (auto &s : w.st) for (auto &a : s) a.w = 0; for (auto &f : w.fin) f.second = 0; }
            Pl want = plang(w, L), g = plang(got, L); c.outcome(rel_hash(g)); if (err.empty()) err = rel_diff(want, g, U);
            if (err.empty() && alpha(h) != alpha(v[n])) err = "alphabet read is { " + show(alpha(h)) + "} written { " + show(alpha(v[n])) + "}"; }
        ++n;
    }
    if (err.empty() && n != (int)seq.size()) err = "only " + std::to_string(n) + " transducers read back";
    in.close(); rmf("s");
    c.state(mc::hs(c.key)); if (seq.size() > 1) c.nontrivial();
    if (!err.empty()) c.fail("transducer " + std::to_string(n) + ": " + err); else c.sample(c.key);
}

// names and property values of every size around the limits of the header fields, followed by another transducer
static void header_case(mc::Ctx &c, int len, ImplementationType ty, int prop) {
    c.k(std::string(tyname(ty)) + (prop ? "|property" : "|name") + " of length " + std::to_string(len)); std::string N; for (int i = 0; i < len; ++i) N += (char)('!' + (i * 7 + i / 90) % 90); HfstTransducer a("a", "b", ty == HFST_OL_TYPE || ty == HFST_OLW_TYPE ? TROPICAL_OPENFST_TYPE : ty), b("b", "b", ty == HFST_OL_TYPE || ty == HFST_OLW_TYPE ? TROPICAL_OPENFST_TYPE : ty); a.convert(ty); b.convert(ty); if (prop) a.set_property("key", N); else a.set_name(N); b.set_name("second"); std::vector<HfstTransducer> v{a, b}; c.trans(2); c.nontrivial(); c.state(mc::hs(c.key));
    try { wr(tmpf("h"), ty, v); } catch (const HfstFatalException &) { rmf("h"); c.outcome(1); if (len < 65000) c.fail("refused"); return; }
    std::string err; try { HfstInputStream in(tmpf("h")); HfstTransducer x(in), y(in); if ((prop ? x.get_property("key") : x.get_name()) != N) err = "a different text is read back"; else if (y.get_name() != "second") err = "the second transducer is called '" + y.get_name().substr(0, 50) + "'"; else if (prop && y.get_property("key") != "") err = "the second transducer has the property of the first"; else { Con g = concretize(x, U), w = concretize(a, U); err = rel_diff(rel(w, 2), rel(g, 2), U); if (err.empty()) { g = concretize(y, U); w = concretize(b, U); err = rel_diff(rel(w, 2), rel(g, 2), U); } if (err.empty() && in.is_good()) err = "something follows the second transducer"; } in.close(); } catch (const HfstException &e) { err = "cannot be read back: " + e.name; }
    rmf("h"); if (!err.empty()) return c.fail(err); c.outcome(0); c.sample(c.key); }
// ---------------- C08
static std::vector<std::string> SY;
static HfstBasicTransducer att_graph(int i, int o, int shape) { HfstBasicTransducer b; b.add_transition(0, HfstBasicTransition(1, SY[i], SY[o], shape == 1 ? 0.5f : 0)); b.set_final_weight(1, shape == 1 ? 2.25f : 0);
    if (shape == 2) { b.add_transition(1, HfstBasicTransition(0, SY[o], SY[i], -1.5f)); b.set_final_weight(0, 4); b.add_transition(0, HfstBasicTransition(12, "a", SY[i], 0)); b.set_final_weight(12, 0); } return b; }
static void text_case(mc::Ctx &c, std::vector<HfstBasicTransducer> gs, std::string key, int fmt) {
    static const char *FN[] = {"att FILE", "att FILE unweighted", "att stream", "prolog FILE", "prolog stream", "att HfstTransducer"};
    c.k(std::string(FN[fmt]) + "|" + key);
    std::vector<Graph> want, got; std::vector<std::string> names; std::vector<std::set<std::string>> als; auto al = [](const HfstBasicTransducer &b) { std::set<std::string> r; for (auto &x : b.get_alphabet()) if (x != EPS && x != UNK && x != IDN) r.insert(x); return r; }; std::string err;
    for (auto &g : gs) { HfstBasicTransducer x = g; if (fmt == 1) { x = HfstBasicTransducer(); int s = 0; for (auto it = g.begin(); it != g.end(); ++it, ++s) { for (auto &t : *it) x.add_transition(s, HfstBasicTransition(t.get_target_state(), t.get_input_symbol(), t.get_output_symbol(), 0)); if (g.is_final_state(s)) x.set_final_weight(s, 0); } } want.push_back(graph(x)); }
    if (fmt == 0 || fmt == 1 || fmt == 3 || fmt == 5) { FILE *f = fopen(tmpf("t").c_str(), "wb"); int n = 0; for (auto &g : gs) {
            if (fmt == 3) { if (n) fprintf(f, "\n"); g.write_in_prolog_format(f, "net" + std::to_string(n), true); } else { if (n) fprintf(f, "--\n"); if (fmt == 5) { HfstTransducer h(g, TROPICAL_OPENFST_TYPE); h.write_in_att_format(f, true); } else g.write_in_att_format(f, fmt == 0); } ++n; c.trans(); }
        fclose(f); f = fopen(tmpf("t").c_str(), "rb"); unsigned int lc = 0;
        try { for (int i = 0; i < 6; ++i) { HfstBasicTransducer r; 
                if (fmt == 3) { int ch = fgetc(f); if (ch == EOF) break; ungetc(ch, f); r = HfstBasicTransducer::read_in_prolog_format(f, lc); } else if (fmt == 5) { HfstTransducer h(f, TROPICAL_OPENFST_TYPE, "@0@", lc, false); r = HfstBasicTransducer(h); } else r = HfstBasicTransducer::read_in_att_format(f, "@0@", lc, false); got.push_back(graph(r)); names.push_back(r.name); als.push_back(al(r)); c.trans(); } }
        catch (const EndOfStreamException &e) {} catch (const HfstException &e) { err = "exception while reading: " + e(); }
        fclose(f); rmf("t");
    } else { std::ostringstream o; int n = 0; for (auto &g : gs) { if (fmt == 4) { if (n) o << "\n"; g.write_in_prolog_format(o, "net" + std::to_string(n), true); } else { if (n) o << "--\n"; g.write_in_att_format(o, true); } ++n; c.trans(); }
        std::istringstream is(o.str()); unsigned int lc = 0;
        try { for (int i = 0; i < 6; ++i) { HfstBasicTransducer r; if (fmt == 4) { if (is.peek() == EOF) break; r = HfstBasicTransducer::read_in_prolog_format(is, lc); } else r = HfstBasicTransducer::read_in_att_format(is, "@0@", lc, false); got.push_back(graph(r)); names.push_back(r.name); als.push_back(al(r)); c.trans(); } }
        catch (const EndOfStreamException &e) {} catch (const HfstException &e) { err = "exception while reading: " + e(); }
    }
    c.state(mc::hs(c.key)); c.outcome(got.size()); c.nontrivial();
    if (!err.empty()) return c.fail(err);
    if (got.size() != want.size()) return c.fail("wrote " + std::to_string(want.size()) + " transducers, read " + std::to_string(got.size()));
    for (size_t i = 0; i < got.size(); ++i) { std::string d = gdiff(want[i], got[i]); if (!d.empty()) return c.fail("transducer " + std::to_string(i) + ":" + d); if ((fmt == 3 || fmt == 4) && names[i] != "net" + std::to_string(i)) return c.fail("network name read is " + names[i]); if ((fmt == 3 || fmt == 4) && als[i] != al(gs[i])) return c.fail("alphabet read is { " + show(als[i]) + "} written { " + show(al(gs[i])) + "}"); }
    c.sample(c.key);
}
static std::vector<T> S8;
static HfstBasicTransducer gs8(int i) { return to_basic(S8[i]); }

int main(int argc, char **argv) {
    std::string P = mc::prop_arg(argc, argv); mc::Harness h; h.property = P;
    h.spaces = [P](bool th) {
        std::vector<mc::Space> v;
        Label aa = {"a", "a"}, bb = {"b", "b"}, ab = {"a", "b"}, a0 = {"a", EPS}, zb = {EPS, "b"}, zz = {EPS, EPS}, ii = {IDN, IDN}, uu = {UNK, UNK}, ua = {UNK, "a"}, au = {"a", UNK};
        auto both = [](std::vector<T> s) { std::vector<T> r; for (auto &t : s) { r.push_back(t); if (t.arcs.size() + t.fin.size()) r.push_back(generic_weights(t)); T e = t; e.extra_alpha.insert("c"); r.push_back(e); } return r; };
        if (P == "C06") {
            U = Univ({"a", "b", "c", "x"}); U5 = Univ({"a", "b", "c", "d", "e", "x"}); L = 3;
            std::vector<T> s; enum_T(1, {aa, ab, a0, zb, zz, ii, uu, ua, au}, 2, true, s); enum_T(2, {aa, ab, zb, zz, ii, uu, ua}, 2, true, s); enum_T(3, {aa, zb}, th ? 4 : 3, true, s);
            S6 = both(s);
            for (auto a : ALL) { CH.push_back({a}); for (auto b : ALL) if (a != b) { CH.push_back({a, b}); if (th) for (auto d : ALL) if (d != b) CH.push_back({a, b, d}); } }
            v.push_back({"convert", (mc::u64)S6.size() * CH.size(), [](mc::u64 i, mc::Ctx &c) { conv_case(c, S6[i / CH.size()], CH[i % CH.size()], true, U); }, 3000});
            static std::vector<std::vector<ImplementationType>> c2 = {{HFST_OLW_TYPE}, {HFST_OL_TYPE}, {FOMA_TYPE, HFST_OL_TYPE}, {SFST_TYPE}, {TROPICAL_OPENFST_TYPE, HFST_OLW_TYPE, TROPICAL_OPENFST_TYPE}};
            v.push_back({"dense", 32768 * 5, [](mc::u64 i, mc::Ctx &c) { conv_case(c, dense(i / 5), c2[i % 5], true, U5); }, 4000});
            static std::vector<int> NS = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000};
            v.push_back({"wide", NS.size() * 3 * 6 * 2, [](mc::u64 i, mc::Ctx &c) { wide_case(c, NS[i / 36], i % 3, ALL[i / 3 % 6], i / 18 % 2 ? SFST_TYPE : TROPICAL_OPENFST_TYPE); }, 20});
        } else if (P == "C07") {
            U = Univ({"a", "b", "c", "x"});
            std::vector<T> s; T e; s.push_back(e); T p; p.fin[0] = 0; s.push_back(p); enum_T(1, {ab, ii}, 1, false, s); enum_T(2, {aa, zb, uu}, 1, true, s);
            { T t; t.n = 3; t.arcs = {{0, 1, "a", "b", 0}, {1, 2, "b", EPS, 0}, {2, 0, IDN, IDN, 0}}; t.fin[1] = 0; t.fin[2] = 0; s.push_back(t); }
            for (auto &t : s) { S7.push_back(t); } for (auto &t : s) { T g = generic_weights(t); g.extra_alpha.insert("c"); S7.push_back(g); }
            mc::u64 n = S7.size(); fprintf(stderr, "S7 %llu\n", (unsigned long long)n);
            v.push_back({"single", n * 6 * 8, [n](mc::u64 i, mc::Ctx &c) { stream_case(c, {(int)(i / 48)}, ALL[i % 6], i / 6 % 8); }, 500});
            v.push_back({"pairs", n * n * 6, [n](mc::u64 i, mc::Ctx &c) { stream_case(c, {(int)(i / 6 / n), (int)(i / 6 % n)}, ALL[i % 6], i % 4); }, 500});
            static std::vector<int> HL; for (int i = 0; i < 270; ++i) HL.push_back(i); for (int base : {512, 1024, 4096, 8192, 32768, 65536}) for (int d = -(th || base >= 32768 ? 150 : 3); d < 3; ++d) HL.push_back(base + d); for (int x : {20000, 50000, 100000}) HL.push_back(x);
            v.push_back({"headers", HL.size() * 12, [](mc::u64 i, mc::Ctx &c) { header_case(c, HL[i / 12], ALL[i % 6], i / 6 % 2); }, 50});
            static std::vector<int> pick; for (mc::u64 i = 0; i < n; i += (th ? 2 : 5)) pick.push_back(i); mc::u64 m = pick.size();
            v.push_back({"triples", m * m * m * 6, [m](mc::u64 i, mc::Ctx &c) { mc::u64 j = i / 6; stream_case(c, {pick[j % m], pick[j / m % m], pick[j / m / m]}, ALL[i % 6], i % 4); }, 500});
        } else if (P == "C08") {
            U = Univ({"a", "b", "x"});
            SY = {EPS, UNK, IDN, "a", "b", "foo", "ä", "€uro", " ", "a b", "\t", ":", "0", "1", "-", "--", "?", "\"", "\\", "\\\"", "#", "%", "%0", ",", ")", ").", ", ", "@P.X.A@", "@", "+Sg", std::string(98, 'l'), std::string(99, 'l'), std::string(101, 'm'), std::string(260, 'x')};
            mc::u64 n = SY.size();
            v.push_back({"symbols", n * n * 3 * 6, [n](mc::u64 i, mc::Ctx &c) { int f = i % 6, sh = i / 6 % 3, a = i / 18 % n, b = i / 18 / n; if ((SY[a] == IDN) != (SY[b] == IDN) || (sh == 2 && SY[a] == IDN)) { c.skip(); return; }
                if ((f == 3 || f == 4) && (SY[a] == "%0" || SY[b] == "%0")) { c.skip(); return; } // the prolog format spells the symbol 0 as %0 and has no spelling of its own for %0
                text_case(c, {att_graph(a, b, sh)}, SY[a] + " : " + SY[b] + " shape " + std::to_string(sh), f); }, 300});
            std::vector<T> s; { T e; s.push_back(e); T p; p.fin[0] = 0; s.push_back(p); } enum_T(2, {ab, ii, uu}, 2, true, s); for (auto &t : s) { S8.push_back(t); T g = generic_weights(t); g.extra_alpha = {"c d", "\\", "e"}; S8.push_back(g); } n = S8.size();
            fprintf(stderr, "S8 %llu\n", (unsigned long long)n);
            v.push_back({"graphs", n * 6, [](mc::u64 i, mc::Ctx &c) { text_case(c, {gs8(i / 6)}, S8[i / 6].str(), i % 6); }, 300});
            v.push_back({"sequences", n * n * 6, [n](mc::u64 i, mc::Ctx &c) { int a = i / 6 % n, b = i / 6 / n; text_case(c, {gs8(a), gs8(b)}, S8[a].str() + S8[b].str(), i % 6); }, 300});
        }
        return v;
    };
    return mc::drive(argc, argv, h);
}
