// C11: tokenization of strings into symbols.
#include "mc.h"
#include "ref.h"
#include "HfstTokenizer.h"
#include "HfstExceptionDefs.h"
#include "HfstSymbolDefs.h"
using namespace hfst;
typedef std::vector<std::string> SV;
static std::string join(const SV &v) { std::string s; for (auto &x : v) s += "<" + x + ">"; return s; }
static size_t cplen(const std::string &s, size_t p) { unsigned char c = s[p]; return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
static bool extend(const std::string &s, size_t p) { std::string c = s.substr(p, cplen(s, p)); return c == "\xcc\x88" || c == "\xcc\x81" || c == "\xe2\x83\x9d" || c == "\xf0\x9f\x8f\xbd"; }
// the model: longest symbol of the tokenizer that starts here, else one grapheme cluster (base and combining marks; CR LF) or one code point
static SV model(const std::string &s, const std::set<std::string> &multi, const std::set<std::string> &skip, bool split) {
    SV r; size_t p = 0;
    while (p < s.size()) { size_t best = 0; for (auto *q : {&multi, &skip}) for (auto &m : *q) if (m.size() > best && s.compare(p, m.size(), m) == 0) best = m.size();
        if (!best) { best = cplen(s, p); bool ctl = s[p] == '\r' || s[p] == '\n' || s[p] == '\t'; if (!split) { if (s[p] == '\r' && s[p + 1] == '\n') best = 2; else if (!ctl) while (p + best < s.size() && extend(s, p + best)) best += cplen(s, p + best); } }
        std::string t = s.substr(p, best); if (!skip.count(t)) r.push_back(t); p += best; }
    return r; }
static const std::vector<std::string> CH = {"a", "b", "\xcc\x88", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", " "};
static const std::vector<std::string> SY = {"ab", "abab", "ba", "b", "a\xcc\x88", "\xc3\xa4" "b", "aab"};
static void tok(mc::Ctx &c, const std::vector<std::string> &ch, const SV &sy, mc::u64 cfg, mc::u64 si, int maxlen) {
    std::set<std::string> multi, skip; HfstTokenizer t; std::string k; for (size_t j = 0; j < sy.size(); ++j, cfg /= 3) { if (cfg % 3 == 1) { multi.insert(sy[j]); t.add_multichar_symbol(sy[j]); k += "+" + sy[j]; } else if (cfg % 3 == 2) { skip.insert(sy[j]); t.add_skip_symbol(sy[j]); k += "-" + sy[j]; } }
    std::string s; { mc::u64 n = 1, x = si; int d = 0; while (d < maxlen && x >= n) { x -= n; n *= ch.size(); ++d; } for (int j = 0; j < d; ++j, x /= ch.size()) s += ch[x % ch.size()]; }
    c.k("symbols " + k + "|'" + s + "'"); c.state(mc::hs(s));
    for (int split = 0; split < 2; ++split) { SV want = model(s, multi, skip, split), got; StringPairVector p = t.tokenize(s, split); c.trans(2); for (auto &x : p) { if (x.first != x.second) return c.fail("pair of different symbols"); got.push_back(x.first); }
        if (got != want) return c.fail(std::string(split ? "(split) " : "") + "tokenize gave " + join(got) + ", should be " + join(want)); StringVector o = t.tokenize_one_level(s, split); if (o != want) return c.fail("tokenize_one_level gave " + join(o) + ", should be " + join(want)); c.outcome(mc::hs(join(want))); if (want.size() > 1) c.nontrivial(); }
    c.sample(c.key); }
static std::string nth(mc::u64 x, const SV &ch, int maxlen) { mc::u64 n = 1; int d = 0; while (d < maxlen && x >= n) { x -= n; n *= ch.size(); ++d; } std::string s; for (int j = 0; j < d; ++j, x /= ch.size()) s += ch[x % ch.size()]; return s; }
static mc::u64 cnt(mc::u64 b, int l) { mc::u64 r = 0, p = 1; for (int i = 0; i <= l; ++i, p *= b) r += p; return r; }
static void two(mc::Ctx &c, const std::string &a, const std::string &b, const SV &multi) {
    HfstTokenizer t; std::set<std::string> m(multi.begin(), multi.end()); for (auto &x : multi) t.add_multichar_symbol(x); c.k("pair|" + join(multi) + "|'" + a + "' '" + b + "'"); c.state(mc::hs(c.key)); c.trans(6); c.nontrivial();
    SV x = model(a, m, {}, true), y = model(b, m, {}, true), X = x, Y = y; StringPairVector want; while (x.size() < y.size()) x.push_back(internal_epsilon); while (y.size() < x.size()) y.push_back(internal_epsilon); for (size_t i = 0; i < x.size(); ++i) want.push_back(StringPair(x[i], y[i]));
    auto show = [](const StringPairVector &v) { std::string s; for (auto &p : v) s += "<" + p.first + ":" + p.second + ">"; return s; };
    StringPairVector got = t.tokenize(a, b, true); if (got != want) return c.fail("tokenize gave " + show(got)); got = t.tokenize(a, b, true, [](const std::pair<std::string, std::string> &) {}); if (got != want) return c.fail("tokenize with a callback gave " + show(got));
    auto clean = [](const SV &v) { SV r; for (auto &s : v) if (s != internal_epsilon) r.push_back(s); return r; };
    for (ImplementationType ty : {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE}) for (int w = 0; w < 3; ++w) { if ((X.empty() && w != 1) || (Y.empty() && w == 0)) { bool thr = false; try { if (w) HfstTransducer(a, t, ty); else HfstTransducer(a, b, t, ty); } catch (const EmptyStringException &e) { thr = true; } if (!thr) return c.fail("no EmptyStringException"); continue; } HfstTransducer h = w == 0 ? HfstTransducer(a, b, t, ty) : w == 1 ? HfstTransducer(want, ty) : HfstTransducer(a, t, ty); HfstTwoLevelPaths r; h.extract_paths(r); SV gi, go; if (r.size() != 1) return c.fail("transducer has " + std::to_string(r.size()) + " paths"); for (auto &p : r.begin()->second) { gi.push_back(p.first); go.push_back(p.second); } c.trans();
            if (clean(gi) != X || clean(go) != (w == 2 ? X : Y)) return c.fail(std::string("transducer of ") + (w == 0 ? "two strings" : w == 1 ? "a symbol pair vector" : "a string") + " accepts " + join(gi) + ":" + join(go)); if (r.begin()->first != 0) return c.fail("weight"); StringSet al = h.get_alphabet(); for (auto *v : {&X, &Y}) if (v == &X || w != 2) for (auto &s : *v) if (!al.count(s)) return c.fail("symbol " + s + " is not in the alphabet"); }
    std::string sp; for (auto &s : X) sp += (sp.empty() ? (multi.empty() ? "  " : "") : X.size() % 2 ? "  " : " ") + s; bool space = false; for (auto &s : X) if (s.find(' ') != std::string::npos) space = true;
    if (!space) { StringPairVector g = HfstTokenizer::tokenize_space_separated(sp); SV got2; for (auto &p : g) got2.push_back(p.first); if (got2 != X) return c.fail("tokenize_space_separated('" + sp + "') gave " + show(g)); }
    c.sample(c.key); }
static bool valid_utf8(const std::string &s) { for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; size_t n; unsigned v; if (c < 0x80) { ++i; continue; } else if (c >= 0xc2 && c < 0xe0) { n = 1; v = c & 31; } else if (c >= 0xe0 && c < 0xf0) { n = 2; v = c & 15; } else if (c >= 0xf0 && c < 0xf5) { n = 3; v = c & 7; } else return false;
        for (size_t j = 1; j <= n; ++j) { if (i + j >= s.size()) return false; unsigned char d = s[i + j]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); } if ((n == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 3 && (v < 0x10000 || v > 0x10ffff))) return false; i += n + 1; } return true; }
static void utf(mc::Ctx &c, const std::string &s) {
    std::string k; char b[8]; for (unsigned char x : s) { snprintf(b, 8, "%02x ", x); k += b; } c.k("bytes|" + k); c.trans(3); c.state(mc::hs(s)); bool ok = valid_utf8(s); c.outcome(ok); if (!s.empty()) c.nontrivial(); HfstTokenizer t; t.add_multichar_symbol("a\xc3\xa4"); t.add_multichar_symbol(s);
    for (int w = 0; w < 4; ++w) { bool threw = false; try { if (w == 0) t.tokenize(s, false); else if (w == 1) t.tokenize_one_level(s, true); else if (w == 2) t.tokenize("a", s, true); else HfstTokenizer::tokenize_space_separated(s); } catch (const IncorrectUtf8CodingException &e) { threw = true; } if (threw == ok) return c.fail(ok ? "valid UTF-8 was refused" : "broken UTF-8 was accepted"); } }
int main(int argc, char **argv) {
    mc::Harness h; h.property = "C11";
    h.spaces = [](bool th) { std::vector<mc::Space> v; static int L = th ? 5 : 4, L2 = th ? 5 : 4; static mc::u64 n = cnt(CH.size(), L); mc::u64 cf = 1; for (size_t i = 0; i < 5; ++i) cf *= 3;
        static SV sy1(SY.begin(), SY.begin() + 4), sy2(SY.begin() + 3, SY.end()); static std::vector<std::string> ab = {"a", "b", "\xcc\x88"};
        v.push_back({"longest match", cnt(3, th ? 8 : 7) * 81, [th](mc::u64 i, mc::Ctx &c) { tok(c, ab, sy1, i % 81, i / 81, th ? 8 : 7); }, 2000});
        v.push_back({"clusters", n * 27, [](mc::u64 i, mc::Ctx &c) { static SV s3(SY.begin() + 3, SY.begin() + 6); tok(c, CH, s3, i % 27, i / 27, L); }, 2000});
        static std::vector<std::string> mk = {"a", "\xcc\x88", "\xcc\x81", "\xe2\x83\x9d", "\n", "\r", "\xf0\x9f\x91\x8d", "\xf0\x9f\x8f\xbd"};
        v.push_back({"marks", cnt(mk.size(), L2) * 3, [](mc::u64 i, mc::Ctx &c) { static SV s4 = {"a\xcc\x88"}; tok(c, mk, s4, i % 3, i / 3, L2); }, 2000});
        static SV pc = {"a", "b", "\xc3\xa4", " "}; static int PL = 3; static mc::u64 pn = cnt(4, PL);
        v.push_back({"pairs", pn * pn * 3, [](mc::u64 i, mc::Ctx &c) { static const std::vector<SV> M = {{}, {"ab"}, {"ab", "b\xc3\xa4", "a\xc3\xa4" "b"}}; two(c, nth(i / 3 / pn, pc, PL), nth(i / 3 % pn, pc, PL), M[i % 3]); }, 300});
        static SV by; for (int b : {0x01, 0x61, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfe, 0xff}) by.push_back(std::string(1, (char)b));
        v.push_back({"bytes", cnt(by.size(), 4), [](mc::u64 i, mc::Ctx &c) { utf(c, nth(i, by, 4)); }, 2000});
        return v; };
    return mc::drive(argc, argv, h);
}
