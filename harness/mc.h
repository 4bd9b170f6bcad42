// mc.h - the explorer: enumerates finite case spaces completely, on the real code, in forked children.
//
// A Space is a finite, deterministically indexed set of cases (operation sequences / inputs / faults).  Every index
// is run.  The cases are cut into fixed chunks; each chunk is one deterministic history run from the same initial
// process image (a forked child), so anything a case leaves behind in process-global state is part of a replayable
// history and nothing else is.  A child that dies or hangs is a candidate violation of the case it was running.
// Every candidate is replayed in a fresh child (alone first, else with its chunk prefix) before it is reported.
#ifndef MC_H
#define MC_H
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <typeinfo>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {
typedef uint64_t u64;

inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
inline u64 hs(const std::string &s, u64 h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }

struct Shared {
    std::atomic<u64> transitions, traces, nontrivial, states, outcomes, nfail, skipped;
    std::atomic<u64> next, stop;
    std::atomic<u64> ncand;
    static const u64 MAXC = 64;
    struct Cand { u64 idx, chunk_lo; int kind; /*0 fail 1 crash 2 hang*/ char msg[6000]; char key[1500]; } cand[MAXC];
    static const u64 HB = 1ULL << 24;
    std::atomic<u64> table[HB];   // distinct abstract states
    std::atomic<u64> otable[1 << 16]; // distinct observed outcomes (capped)
    std::atomic<u64> nsamp;
    char samp[16][1500];
};
struct ChildSlot { std::atomic<u64> cur; char key[1500]; };
inline ChildSlot *&myslot() { static ChildSlot *p = nullptr; return p; }
inline Shared *&sh() { static Shared *p = nullptr; return p; }

struct Ctx {
    std::string key;        // identifies the input/history (stable across runs)
    std::string msg; bool failed = false;
    bool verbose = false;
    void k(const std::string &s) { key = s; if (myslot()) { strncpy(myslot()->key, s.c_str(), sizeof(myslot()->key) - 1); myslot()->key[sizeof(myslot()->key) - 1] = 0; } }
    void trans(u64 n = 1) { sh()->transitions += n; }
    void nontrivial() { sh()->nontrivial++; }
    void skip() { sh()->skipped++; }
    // an abstract state visited (canonical hash)
    void state(u64 h) {
        h = mix(h); if (!h) h = 1;
        for (u64 i = 0; i < 64; ++i) {
            auto &s = sh()->table[(h + i) & (Shared::HB - 1)];
            u64 cur = s.load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) { u64 z = 0; if (s.compare_exchange_strong(z, h)) { sh()->states++; return; } if (z == h) return; }
        }
    }
    void outcome(u64 h) {
        h = mix(h ^ 0x9e3779b97f4a7c15ULL); if (!h) h = 1;
        for (u64 i = 0; i < 16; ++i) {
            auto &s = sh()->otable[(h + i) & 0xffff];
            u64 cur = s.load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) { u64 z = 0; if (s.compare_exchange_strong(z, h)) { sh()->outcomes++; return; } if (z == h) return; }
        }
    }
    void outcome(const std::string &s) { outcome(hs(s)); }
    void fail(const std::string &m) { if (!failed) { failed = true; msg = m; } }
    void sample(const std::string &s) {
        if (sh()->nsamp.load(std::memory_order_relaxed) < 12) { u64 k = sh()->nsamp++; if (k < 12) { strncpy(sh()->samp[k], s.c_str(), 1499); } }
    }
};

struct Space {
    std::string name; u64 size; std::function<void(u64, Ctx &)> run; u64 chunk = 64; int timeout_s = 60;
};

struct Harness {
    std::string property, level_note;
    std::string rule;                       // how cases are made, what is non-trivial
    std::vector<std::string> assumptions;
    std::function<std::vector<Space>(bool thorough)> spaces;
};

inline std::string jesc(const std::string &s) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}

// run cases [lo..hi] of a space in this process; exits 0 / 3 (failure recorded by caller)


inline int run_child(const Space &sp, u64 lo, u64 hi, ChildSlot *slot, bool quiet, bool record, u64 chunk_lo, int timeout_s) {
    // returns exit status of the forked child; records failures into the shared candidate table if record
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); int z = open("/dev/null", O_RDONLY); dup2(z, 0); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
        struct rlimit ra = {3000000000ul, 3000000000ul}; setrlimit(RLIMIT_AS, &ra);
#endif
        bool any = false;
        for (u64 i = lo; i <= hi; ++i) {
            slot->cur = i; slot->key[0] = 0; myslot() = slot;
            if (record && sh()->stop) break;
            alarm(timeout_s);
            Ctx c; c.verbose = !quiet;
            try { sp.run(i, c); }
            catch (const std::bad_alloc &e) { c.fail("std::bad_alloc escaped"); }
            catch (const std::exception &e) { c.fail(std::string("unexpected std::exception: ") + e.what()); }
            catch (...) { c.fail(std::string("unexpected exception ") + (abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?") + " escaped the operation"); }
            if (record) sh()->traces++;
            if (c.failed) {
                any = true;
                if (record) {
                    sh()->nfail++;
                    u64 k = sh()->ncand++;
                    if (k < Shared::MAXC) { auto &cd = sh()->cand[k]; cd.idx = i; cd.chunk_lo = chunk_lo; cd.kind = 0;
                        strncpy(cd.msg, c.msg.c_str(), sizeof(cd.msg) - 1); strncpy(cd.key, c.key.c_str(), sizeof(cd.key) - 1); }
                    else sh()->stop = 1;
                } else {
                    // replay: leave the message in the last candidate's scratch (slot MAXC-1 is reserved by the caller)
                    if (i == hi) { auto &cd = sh()->cand[Shared::MAXC - 1]; cd.kind = 99;
                        strncpy(cd.msg, c.msg.c_str(), sizeof(cd.msg) - 1); strncpy(cd.key, c.key.c_str(), sizeof(cd.key) - 1); }
                    if (!quiet && i == hi) fprintf(stdout, "REPLAY-FAIL case=%llu key=%s\n%s\n", (unsigned long long)i, c.key.c_str(), c.msg.c_str());
                }
            } else if (!quiet && i == hi) fprintf(stdout, "REPLAY-OK case=%llu key=%s\n", (unsigned long long)i, c.key.c_str());
        }
        alarm(0);
        fflush(stdout);
        _exit(any ? 3 : 0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}

struct Known { std::string space, key; bool seen = false; std::string what; };

// minimal reader for known_findings.jsonl : {"property":..., "space":..., "key":..., "what":...}
inline std::string jget(const std::string &line, const std::string &f) {
    std::string pat = "\"" + f + "\""; size_t p = line.find(pat); if (p == std::string::npos) return "";
    p = line.find(':', p + pat.size()); if (p == std::string::npos) return "";
    p = line.find('"', p); if (p == std::string::npos) return "";
    std::string r; for (++p; p < line.size() && line[p] != '"'; ++p) {
        if (line[p] == '\\' && p + 1 < line.size()) { ++p; if (line[p] == 'n') r += '\n'; else if (line[p] == 't') r += '\t';
            else if (line[p] == 'u') { r += (char)strtol(line.substr(p + 1, 4).c_str(), 0, 16); p += 4; } else r += line[p]; }
        else r += line[p]; }
    return r;
}

// one binary may host several properties: --prop ID
inline std::string prop_arg(int argc, char **argv) { for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") return argv[i + 1]; return ""; }

inline int drive(int argc, char **argv, Harness h) {
    std::string verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
    bool thorough = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
    int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    int jobs = getenv("VERIF_JOBS") ? atoi(getenv("VERIF_JOBS")) : (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (const char *r = getenv("VERIF_RULE")) h.rule = r;
    if (const char *r = getenv("VERIF_ASSUME")) { std::string a = r; size_t p = 0; while (p <= a.size() && !a.empty()) { size_t q = a.find('|', p); if (q == std::string::npos) q = a.size(); h.assumptions.push_back(a.substr(p, q - p)); p = q + 1; } }
    std::string rspace, only; u64 rlo = 0, rhi = 0; bool replay = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--space") only = argv[++i];
        else if (a == "--replay") { replay = true; rspace = argv[++i]; rlo = strtoull(argv[++i], 0, 10); rhi = strtoull(argv[++i], 0, 10); }
    }
    std::string cmdline = argv[0];
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--prop") cmdline += " --prop " + std::string(argv[i + 1]);
    auto t0 = std::chrono::steady_clock::now();
    sh() = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh() == MAP_FAILED) { perror("mmap"); return 2; }
    ChildSlot *slots = (ChildSlot *)mmap(0, sizeof(ChildSlot) * 256, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Space> spaces = h.spaces(thorough);
    if (replay) {
        for (auto &sp : spaces) if (sp.name == rspace) {
            int st = run_child(sp, rlo, rhi, &slots[0], false, false, rlo, 4 * sp.timeout_s);
            if (WIFSIGNALED(st)) { printf("REPLAY-FAIL died of signal %d in case %llu\n", WTERMSIG(st), (unsigned long long)slots[0].cur.load()); return 1; }
            return WEXITSTATUS(st) == 0 ? 0 : 1;
        }
        fprintf(stderr, "no such space\n"); return 2;
    }
    std::vector<Known> known;
    { std::ifstream f(verif + "/known_findings.jsonl"); std::string l;
      while (std::getline(f, l)) if (jget(l, "property") == h.property && jget(l, "status") != "fixed")
          { Known k; k.space = jget(l, "space"); k.key = jget(l, "key"); k.what = jget(l, "what"); known.push_back(k); } }
    u64 total = 0; std::string spacelog; int violations = 0, flakes = 0; std::vector<std::string> vlines;
    for (auto &sp : spaces) {
        if (!only.empty() && sp.name != only) continue;
        auto ts = std::chrono::steady_clock::now();
        sh()->next = 0; sh()->stop = 0; sh()->ncand = 0;
        u64 nchunks = (sp.size + sp.chunk - 1) / sp.chunk;
        std::vector<pid_t> ws;
        fflush(stdout);
        for (int j = 0; j < jobs; ++j) {
            pid_t p = fork();
            if (p == 0) {
                for (;;) {
                    u64 c = sh()->next++; if (c >= nchunks || sh()->stop) break;
                    u64 lo = c * sp.chunk, hi = std::min(sp.size, lo + sp.chunk) - 1, from = lo;
                    while (from <= hi) {
                        int st = run_child(sp, from, hi, &slots[j], true, true, lo, sp.timeout_s);
                        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) {
                            u64 cur = slots[j].cur; u64 k = sh()->ncand++;
                            sh()->nfail++;
                            if (k < Shared::MAXC) { auto &cd = sh()->cand[k]; cd.idx = cur; cd.chunk_lo = lo;
                                cd.kind = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 2 : 1;
                                snprintf(cd.msg, sizeof cd.msg, WIFSIGNALED(st) ? "process died of signal %d" : "process exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                                memcpy(cd.key, slots[j].key, sizeof cd.key); }
                            if (k > 20) sh()->stop = 1;
                            from = cur + 1;
                        } else break;
                    }
                }
                _exit(0);
            }
            ws.push_back(p);
        }
        for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "explorer worker failed\n"); return 2; } }
        total += sp.size;
        // replay candidates
        u64 nc = std::min<u64>(sh()->ncand, Shared::MAXC - 1);
        int reported = 0;
        std::vector<Shared::Cand> cands;
        for (u64 k = 0; k < nc; ++k) cands.push_back(sh()->cand[k]);
        std::sort(cands.begin(), cands.end(), [](const Shared::Cand &a, const Shared::Cand &b) { return a.idx < b.idx; });
        std::map<std::string, int> perkey;
        for (auto &cd : cands) {
            if (reported >= 5) break;
            // known finding?
            bool isknown = false;
            for (auto &kf : known) if (kf.space == sp.name && kf.key == cd.key) { kf.seen = true; isknown = true; }
            if (isknown) continue;
            u64 lo = cd.idx;
            sh()->cand[Shared::MAXC - 1].kind = 0; sh()->cand[Shared::MAXC - 1].msg[0] = 0;
            auto bad = [&](u64 from) {
                int st = run_child(sp, from, cd.idx, &slots[0], true, false, from, 3 * sp.timeout_s);
                if (WIFSIGNALED(st)) return slots[0].cur.load() == cd.idx;
                if (!WIFEXITED(st)) return true;
                if (WEXITSTATUS(st) == 3) return sh()->cand[Shared::MAXC - 1].kind == 99;
                return WEXITSTATUS(st) != 0;
            };
            bool ok = bad(lo);
            if (!ok) { lo = cd.chunk_lo; ok = bad(lo); }
            if (!ok) { flakes++; fprintf(stderr, "note: candidate %s:%llu (%s) did not reproduce; not reported\n", sp.name.c_str(), (unsigned long long)cd.idx, cd.msg); continue; }
            std::string dir = verif + "/evidence/replay"; mkdir((verif + "/evidence").c_str(), 0777); mkdir(dir.c_str(), 0777);
            std::string path = dir + "/" + h.property + "-" + sp.name + "-" + std::to_string(cd.idx) + ".txt";
            std::ofstream f(path);
            f << "property " << h.property << "\nspace " << sp.name << "\ncase " << cd.idx << (lo != cd.idx ? " (history: cases from " + std::to_string(lo) + ")" : "")
              << "\nkey " << cd.key << "\nobserved " << cd.msg << "\nreplay: " << (thorough ? "VERIF_TIER=thorough " : "") << cmdline << " --replay " << sp.name << " " << lo << " " << cd.idx << "\n";
            f.close();
            printf("VIOLATION property=%s replay=%s\n", h.property.c_str(), path.c_str());
            printf("  space=%s case=%llu key=%s\n  %s\n", sp.name.c_str(), (unsigned long long)cd.idx, cd.key, cd.msg);
            violations++; reported++;
        }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - ts).count();
        char b[400]; snprintf(b, 400, "%s{\"space\": \"%s\", \"cases\": %llu, \"completed\": %s, \"wall_s\": %.2f}", spacelog.empty() ? "" : ", ", sp.name.c_str(), (unsigned long long)sp.size, sh()->stop ? "false" : "true", dt);
        spacelog += b;
        fprintf(stderr, "[%s] space %-28s cases=%-9llu %.1fs fails=%llu\n", h.property.c_str(), sp.name.c_str(), (unsigned long long)sp.size, dt, (unsigned long long)sh()->ncand.load());
        if (violations >= 5) break;
    }
    for (auto &k : known) if (k.seen) printf("KNOWN-FINDING: property=%s %s\n", h.property.c_str(), k.what.c_str());
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (getenv("VERIF_BUILD_S")) wall += atof(getenv("VERIF_BUILD_S"));
    mkdir((verif + "/evidence").c_str(), 0777);
    if (only.empty()) {
        std::ofstream e(verif + "/evidence/" + h.property + ".json");
        e << "{\n \"property\": \"" << h.property << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << sh()->states << ",\n  \"transitions\": " << sh()->transitions
          << ",\n  \"traces_validated_against_impl\": " << sh()->traces << ",\n  \"distinct_outcomes\": " << sh()->outcomes
          << ",\n  \"nontrivial_traces\": " << sh()->nontrivial << ",\n  \"outside_precondition\": " << sh()->skipped
          << ",\n  \"exhaustive\": " << (violations ? "false" : "true") << ",\n  \"rule\": \"" << jesc(h.rule) << "\",\n  \"spaces\": [" << spacelog << "],\n  \"samples\": [";
        u64 ns = std::min<u64>(12, sh()->nsamp);
        for (u64 i = 0; i < ns; ++i) e << (i ? ", " : "") << "\"" << jesc(sh()->samp[i]) << "\"";
        e << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < h.assumptions.size(); ++i) e << (i ? ", " : "") << "\"" << jesc(h.assumptions[i]) << "\"";
        e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s %s: states=%llu transitions=%llu traces=%llu outcomes=%llu nontrivial=%llu skipped=%llu violations=%d flakes=%d wall=%.1fs\n", h.property.c_str(), thorough ? "thorough" : "quick",
           (unsigned long long)sh()->states.load(), (unsigned long long)sh()->transitions.load(), (unsigned long long)sh()->traces.load(), (unsigned long long)sh()->outcomes.load(),
           (unsigned long long)sh()->nontrivial.load(), (unsigned long long)sh()->skipped.load(), violations, flakes, wall);
    return violations ? 1 : 0;
}
} // namespace mc
#endif
