// Runs the command-line tools: their main functions are linked into this program (build.py, build_tools) and called in a child process.
#pragma once
#include "mc.h"
#include "ref.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
struct ToolEntry { const char *name; int (*main)(int, char **); };
extern const ToolEntry TOOLS[];
namespace tl {
struct Run { int rc = -1; bool crashed = false; std::string out, err; };
inline std::string slurp_fd(int fd) { std::string r; lseek(fd, 0, SEEK_SET); char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); return r; }
inline std::string &dir() { static std::string d; return d; }
inline pid_t &owner() { static pid_t p; return p; }
inline void rmdir_all() { if (owner() != getpid()) return; if (DIR *d = opendir(dir().c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((dir() + "/" + n).c_str()); } closedir(d); } rmdir(dir().c_str()); }
// a scratch directory of this process, emptied for every case
inline const std::string &scratch() {
    if (owner() != getpid()) { owner() = getpid(); dir() = "/dev/shm/verif_tools." + std::to_string(getpid()); mkdir(dir().c_str(), 0700); }
    return dir(); }
inline void clean() { scratch(); if (DIR *d = opendir(dir().c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((dir() + "/" + n).c_str()); } closedir(d); } }
struct Case { Case() { clean(); } ~Case() { rmdir_all(); owner() = 0; } }; // every case leaves nothing behind
inline std::string path(const std::string &n) { return scratch() + "/" + n; }
inline void put(const std::string &n, const std::string &bytes) { FILE *f = fopen(path(n).c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
inline std::string get(const std::string &n) { int fd = open(path(n).c_str(), O_RDONLY); if (fd < 0) return ""; std::string r = slurp_fd(fd); close(fd); return r; }
inline bool exists(const std::string &n) { return access(path(n).c_str(), F_OK) == 0; }
inline Run run(const std::string &tool, const std::vector<std::string> &args, const std::string &in = "") {
    Run r; int (*m)(int, char **) = NULL; for (const ToolEntry *t = TOOLS; t->name; ++t) if (tool == t->name) m = t->main; if (!m) { r.err = "no such tool"; return r; }
    scratch(); fflush(NULL); int i = memfd_create("i", 0), o = memfd_create("o", 0), e = memfd_create("e", 0); if (write(i, in.data(), in.size()) < 0) return r; lseek(i, 0, SEEK_SET);
    pid_t p = fork();
    if (!p) { alarm(20); dup2(i, 0); dup2(o, 1); dup2(e, 2); if (chdir(dir().c_str())) _exit(99); std::vector<std::string> a = {"hfst-" + tool}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(NULL);
        signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); int rc = 134; try { rc = m(a.size(), v.data()); } catch (...) { fflush(NULL); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); } exit(rc); }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else { r.crashed = true; r.rc = 1000 + WTERMSIG(st); } r.out = slurp_fd(o); r.err = slurp_fd(e); close(i); close(o); close(e); return r; }
inline std::string oneline(std::string s, size_t n = 200) { for (auto &c : s) if (c == '\n') c = '/'; return s.size() > n ? s.substr(0, n) + "..." : s; }
using hfst::HfstTransducer; using hfst::ImplementationType;
inline std::string stream(const std::vector<HfstTransducer> &v, ImplementationType ty) { std::string f = path("tmp.stream"); { hfst::HfstOutputStream o(f, ty); for (auto &t : v) { HfstTransducer x(t); o << x; } o.close(); } std::string r = get("tmp.stream"); unlink(f.c_str()); return r; }
inline std::string stream(const std::vector<ref::T> &v, ImplementationType ty) { std::vector<HfstTransducer> w; for (auto &t : v) w.push_back(ref::to_hfst(t, ty)); return stream(w, ty); }
inline bool unstream(const std::string &bytes, std::vector<HfstTransducer> &out, ImplementationType &ty) { put("tmp.stream", bytes); bool ok = true; try { hfst::HfstInputStream in(path("tmp.stream")); ty = in.get_type(); while (in.is_good()) out.push_back(HfstTransducer(in)); in.close(); } catch (...) { ok = false; } unlink(path("tmp.stream").c_str()); return ok; }
}
