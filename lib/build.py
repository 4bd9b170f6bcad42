#!/usr/bin/env python3
"""Builds libhfst (static) from /repo's *working tree*, plus harnesses, outside /repo.

Content-addressed: every object is keyed by the hash of the compiler flags and of the preprocessed-relevant
inputs (the source and every file of /repo or /verif it includes, taken from the depfile of the last compile
and re-validated by content).  mtimes are never consulted.
"""
import hashlib, os, subprocess, sys, json, re, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "libhfst/src")
GXX = "/usr/bin/g++"
JOBS = os.cpu_count() or 8

BASE = ["-DHAVE_CONFIG_H", "-I", os.path.join(VERIF, "lib"), "-I", BUILD + "/gen", "-I", SRC + "/parsers", "-I", SRC,
        "-I", SRC + "/implementations", "-I", SRC + "/implementations/optimized-lookup",
        "-I", REPO + "/back-ends/sfst", "-I", REPO + "/back-ends", "-I", REPO,
        "-w", "-I", os.path.join(VERIF, "harness"), "-D_GNU_SOURCE", "-D_USE_MATH_DEFINES", "-DHFST_VERIF"]
FLAVORS = {"plain": ["-O1", "-g0"], "asan": ["-O1", "-gline-tables-only" if 0 else "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]}

PARSERS = ["xre_parse", "pmatch_parse", "lexc-parser", "sfst-compiler", "xfst-parser",
           "htwolcpre1-parser", "htwolcpre2-parser", "htwolcpre3-parser"]
LEXERS = ["xre_lex", "pmatch_lex", "lexc-lexer", "sfst-scanner", "xfst-lexer",
          "htwolcpre1-lexer", "htwolcpre2-lexer", "htwolcpre3-lexer"]
EXCLUDE = {"HfstXeroxRulesTest.cc", "MyTransducerLibraryTransducer.cc", "HfstTransitionGraph.cc", "XfsmTransducer.cc"}

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

_fh = {}
def fhash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f: _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _fh[path] = "missing"
    return _fh[path]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-8000:]))

def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data: return
    except OSError: pass
    with open(path, "wb") as f: f.write(data)

def gen(kind, name):
    """bison/flex, keyed by content."""
    ext = ".yy" if kind == "y" else ".ll"
    src = os.path.join(SRC, "parsers", name + ext)
    g = os.path.join(BUILD, "gen"); key = sha(kind, fhash(src)); stamp = os.path.join(g, name + ext + ".stamp")
    try:
        if open(stamp).read() == key and os.path.exists(os.path.join(g, name + ".cc")): return
    except OSError: pass
    tmp = os.path.join(g, "tmp-" + name); os.makedirs(tmp, exist_ok=True)
    shutil.copy(src, tmp)
    if kind == "y":
        # the automake way: bison -y -d, then renamed to .cc/.hh
        run(["bison", "-y", "-d", "-o", name + ".cc", name + ext], cwd=tmp)
        for e in (".cc", ".hh"):
            write_if_changed(os.path.join(g, name + e), open(os.path.join(tmp, name + e), "rb").read())
    else:
        run(["flex", "--outfile=" + name + ".cc", name + ext], cwd=tmp)
        write_if_changed(os.path.join(g, name + ".cc"), open(os.path.join(tmp, name + ".cc"), "rb").read())
    shutil.rmtree(tmp)
    with open(stamp, "w") as f: f.write(key)

def std_for(src):
    # OpenFst 1.7.9 does not compile as C++20; the rest of libhfst needs it (as /opt/vp/cxx17or20 does)
    with open(src, errors="replace") as f: t = f.read()
    return "-std=c++17" if re.search(r"#include *<fst/fstlib\.h>", t) else "-std=c++20"

def compile_one(src, flavor, extra=()):
    flags = [std_for(src)] + FLAVORS[flavor] + BASE + list(extra)
    fk = sha(" ".join(flags), src)
    d = os.path.join(BUILD, "obj", flavor); os.makedirs(d, exist_ok=True)
    stem = os.path.basename(src).replace(".", "_") + "-" + fk[:12]
    dep = os.path.join(d, stem + ".deps")
    # one object per content key; the index remembers the dependency lists seen
    try: deps = json.load(open(dep))
    except (OSError, ValueError): deps = None
    if deps:
        key = sha(fk, *[p + fhash(p) for p in deps])
        obj = os.path.join(d, stem + "-" + key[:20] + ".o")
        if os.path.exists(obj): return obj
    tmpo = os.path.join(d, stem + ".tmp.%d.o" % os.getpid()); mf = tmpo + ".d"
    run([GXX] + flags + ["-MD", "-MF", mf, "-c", src, "-o", tmpo])
    txt = open(mf).read().replace("\\\n", " "); os.remove(mf)
    paths = [os.path.realpath(p) for p in txt.split(":", 1)[1].split()]
    deps = sorted({p for p in paths if p.startswith((REPO + "/", VERIF + "/", BUILD + "/"))})
    key = sha(fk, *[p + fhash(p) for p in deps])
    obj = os.path.join(d, stem + "-" + key[:20] + ".o")
    os.replace(tmpo, obj)
    with open(dep + ".tmp", "w") as f: json.dump(deps, f)
    os.replace(dep + ".tmp", dep)
    # drop stale objects of the same source+flags
    for f in os.listdir(d):
        if f.startswith(stem + "-") and f.endswith(".o") and os.path.join(d, f) != obj:
            try: os.remove(os.path.join(d, f))
            except OSError: pass
    return obj

def lib_sources():
    out = []
    for base, _, files in os.walk(SRC):
        if base.endswith("/c") or "/.libs" in base or "/.deps" in base: continue
        for f in files:
            if not f.endswith(".cc") or f in EXCLUDE: continue
            if base == SRC + "/parsers" and f[:-3] in PARSERS + LEXERS: continue   # generated in tree by make
            out.append(os.path.join(base, f))
    out += [os.path.join(BUILD, "gen", n + ".cc") for n in PARSERS + LEXERS]
    out += [os.path.join(REPO, "back-ends/sfst", f) for f in os.listdir(REPO + "/back-ends/sfst") if f.endswith(".cc")]
    return sorted(out)

LIBS = ["-lfoma", "-lfst", "-lreadline", "-licui18n", "-licuuc", "-licudata", "-lm", "-lpthread", "-ldl"]

def locked(f):
    def g(*a, **k):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(*a, **k)
    return g

def build_lib(flavor):
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    # hfst.hpp as configure makes it, except that config.h has the macros
    txt = open(SRC + "/hfst.hpp.in").read(); txt = re.sub(r"(?m)^#undef .*$", "", txt); hpp = os.path.join(BUILD, "gen", "hfst.hpp")
    if not os.path.exists(hpp) or open(hpp).read() != txt:
        with open(hpp, "w") as f: f.write(txt)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda n: gen("y", n), PARSERS)); list(ex.map(lambda n: gen("l", n), LEXERS))
        # longest first
        slow = ["TropicalWeight", "LogWeight", "HfstTransducer.cc", "HfstXeroxRules", "XfstCompiler", "pmatch", "Convert", "HfstBasic"]
        srcs = sorted(lib_sources(), key=lambda s: (not any(x in s for x in slow), -os.path.getsize(s)))
        objs = list(ex.map(lambda s: compile_one(s, flavor), srcs))
    key = sha(*sorted(objs)); lib = os.path.join(BUILD, "libhfst-%s.a" % flavor); st = lib + ".stamp"
    if not (os.path.exists(lib) and os.path.exists(st) and open(st).read() == key):
        if os.path.exists(lib): os.remove(lib)
        run(["ar", "crs", lib + ".tmp"] + objs); os.replace(lib + ".tmp", lib)
        with open(st, "w") as f: f.write(key)
    return lib, key

TOOLS = os.path.join(REPO, "tools/src")

def tool_object(tool, sources, lib, weak):
    """The program made of sources as one relocatable object whose only own symbol is the function tool_NAME (its main):
    everything else it defines is made local, apart from what the library defines as well (inline functions)."""
    tag = "tool_" + re.sub(r"\W", "_", tool)
    objs = [compile_one(os.path.join(TOOLS, s), "plain", ["-fno-gnu-unique", "-I", TOOLS] + (["-I", os.path.dirname(os.path.join(TOOLS, s))] if "/" in s else [])) for s in sources]
    d = os.path.join(BUILD, "tools"); os.makedirs(d, exist_ok=True); key = sha("3", tag, *objs, sha(*sorted(weak)))
    out = os.path.join(d, tag + ".o"); st = out + ".stamp"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key: return out
    run(["ld", "-r", "--force-group-allocation", "-o", out + ".tmp"] + objs)
    loc = []
    for l in subprocess.run(["nm", out + ".tmp"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f = l.split()
        if len(f) != 3 or f[2] == "main": continue
        if f[1] in "TDBRGSC" or (f[1] in "WVu" and (f[2] not in weak)): loc.append(f[2])
    with open(out + ".l", "w") as f: f.write("\n".join(loc) + "\n")
    run(["objcopy", "--redefine-sym", "main=" + tag, "--localize-symbols=" + out + ".l", out + ".tmp", out + ".tmp2"])
    os.replace(out + ".tmp2", out); os.remove(out + ".tmp")
    with open(st, "w") as f: f.write(key)
    return out

def build_tools(tools):
    """tools: {name: [sources under tools/src]}; returns the objects and the source of a table of the tools"""
    lib, lkey = build_lib("plain")
    wf = os.path.join(BUILD, "weak-" + lkey[:16] + ".txt")
    if not os.path.exists(wf):
        for f in os.listdir(BUILD):
            if f.startswith("weak-"): os.remove(os.path.join(BUILD, f))
        r = subprocess.run(["nm", lib], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        write_if_changed(wf, "\n".join(sorted({l.split()[-1] for l in r.splitlines() if re.search(r" [WVu] ", l)})).encode())
    weak = set(open(wf).read().split("\n"))
    with ThreadPoolExecutor(JOBS) as ex:
        # sources shared by the tools first, so that each is compiled once
        n = {}
        for v in tools.values():
            for x in v: n[x] = n.get(x, 0) + 1
        list(ex.map(lambda x: compile_one(os.path.join(TOOLS, x), "plain", ["-fno-gnu-unique", "-I", TOOLS]), [x for x in n if n[x] > 1 and "/" not in x]))
        objs = list(ex.map(lambda t: tool_object(t, tools[t], lib, weak), sorted(tools)))
    tab = os.path.join(BUILD, "gen", "tool_table_%s.cc" % sha(*sorted(tools))[:8])
    t = "".join('extern "C" int tool_%s(int, char **);\n' % re.sub(r"\W", "_", x) for x in sorted(tools))
    t += "struct ToolEntry { const char *name; int (*main)(int, char **); };\nextern const ToolEntry TOOLS[];\nconst ToolEntry TOOLS[] = {\n" + "".join('  {"%s", tool_%s},\n' % (x, re.sub(r"\W", "_", x)) for x in sorted(tools)) + "  {0, 0}};\n"
    write_if_changed(tab, t.encode())
    return objs, tab

@locked
def build_exe(name, sources, flavor="plain", extra=(), ldextra=(), tools=None):
    """Links sources (absolute paths) with libhfst; returns path of the executable."""
    lib, lkey = build_lib(flavor); tobjs = []
    if tools: tobjs, tab = build_tools(tools); sources = list(sources) + [tab]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flavor, extra), sources))
    key = sha(lkey, *objs, *ldextra, *[open(o + ".stamp").read() for o in tobjs]); exe = os.path.join(BUILD, "bin", flavor, name); st = exe + ".stamp"
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == key):
        run([GXX] + (["-fsanitize=address"] if flavor == "asan" else []) + ["-o", exe + ".tmp"] + objs + tobjs + [lib] + list(ldextra) + LIBS)
        os.replace(exe + ".tmp", exe)
        with open(st, "w") as f: f.write(key)
    return exe

if __name__ == "__main__":
    import time
    t = time.time()
    lib, key = locked(build_lib)(sys.argv[1] if len(sys.argv) > 1 else "plain")
    print(lib, key[:12], "%.1fs" % (time.time() - t))
