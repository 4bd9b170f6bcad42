import os
def H(src, prop=None, **kw):
    def f(b):
        e = b.build_exe(src[:-3], [os.path.join(b.VERIF, "harness", src)], **kw)
        return [e, "--prop", prop] if prop else [e]
    return f
COMMON = ["hfst-program-options.cc", "hfst-commandline.cc", "hfst-tool-metadata.cc"]
def TL(names, **more):
    t = {n: ["hfst-%s.cc" % n] + COMMON for n in names.split()}
    t.update(more); return t
TOOLS_STREAM = TL("compose concatenate conjunct disjunct subtract priority-disjunct shuffle invert reverse project minimize determinize "
                  "remove-epsilons repeat push-weights push-labels reweight head tail split name multiply prune-alphabet insert-freely substitute "
                  "fst2fst compare kill-paths expand-equivalences eliminate-flags summarize")
TOOLS_TEXT = TL("strings2fst fst2strings txt2fst fst2txt pair-test", regexp2fst=["hfst-regexp2fst.cc", "hfst-file-to-mem.cc"] + COMMON)
HARNESS = {
    "C28": H("h_tokenize.cc", tools=TL("tokenize")),
    "C27": H("h_proc.cc", tools={"proc": ["hfst-proc/%s.cc" % x for x in "hfst-proc formatter lookup-path lookup-state tokenizer transducer applicators alphabet".split()]}),
    "C26": H("h_pairtest.cc", tools=TL("pair-test")),
    "C25": H("h_lookuptool.cc", tools=TL("lookup flookup", **{"optimized-lookup": ["hfst-optimized-lookup.cc"]})),
    "C24": H("h_texttools.cc", tools=TOOLS_TEXT),
    "C23": H("h_tools.cc", tools=TOOLS_STREAM),
    "C01": H("h_rational.cc"),
    "C02": H("h_binary.cc", "C02"),
    "C03": H("h_binary.cc", "C03"),
    "C04": H("h_binary.cc", "C04"),
    "C06": H("h_io.cc", "C06"),
    "C07": H("h_io.cc", "C07"),
    "C08": H("h_io.cc", "C08"),
    "C09": H("h_lookup.cc"),
    "C10": H("h_paths.cc", "C10"),
    "C12": H("h_paths.cc", "C12"),
    "C11": H("h_token.cc"),
    "C19": H("h_history.cc"),
    "C20": H("h_subst.cc"),
    "C21": H("h_compint.cc"),
    "C22": H("h_flags.cc"),
    "C14": H("h_lexc.cc"),
    "C15": H("h_twolc.cc"),
    "C13": H("h_xre.cc"),
    "C16": H("h_replace.cc"),
    "C05": H("h_optim.cc"),
    "C18": H("h_xfst.cc"),
    "C17": H("h_pmatch.cc"),
}
