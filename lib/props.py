"""One entry per property: the text of properties.jsonl, of MANIFEST.json and of the evidence files.  gen.py writes the two files."""
import collections
P = collections.OrderedDict()
L = "libhfst/src/"; I = L + "implementations/"
BACK = [I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", "back-ends/sfst/operators.C"]
TECH = "explicit-state bounded enumeration of the real code against a reference model"
def prop(id, title, statement, over, text, why, files, mech, rule, assume, note, technique=TECH, level="model_checking"):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule, assume=assume, note=note, technique=technique, level=level)
T0 = "every case is one transducer (or pair) of a complete enumeration of labelled graphs up to the stated number of states and arcs, converted to the real implementation type, run through the real operation, and its whole result compared with the reference relation up to a string length bound; "
TB = "reference relation computed in harness/ref.h by explicit exploration of the graph|results compared on all string pairs up to a length bound (4 symbols), exactly including weights"

prop("C01", "Rational operations compute exactly the set-theoretic relation",
 "For every transducer and every implementation type, closure, bounded repetition, optionality, inversion, reversal, projection, concatenation and union produce exactly the weighted relation their set-theoretic definition gives, also for transducers with epsilon, unknown and identity symbols and with unused states. Combining a transducer with itself obeys the same definition.",
 ["inputs", "configurations"], "all transducers, repetition bounds and implementation types",
 "tests apply each operation to a few fixed transducers and compare with another transducer that the same library built", [L + "HfstTransducer.cc", L + "HfstApply.cc"] + BACK,
 [("HfstTransducer::apply dispatch to the four back ends", L + "HfstApply.cc")], T0 + "non-trivial: the expected relation is not empty", TB, "exhaustive over all graphs with at most 2 states (3 in thorough) and 2-3 arcs over {a,b,epsilon,unknown,identity}, four implementation types; trusts OpenFst and libfoma binaries")
prop("C02", "Composition and cross product relate exactly the right pairs",
 "For every pair of transducers, composition yields exactly the pairs (x,z) joined by some common middle string, with the minimum over all such paths of the summed weights; cross product relates every string of the first automaton to every string of the second; lenient composition keeps an upper string unchanged exactly when ordinary composition gives it no result.",
 ["inputs", "configurations"], "all pairs of transducers, with epsilons on either side and weights, all implementation types",
 "tests compose a few fixed pairs", [L + "HfstTransducer.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", "back-ends/sfst/operators.C"], [("compose and its symbol encoding", I + "TropicalWeightTransducer.cc")], T0 + "non-trivial: the expected relation is not empty", TB, "exhaustive over pairs of graphs with at most 2 states and 2 arcs; epsilon filters, weights and both argument orders are covered")
prop("C03", "Boolean operations, priority union and shuffle are exact",
 "For every pair of transducers, intersection, difference and priority union yield exactly the pairs of strings their definitions give, with weights; shuffle yields exactly the interleavings of the strings of two automata; the complement of an automaton accepts exactly the strings the automaton rejects. The alphabet of a result contains every symbol of its operands.",
 ["inputs", "configurations"], "all pairs of transducers and all implementation types",
 "tests check a few pairs", [L + "HfstTransducer.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc"], [("binary apply with harmonization", L + "HfstApply.cc")], T0 + "non-trivial: the expected relation is not empty", TB + "|difference and intersection of transducers are those of relations over symbol pairs, as documented", "exhaustive over pairs of graphs with at most 2 states and 2 arcs over {a,b,epsilon,identity}")
prop("C04", "Unknown and identity symbols mean the same before and after combining",
 "When two transducers with different alphabets are combined by concatenation, union, intersection, difference or composition, every unknown and identity symbol keeps standing for exactly the symbols that its own transducer did not know, so the result relates the strings that the definitions over the joint alphabet give. The alphabet of the result contains both alphabets.",
 ["inputs", "configurations"], "all pairs of transducers with differing alphabets",
 "tests have a handful of harmonization examples", [L + "HfstTransducer.cc", L + "HarmonizeUnknownAndIdentitySymbols.cc", L + "HfstApply.cc", I + "HfstBasicTransducer.cc"], [("harmonize / insert_missing_symbols", L + "HfstTransducer.cc")], T0 + "symbols outside both alphabets (x, y) are part of every compared string; non-trivial: the expected relation is not empty", TB + "|composition where the first transducer reads an unknown symbol and the second writes one is recorded as a known limitation, not claimed", "exhaustive over pairs of graphs with one or two arcs over known, unknown and identity labels; strings contain two symbols outside both alphabets")
prop("C05", "Optimising and weight pushing never change what a transducer accepts",
 "Epsilon removal, determinization, minimization, general optimization, pruning and weight pushing keep the weighted relation exactly, with weight encoding on or off and for every minimization algorithm. Their results have the announced form (epsilon-free, deterministic, minimal), and n-best keeps exactly n best paths that exist.",
 ["inputs", "configurations"], "all transducers, settings and implementation types", "tests optimise fixed examples and compare with the library's own comparison", [L + "HfstTransducer.cc"] + BACK, [("minimize/determinize wrappers with label and weight encoding", I + "TropicalWeightTransducer.cc")], T0 + "non-trivial: the relation is not empty", TB + "|libfoma's epsilon removal is not exercised (it frees memory it still uses)", "exhaustive over graphs with at most 3 states; minimality is checked against the number of residual classes of the model")
prop("C06", "Converting between implementation types loses nothing",
 "Converting a transducer between any two implementation types, directly or through a chain, keeps its weighted relation and its alphabet; weights may only be lost when an unweighted type is passed through.",
 ["inputs", "configurations"], "all transducers and chains of types", "tests convert a few transducers", [L + "HfstTransducer.cc"] + [I + f for f in ("ConvertTropicalWeightTransducer.cc", "ConvertLogWeightTransducer.cc", "ConvertSfstTransducer.cc", "ConvertFomaTransducer.cc", "ConvertOlTransducer.cc", "ConvertTransducerFormat.cc")], [("ConversionFunctions", I + "ConvertTransducerFormat.cc")], T0 + "also dense graphs with up to hundreds of arcs per state and wide alphabets, which exercise the packing of the optimized-lookup tables", TB, "exhaustive over small graphs times all chains of types; plus parametric families of dense and wide graphs")
prop("C07", "A binary stream gives back what was written to it",
 "Whatever sequence of transducers is written to a binary stream of any type and mode, reading it back gives the same number of transducers in the same order with the same relation, weights, alphabet, name and properties.",
 ["inputs", "histories"], "all transducers and sequences of writes", "tests write one or a few transducers", [L + "HfstInputStream.cc", L + "HfstOutputStream.cc", I + "optimized-lookup/transducer.cc"], [("HFST header and back-end bodies", L + "HfstOutputStream.cc")], "every small graph, every pair and triple of a list of transducers, in every type; non-trivial: the relation is not empty", TB, "exhaustive over single small transducers, pairs and triples of written transducers in all stream types, with and without header, from files and std streams")
prop("C08", "Text formats give back what was written to them",
 "A transducer printed in AT&T or prolog format and read back is the same transducer (states, transitions, finality, weights, symbols), for symbols of any content the format can express, any number of transducers per file, and files as well as streams.",
 ["inputs", "histories"], "all graphs, symbol names, sequences", "tests read a few fixed files", [I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc", L + "HfstPrintDot.cc"], [("write_in_att_format / read_in_att_format / write_in_prolog_format", I + "HfstBasicTransducer.cc")], "every graph up to 2 states, every symbol name of a list of awkward names (spaces, tabs, quotes, percent, backslash, digits, long, UTF-8), every sequence of transducers", "a symbol with a newline cannot be written in a line based format|prolog has no spelling for the symbol %0", "exhaustive over small graphs, all pairs of awkward symbols and all short sequences")
prop("C09", "Lookup returns exactly the outputs of the input",
 "For every transducer in optimized-lookup form and every input string, lookup returns exactly the outputs, with weights, that the transducer relates to that input, respects the result limit, leaves the transducer unchanged, and reports infinite ambiguity exactly for inputs that have infinitely many results. Inputs with unknown characters or broken UTF-8 never crash it.",
 ["inputs", "histories"], "all transducers, input strings and sequences of lookups", "tests look up a few words", [I + "optimized-lookup/transducer.cc", I + "optimized-lookup/find_epsilon_loops.cc", I + "ConvertOlTransducer.cc", I + "HfstBasicTransducer.cc"], [("Transducer::get_analyses", I + "optimized-lookup/transducer.cc")], "every small graph times every input string up to length 4 over known and unknown characters, and every sequence of two lookups", TB + "|unknown symbols on the output side are not looked up", "exhaustive over small graphs and inputs, optimized-lookup (weighted and unweighted) and basic transducers")
prop("C10", "Path extraction lists exactly the accepted paths",
 "For every transducer and type, extracting paths without limits gives exactly the accepted string pairs with their weights, or refuses when there are infinitely many; a limit on the number of paths or cycles is obeyed and never adds a pair that is not accepted. Cyclicity, infinite ambiguity, being an automaton and the longest and shortest paths are reported truthfully.",
 ["inputs", "configurations"], "all transducers, limits and implementation types", "tests extract paths of a few transducers", [L + "HfstTransducer.cc", I + "HfstOlTransducer.cc"] + BACK[:4], [("extract_paths of each back end", L + "HfstTransducer.cc")], T0 + "non-trivial: more than one path", TB + "|with an unlimited number of cycles the transducer has no dead states", "exhaustive over graphs with at most 3 states and 3 arcs, five implementation types, seven limit settings")
prop("C12", "Flag diacritics mean the same everywhere",
 "Whether a path is allowed by its flag diacritics is decided by the same rules in every part of the library: checking a string, extracting paths, looking up in basic or optimized-lookup transducers, and eliminating flags all agree with the definition of the set, negative set, require, disallow, clear and unify operations. Eliminating flags removes them and keeps exactly the allowed string pairs and weights.",
 ["inputs", "programs"], "all sequences of flag operations and all graphs carrying them", "tests have a few flag examples", [L + "HfstFlagDiacritics.h", L + "HfstFlagDiacritics.cc", L + "HfstTransducer.cc", I + "optimized-lookup/transducer.cc", I + "HfstBasicTransducer.cc"], [("FdState::apply_operation", L + "HfstFlagDiacritics.h"), ("eliminate_flags", L + "HfstTransducer.cc")], "every sequence of flag operations up to length 5 over ten operations of one feature; every chain of up to 3 flags and every small graph over flags of two features, on 14 engines", "libfoma's own elimination is exercised only where every require flag has a setter and no negative setting meets a unification (its known limits)", "exhaustive over flag sequences up to length 5 and graphs with at most 3 states")
prop("C11", "Tokenization always takes the longest known symbol and loses nothing",
 "Tokenizing any valid UTF-8 string repeatedly takes the longest multicharacter or skip symbol that starts at the current position, and otherwise one grapheme cluster (or one code point when splitting); skip symbols are dropped and everything else is kept in order. Pairs of strings are padded with epsilons at the end, transducers built from strings accept exactly them, and broken UTF-8 is always refused.",
 ["inputs", "configurations"], "all strings, all sets of multicharacter and skip symbols", "tests tokenize a few strings", [L + "HfstTokenizer.cc", L + "HfstTransducer.cc"], [("MultiCharSymbolTrie::find", L + "HfstTokenizer.cc")], "every string up to a length over small alphabets (ASCII, combining marks, 2 to 4 byte characters, controls) times every assignment of {absent, symbol, skip} to a list of overlapping symbols; every byte string up to length 4 over 22 representative bytes; non-trivial: more than one token", "grapheme clusters are modelled as base + combining marks, CR LF and emoji modifiers", "exhaustive within the stated lengths")
prop("C19", "Operations obey their definitions in every order and change only their target",
 "After any history of operations on several transducers (including copies, assignments, self-application, type conversions, inspections and changes of the global optimization settings), every transducer denotes exactly the weighted relation that the definitions give step by step. A transducer that an operation only reads, and copies made earlier, keep their relation, name and type.",
 ["histories", "configurations"], "all sequences of operations, in every implementation type", "tests run each operation alone, on fresh transducers", [L + "HfstTransducer.cc", L + "HfstApply.cc"] + BACK[:4], [("ownership of implementation pointers", L + "HfstTransducer.cc")], "every sequence of up to 3 operations (4 in thorough) out of 36 over two variables, from four initial pairs, in three types; the model carries both relations; non-trivial: X is not empty at the end", "relations of letter pairs, compared up to length 3", "exhaustive over operation sequences up to the stated depth")
prop("C13", "A regular expression denotes what its operators say",
 "The Xerox-style regular-expression compiler refuses every ill-formed expression and gives every well-formed one exactly the weighted relation its operators and their precedence denote: pairs, concatenation, union, intersection, difference, complement, containment, iteration, composition, cross product, priority union, lenient composition, ignoring, before/after and restriction, in every implementation type. A defined name or function denotes its definition, also after redefinitions.",
 ["programs", "inputs"], "all expressions", "tests compile a fixed list of expressions", [L + "parsers/xre_parse.yy", L + "parsers/xre_lex.ll", L + "parsers/xre_utils.cc", L + "parsers/XreCompiler.cc", L + "HfstXeroxRules.cc"], [("the grammar rules", L + "parsers/xre_parse.yy")], "every token string up to length 4 or 5 over six token alphabets, every unary-of-binary and every triple of unary operators over eleven leaves fully bracketed, and every definition in every context; the oracle is a recursive descent parser with exact automata operations; non-trivial: the relation has more than one pair", "intersection, difference and complement of transducers that are not automata are outside the property|exactly-once containment and restriction of expressions that accept the empty string are not judged|results compared on strings up to length 3 over two used and one unused letter", "exhaustive within the stated expression lengths and heights")
prop("C16", "Replace rules rewrite exactly as defined",
 "A replace rule compiled from a regular expression relates every input string to exactly the strings obtained by rewriting it as the operators define: obligatory -> leaves no unreplaced match, optional (->) may leave any, <- is its inverse, the directed arrows @->, @>, ->@, >@ choose the leftmost/rightmost and longest/shortest match; contexts are checked on the side their mark (||, //, \\\\, \\/) says, several contexts are alternatives, .#. is the word boundary, mappings (,) and parallel rules (,,) apply simultaneously, and markup (...) surrounds the match. Where contexts on the output side let replacements justify each other, the results are some of the strings that satisfy the definition.",
 ["programs", "inputs"], "all replace rules and input strings", "tests compile some dozens of fixed rules and compare with other rules", [L + "HfstXeroxRules.cc", L + "parsers/xre_parse.yy", L + "parsers/xre_utils.cc"], [("replace, replace_leftmost_longest_match, ...", L + "HfstXeroxRules.cc")],
 "every rule built from the listed centres, outputs, contexts, marks and arrows: one rule without context in three implementation types, one and two contexts, two mappings, two parallel rules (also with several contexts), markup alone and combined", "inputs up to length 4 over a, b, c and an unmentioned symbol; centres and outputs from a list of finite languages over a, b, c and a+; with output-side contexts several results can satisfy the definition: any non-empty subset is accepted there, and \\/ is explored with one-sided contexts only; directed arrows with || only",
 "for every rule and input string the set of results equals the one computed by enumerating all ways of segmenting the input and testing the definition")
prop("C14", "A lexicon grammar compiles to exactly the strings its lexicons spell",
 "A lexc grammar is refused if it is ill-formed; otherwise the compiled transducer relates exactly the string pairs, with weights, spelled by the chains of entries that lead from the first lexicon (or Root) to #, where every entry contributes its string, pair of strings or regular expression with multicharacter symbols, escapes and zeros read as documented. Flag and alignment options, layout and what was compiled before in the process make no difference.",
 ["programs", "histories", "configurations"], "all grammars", "tests compile some dozens of fixed grammars", [L + "parsers/LexcCompiler.cc", L + "parsers/lexc-lexer.ll", L + "parsers/lexc-parser.yy", L + "parsers/lexc-utils.cc"], [("joiners, regular-expression keys and their substitution", L + "parsers/LexcCompiler.cc")],
 "every grammar built from the listed entries: one entry in all options and layouts, two entries in three shapes, all graphs of three lexicons, lexicon names that contain one another, every token string up to length 5 and histories of compilations in one process; non-trivial: more than one string pair", TB + "|lexicon flags are obeyed and then dropped before the comparison", "relations are compared on all string pairs up to 3 or 4 symbols over 15 symbols")
prop("C15", "Two-level rules accept exactly the pair strings their contexts allow",
 "Compiling a two-level grammar gives rule transducers whose intersection accepts a string of feasible pairs exactly if every rule holds in it: =>: each centre pair occurs in one of the contexts, <=: in the contexts the input symbol is realised as the centre says, <=>: both, /<=: the centre does not occur in the contexts. Contexts are regular expressions over pairs with sets, definitions, variables, exceptions and word boundaries; diacritics are skipped by rules that do not mention them; => rules with one centre are joined and, when asked for, a <= rule gives way to one with a narrower context; rules are deterministic, and what was compiled before makes no difference.",
 ["programs", "inputs", "histories"], "all grammars and pair strings", "tests compile a few fixed grammars", [L + "parsers/TwolcCompiler.cc", L + "parsers/htwolcpre1-parser.yy", L + "parsers/htwolcpre2-parser.yy", L + "parsers/htwolcpre3-parser.yy", L + "parsers/rule_src/", L + "parsers/alphabet_src/", L + "parsers/variable_src/"], [("compile_and_store and conflict resolution", L + "parsers/rule_src/TwolCGrammar.cc")],
 "every rule built from the listed centres, operators and contexts, two contexts with exceptions, all pairs of rules under three ways of resolving conflicts, regular expressions as centres, where clauses, sets and definitions, diacritics, and all histories of one or two earlier compilations (also refused ones) in three implementation types; non-trivial: some pair string is rejected", TB, "all pair strings up to length 3 or 4 between word boundaries over 6 to 9 pairs; <= rules with an inserted symbol as centre are left out")
prop("C20", "Substitution, insertion and weight functions edit exactly what they name",
 "Substituting symbols, symbol pairs, sets of pairs, or a whole transducer for a pair, inserting symbols or transducers freely, setting or transforming weights and editing alphabets give exactly the transducer whose transitions are edited as the operation says, constructing from symbols, pairs, sets and vectors of pairs and adding paths give exactly what is named, all replacements at once and every matching transition replaced, in every implementation type and in basic transducers, also when unknown and identity symbols are present.",
 ["inputs", "configurations"], "all transducers and edits", "tests substitute in a few transducers", [L + "HfstTransducer.cc", I + "HfstBasicTransducer.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc"], [("substitute and insert_freely", I + "HfstBasicTransducer.cc")],
 "every small graph times every edit of a list of some 200, in four implementation types and directly on a basic transducer; non-trivial: the relation is not empty", TB, "graphs with at most 2 states and 2 to 4 arcs; with unknown and identity symbols one or two arcs")
prop("C21", "Composing a lexicon with two-level rules intersects the rules exactly",
 "compose_intersect(rules) relates exactly the string pairs of the lexicon composed with the intersection of the rules, rule pairs counting as single symbols; with invert, the intersection composed with the lexicon. Weights of lexicon and rules add up; symbols that only some rules know, unknown symbols of the lexicon, word boundaries and flag diacritics that no rule mentions, the number of rules and the implementation type make no difference.",
 ["inputs", "configurations"], "all lexicons and rule sets", "tests compose some fixed grammars", [I + "compose_intersect/", L + "HfstTransducer.cc"], [("compute_state", I + "compose_intersect/ComposeIntersectLexicon.cc"), ("compute_transition_set", I + "compose_intersect/ComposeIntersectRulePair.cc")],
 "every lexicon of a list times every deterministic rule with one or two states, every pair and triple of rules from smaller lists, both directions, four implementation types; non-trivial: the result is not empty", TB, "rules have at most 2 states and 4 to 6 arcs and are deterministic over symbol pairs, as the function requires; flag diacritics occur in the lexicon only")
prop("C17", "Pattern matching marks exactly the leftmost longest lightest matches",
 "For every set of pmatch rules and every text, matching marks the leftmost, longest and among those lightest matches of TOP and nothing else: definitions, functions, Ins and recursion, EndTag and .t() tags, contexts LC, RC, NLC, NRC with OR and AND, the text boundary #, word separators, character classes, Lst and Exc, weights and the weight cutoff, the extract, delete and mark settings, letter-case operators and the expression operators mean what they say; locating reports exactly the set of longest analyses in weight order with positions, texts and tags. Reading the rules from a stream, a flattened archive or a vector of transducers, and asking again, makes no difference.",
 ["programs", "inputs", "histories", "configurations"], "all rule sets and texts", "tests match a few fixed rules in a few texts", [L + "parsers/pmatch_parse.yy", L + "parsers/pmatch_lex.ll", L + "parsers/pmatch_utils.cc", I + "optimized-lookup/pmatch.cc", I + "optimized-lookup/pmatch.h"], [("PmatchContainer::match/locate and the recursive matcher", I + "optimized-lookup/pmatch.cc"), ("compilation of rules", L + "parsers/pmatch_utils.cc")],
 "every rule set built from the listed expressions, tags, contexts, separators, functions, letter-case operators and settings, times every text up to length 4 or 5 over 3 or 4 characters; non-trivial: something is matched; for every rule set and text the marked text and the located matches equal those of a reference matcher that works on the enumerated languages of the rules", TB + "|among several equally long and light matches any is accepted", "not claimed: empty tagged matches, Lst and Exc together with ? or separators, OptUpCase, OptDownCase, AnyCase, negative contexts of the empty language, / with ? or non-acceptors, .x. with ?, captures, Like, Interpolate and counters")
prop("C18", "The xfst interpreter does to its stack exactly what each command says",
 "After any sequence of xfst commands the stack and the definitions are what the commands define one after the other: pushing, popping, turning, rotating and clearing, network operations on the topmost networks, definitions and functions with later redefinition, saving and loading stacks and definitions, reading regular expressions, texts, spaced texts, lexc, att and prolog files, and sourcing scripts. A refused command leaves the stack as it was. Tests, apply and print words report the truth. Settings that concern speed or layout, and running a script at once or line by line, make no difference.",
 ["histories", "programs", "configurations"], "all command sequences", "tests run some fixed scripts", [L + "parsers/XfstCompiler.cc", L + "parsers/xfst-parser.yy", L + "parsers/xfst-lexer.ll", L + "parsers/xfst-utils.cc"], [("the commands", L + "parsers/XfstCompiler.cc")],
 "every sequence of one and two (thorough: three) commands of a list of some 150 on stacks of several shapes, every script of the listed commands at once and line by line, every text up to a length in each of the readers; non-trivial: the stack changes; after every command the relations of all networks on the stack and of the definitions, and the text of the answers, equal those of a model of the interpreter", TB, "not claimed: shortest-string, test identity, lists, label net and sigma net; relations are compared on all strings up to length 3 over 4 symbols")
prop("C22", "Combining transducers that have flag diacritics",
 "After harmonize_flag_diacritics, or insert_freely_missing_flags_from for transducers with different features, or with flags treated as epsilons in composition, composing, concatenating and intersecting two transducers with flag diacritics gives a transducer whose paths, once flags are evaluated, are exactly those of the same operation on the operands with flags evaluated: no feature of one operand interferes with the other. twosided_flag_diacritics keeps the paths and leaves each flag on both tapes. Without harmonization flags compose as ordinary symbols, which unknown and identity symbols stand for only if set_xerox_composition is on, and operands are left as they were.",
 ["inputs", "configurations"], "all transducers with flags, in every implementation type", "tests combine a handful of transducers with one or two flags", [L + "HfstTransducer.cc", L + "HfstFlagDiacritics.cc"] + BACK[:4], [("harmonize_flag_diacritics, remove_illegal_flag_paths, compose", L + "HfstTransducer.cc")],
 "every pair from a set of transducers with up to three arcs (letters and flags of all operators) in five modes of combination and four types, every transducer with up to three arcs for twosided flags, every pair for flags as symbols; the oracle evaluates flags by a product of states and feature settings; non-trivial: some path survives the flags",
 "unknown symbols of the first operand and of the second never meet (their result is not expressible as ?:?)|modes with flags as epsilons or inserted freely use different features in the operands", "exhaustive within the stated sizes; relations compared up to length 3 or 4")
TS = "tools/src/"
prop("C23", "Command line tools apply their operation to every transducer of a stream",
 "For every stream of transducers of a binary type, each stream tool (hfst-compose, -concatenate, -conjunct, -disjunct, -subtract, -priority-disjunct, -shuffle, -compare, -invert, -reverse, -project, -minimize, -determinize, -remove-epsilons, -repeat, -push-weights, -push-labels, -reweight, -substitute, -insert-freely, -expand-equivalences, -eliminate-flags, -prune-alphabet, -head, -tail, -split, -multiply, -name, -fst2fst) writes, in order, one result for each transducer (or the transducers it is documented to select), each with exactly the relation and weights the named operation gives for that transducer alone: options and option files act on each transducer alike and nothing of one transducer, line or option reaches another. Binary tools pair the i-th transducers, or one with each of many; mixed types are converted or refused. hfst-compare's exit status says whether all pairs are equivalent. Files, standard input and -i/-o behave alike.",
 ["inputs", "configurations", "histories"], "all streams, options and types", "tests run each tool on one or two fixed files, nearly always holding a single transducer", [TS + "hfst-" + x + ".cc" for x in ("compose", "disjunct", "repeat", "reweight", "substitute", "insert-freely", "head", "tail", "split", "project")] + [TS + "inc/getopt-cases-binary.h", TS + "inc/getopt-cases-unary.h"],
 [("the tools' main and process_stream functions, linked into the checker and run in a child process for every case", TS + "hfst-*.cc")],
 "every pair of streams with up to three transducers from a fixed set, for nine type combinations and every binary tool; every stream of a set times every setting of every unary tool times three types; results are read back and compared with the reference model; non-trivial: the expected stream has a non-empty relation",
 "transducers with unknown or identity symbols are left out for tools that change labels|reweighting under symbol conditions only with -A|the tools run from their sources, each in a child process with its own scratch directory", "exhaustive within the stated sets of streams, options and types; relations compared up to length 3 or 4")
prop("C24", "Text tools print and read strings, patterns and graphs exactly",
 "hfst-strings2fst turns each line, as a string, a pair of strings or pair string, with spaces, escapes, multicharacter symbols, weights and joined or separate output, into exactly the path it says; hfst-fst2strings prints exactly the strings of each transducer that its filters (length, prefix, excluded string, beam, cycles, numbers of strings or best strings) admit, with the stated weights and format, and up to the number asked for whenever so many exist; hfst-fst2txt followed by hfst-txt2fst gives back every transducer of a stream in AT&T and prolog format; hfst-regexp2fst and the others give one result per line, expression or transducer in order, and separators (-S, --) delimit them. No input in the documented format makes a tool fail.",
 ["inputs", "configurations", "histories"], "all texts, streams, options and types", "tests run each tool on a few fixed files", [TS + "hfst-" + x + ".cc" for x in ("strings2fst", "fst2strings", "fst2txt", "txt2fst", "regexp2fst")] + [L + "HfstStrings2FstTokenizer.cc", L + "HfstExtractStrings.h"],
 [("the tools' main and process_stream functions, linked into the checker and run in a child process for every case", TS + "hfst-*.cc")],
 "every line of up to three or four characters from an alphabet of letters, separators, escapes and multicharacter symbols for every input format; every transducer of a set times every filter and output format; every stream of up to three; oracles are independent readers and path enumerations; non-trivial: the expected text or relation is not empty",
 "-r may print fewer strings than asked|an escaped tabulator in strings input is not tested|paths of cyclic transducers only up to the cycle limit given", "exhaustive within the stated lengths, sets of transducers and options")
prop("C25", "Lookup tools print exactly the analyses of each input line",
 "For every transducer (or stream of transducers) of a binary type, every input line and every combination of output format, input format, beam, result limit, spacing, epsilon format, flag and cascade options, hfst-lookup and hfst-optimized-lookup (and hfst-flookup for the inverse relation) print for each line, in order, exactly the output strings that paths reading the line produce, with their weights and ordered by weight, within the beam of the best one and at most the number asked for; a line without results is reported as such; flag diacritics are obeyed or shown as asked; a cascade gives the union, priority union or composition of its transducers; and the statistics count what was printed.",
 ["inputs", "configurations"], "all transducers, input lines and options", "tests look up a few fixed words with default options", [TS + "hfst-lookup.cc", TS + "hfst-flookup.cc", TS + "hfst-optimized-lookup.cc", TS + "hfst-optimized-lookup.h", L + "implementations/optimized-lookup/transducer.cc"],
 [("the tools' main functions, linked into the checker and run in a child process for every case", TS + "hfst-lookup.cc, hfst-flookup.cc, hfst-optimized-lookup.cc")],
 "every transducer of bounded sets (two states, plain, weighted, unknown/identity, flags, multicharacter symbols) times every option set times five types times all input lines of a fixed set, and every pair of cascade transducers times cascade modes, and every sequence of three flag diacritics; expected lines come from enumerating the paths of the reference graph; non-trivial: some line has a result",
 "epsilon cycles: that printed results are paths within the beam, that acyclic ones are present and, in the plain types, that going round once suffices to be printed|transducers with identity and output-only symbols are skipped for the optimized formats, and all with identity for hfst-optimized-lookup|hfst-optimized-lookup -e and unweighted -f are not checked|which results a limit keeps among equally good ones is free", "exhaustive within the stated sets of transducers, options and lines")
prop("C26", "Pair test tells exactly which rules reject which correspondences",
 "For every grammar of rule transducers and every file of pair strings, hfst-pair-test accepts a line exactly if every rule accepts the pair string between word boundaries; in positive mode it reports exactly the rejected lines, for each of them every rule that rejects it and the longest prefix that the rule can continue for that input, in negative mode exactly the accepted lines; in Xerox mode the cases are taken from the comments of a twolc file, paired symbol by symbol; comments and empty lines are skipped; and the exit status is 0 exactly if no line fails.",
 ["inputs", "configurations"], "all grammars, files and modes", "tests check one grammar with a few lines", [TS + "hfst-pair-test.cc", L + "HfstStrings2FstTokenizer.cc"],
 [("the tool's main function, linked into the checker and run in a child process for every case", TS + "hfst-pair-test.cc")],
 "every deterministic rule with two states and up to two arcs (a fixed part of those with three) over seven kinds of pairs incl. identity, epsilon and a multicharacter symbol, with two ways of reading word boundaries, in three types; pairs of such rules; every mode; one file with all pair strings of length up to two, and files with the first and last accepted and rejected lines; the oracle runs the rules directly; non-trivial: some line is accepted by all rules",
 "rules are deterministic, without useless states, and have the same symbols if they use identity (as rules of one compiled grammar have)", "exhaustive within the stated rules and lines")
prop("C27", "Text processing finds the longest words and keeps all other text",
 "For every lexicon and every text, hfst-proc splits the text, left to right, into the longest words of the lexicon that end at a word boundary, unknown words and other text; it prints for each known word exactly the analyses of the lexicon, each once with its best weight, best first, within the limits of -N, --weight-classes and the compound filter, with case handled as asked and flag diacritics obeyed; an unknown word is reported as such in the way of the output format; and all other text, escaped characters and superblanks come out unchanged, also at the end of a text without a newline. In generation every analysis gives exactly the forms of the lexicon, or an error mark of the mode asked for, compounds joined by + are split there, and the invariant part and the text between are kept.",
 ["inputs", "configurations"], "all lexicons, texts and options", "tests process a few texts with two or three lexicons", [TS + "hfst-proc/" + x for x in "hfst-proc.cc applicators.cc formatter.cc tokenizer.cc lookup-path.cc lookup-state.cc transducer.cc alphabet.cc".split()],
 [("the tool's main function, linked into the checker and run in a child process for every case", TS + "hfst-proc/hfst-proc.cc")],
 "every lexicon of a bounded set (all sets of up to a few entries of a universe with spaces, multicharacter symbols, tags, compounds, case and weights; graphs of two states; flag sequences), built with the library as an optimized-lookup file, times every mode and option set, run on one text with every string of up to three or four characters of an alphabet, and on texts without a newline at their end; the oracle segments the text by the definition and enumerates the lexicon; non-trivial: some word of the text is in the lexicon",
 "matches that end in a non-letter followed by a letter may be given up|how far an unknown word that begins like a multiword goes is free|order among equal weights is free|-t is not checked", "exhaustive within the stated lexicons, options and texts")
prop("C28", "Tokenizing finds the longest tokens and prints exactly their analyses",
 "For every dictionary and every text, hfst-tokenize splits the text of each paragraph (or line), left to right, into the longest tokens that stand between word boundaries and are words of the dictionary or runs of other characters than boundaries; in every output format it prints each token once, in order, with exactly the analyses that the dictionary has, with their weights and best first, within the beam and the number of weight classes asked for and without duplicates if asked; a token without analyses is printed as itself; and text between tokens is printed if asked for, and only then.",
 ["inputs", "configurations"], "all dictionaries, texts and options", "tests tokenize a few texts", [TS + "hfst-tokenize.cc", L + "implementations/optimized-lookup/pmatch_tokenize.cc", L + "implementations/optimized-lookup/pmatch.cc"],
 [("the tool's main function, linked into the checker and run in a child process for every case", TS + "hfst-tokenize.cc")],
 "every dictionary of a bounded set (all sets of up to two entries of a universe with spaces, punctuation, tags, weights and ambiguity, and part of those of three) in several types, times every output format and option set, run on every text of up to three or four characters over letters, unknown letters, spaces, punctuation and newlines; the oracle segments the text by the definition and enumerates the dictionary; non-trivial: some token is in the dictionary",
 "order among equal weights is free|without -u an analysis may be printed once for every path|VISL and FinnPos formats, subreadings and pmatch rule sets are not checked here (the pmatch run time is C17)", "exhaustive within the stated dictionaries, options and texts")
NA = {}

