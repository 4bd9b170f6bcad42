From 1c1677777b6ae0580c1f11afe75c029aa75c5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 01/96] fix: set symbol table before concatenation/union in log
 repeat_n, repeat_le_n and optionalize

OpenFst refuses to concatenate or unite transducers whose symbol tables
differ, so these operations terminated the program for any log weight
transducer with a non-trivial alphabet. Set the symbol table first, as
TropicalWeightTransducer does.
---
 libhfst/src/implementations/LogWeightTransducer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..dacfdcf 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1503,11 +1503,11 @@ LogWeightTransducer::repeat_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         Concat(repetition, *t);
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1520,13 +1520,13 @@ LogWeightTransducer::repeat_le_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         LogFst *optional_t = optionalize(t);
         Concat(repetition, *optional_t);
         delete optional_t;
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1534,8 +1534,8 @@ LogFst *
 LogWeightTransducer::optionalize(LogFst *t)
 {
     LogFst *eps = create_epsilon_transducer();
-    Union(eps, *t);
     eps->SetInputSymbols(t->InputSymbols());
+    Union(eps, *t);
     return eps;
 }
 
-- 
2.43.0


From 5e64d204114b9dad42b29aad1a50add809293caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 02/96] fix: substitute unknown with identity when projecting
 log weight transducers

As the tropical, SFST and foma back-ends do: the projection of ?:x is the
identity on ?, not the cross product ?:?.
---
 libhfst/src/implementations/LogWeightTransducer.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index dacfdcf..194019f 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1561,7 +1561,10 @@ LogWeightTransducer::reverse(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_input_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    // substitute unknown with identity
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
@@ -1569,7 +1572,10 @@ LogWeightTransducer::extract_input_language(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_output_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    // substitute unknown with identity
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
-- 
2.43.0


From 9b6efcc4d3b258d851ad30fe262d91d47c66ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 03/96] fix: conversion from HfstBasicTransducer to log weight
 transducer

The source state was never advanced, so every transition started from the
initial state, and symbol numbers were assigned per transducer, so that
operands of binary operations had incompatible symbol tables.
---
 .../ConvertLogWeightTransducer.cc             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..d30aacc 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -249,6 +249,14 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
     st.AddSymbol(internal_unknown, 1);
     st.AddSymbol(internal_identity, 2);
 
+    // Copy the alphabet, using the common symbol numbers
+    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
+         = net->alphabet.begin();
+         it != net->alphabet.end(); it++)
+    {
+        st.AddSymbol(*it, net->get_symbol_number(*it));
+    }
+
     // Go through all states
     unsigned int source_state = 0;
     for (HfstBasicTransducer::const_iterator it = net->begin();
@@ -261,12 +269,13 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
             // Copy the transition
             t->AddArc(
                 hfst_state_to_state_id(source_state, state_map, t),
-                fst::LogArc(st.AddSymbol(tr_it->get_input_symbol()),
-                            st.AddSymbol(tr_it->get_output_symbol()),
+                fst::LogArc(tr_it->get_input_number(),
+                            tr_it->get_output_number(),
                             tr_it->get_weight(),
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
@@ -278,14 +287,6 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                     it->second);
     }
 
-    // Add also symbols that do not occur in transitions
-    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
-         = net->alphabet.begin();
-         it != net->alphabet.end(); it++)
-    {
-        st.AddSymbol(*it);
-    }
-
     t->SetInputSymbols(&st);
     return t;
 }
-- 
2.43.0


From 555d45d134068b160cbcc41025d6c5d72eb9c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 04/96] fix: keep operand alphabets in shuffle

Symbols that no longer occur in transitions of the result were dropped
from its alphabet, so identity and unknown transitions started to match
them.
---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..05cb8e2 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4732,6 +4732,8 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // Find out the original alphabets of both transducers
     StringSet this_alphabet = this_basic.get_alphabet();
     StringSet another_alphabet = another_basic.get_alphabet();
+    const StringSet original_this_alphabet = this_alphabet;
+    const StringSet original_another_alphabet = another_alphabet;
 
     // Encode first transducer, i.e. prefix each symbol with "@1"
     shuffle_coding_case = ENCODE_FIRST_SHUFFLE_ARGUMENT;
@@ -4793,6 +4795,9 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // also remember to remove the prefixed symbols from the alphabet
     this1_basic.remove_symbols_from_alphabet(this_alphabet);
     this1_basic.remove_symbols_from_alphabet(another_alphabet);
+    // and to restore the original symbols that do not occur in transitions
+    this1_basic.add_symbols_to_alphabet(original_this_alphabet);
+    this1_basic.add_symbols_to_alphabet(original_another_alphabet);
 
     // Convert once again to HfstTransducer
     HfstTransducer this_finally(this1_basic, this->get_type());
-- 
2.43.0


From 409846d72e9a834f4d2d36da453d4e5eff7dc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 05/96] fix: prune() makes the transducer coaccessible instead
 of keeping only best paths

fst::Prune with weight threshold One removes every path that is worse
than the best one; the documented effect is to remove useless states.
---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..aa6a3e9 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2042,8 +2042,8 @@ TropicalWeightTransducer::remove_epsilons(StdVectorFst *t)
 StdVectorFst *
 TropicalWeightTransducer::prune(StdVectorFst *t)
 {
-    StdVectorFst *retval = new StdVectorFst();
-    fst::Prune(*t, retval, TropicalWeight::One());
+    StdVectorFst *retval = new StdVectorFst(*t);
+    fst::Connect(retval);
     return retval;
 }
 
-- 
2.43.0


From d438f9f438904ea6ce1a5b2261e5b521276b25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 06/96] fix: n_best of an acyclic transducer with negative
 weights, and n_best(0)

Adding a constant to every transition favours short paths, so the paths
found were not the best ones. It is only needed if there are cycles.
The result for n = 0 had no symbol table.
---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index aa6a3e9..59674dd 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2056,7 +2056,10 @@ TropicalWeightTransducer::n_best(StdVectorFst *t, unsigned int n)
     StdVectorFst *scaled = t->Copy();
     RmEpsilon(scaled);
     float w = get_smallest_weight(scaled);
-    if (w < 0)
+    // Scaling changes the order of paths that have a different number of
+    // transitions, so it is only done if it is needed for termination.
+    bool scale = (w < 0) && is_cyclic(scaled);
+    if (scale)
     {
         add_to_weights(scaled, -w);
     }
@@ -2074,10 +2077,12 @@ TropicalWeightTransducer::n_best(StdVectorFst *t, unsigned int n)
             "TropicalWeightTransducer::nbest runs out of memory");
     }
     RmEpsilon(n_best_fst);
-    if (w < 0)
+    if (scale)
     {
         add_to_weights(n_best_fst, w);
     }
+    // ShortestPath does not copy the symbol table if n is zero
+    n_best_fst->SetInputSymbols(t->InputSymbols());
     delete scaled;
     return n_best_fst;
 }
-- 
2.43.0


From d7be4edac6e305508f754cdfced9b56d27e6d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 07/96] fix: do not read past the optimized-lookup index table
 when listing a state's transitions

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..198c8e5 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -919,7 +919,9 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     }
                     ++transition_i;
                 }
-            } else { // not a flag
+            } else if (symbol < header->input_symbol_count()) { // not a flag
+                // (other symbols are never indexed as input symbols, and
+                // the index table is only padded for the input symbols)
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From 7786cb935740d090083742e00c6473d2c238f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 08/96] fix: text readers accept lines and symbols of any
 length, streams, and escaped prolog symbols

---
 .../implementations/HfstBasicTransducer.cc    | 118 +++++++++---------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..caf7a57 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1097,7 +1097,8 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
+    std::vector<char> namebuf(line.size() + 1);
+    char *namearr = namebuf.data();
     int n = sscanf(line.c_str(), "network(%s", namearr);
     if (n != 1)
         return false;
@@ -1118,17 +1119,13 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
                                                      char c, char esc)
 {
     std::vector<unsigned int> retval;
+    bool escaped = false; // whether the current char is escaped
     for (unsigned int i = 0; i < (unsigned int)str.length(); i++)
     {
-        if (str[i] == c)
-        {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
-                retval.push_back(i);
-        }
+        if (str[i] == c && !escaped)
+            retval.push_back(i);
+        // an escape char that is itself escaped does not escape
+        escaped = (str[i] == esc && !escaped);
     }
     return retval;
 }
@@ -1243,12 +1240,14 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
     // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
-
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
+    std::vector<char> namebuf(line.size() + 1), sourcebuf(line.size() + 1),
+        targetbuf(line.size() + 1), symbolbuf(line.size() + 1);
+    char *namestr = namebuf.data();
+    char *sourcestr = sourcebuf.data();
+    char *targetstr = targetbuf.data();
+    char *symbolstr = symbolbuf.data();
+
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\n]", namestr,
                    sourcestr, targetstr, symbolstr);
 
     std::string symbol(symbolstr);
@@ -1294,9 +1293,11 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
+    std::vector<char> namebuf(line.size() + 1), finalbuf(line.size() + 1),
+        weightbuf(line.size() + 1);
+    char *namestr = namebuf.data();
+    char *finalstr = finalbuf.data();
+    char *weightstr = weightbuf.data();
     float weight = 0;
 
     unsigned int number_of_commas = 0;
@@ -1348,9 +1349,10 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
+    std::vector<char> namebuf(line.size() + 1), symbolbuf(line.size() + 1);
+    char *namearr = namebuf.data();
+    char *symbolarr = symbolbuf.data();
+    int n = sscanf(line.c_str(), "symbol(%[^,], %[^\n]", namearr, symbolarr);
 
     if (n != 2)
         return false;
@@ -1385,6 +1387,27 @@ HfstBasicTransducer::strip_newlines(std::string &str)
     return str;
 }
 
+// Read one line, however long, from \a is (if \a file == NULL)
+// or from \a file to \a line. Return whether anything could be read.
+static bool
+read_text_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return static_cast<bool>(std::getline(is, line));
+    }
+    /* we use FILEs */
+    char buffer[255];
+    while (NULL != fgets(buffer, 255, file))
+    {
+        line.append(buffer);
+        if (line[line.size() - 1] == '\n')
+            break;
+    }
+    return !line.empty();
+}
+
 // Try to get a line from \a is (if \a file == NULL)
 // or from \a file. If successfull, strip the line from newlines,
 // increment \a linecount by one and return the line.
@@ -1393,21 +1416,11 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
-
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
-    }
+    std::string linestr;
+    if (!read_text_line(is, file, linestr))
+        HFST_THROW(EndOfStreamException);
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1722,12 +1735,13 @@ HfstBasicTransducer::add_att_line(char *line,
                                   const std::string &epsilon_symbol,
                                   bool warn_negs)
 {
-    // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    // scan one line that can have a maximum of five fields,
+    // each of them at most as long as the line
+    const size_t max_size = strlen(line) + 1;
+    std::vector<char> f1(max_size), f2(max_size), f3(max_size), f4(max_size),
+        f5(max_size);
+    char *a1 = f1.data(), *a2 = f2.data(), *a3 = f3.data(), *a4 = f4.data(),
+         *a5 = f5.data();
     // how many fields could be parsed
     int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
 
@@ -1816,24 +1830,12 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
-    while (true)
+    std::string linestr;
+    while (read_text_line(is, file, linestr))
     {
-
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
-        }
+        std::vector<char> linebuf(linestr.begin(), linestr.end());
+        linebuf.push_back('\0');
+        char *line = linebuf.data();
 
         linecount++;
 
-- 
2.43.0


From 9e77a09c50000573d36727f5f419dcffa6a449dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 09/96] fix: infinite ambiguity check of optimized lookup
 follows identity and unknown arcs

---
 .../optimized-lookup/find_epsilon_loops.cc    | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index e759db9..7bd5ad1 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -155,7 +155,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_transitions(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_transitions(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_identity_symbol(),
+                                      input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_unknown_symbol(),
+                                      input_pos, i+1);
+            }
+        }
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER &&
             !found_transition) {
             find_loop_transitions(alphabet->get_default_symbol(),
@@ -174,7 +186,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_index(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_index(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_identity_symbol(),
+                                input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_unknown_symbol(),
+                                input_pos, i+1);
+            }
+        }
         // If we have a default symbol defined and we didn't find an index,
         // check for that
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER && !found_transition) {
-- 
2.43.0


From 5af677e661123656637024ecc807294900e753a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:50 +0000
Subject: [PATCH 10/96] fix: optimized lookup leaves the alphabet as it was and
 stays inside its input

---
 .../optimized-lookup/transducer.cc            | 19 ++++++++++++++++++-
 .../optimized-lookup/transducer.h             |  3 +++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 198c8e5..bf17772 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -310,6 +310,17 @@ SymbolNumber Encoder::find_key(char ** p)
     return s;
 }
 
+// The symbols of an input that the alphabet does not have are added to it
+// for the time of one lookup only.
+struct InputSymbols
+{
+    TransducerAlphabet & alphabet;
+    const size_t size;
+    InputSymbols(TransducerAlphabet & a):
+        alphabet(a), size(a.get_symbol_table().size()) {}
+    ~InputSymbols() { alphabet.drop_added_symbols(size); }
+};
+
 bool Transducer::initialize_input(const char * input)
 {
     char * input_str = const_cast<char *>(input);
@@ -326,13 +337,16 @@ bool Transducer::initialize_input(const char * input)
             if (bytes_to_tokenize == 0) {
                 return false; // tokenization failed
             }
+            if (strnlen(*input_str_ptr, bytes_to_tokenize) <
+                (size_t)bytes_to_tokenize) {
+                return false; // the input ends in the middle of a symbol
+            }
             char * new_symbol = new char[bytes_to_tokenize + 1];
             memcpy(new_symbol, *input_str_ptr, bytes_to_tokenize);
             new_symbol[bytes_to_tokenize] = '\0';
             (*input_str_ptr) += bytes_to_tokenize;
             alphabet->add_symbol(new_symbol);
             k = hfst::size_t_to_uint(alphabet->get_symbol_table().size() - 1);
-            encoder->read_input_symbol(new_symbol, k);
             delete [] new_symbol;
         }
         input_tape.write(i, k);
@@ -381,6 +395,7 @@ HfstTwoLevelPaths * Transducer::lookup_fd_pairs(const std::string & s, ssize_t l
 
 bool Transducer::is_lookup_infinitely_ambiguous(const std::string & s)
 {
+    InputSymbols input_symbols(*alphabet);
     if (!initialize_input(s.c_str())) {
         return false;
     }
@@ -415,6 +430,7 @@ HfstOneLevelPaths * Transducer::lookup_fd(const char * s, ssize_t limit,
         start_clock = clock();
     }
     HfstOneLevelPaths * results = new HfstOneLevelPaths;
+    InputSymbols input_symbols(*alphabet);
     if (!initialize_input(s)) {
         return results;
     }
@@ -449,6 +465,7 @@ HfstTwoLevelPaths * Transducer::lookup_fd_pairs(const char * s, ssize_t limit,
     }
     HfstTwoLevelPaths * results = new HfstTwoLevelPaths;
     lookup_paths = results;
+    InputSymbols input_symbols(*alphabet);
     if (!initialize_input(s)) {
         lookup_paths = NULL;
         return results;
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 0df910f..b1f7ab6 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -454,6 +454,9 @@ public:
         { return orig_symbol_count; }
     virtual void add_symbol(char * symbol);
     virtual void add_symbol(const std::string & symbol);
+    //! Drop the symbols that were added after the table had \a size symbols.
+    void drop_added_symbols(size_t size)
+        { if (size < symbol_table.size()) { symbol_table.resize(size); } }
 
     
 };
-- 
2.43.0


From 3f219c6b46f1a3502901f0019b06d99a58ed2360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:17 +0000
Subject: [PATCH 11/96] fix: extract_paths of log and optimized-lookup
 transducers finds the empty path, max_num is a limit, optimized-lookup
 cyclicity is computed

---
 libhfst/src/HfstTransducer.cc                 | 12 +++--
 .../src/implementations/HfstOlTransducer.cc   | 53 ++++++++++++++++++-
 .../implementations/LogWeightTransducer.cc    |  9 ++++
 3 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 05cb8e2..59973b8 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -857,13 +857,17 @@ HfstTransducer::is_infinitely_ambiguous() const
     {
     case (HFST_OL_TYPE):
     case (HFST_OLW_TYPE):
-        return this->implementation.hfst_ol->is_infinitely_ambiguous();
+        // the property is not necessarily recorded in the header
+        if (this->implementation.hfst_ol->is_infinitely_ambiguous())
+            return true;
+        break;
     case (ERROR_TYPE):
         HFST_THROW(TransducerHasWrongTypeException);
     default:
-        hfst::implementations::HfstBasicTransducer net(*this);
-        return net.is_infinitely_ambiguous();
+        break;
     }
+    hfst::implementations::HfstBasicTransducer net(*this);
+    return net.is_infinitely_ambiguous();
 }
 
 // -----------------------------------------------------------------------
@@ -2707,7 +2711,7 @@ class ExtractStringsCb_ : public ExtractStringsCb
     RetVal
     operator()(HfstTwoLevelPath &path, bool final)
     {
-        if (final)
+        if (final && (max_num < 1 || (int)paths.size() < max_num))
             paths.insert(path);
 
         return RetVal((max_num < 1) || (int)paths.size() < max_num, true);
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index c87475f..ea34df1 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -212,7 +212,46 @@ void HfstOlInputStream::ignore(unsigned int n)
   { return new hfst_ol::Transducer(weighted); }
   
   bool HfstOlTransducer::is_cyclic(hfst_ol::Transducer* t)
-  { return t->get_header().probe_flag(hfst_ol::Cyclic); }
+  {
+    if (t->get_header().probe_flag(hfst_ol::Cyclic))
+      { return true; }
+
+    // The header flag is only set if the creator of the transducer did so,
+    // so look for a state that is reachable from itself.
+    typedef std::pair<hfst_ol::TransitionTableIndex,
+                      std::vector<hfst_ol::TransitionTableIndex> > StackItem;
+    std::map<hfst_ol::TransitionTableIndex, bool> on_path; // of visited states
+    std::vector<StackItem> stack;
+    hfst_ol::TransitionTableIndex next = 0;
+    while (true)
+      {
+        std::map<hfst_ol::TransitionTableIndex, bool>::const_iterator it
+          = on_path.find(next);
+        if (it == on_path.end())
+          {
+            on_path[next] = true;
+            hfst_ol::TransitionTableIndexSet transitions
+              = t->get_transitions_from_state(next);
+            std::vector<hfst_ol::TransitionTableIndex> targets;
+            for (hfst_ol::TransitionTableIndexSet::const_iterator tr
+                   = transitions.begin(); tr != transitions.end(); tr++)
+              { targets.push_back(t->get_transition(*tr).get_target()); }
+            stack.push_back(StackItem(next, targets));
+          }
+        else if (it->second)
+          { return true; }
+
+        while (!stack.empty() && stack.back().second.empty())
+          {
+            on_path[stack.back().first] = false;
+            stack.pop_back();
+          }
+        if (stack.empty())
+          { return false; }
+        next = stack.back().second.back();
+        stack.back().second.pop_back();
+      }
+  }
   
   static bool extract_paths
   (hfst_ol::Transducer* t, hfst_ol::TransitionTableIndex s,
@@ -434,6 +473,18 @@ void HfstOlInputStream::ignore(unsigned int n)
     hfst::implementations::extract_paths
       (t,0,all_visitations,path_visitations,/*lbuffer,0,ubuffer,0,*/0.0f,
        callback,cycles,fd_state_stack,filter_fd, spv);
+
+    // add epsilon path, if needed
+    if (t->get_index(0).final())
+      {
+        float final_weight = t->get_header().probe_flag(hfst_ol::Weighted) ?
+          dynamic_cast<const hfst_ol::TransitionWIndex&>
+          (t->get_index(0)).final_weight() : 0.0f;
+        StringPairVector empty_spv;
+        hfst::HfstTwoLevelPath epsilon_path(final_weight, empty_spv);
+        callback(epsilon_path, true /* final */);
+      }
+    delete fd_state_stack;
   }
   
   const FdTable<hfst_ol::SymbolNumber>* HfstOlTransducer::
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 194019f..b59cf60 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -2308,6 +2308,15 @@ LogWeightTransducer::extract_paths(LogFst *t, hfst::ExtractStringsCb &callback,
         /*lbuffer,0,ubuffer,0,*/ 0.0f, callback, cycles, fd_state_stack,
         filter_fd,
         /*include_spv,*/ spv);
+
+    // add epsilon path, if needed
+    if (t->Final(t->Start()) != LogWeight::Zero())
+    {
+        StringPairVector empty_spv;
+        HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
+        callback(epsilon_path, true /* final*/);
+    }
+    delete fd_state_stack;
 }
 
 void
-- 
2.43.0


From 22d3a2326d5c72b24cdd6cc8323d38c9594b28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:29 +0000
Subject: [PATCH 12/96] fix: flag elimination handles unset require flags,
 untested flags and unification after a negative setting

---
 libhfst/src/HfstTransducer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 59973b8..f79b37d 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1862,6 +1862,8 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_CLEAR))
         return FLAG_SUCCEED;
+    if ((ftype == FLAG_UNIFY) && (fftype == FLAG_NEGATIVE) && (eq != 0))
+        return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_UNIFY) && (eq != 0))
         return FLAG_FAIL;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_POSITIVE) && (eq != 0))
@@ -1993,8 +1995,12 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
         if ((flag.empty() || FdOperation::get_feature(f) == flag)
             && (op == 'U' || op == 'R' || op == 'D')) // Equal flag?
         {
+            // A require flag fails unless some other flag sets the feature.
+            flag_found = (op == 'R');
             for (const auto &flag : flags)
             {
+                // The filter must let through the flags it does not test.
+                fail_flags.insert_to_alphabet("_" + flag);
                 int fstatus = is_valid_flag_combination(f, flag);
 
                 if (fstatus == 1)
-- 
2.43.0


From b774c9900e41703ffbadc86f0dcd4cf0f2a620c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:29 +0000
Subject: [PATCH 13/96] fix: optimized lookup does not read past the index
 table for symbols on no transition

---
 .../implementations/optimized-lookup/find_epsilon_loops.cc    | 4 +++-
 libhfst/src/implementations/optimized-lookup/transducer.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index 7bd5ad1..f115b92 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -123,7 +123,9 @@ void Transducer::find_loop_index(SymbolNumber input,
                                       unsigned int input_pos,
                                       TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // a symbol that is on no transition may be beyond the end of the table
+    if (i+input < header->index_table_size() &&
+        tables->get_index_input(i+input) == input)
     {
         find_loop_transitions(input,
                               input_pos,
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index bf17772..4f34f5b 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -580,7 +580,9 @@ void Transducer::find_index(SymbolNumber input,
                             unsigned int output_pos,
                             TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // a symbol that is on no transition may be beyond the end of the table
+    if (i+input < header->index_table_size() &&
+        tables->get_index_input(i+input) == input)
     {
         find_transitions(input,
                          input_pos,
-- 
2.43.0


From c002a5fa3f6d7e0a21ede2f5f0d658247ab95be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 14/96] fix: tokenizer symbol trie has room for byte 255

---
 libhfst/src/HfstTokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..43d6eea 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -62,8 +62,8 @@ MultiCharSymbolTrie::get_symbol_rest_trie(const char *p) const
 }
 
 MultiCharSymbolTrie::MultiCharSymbolTrie(void)
-    : symbol_rests(UCHAR_MAX, (MultiCharSymbolTrie *)NULL),
-      is_leaf(UCHAR_MAX, false)
+    : symbol_rests(UCHAR_MAX + 1, (MultiCharSymbolTrie *)NULL),
+      is_leaf(UCHAR_MAX + 1, false)
 {
 }
 
-- 
2.43.0


From 7f7796b94c37bb32a5bbc817fad5e5ec7c414db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 15/96] fix: SFST epsilon removal: clear stale forward pointers

---
 back-ends/sfst/fst.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/back-ends/sfst/fst.cc b/back-ends/sfst/fst.cc
index fb8bce6..2605b10 100644
--- a/back-ends/sfst/fst.cc
+++ b/back-ends/sfst/fst.cc
@@ -1172,7 +1172,16 @@ namespace SFST {
     if ( deterministic || minimised )
       return this->copy();
 
-    nodeindexing();
+    // index the nodes and clear the forward pointers left behind by
+    // previous operations as they are used for detecting epsilon loops
+    vector<Node*> nodes;
+    node_count = transition_count = 0;
+    incr_vmark();
+    index_nodes( root_node(), &nodes );
+    indexed = true;
+    for( size_t i=0; i<nodes.size(); i++ )
+      nodes[i]->set_forward(NULL);
+
     incr_vmark();
     Transducer *copy_tr = new Transducer();
     copy_tr->alphabet.copy(alphabet);
-- 
2.43.0


From 9ef43fe9936f64329b55ad5b0a3e9c46c496dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 16/96] fix: priority union: ignore weights when computing the
 domain of the first operand

---
 libhfst/src/HfstTransducer.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index f79b37d..d1d8633 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4820,6 +4820,12 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
 
 // Q .P. R = Q | [~[Q .u] .o. R ]
 // .u is input project
+static float
+zero_weight(float)
+{
+    return 0;
+}
+
 HfstTransducer &
 HfstTransducer::priority_union(const HfstTransducer &another)
 {
@@ -4836,7 +4842,8 @@ HfstTransducer::priority_union(const HfstTransducer &another)
     HfstTransducer t2(another);
 
     HfstTransducer t1upper(t1);
-    t1upper.input_project().optimize();
+    // weights do not matter here, and could prevent determinization
+    t1upper.input_project().transform_weights(&zero_weight).optimize();
 
     HfstTransducer complement(t1upper);
     complement.negate().prune_alphabet(false);
-- 
2.43.0


From fd2a25bc8f082e0e97b23234e9c166682d1e90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:07 +0000
Subject: [PATCH 17/96] fix: forget the name and properties of the previous
 transducer when reading a header

---
 libhfst/src/HfstInputStream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..b334596 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -666,6 +666,10 @@ namespace hfst
                          "Hfst header has too few attributes");
     }
 
+    // forget the name and properties of the previous transducer
+    name.clear();
+    props.clear();
+
     // (1) first pair "version", "3.0"
     if ( ! ( ( strcmp("version", header_data[0].first.c_str()) == 0 ) &&
                ( ( strcmp("3.0", header_data[0].second.c_str()) == 0 ) ||
-- 
2.43.0


From 30bbba38ba1e85e3cc32f34c40539892f93cba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:09 +0000
Subject: [PATCH 18/96] fix: regular expressions ?:0 and 0:? do not contain the
 empty string pair

---
 libhfst/src/parsers/xre_utils.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..79e576a 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -936,16 +936,25 @@ xfst_label_to_transducer(const char *input, const char *output)
     {
         retval = new HfstTransducer(hfst::internal_unknown, output,
                                     hfst::xre::format);
-        HfstTransducer output_tr(output, output, hfst::xre::format);
-        retval->disjunct(output_tr)
-            .minimize(); // it should be safe to minimize
+        // unknown:output does not cover output:output; epsilon is not a symbol
+        // that the unknown symbol could stand for
+        if (strcmp(output, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer output_tr(output, output, hfst::xre::format);
+            retval->disjunct(output_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else if (output_is_unknown)
     {
         retval = new HfstTransducer(input, hfst::internal_unknown,
                                     hfst::xre::format);
-        HfstTransducer input_tr(input, input, hfst::xre::format);
-        retval->disjunct(input_tr).minimize(); // it should be safe to minimize
+        if (strcmp(input, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer input_tr(input, input, hfst::xre::format);
+            retval->disjunct(input_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else
     {
-- 
2.43.0


From 30c34985a4eede29f285728f4b71b98393be9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 19/96] fix: regular expressions: unknown:unknown is a
 non-identity pair

---
 libhfst/src/parsers/xre_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index 79e576a..df77dbd 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -1271,7 +1271,7 @@ has_non_identity_pairs(const HfstTransducer *t)
     StringPairSet sps = basic.get_transition_pairs();
     for (StringPairSet::const_iterator it = sps.begin(); it != sps.end(); it++)
     {
-        if (it->first != it->second)
+        if (it->first != it->second || it->first == hfst::internal_unknown)
         {
             return true;
         }
-- 
2.43.0


From 25fd53ddd56891fd7880438c20d8e4b6c2975d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 20/96] fix: SFST is_automaton: unknown:unknown is not an
 identity transition

---
 libhfst/src/implementations/SfstTransducer.cc | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index fc1c0e3..f33fb94 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -1056,7 +1056,25 @@ namespace hfst { namespace implementations {
 
   bool SfstTransducer::is_automaton(Transducer * t)
   {
-    return t->is_automaton();
+    if (! t->is_automaton())
+      return false;
+    // A transition unknown:unknown relates different symbols to each other.
+    int unknown = t->alphabet.symbol2code(internal_unknown.c_str());
+    std::set<Node*> seen;
+    std::vector<Node*> agenda(1, t->root_node());
+    seen.insert(t->root_node());
+    while (! agenda.empty()) {
+      Node *node = agenda.back();
+      agenda.pop_back();
+      for (ArcsIter p(node->arcs()); p; p++) {
+        Arc *arc = p;
+        if ((int)arc->label().lower_char() == unknown)
+          return false;
+        if (seen.insert(arc->target_node()).second)
+          agenda.push_back(arc->target_node());
+      }
+    }
+    return true;
   }
 
 
-- 
2.43.0


From 4606d048d411d180c0734fc51a26a1e6df202f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 21/96] fix: regular expressions: pairs of strings or bracketed
 expressions with any symbol or a definition, and their order

---
 libhfst/src/parsers/xre_parse.yy | 12 ++++++------
 libhfst/src/parsers/xre_utils.cc | 12 ++++++++++++
 libhfst/src/parsers/xre_utils.h  |  2 ++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 6a5d1c3..3db4501 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1002,19 +1002,19 @@ REGEXP11: REGEXP12 { $$ = $1; }
             HfstTransducer * tmp =
                 hfst::xre::xfst_curly_label_to_transducer($1,$1);
             free($1);
-            $$ = & $4->cross_product(*tmp);
-            delete tmp;
+            $$ = & tmp->cross_product(*$4);
+            delete $4;
         }
         // [foo]:bar
         | LEFT_BRACKET REGEXP2 RIGHT_BRACKET PAIR_SEPARATOR HALFARC {
-            HfstTransducer * tmp = hfst::xre::expand_definition($5);
+            HfstTransducer * tmp = hfst::xre::xfst_halfarc_to_acceptor($5);
             free($5);
             $$ = & $2->cross_product(*tmp);
             delete tmp;
         }
         // foo:[bar]
         | HALFARC PAIR_SEPARATOR LEFT_BRACKET REGEXP2 RIGHT_BRACKET {
-            $$ = hfst::xre::expand_definition($1);
+            $$ = hfst::xre::xfst_halfarc_to_acceptor($1);
             free($1);
             $$ = & $$->cross_product(*$4);
             delete $4;
@@ -1222,7 +1222,7 @@ LABEL: HALFARC {
         free($3);
      }
      | HALFARC PAIR_SEPARATOR CURLY_BRACKETS {
-        $$ = hfst::xre::xfst_label_to_transducer($1,$1);
+        $$ = hfst::xre::xfst_halfarc_to_acceptor($1);
         free($1);
         HfstTransducer * tmp = hfst::xre::xfst_curly_label_to_transducer($3,$3);
         free($3);
@@ -1230,7 +1230,7 @@ LABEL: HALFARC {
         delete tmp;
      }
      | CURLY_BRACKETS PAIR_SEPARATOR HALFARC {
-        HfstTransducer * tmp = hfst::xre::xfst_label_to_transducer($3,$3);
+        HfstTransducer * tmp = hfst::xre::xfst_halfarc_to_acceptor($3);
         free($3);
         $$ = hfst::xre::xfst_curly_label_to_transducer($1,$1);
         free($1);
diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index df77dbd..851bb07 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -824,6 +824,18 @@ if (strcmp(hfst::internal_epsilon.c_str(), symbol) == 0)
 return symbol;
 }*/
 
+// one side of a pair whose other side is a string or a bracketed expression:
+// any symbol, a definition or a symbol
+HfstTransducer *
+xfst_halfarc_to_acceptor(const char *symbol)
+{
+    if (strcmp(symbol, hfst::internal_unknown.c_str()) == 0)
+    {
+        return new HfstTransducer(hfst::internal_identity, hfst::xre::format);
+    }
+    return expand_definition(symbol);
+}
+
 HfstTransducer *
 xfst_curly_label_to_transducer(const char *input, const char *output)
 {
diff --git a/libhfst/src/parsers/xre_utils.h b/libhfst/src/parsers/xre_utils.h
index aa45a50..3707652 100644
--- a/libhfst/src/parsers/xre_utils.h
+++ b/libhfst/src/parsers/xre_utils.h
@@ -126,6 +126,8 @@ bool is_valid_function_call(const char * name, const std::vector<HfstTransducer>
 /** @brief Parse "input:output", ":output", "input:" or ":". */
  HfstTransducer* xfst_label_to_transducer(const char* input, const char* output);
 
+ HfstTransducer* xfst_halfarc_to_acceptor(const char* symbol);
+
  HfstTransducer* xfst_curly_label_to_transducer(const char* input, const char* output);
 
  HfstTransducer * contains(const HfstTransducer * t);
-- 
2.43.0


From 0588ad58dc83369f1cd51e8f69168b5b4bc3ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:03 +0000
Subject: [PATCH 22/96] fix: foma projections keep an alphabet list

---
 libhfst/src/implementations/FomaTransducer.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 2afc03d..bac5f94 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -415,16 +415,29 @@ namespace hfst { namespace implementations {
     return fsm_reverse(fsm_copy(t));
   }
 
+  /* Projecting a transducer that accepts only the empty string leaves it
+     without any alphabet list, which other functions of foma do not expect. */
+  static fsm * ensure_sigma(fsm * t)
+  {
+    if (t->sigma == NULL)
+      {
+        fsm * tmp = fsm_symbol((char*)"@_EPSILON_SYMBOL_@");
+        t->sigma = sigma_copy(tmp->sigma);
+        fsm_destroy(tmp);
+      }
+    return t;
+  }
+
   fsm * FomaTransducer::extract_input_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_upper(fsm_copy(t));
+    return ensure_sigma(fsm_upper(fsm_copy(t)));
   }
 
   fsm * FomaTransducer::extract_output_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_lower(fsm_copy(t));
+    return ensure_sigma(fsm_lower(fsm_copy(t)));
   }
 
   fsm * FomaTransducer::substitute(fsm * t,String old_symbol,String new_symbol)
-- 
2.43.0


From 53f8e41e75874a751a6f1937686e840bf3cb31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 23/96] fix: replace rules: boundaries surround the whole input
 also when symbols are deleted

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 3e26d33..a2152f7 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2257,6 +2257,10 @@ namespace hfst
             //printf("----first: ----\n");
             //tr.write_in_att_format(stdout, 1);
 
+            // the boundaries must surround the whole input: if only the output was
+            // checked, symbols that are deleted could be outside the boundaries
+            retval.compose(boundaryAnythingBoundary).optimize();
+
             retval.compose(tr).optimize();
 
 
-- 
2.43.0


From ee7b3867a7151ebbf16e540790bc26bd06484042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 24/96] fix: replace rules: right-to-left longest match with
 contexts

---
 libhfst/src/HfstXeroxRules.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index a2152f7..c80d96c 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1661,8 +1661,8 @@ namespace hfst
 
 
           //[ ? | 0:< | >:0 | 0:> | B ]
-          HfstTransducer nonClosingBracketInsertion(identityPair);
-          nonClosingBracketInsertion.disjunct(epsilonToLeftBracket).
+          HfstTransducer nonClosingBracketInsertion(epsilonToLeftBracket);
+          nonClosingBracketInsertion.
                   disjunct(RightBracketToEpsilon).
                   disjunct(epsilonToRightBracket).
                   disjunct(B).
@@ -1671,9 +1671,13 @@ namespace hfst
 
           // [ B:0 | 0:B | ?-B ]* [?-B]+ [ ? | 0:< | <:0 | 0:> | B ] 0:< [?-B]+ > ?*
 
+          // (mirror image of longestMatchLeftMostConstraint)
+          HfstTransducer middlePart(identityPairMinusBracketsPlus);
+          middlePart.concatenate(nonClosingBracketInsertion).optimize();
+          middlePart.disjunct(identityPairMinusBrackets).optimize();
+
           HfstTransducer Constraint(rightPart);
-          Constraint.concatenate(identityPairMinusBracketsPlus).
-                  concatenate(nonClosingBracketInsertion).optimize().
+          Constraint.concatenate(middlePart).optimize().
                   concatenate(epsilonToLeftBracket).
                   concatenate(identityPairMinusBracketsPlus).
                   concatenate(rightBracket).
-- 
2.43.0


From f00ea98f3a47dfffac2f458aff9b68af299ba555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:23 +0000
Subject: [PATCH 25/96] fix: replace rules: obligatory markup with output-side
 contexts

---
 libhfst/src/HfstXeroxRules.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index c80d96c..12585e7 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -726,10 +726,15 @@ namespace hfst
 
             HfstTransducer mappingWithBrackets2(leftBracket2);
             HfstTransducer leftMappingUnion(type);
-            leftMappingUnion = mappingPairVector[0].first;
-            for ( unsigned int i = 1; i < mappingPairVector.size(); i++ )
+            for ( unsigned int i = 0; i < mappingPairVector.size(); i++ )
             {
-                leftMappingUnion.disjunct(mappingPairVector[i].first).optimize();
+                HfstTransducer leftMapping(mappingPairVector[i].first);
+                // the first member of a markup mapping is a transducer that inserts the marks
+                if ( leftMapping.get_property("isMarkup") == "yes" )
+                {
+                    leftMapping.input_project().optimize();
+                }
+                leftMappingUnion.disjunct(leftMapping).optimize();
             }
             // needed in case of ? -> x replacement
             leftMappingUnion.insert_to_alphabet(leftMarker2);
-- 
2.43.0


From 301355f5bb14219a6a1982de6957d666b41817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 26/96] fix: parallel replace rules: support markup

---
 libhfst/src/HfstXeroxRules.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 12585e7..8e6a37a 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -970,8 +970,17 @@ namespace hfst
               oneMappingPair.insert_to_alphabet(marker_symbols);
               HfstTransducer foo(mappingPairVector[j].second);
               foo.insert_to_alphabet(marker_symbols);
-              oneMappingPair.cross_product
-                (foo.concatenate(marker));
+              if ( mappingPairVector[j].first.get_property("isMarkup") == "yes" )
+                {
+                  // the first member already inserts the marks
+                  HfstTransducer epsilonToMarker(hfst::internal_epsilon, marker_string, type);
+                  oneMappingPair.concatenate(epsilonToMarker);
+                }
+              else
+                {
+                  oneMappingPair.cross_product
+                    (foo.concatenate(marker));
+                }
               //oneMappingPair.cross_product(mappingPairVector[j].second);
               
               //printf("oneMappingPair \n");
-- 
2.43.0


From 4c11840cf4c75ca838e8c5d81a4d4ff7bbef116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 27/96] fix: parallel replace rules: contexts were ignored when
 every rule had none or several

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 8e6a37a..45ae8a8 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1017,6 +1017,10 @@ namespace hfst
                   noContexts = false;
                 }
             }
+          else if ( contextVector.size() > 1 )
+            {
+              noContexts = false;
+            }
 
           //////////////////////////////////////////////////////////////////
           // In case of ? -> x replacement
-- 
2.43.0


From 2d7a2d46c1ea013fcd0f497bb3bb1b77612f5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 28/96] fix: flag elimination: a disallowed value after a
 negative setting of another value

---
 libhfst/src/HfstTransducer.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index d1d8633..9308b3e 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1915,8 +1915,8 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_CLEAR) && !selfnull)
         return FLAG_SUCCEED;
-    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq == 0)
-        && !selfnull)
+    // a negatively set feature does not have the disallowed value
+    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && !selfnull)
         return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_POSITIVE) && (eq == 0)
         && !selfnull)
@@ -1924,9 +1924,6 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_UNIFY) && (eq == 0)
         && !selfnull)
         return FLAG_FAIL;
-    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq != 0)
-        && !selfnull)
-        return FLAG_FAIL;
 
     return FLAG_NONE;
 }
-- 
2.43.0


From 872a7e198997fa7fec74f6effb57e50a6dec38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 29/96] fix: optimized lookup: loops of flag diacritics

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 4f34f5b..4cd8fda 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -502,7 +502,7 @@ void Transducer::try_epsilon_transitions(unsigned int input_pos,
             if (flag_state.apply_operation(
                     *(alphabet->get_operation(input)))) {
                 // flag diacritic allowed
-                TraversalState flag_reachable(target, flags);
+                TraversalState flag_reachable(target, flag_state.get_values());
                 if (traversal_states.count(flag_reachable) == 1) {
                     // We've been here before at this input, back out
                     flag_state.assign_values(flags);
-- 
2.43.0


From 23c15e640ab8750cd704f203cdfe930851d12643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 30/96] fix: optimized lookup: loops of flag diacritics are
 recognised after consuming a symbol

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 4cd8fda..190a314 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -551,8 +551,10 @@ void Transducer::find_transitions(SymbolNumber input,
         if (tables->get_transition_input(i) == input)
         {
             Weight old_weight = current_weight;
-            // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // We're not going to find an epsilon / flag loop after consuming
+            // a symbol, but we might when we come back
+            TraversalStates old_traversal_states;
+            old_traversal_states.swap(traversal_states);
             SymbolNumber output = tables->get_transition_output(i);
             if (alphabet->is_meta_arc(output)) {
                 // we got here via default, identity or unknown, so look
@@ -565,6 +567,7 @@ void Transducer::find_transitions(SymbolNumber input,
                          output_pos + 1,
                          tables->get_transition_target(i));
             current_weight = old_weight;
+            traversal_states.swap(old_traversal_states);
             found_transition = true;
         }
         else
-- 
2.43.0


From d4ce721cbd61627a9861ccbf7d8856b3ccbddcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 31/96] fix: lexc: keep the symbols that unknown and identity
 symbols do not cover

---
 libhfst/src/parsers/LexcCompiler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 64168ba..dcde0b5 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1559,7 +1559,9 @@ LexcCompiler::compileLexical()
     HfstBasicTransducer lexicons_basic(lexicons);
     lexicons_basic.substitute(regMarkToTr, true);
 
-    lexicons_basic.prune_alphabet();
+    // symbols that the unknown and identity symbols of regular expressions do
+    // not cover must stay in the alphabet
+    lexicons_basic.prune_alphabet(false);
 
     if (debug)
     {
-- 
2.43.0


From e462534c7fbe61d77c657fd7f5f7b52d870e31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 32/96] fix: lexc: regular expressions with the same
 continuation

---
 libhfst/src/parsers/LexcCompiler.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index dcde0b5..f089f79 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1088,7 +1088,9 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
 
     // encode key
     // keep regexps with different continuations separate
-    string regex_key = currentLexiconName_ + "_" + continuation;
+    // (the length tells "A_B" + "C" from "A" + "B_C")
+    string regex_key = std::to_string(currentLexiconName_.length()) + "_"
+                       + currentLexiconName_ + "_" + continuation;
 
     regExpresionEncode(regex_key);
     tokenizer_.add_multichar_symbol(regex_key);
@@ -1099,6 +1101,9 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
         regexps_.insert(pair<string, HfstTransducer *>(
             regex_key, new HfstTransducer(format_)));
     }
+    // several regular expressions can share the key, so the weight of each is
+    // kept in the expression and not in the entry of the key
+    newPaths->set_final_weights(hfst::double_to_float(weight), true);
     regexps_[regex_key]->disjunct(*newPaths).optimize();
     delete newPaths;
     if (!quiet_)
@@ -1132,7 +1137,7 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
     tokenizer_.add_multichar_symbol(joinerEnc);
     StringPairVector newVector(
         tokenizer_.tokenize(joinerEnc + regex_key + encodedCont, false));
-    stringsTrie_.disjunct(newVector, hfst::double_to_float(weight));
+    stringsTrie_.disjunct(newVector, 0);
 
     return *this;
 }
-- 
2.43.0


From 4cb3c104e0e5c2597be529b31ddfa14a024a6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 33/96] fix: HfstBasicTransducer: harmonize all graphs in a
 substitution

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index caf7a57..8eb4646 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2813,12 +2813,17 @@ HfstBasicTransducer::substitute(SubstMap &substitution_map, bool harmonize)
             this->remove_symbol_from_alphabet(sym_it);
     }
 
-    // Harmonize the resulting and the substituting graphs, if needed
+    // Harmonize the resulting and the substituting graphs, if needed.
+    // The first round collects the symbols of all graphs in this graph, the
+    // second one makes them known to every substituting graph.
     if (harmonize)
     {
-        for (const auto &sym_it : substitutions_performed_for_symbols)
+        for (int round = 0; round < 2; ++round)
         {
-            this->harmonize(substitution_map.at(sym_it));
+            for (const auto &sym_it : substitutions_performed_for_symbols)
+            {
+                this->harmonize(substitution_map.at(sym_it));
+            }
         }
     }
 
-- 
2.43.0


From c6d847881dc33cb082ed50f3bbc26d3a5e0b73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 34/96] fix: lexc: empty result with flag diacritics

---
 libhfst/src/parsers/LexcCompiler.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index f089f79..82de0c2 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1601,6 +1601,14 @@ LexcCompiler::compileLexical()
             }
         }
 
+        // no path at all: there are no flags to remove
+        if (flagD.empty())
+        {
+            if (!quiet_)
+                *err << endl;
+            return rv;
+        }
+
         // Construct a rule for consecutive flag removal:
         // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
         // and also an inverted rule
-- 
2.43.0


From c3d602e128e2780b961fab435ed47baac284ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 35/96] fix: lexc: a second grammar in one process

---
 libhfst/src/parsers/LexcCompiler.cc | 23 ++++++++++++++---------
 libhfst/src/parsers/LexcCompiler.h  |  2 ++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 82de0c2..13d9da8 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -115,7 +115,7 @@ LexcCompiler::LexcCompiler()
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     xre_.set_expand_definitions(true);
     xre_.set_error_stream(this->error_);
@@ -135,7 +135,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl)
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     tokenizer_.add_multichar_symbol("@_EPSILON_SYMBOL_@");
     tokenizer_.add_multichar_symbol("@0@");
@@ -163,7 +163,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl, bool withFlags,
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     tokenizer_.add_multichar_symbol("@_EPSILON_SYMBOL_@");
     tokenizer_.add_multichar_symbol("@0@");
@@ -197,6 +197,7 @@ LexcCompiler::reset()
     totalEntries_ = 0;
     currentEntries_ = 0;
     parseErrors_ = false;
+    firstLexicon_ = true;
     lexiconNames_.clear();
     noFlags_.clear();
     continuations_.clear();
@@ -269,6 +270,9 @@ LexcCompiler &
 LexcCompiler::parse(FILE *infile)
 {
     lexc_ = this;
+    // errors and positions are those of this input only
+    hlexcnerrs = 0;
+    hfst::lexc::token_reset_positions();
     if (infile == stdin)
     {
         hfst::lexc::set_infile_name("<stdin>");
@@ -292,6 +296,8 @@ LexcCompiler &
 LexcCompiler::parse(const char *filename)
 {
     lexc_ = this;
+    hlexcnerrs = 0;
+    hfst::lexc::token_reset_positions();
     hlexclex_destroy();
     hfst::lexc::set_infile_name(filename);
     hlexcin = hfst::hfst_fopen(filename, "r");
@@ -1161,7 +1167,6 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 LexcCompiler &
 LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 {
-    static bool firstLexicon = true;
     currentLexiconName_ = lexiconName;
 
     if (lexiconNames_.find(lexiconName) != lexiconNames_.end())
@@ -1199,11 +1204,11 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 
     std::ostream *err = get_stream(error_);
 
-    if ((firstLexicon) && (lexiconName == "Root"))
+    if ((firstLexicon_) && (lexiconName == "Root"))
     {
         setInitialLexiconName(lexiconName);
     }
-    else if ((firstLexicon) && (lexiconName != "Root"))
+    else if ((firstLexicon_) && (lexiconName != "Root"))
     {
         if (treat_warnings_as_errors_)
         {
@@ -1216,7 +1221,7 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
         }
         setInitialLexiconName(lexiconName);
     }
-    else if ((!firstLexicon) && (lexiconName == "Root"))
+    else if ((!firstLexicon_) && (lexiconName == "Root"))
     {
         if (treat_warnings_as_errors_)
         {
@@ -1231,13 +1236,13 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
         }
         setInitialLexiconName(lexiconName);
     }
-    if (!firstLexicon && !quiet_)
+    if (!firstLexicon_ && !quiet_)
     {
         *err << currentEntries_ << " ";
     }
     if (!quiet_)
         *err << lexiconName << "...";
-    firstLexicon = false;
+    firstLexicon_ = false;
 
     flush(err);
 
diff --git a/libhfst/src/parsers/LexcCompiler.h b/libhfst/src/parsers/LexcCompiler.h
index 6838fb7..2bd6489 100644
--- a/libhfst/src/parsers/LexcCompiler.h
+++ b/libhfst/src/parsers/LexcCompiler.h
@@ -168,6 +168,8 @@ class LexcCompiler
     const LexcCompiler &printConnectedness(bool &warnings_printed);
 
     bool parseErrors_;
+    // no lexicon has been started yet
+    bool firstLexicon_;
   private:
     LexcCompiler &unicodeCheck_(const string &data);
     static void warn_about_one_sided_flags(
-- 
2.43.0


From 4669203e723d5b66516ec49866c9879af23460a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 36/96] fix: remove_transitions: consecutive transitions

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 8eb4646..716d26b 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2089,6 +2089,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition is now in position i
             }
             else
             {
-- 
2.43.0


From 892148c2e594644ca07aa239f0dd57faaa564de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 37/96] fix: set_final_weights increments log weights

---
 libhfst/src/HfstTransducer.cc                      |  2 +-
 libhfst/src/implementations/LogWeightTransducer.cc | 10 ++++++++--
 libhfst/src/implementations/LogWeightTransducer.h  |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 9308b3e..b050ff4 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3992,7 +3992,7 @@ HfstTransducer::set_final_weights(float weight, bool increment)
     if (this->type == LOG_OPENFST_TYPE)
     {
         implementation.log_ofst = this->log_ofst_interface.set_final_weights(
-            this->implementation.log_ofst, weight);
+            this->implementation.log_ofst, weight, increment);
         return *this;
     }
 #endif
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index b59cf60..ed7fe86 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -363,13 +363,19 @@ LogWeightTransducer::recode_symbol_numbers(LogFst *t, NumberNumberMap &km)
 }
 
 LogFst *
-LogWeightTransducer::set_final_weights(LogFst *t, float weight)
+LogWeightTransducer::set_final_weights(LogFst *t, float weight,
+                                       bool increment)
 {
     for (fst::StateIterator<LogFst> siter(*t); !siter.Done(); siter.Next())
     {
         StateId s = siter.Value();
         if (t->Final(s) != LogWeight::Zero())
-            t->SetFinal(s, weight);
+        {
+            if (increment)
+                t->SetFinal(s, weight + t->Final(s).Value());
+            else
+                t->SetFinal(s, weight);
+        }
     }
     return t;
 }
diff --git a/libhfst/src/implementations/LogWeightTransducer.h b/libhfst/src/implementations/LogWeightTransducer.h
index 9602a49..b15638e 100644
--- a/libhfst/src/implementations/LogWeightTransducer.h
+++ b/libhfst/src/implementations/LogWeightTransducer.h
@@ -162,7 +162,7 @@ namespace implementations
       static LogFst * subtract(LogFst * t1,
                             LogFst * t2);
       static LogFst * set_weight(LogFst * t,float f);
-      static LogFst * set_final_weights(LogFst * t, float weight);
+      static LogFst * set_final_weights(LogFst * t, float weight, bool increment=false);
       static LogFst * transform_weights(LogFst * t,float (*func)(float f));
       static LogFst * push_labels(LogFst * t, bool to_initial_state);
       static LogFst * push_weights(LogFst * t, bool to_initial_state);
-- 
2.43.0


From 79379bcf09a1486908dfc276d3353daa0c66d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 38/96] fix: substitute a pair with a transducer: two
 transitions in one state

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 716d26b..dafc97f 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2555,10 +2555,12 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
         }
         // (all transitions in a state gone through)
 
-        // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        // Remove the substituted transitions, the last one first as erasing
+        // invalidates the iterators that come after the erased position
+        for (auto old_transition = old_transitions.rbegin();
+             old_transition != old_transitions.rend(); ++old_transition)
         {
-            it.erase(old_transition);
+            it.erase(*old_transition);
         }
 
         source_state++;
-- 
2.43.0


From efb97ea95ea6caad942f8d16b343677b93130d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 39/96] fix: compose_intersect with an empty rule vector

---
 libhfst/src/HfstTransducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index b050ff4..225f4b5 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4875,7 +4875,8 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     // which makes the result empty.
     if (v.empty())
     {
-        *this = HfstTransducer(type);
+        *this = HfstTransducer(convert_to_openfst ? FOMA_TYPE : type);
+        return *this;
     }
 
     const HfstTransducer &first = *v.begin();
-- 
2.43.0


From 001746c30b8bcfeeff2e9e5126f21efd9d093041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:24 +0000
Subject: [PATCH 40/96] fix: compose_intersect with one rule and invert

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 225f4b5..01feb4c 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4955,6 +4955,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
 
         res.prune_alphabet();
         *this = HfstTransducer(res, type);
+
+        if (invert)
+        {
+            this->invert();
+        }
     }
     else
     {
-- 
2.43.0


From 781ae9679fc9b51cb7b47638db76b46aceef638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:24 +0000
Subject: [PATCH 41/96] fix: compose_intersect: unknown and identity symbols of
 the lexicon

---
 libhfst/src/HfstTransducer.cc | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 01feb4c..1425d4a 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4911,6 +4911,21 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         rule_1.convert(TROPICAL_OPENFST_TYPE);
     }
 
+    // The unknown and identity symbols of the lexicon must be expanded with
+    // the symbols of every rule. (rule_1 is only used in harmonizing.)
+    StringSet rule_symbols;
+    for (const auto &rule : v)
+    {
+        for (const auto &symbol : rule.get_alphabet())
+        {
+            if (!FdOperation::is_diacritic(symbol))
+            {
+                rule_symbols.insert(symbol);
+            }
+        }
+    }
+    rule_1.insert_to_alphabet(rule_symbols);
+
     HfstTransducer *harmonized_lexicon = rule_1.harmonize_(*this);
 
     if (harmonized_lexicon == NULL)
@@ -4928,6 +4943,20 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     harmonized_lexicon->substitute(internal_identity, "||_IDENTITY_SYMBOL_||");
     harmonized_lexicon->substitute(internal_unknown, "||_UNKNOWN_SYMBOL_||");
 
+    // If the result contains unknown or identity symbols, they do not stand
+    // for symbols that the lexicon or the rules know.
+    StringSet known_symbols = harmonized_lexicon->get_alphabet();
+    auto update_alphabet
+        = [&known_symbols](hfst::implementations::HfstBasicTransducer &res) {
+              res.prune_alphabet();
+              const StringSet &alphabet = res.get_alphabet();
+              if (alphabet.count("||_IDENTITY_SYMBOL_||") > 0
+                  || alphabet.count("||_UNKNOWN_SYMBOL_||") > 0)
+              {
+                  res.add_symbols_to_alphabet(known_symbols);
+              }
+          };
+
     if (v.size() == 1)
     {
         HfstTransducer rule_fst = v.at(0);
@@ -4953,7 +4982,7 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         hfst::implementations::HfstBasicTransducer res
             = lexicon.compose_with_rules(&rule);
 
-        res.prune_alphabet();
+        update_alphabet(res);
         *this = HfstTransducer(res, type);
 
         if (invert)
@@ -5027,7 +5056,7 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         hfst::implementations::HfstBasicTransducer res
             = lexicon.compose_with_rules(rules);
 
-        res.prune_alphabet();
+        update_alphabet(res);
         *this = HfstTransducer(res, type);
 
         if (invert)
-- 
2.43.0


From eff658d1c6da30e9b3f5072be07aff2883278f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 42/96] fix: twolc: ? after a diacritic has been used in the
 grammar

---
 libhfst/src/parsers/alphabet_src/Alphabet.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/alphabet_src/Alphabet.cc b/libhfst/src/parsers/alphabet_src/Alphabet.cc
index e7dff69..34c864f 100644
--- a/libhfst/src/parsers/alphabet_src/Alphabet.cc
+++ b/libhfst/src/parsers/alphabet_src/Alphabet.cc
@@ -123,7 +123,12 @@ Alphabet::compute(const SymbolPair &pair)
         for (HandySet<SymbolPair>::const_iterator it = alphabet_set.begin();
              it != alphabet_set.end(); ++it)
         {
-            if (is_set_pair(*it))
+            // Pairs that have been computed are also in the alphabet set:
+            // X:? and ?:X contain only pairs that are there themselves, and
+            // diacritics do not belong to rules that do not mention them.
+            if (is_set_pair(*it) || it->first == TWOLC_UNKNOWN
+                || it->second == TWOLC_UNKNOWN
+                || diacritics.has_element(it->first))
             {
                 continue;
             }
-- 
2.43.0


From 24228f7927b2f35e67236f79f2cda6aa3eaaf5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 43/96] fix: twolc: forget the diacritics of an earlier grammar

---
 libhfst/src/parsers/rule_src/TwolCGrammar.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libhfst/src/parsers/rule_src/TwolCGrammar.cc b/libhfst/src/parsers/rule_src/TwolCGrammar.cc
index bb539c4..0612220 100644
--- a/libhfst/src/parsers/rule_src/TwolCGrammar.cc
+++ b/libhfst/src/parsers/rule_src/TwolCGrammar.cc
@@ -33,6 +33,9 @@ TwolCGrammar::TwolCGrammar(bool be_quiet,
     (be_verbose);
   right_arrow_rule_container.set_resolve_right_arrow_conflicts
     (resolve_right_conflicts);
+
+  // Forget the diacritics of an earlier grammar.
+  OtherSymbolTransducer::define_diacritics(SymbolRange());
 }
 
 void TwolCGrammar::define_diacritics(const SymbolRange &diacritics)
-- 
2.43.0


From 246ea77e51e333e583a39b18b0eca398b1d31cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 44/96] fix: twolc: a grammar after one that was refused

---
 libhfst/src/parsers/htwolcpre1-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre1-parser.yy | 2 +-
 libhfst/src/parsers/htwolcpre2-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre3-parser.yy | 3 +++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/htwolcpre1-lexer.ll b/libhfst/src/parsers/htwolcpre1-lexer.ll
index c1df1d4..61d3290 100644
--- a/libhfst/src/parsers/htwolcpre1-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre1-lexer.ll
@@ -65,10 +65,14 @@ result = 1; \
 
   void reduce_queue(bool variable_symbol=false);
 
+extern void htwolcpre1restart(FILE *);
+
 namespace hfst {
 namespace twolcpre1 {
 void reset_lexer()
 {
+  // Forget what is left of an earlier input.
+  htwolcpre1restart(NULL);
   regexp_start = false;
   htwolcpre1_rules_start = false;
   where_seen = false;
diff --git a/libhfst/src/parsers/htwolcpre1-parser.yy b/libhfst/src/parsers/htwolcpre1-parser.yy
index be130a2..4ebd8b7 100644
--- a/libhfst/src/parsers/htwolcpre1-parser.yy
+++ b/libhfst/src/parsers/htwolcpre1-parser.yy
@@ -126,7 +126,7 @@ void reset_parser()
   htwolcpre1_input_reader.reset();
   variable_value_map = VariableValueMap();
   rule_variables = RuleVariables();
-  //rule_symbol_vector.reset();
+  rule_symbol_vector.clear();
   htwolcpre1_symbol_queue = HandyDeque<std::string>();
   sets = HandySet<std::string>();
   definitions = HandySet<std::string>();
diff --git a/libhfst/src/parsers/htwolcpre2-lexer.ll b/libhfst/src/parsers/htwolcpre2-lexer.ll
index 1eb9a68..d99ca02 100644
--- a/libhfst/src/parsers/htwolcpre2-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre2-lexer.ll
@@ -59,10 +59,14 @@ result = 1; \
   // __HFST_TWOLC_; is seen.
   bool alphabet_ended = false;
 
+extern void htwolcpre2restart(FILE *);
+
 namespace hfst {
 namespace twolcpre2 {
 void reset_lexer()
 {
+  // Forget what is left of an earlier input.
+  htwolcpre2restart(NULL);
   alphabet_ended = false;
 }
 }}
diff --git a/libhfst/src/parsers/htwolcpre3-parser.yy b/libhfst/src/parsers/htwolcpre3-parser.yy
index 25eb7b4..bcbcb9f 100644
--- a/libhfst/src/parsers/htwolcpre3-parser.yy
+++ b/libhfst/src/parsers/htwolcpre3-parser.yy
@@ -69,6 +69,7 @@ should_colourise()
   void htwolcpre3message(const std::string &m);
   int htwolcpre3lex();
   int htwolcpre3parse();
+  void htwolcpre3restart(FILE *);
 
   bool silent_ = false;
   bool verbose_ = false;
@@ -144,6 +145,8 @@ namespace hfst {
 
   void reset_parser()
   {
+    // Forget what is left of an earlier input.
+    htwolcpre3restart(NULL);
     htwolcpre3_line_number = 1;
     htwolcpre3_input_reader.reset();
     alphabet = Alphabet();
-- 
2.43.0


From 5d58ae7e26a32bae8aacc13b04d2caa0ca8325f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 45/96] fix: prune() keeps the implementation type

---
 libhfst/src/HfstTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 1425d4a..e451f76 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2193,6 +2193,7 @@ HfstTransducer::prune()
 {
 #if HAVE_OPENFST
     // slow for xfsm type...
+    ImplementationType original_type = this->type;
     this->convert(TROPICAL_OPENFST_TYPE);
     fst::StdVectorFst *temp
         = hfst::implementations::TropicalWeightTransducer::prune(
@@ -2200,6 +2201,7 @@ HfstTransducer::prune()
     this->tropical_ofst_interface.delete_transducer(
         this->implementation.tropical_ofst);
     this->implementation.tropical_ofst = temp;
+    this->convert(original_type);
     return *this;
 #endif
     HFST_THROW(FunctionNotImplementedException);
-- 
2.43.0


From 15ea9da6cc64641a6df52d9b0ad19dcf11b3fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 46/96] fix: determinize in the log semiring merges paths
 instead of exiting

---
 libhfst/src/implementations/LogWeightTransducer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index ed7fe86..58cf78c 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -21,6 +21,7 @@
 
 namespace hfst
 {
+bool get_encode_weights();
 namespace implementations
 {
 
@@ -1339,7 +1340,10 @@ LogFst *
 LogWeightTransducer::determinize(LogFst *t)
 {
     RmEpsilon<LogArc>(t);
-    EncodeMapper<LogArc> encode_mapper(kEncodeLabels | kEncodeWeights, ENCODE);
+    EncodeMapper<LogArc> encode_mapper(hfst::get_encode_weights()
+                                           ? (kEncodeLabels | kEncodeWeights)
+                                           : (kEncodeLabels),
+                                       ENCODE);
     Encode(t, &encode_mapper);
     LogFst *det = new LogFst();
     Determinize<LogArc>(*t, det);
-- 
2.43.0


From 04c3d21352f1271d0f28db7fb6188260e4bedb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 47/96] fix: pmatch: a left context that reaches the start of
 the text

---
 .../implementations/optimized-lookup/pmatch.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 31a28c9..d8ba7ab 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -2354,18 +2354,12 @@ PmatchTransducer::take_transitions(SymbolNumber input, unsigned int input_pos,
                 // Checking context so don't touch output
                 if (local_stack.top().max_context_length_remaining > 0)
                 {
-                    if ((local_stack.top().tape_step < 0) && (input_pos == 0))
-                    {
-                        // FIXME: prevents segfault but
-                        get_analyses(input_pos, tape_pos, target); // awkward
-                    }
-                    else
-                    {
-                        local_stack.top().max_context_length_remaining -= 1;
-                        get_analyses(input_pos + local_stack.top().tape_step,
-                                     tape_pos, target);
-                        local_stack.top().max_context_length_remaining += 1;
-                    }
+                    // stepping left from position 0 underflows, which
+                    // has_queued_input() takes as the end of the input
+                    local_stack.top().max_context_length_remaining -= 1;
+                    get_analyses(input_pos + local_stack.top().tape_step,
+                                 tape_pos, target);
+                    local_stack.top().max_context_length_remaining += 1;
                 }
             }
             local_stack.top().default_symbol_trap = false;
-- 
2.43.0


From bfcfb56f24457fc845140f78be4beef25b8d754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 48/96] fix: pmatch: the passthrough of a negative context
 belongs to its own state

---
 .../src/implementations/optimized-lookup/pmatch.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index d8ba7ab..8bf8da9 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -2111,13 +2111,16 @@ PmatchTransducer::take_epsilons(unsigned int input_pos, unsigned int tape_pos,
                                 TransitionTableIndex i)
 {
     i = make_transition_table_index(i, 0);
+    // A passthrough scheduled by a context arc of this state, to be taken from
+    // this state and not from the targets of its other arcs
+    bool passthrough = false;
     while (is_good(i))
     {
         SymbolNumber input = transition_table[i].get_input_symbol();
         if (input != 0 && !alphabet.is_flag_diacritic(input)
             && !alphabet.has_rtn(input))
         {
-            return;
+            break;
         }
 
         SymbolNumber output = transition_table[i].get_output_symbol();
@@ -2227,6 +2230,11 @@ PmatchTransducer::take_epsilons(unsigned int input_pos, unsigned int tape_pos,
             else
             {
                 check_context(input_pos, tape_pos, i);
+                if (local_stack.top().pending_passthrough)
+                {
+                    passthrough = true;
+                    local_stack.top().pending_passthrough = false;
+                }
             }
         }
         else if (alphabet.is_flag_diacritic(input))
@@ -2241,6 +2249,10 @@ PmatchTransducer::take_epsilons(unsigned int input_pos, unsigned int tape_pos,
         ++i;
         container->set_weight(old_weight);
     }
+    if (passthrough)
+    {
+        local_stack.top().pending_passthrough = true;
+    }
 }
 
 void
-- 
2.43.0


From b7a7a8d5713ab733e8f8072cded90ba90ba99f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 49/96] fix: pmatch: symbols past the end of the index table

---
 libhfst/src/implementations/optimized-lookup/pmatch.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.h b/libhfst/src/implementations/optimized-lookup/pmatch.h
index 879b73f..8a77eec 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.h
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.h
@@ -395,7 +395,9 @@ namespace hfst_ol {
             if (indexes_transition_table(i)) {
                 return i - TRANSITION_TARGET_TABLE_START;
             } else {
-                if (index_table[i + input].get_input_symbol() == input) {
+                // a symbol that is never on the input side can lie past the end
+                if (i + input < index_table.size()
+                    && index_table[i + input].get_input_symbol() == input) {
                     return index_table[i + input].get_target() - TRANSITION_TARGET_TABLE_START;
                 } else {
                     return TRANSITION_TARGET_TABLE_START;
-- 
2.43.0


From f13b461b8e6846c1a46a5157c9135d0de7c32582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 50/96] fix: pmatch: redefining a name

---
 libhfst/src/parsers/pmatch_parse.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/pmatch_parse.yy b/libhfst/src/parsers/pmatch_parse.yy
index 8851c29..cd14e84 100644
--- a/libhfst/src/parsers/pmatch_parse.yy
+++ b/libhfst/src/parsers/pmatch_parse.yy
@@ -129,7 +129,7 @@ PMATCH: //empty
         warn(warning.str());
         delete definitions[$2->first];
     }
-    definitions.insert(*$2);
+    definitions[$2->first] = $2->second;
  }
 | PMATCH SET_VARIABLE VARIABLE_NAME SYMBOL {
     hfst::pmatch::variables[$3] = $4;
@@ -667,7 +667,7 @@ CAPTURE: CAPTURE_LEFT SYMBOL RIGHT_PARENTHESIS {
         warn(warning.str());
         delete definitions[captured_def.first];
     }
-    definitions.insert(captured_def);
+    definitions[captured_def.first] = captured_def.second;
     free($2);
 } | CAPTURE_LEFT QUOTED_LITERAL RIGHT_PARENTHESIS {
     $$ = hfst::pmatch::make_capture_tag($2);
-- 
2.43.0


From d31b81144bee6ce22e4f89aec23a167e45c990c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 51/96] fix: xfst: results of apply go to the output stream

---
 libhfst/src/parsers/XfstCompiler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..ad125cf 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -778,11 +778,11 @@ XfstCompiler::lookup(char *line, HfstBasicTransducer *t)
     if (variables_["print-pairs"] == "OFF")
     {
         HfstOneLevelPaths paths = extract_output_paths(results);
-        printed = this->print_paths(paths);
+        printed = this->print_paths(paths, output_);
     }
     else
     {
-        printed = this->print_paths(results);
+        printed = this->print_paths(results, output_);
     }
 
     if (!printed)
@@ -821,7 +821,7 @@ XfstCompiler::lookup(char *line, const HfstTransducer *t, size_t cutoff)
         paths = t->lookup(std::string(token), cutoff);
     }
 
-    bool printed = this->print_paths(*paths);
+    bool printed = this->print_paths(*paths, output_);
     if (!printed)
     {
         output() << "???" << std::endl;
-- 
2.43.0


From a8df0e6671a5f74160d2daf0ea78d8429e784167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 52/96] fix: xfst: rotate moves the topmost network to the
 bottom

---
 libhfst/src/parsers/XfstCompiler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index ad125cf..50cd201 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1873,13 +1873,21 @@ XfstCompiler::rotate()
         PROMPT_AND_RETURN_THIS;
     }
 
+    // the topmost network goes to the bottom
+    HfstTransducer *topmost = stack_.top();
+    stack_.pop();
     stack<HfstTransducer *> tmp;
     while (!stack_.empty())
     {
         tmp.push(stack_.top());
         stack_.pop();
     }
-    stack_ = tmp;
+    stack_.push(topmost);
+    while (!tmp.empty())
+    {
+        stack_.push(tmp.top());
+        tmp.pop();
+    }
 
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
 }
-- 
2.43.0


From 83106a942b7bcdb934358fc185fa8d4525970528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 53/96] fix: xfst: definitions from load defined can be used

---
 libhfst/src/parsers/XfstCompiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 50cd201..977080a 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1927,6 +1927,7 @@ XfstCompiler::add_loaded_definition(HfstTransducer *t)
         definitions_.erase(def_name);
     }
     definitions_[def_name] = t;
+    xre_.define(def_name, *t); // XRE
     return *this;
 }
 
-- 
2.43.0


From 00f9dcb9e8d6ccea4620969cb6474a9ca8deee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 54/96] fix: xfst: test equivalent harmonizes its operands

---
 libhfst/src/parsers/XfstCompiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 977080a..787d613 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2327,7 +2327,7 @@ XfstCompiler::test_eq(bool assertion)
     stack_.pop();
     HfstTransducer *second = stack_.top();
     stack_.pop();
-    bool result = first->compare(*second, false);
+    bool result = first->compare(*second);
     print_bool(result);
     stack_.push(second);
     stack_.push(first);
-- 
2.43.0


From 432ebe552c572281ea0d50ec9b7ccacff10381c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 55/96] fix: xfst: test upper-universal and lower-universal

---
 libhfst/src/parsers/XfstCompiler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 787d613..3e49976 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2422,14 +2422,14 @@ XfstCompiler::test_uni(Level level, bool assertion)
     }
 
     HfstTransducer tmp(*temp);
-    tmp.input_project();
     HfstTransducer id(hfst::internal_identity, tmp.get_type());
+    id.repeat_star();
     bool value = false;
 
     if (level == UPPER_LEVEL)
-        value = id.compare(tmp, false);
+        value = id.compare(tmp.input_project());
     else if (level == LOWER_LEVEL)
-        value = !id.compare(tmp, false);
+        value = id.compare(tmp.output_project());
     else
     {
         error()
-- 
2.43.0


From 31014acda2be2e1889a8a440f20a870dc2b3af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 56/96] fix: xfst: complete net of a transducer

---
 libhfst/src/parsers/XfstCompiler.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 3e49976..6d21431 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4219,7 +4219,18 @@ XfstCompiler::complete_net()
     GET_TOP(topmost);
 
     HfstBasicTransducer fsm(*topmost);
-    fsm.complete();
+    try
+    {
+        fsm.complete();
+    }
+    catch (const TransducersAreNotAutomataException &e)
+    {
+        (void)e;
+        error() << "transducer is not an automaton" << std::endl;
+        flush(&error());
+        xfst_fail();
+        PROMPT_AND_RETURN_THIS;
+    }
     HfstTransducer *result = new HfstTransducer(fsm, topmost->get_type());
     stack_.pop();
     delete topmost;
-- 
2.43.0


From 44d5a8eb2f75c44f3c933442060ef61df9608431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 57/96] fix: xfst: binary operations on networks in lookup form
 or of different types

---
 libhfst/src/parsers/XfstCompiler.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 6d21431..4285d9f 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4338,9 +4338,18 @@ XfstCompiler::apply_binary_operation(BinaryOperation operation)
         xfst_lesser_fail();
         return *this;
     }
-    HfstTransducer *result = stack_.top();
+    GET_TOP(result);
     stack_.pop();
     HfstTransducer *another = stack_.top();
+    if (another->get_type() != result->get_type())
+    {
+        error() << "Stack contains transducers whose type differs."
+                << std::endl;
+        flush(&error());
+        xfst_lesser_fail();
+        stack_.push(result);
+        return *this;
+    }
     stack_.pop();
 
     switch (operation)
@@ -4394,7 +4403,7 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
         xfst_lesser_fail();
         return *this;
     }
-    HfstTransducer *result = stack_.top();
+    GET_TOP(result);
 
     stack_.pop();
     while (!stack_.empty())
-- 
2.43.0


From 8458ac9dbdea73ae142f650b36170fe02f953bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 58/96] fix: xfst: a refused operation on the stack keeps the
 topmost network

---
 libhfst/src/parsers/XfstCompiler.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 4285d9f..e12f05b 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4466,6 +4466,7 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
                         << std::endl;
                 flush(&error());
                 xfst_lesser_fail();
+                stack_.push(result);
                 prompt();
                 return *this;
             }
@@ -4479,7 +4480,20 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
             result->disjunct(*t);
             break;
         case SHUFFLE_NET:
-            result->shuffle(*t);
+            try
+            {
+                result->shuffle(*t);
+            }
+            catch (const TransducersAreNotAutomataException &e)
+            {
+                (void)e;
+                error() << "transducers are not automata" << std::endl;
+                flush(&error());
+                xfst_fail();
+                stack_.push(result);
+                prompt();
+                return *this;
+            }
             break;
         default:
             error() << "ERROR: unknown binary operation" << std::endl;
-- 
2.43.0


From 60e46b5b06c655adf76adcf251006dea2d931d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 59/96] fix: xfst: negate net of a network in lookup form

---
 libhfst/src/parsers/XfstCompiler.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index e12f05b..51f1565 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4603,14 +4603,7 @@ XfstCompiler::name_net(const char *s)
 XfstCompiler &
 XfstCompiler::negate_net()
 {
-    if (stack_.size() < 1)
-    {
-        EMPTY_STACK;
-        xfst_lesser_fail();
-        return *this;
-    }
-
-    HfstTransducer *t = stack_.top();
+    GET_TOP(t);
 
     try
     {
-- 
2.43.0


From aaccae716ad373b30c1062c0d8d4c0186211703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 60/96] fix: xfst: functions with names of one character

---
 libhfst/src/parsers/xfst-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index fd493e1..b1119b0 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -236,7 +236,7 @@ LWSP [\t ]*
     return DEFINE_NAME;
 }
 
-"define"{WSP}+{NAMETOKEN}{PROTOTYPE} {
+"define"{WSP}+{PROTOTYPE} {
     BEGIN(REGEX_STATE);
     hxfstlval.name = hfst::xfst::strstrip(yytext+strlen("define "));
     return DEFINE_FUNCTION;
-- 
2.43.0


From cf5e6eae65c0aaebb7b05b7ddcd85255dbba6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 61/96] fix: xfst: parsing after a sourced script

---
 libhfst/src/parsers/xfst-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index b1119b0..083731d 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -835,6 +835,7 @@ LWSP [\t ]*
     --source_stack_size;
     // end of input
     if (source_stack_size < 0) {
+      source_stack_size = 0;
       yyterminate();
     }
     // EOF encountered because reaching end of included input
-- 
2.43.0


From 9426a82f2dce8da0c5fb5915923ce2eba4319ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 62/96] fix: xfst: commands that read a missing file

---
 libhfst/src/parsers/xfst-parser.yy | 49 +++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/libhfst/src/parsers/xfst-parser.yy b/libhfst/src/parsers/xfst-parser.yy
index bb42dd7..8c9b0f5 100644
--- a/libhfst/src/parsers/xfst-parser.yy
+++ b/libhfst/src/parsers/xfst-parser.yy
@@ -108,8 +108,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->add_props(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->add_props(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -136,8 +139,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_up(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_up(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -159,8 +165,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_down(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_down(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -176,8 +185,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->apply_med(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->apply_med(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -1177,8 +1189,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_props(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_props(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
@@ -1189,8 +1204,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_prolog(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_prolog(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    free($2); CHECK;
        }
@@ -1205,8 +1223,11 @@ COMMAND: ADD_PROPS REDIRECT_IN END_COMMAND {
             if (hfst::xfst::xfst_->check_filename($2))
 	    {
               FILE * f = hfst::xfst::xfst_->xfst_fopen($2, "r"); CHECK;
-              hfst::xfst::xfst_->read_regex(f);
-              hfst::xfst::xfst_->xfst_fclose(f, $2);
+              if (f != NULL)
+              {
+                hfst::xfst::xfst_->read_regex(f);
+                hfst::xfst::xfst_->xfst_fclose(f, $2);
+              }
 	    }
 	    CHECK;
        }
-- 
2.43.0


From bc772ec9869c95be4607ce44cfca6f59053b1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 63/96] fix: foma composition matched flag diacritics with
 unknown symbols

---
 libhfst/src/HfstTransducer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index e451f76..8d2e0fe 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4254,9 +4254,10 @@ HfstTransducer::compose(const HfstTransducer &another, bool harmonize)
        behavior.
 
        If we do not want flags to match with identities and unknowns (the
-       default for non-XFSM transducers) and the transducer is of XFSM_TYPE, we
-       add flags of first transducer to alphabet of second transducer if they
-       are not yet there and vice versa before composition. */
+       default for non-XFSM transducers) and the transducer is of XFSM_TYPE or
+       FOMA_TYPE, we add flags of first transducer to alphabet of second
+       transducer if they are not yet there and vice versa before
+       composition. */
     if (xerox_composition)
     {
         if (this->type != XFSM_TYPE)
@@ -4267,7 +4268,7 @@ HfstTransducer::compose(const HfstTransducer &another, bool harmonize)
     }
     else
     {
-        if (this->type == XFSM_TYPE)
+        if (this->type == XFSM_TYPE || this->type == FOMA_TYPE)
         {
             diacritics_added_from_another_to_this
                 = this->insert_missing_diacritics_to_alphabet_from(
-- 
2.43.0


From 5551208d8a875469aff645f5058ed5e20dabe2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 64/96] fix: harmonized flags without a value

---
 libhfst/src/HfstTransducer.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 8d2e0fe..b9fd0c1 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4477,6 +4477,19 @@ get_flag_path_restriction(const StringSet &_1_flags, const StringSet &_2_flags,
     return restriction;
 }
 
+// Whether the feature of \a flag_diacritic, which can be a flag without a value,
+// ends with \a suffix.
+static bool
+feature_has_suffix(const std::string &flag_diacritic,
+                   const std::string &suffix)
+{
+    const std::string feature = FdOperation::get_feature(flag_diacritic);
+    return feature.size() >= suffix.size()
+           && feature.compare(feature.size() - suffix.size(), suffix.size(),
+                              suffix)
+                  == 0;
+}
+
 HfstTransducer &
 HfstTransducer::remove_illegal_flag_paths(void)
 {
@@ -4492,12 +4505,12 @@ HfstTransducer::remove_illegal_flag_paths(void)
             continue;
         }
 
-        if (it.find("_1.") != std::string::npos)
+        if (feature_has_suffix(it, "_1"))
         {
             _1_flags.insert(it);
         }
 
-        if (it.find("_2.") != std::string::npos)
+        if (feature_has_suffix(it, "_2"))
         {
             _2_flags.insert(it);
         }
-- 
2.43.0


From 9441293eb5a63b613e2dff22bdabdabdccbf33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:41 +0000
Subject: [PATCH 65/96] fix: weights of random paths

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 59674dd..d227e11 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3006,6 +3006,9 @@ random_path_(StdVectorFst *t)
        that \a last_index constitute the longest path that is recognized by
        transducer \a t so far. */
     int last_index = 0;
+    /* The weight of that path, final weight included. */
+    float last_weight
+        = is_epsilon_path_accepted ? t->Final(t->Start()).Value() : 0;
 
     unsigned int num_states = t->NumStates();
 
@@ -3045,6 +3048,7 @@ random_path_(StdVectorFst *t)
             {
                 path.second.pop_back();
             }
+            path.first = last_weight;
             if (!is_epsilon_path_accepted && path.second.size() == 0)
                 throw "cannot extract random path";
             return path;
@@ -3076,6 +3080,7 @@ random_path_(StdVectorFst *t)
                     return path;
                 } // or continue.
                 last_index = (int)path.second.size();
+                last_weight = path.first + t->Final(t_target).Value();
             }
 
             /* Give more probability for shorter paths. */
-- 
2.43.0


From c597f1a38aca082f697492c0447c469d9d86864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:41 +0000
Subject: [PATCH 66/96] fix: foma transducers with unreachable cycles are not
 cyclic

---
 libhfst/src/implementations/FomaTransducer.cc | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index bac5f94..fe92df9 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -519,8 +519,39 @@ namespace hfst { namespace implementations {
 
   bool FomaTransducer::is_cyclic(fsm * t)
   {
-    fsm_topsort(t);
-    return !(t->is_loop_free);
+    // fsm_topsort takes states that cannot be reached for a loop,
+    // so remove states without incoming arcs until there are none left
+    std::map<int, unsigned int> incoming;
+    std::multimap<int, int> targets;
+    for (int i=0; ((t->states)+i)->state_no != -1; i++)
+      {
+        const fsm_state * s = (t->states)+i;
+        incoming[s->state_no];
+        if (s->target != -1)
+          {
+            incoming[s->target]++;
+            targets.insert(std::make_pair(s->state_no, s->target));
+          }
+      }
+    std::vector<int> removed;
+    for (std::map<int, unsigned int>::const_iterator it = incoming.begin();
+         it != incoming.end(); ++it)
+      {
+        if (it->second == 0)
+          removed.push_back(it->first);
+      }
+    for (size_t i=0; i < removed.size(); i++)
+      {
+        std::pair<std::multimap<int, int>::const_iterator,
+                  std::multimap<int, int>::const_iterator> arcs
+          = targets.equal_range(removed[i]);
+        for (; arcs.first != arcs.second; ++arcs.first)
+          {
+            if (--incoming[arcs.first->second] == 0)
+              removed.push_back(arcs.first->second);
+          }
+      }
+    return removed.size() != incoming.size();
   }
 
     unsigned int FomaTransducer::number_of_states(fsm * t)
-- 
2.43.0


From 02a6e57dbf4b39dff9979ac3520fa13d7c9ef03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 67/96] fix: extracting paths stops when it is told to

---
 libhfst/src/implementations/FomaTransducer.cc           | 2 +-
 libhfst/src/implementations/HfstOlTransducer.cc         | 4 ++--
 libhfst/src/implementations/LogWeightTransducer.cc      | 4 ++--
 libhfst/src/implementations/SfstTransducer.cc           | 4 ++--
 libhfst/src/implementations/TropicalWeightTransducer.cc | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index fe92df9..c6fab1f 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -743,7 +743,7 @@ namespace hfst { namespace implementations {
     }
     // add epsilon path, if needed
     for (std::set<int>::const_iterator it = initial_states.begin();
-         it != initial_states.end(); it++)
+         res && it != initial_states.end(); it++)
       {
         bool final_initial = false;
         for(int i=0; ((t->states)+i)->state_no != -1; i++)
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index ea34df1..1ce4f57 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -470,12 +470,12 @@ void HfstOlInputStream::ignore(unsigned int n)
 
     StringPairVector spv;
     
-    hfst::implementations::extract_paths
+    bool continue_search = hfst::implementations::extract_paths
       (t,0,all_visitations,path_visitations,/*lbuffer,0,ubuffer,0,*/0.0f,
        callback,cycles,fd_state_stack,filter_fd, spv);
 
     // add epsilon path, if needed
-    if (t->get_index(0).final())
+    if (continue_search && t->get_index(0).final())
       {
         float final_weight = t->get_header().probe_flag(hfst_ol::Weighted) ?
           dynamic_cast<const hfst_ol::TransitionWIndex&>
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 58cf78c..5450b2c 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -2313,14 +2313,14 @@ LogWeightTransducer::extract_paths(LogFst *t, hfst::ExtractStringsCb &callback,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool continue_search = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations,
         /*lbuffer,0,ubuffer,0,*/ 0.0f, callback, cycles, fd_state_stack,
         filter_fd,
         /*include_spv,*/ spv);
 
     // add epsilon path, if needed
-    if (t->Final(t->Start()) != LogWeight::Zero())
+    if (continue_search && t->Final(t->Start()) != LogWeight::Zero())
     {
         StringPairVector empty_spv;
         HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index f33fb94..1144c37 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -764,13 +764,13 @@ namespace hfst { namespace implementations {
       (1, hfst::FdState<Character>(*fd));
     
     StringPairVector spv;
-    hfst::implementations::extract_paths
+    bool continue_search = hfst::implementations::extract_paths
       (t, t->root_node(), all_visitations, path_visitations,
        callback, cycles, fd_state_stack, filter_fd,
        spv);
 
     // add epsilon path, if needed
-    if (t->root_node() && t->root_node()->is_final()) {
+    if (continue_search && t->root_node() && t->root_node()->is_final()) {
       StringPairVector empty_spv;
       HfstTwoLevelPath epsilon_path(0, empty_spv);
       callback(epsilon_path, true /* final*/);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index d227e11..6ad28c2 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2952,12 +2952,12 @@ TropicalWeightTransducer::extract_paths(StdVectorFst *t,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool continue_search = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations, 0.0f, callback,
         cycles, fd_state_stack, filter_fd, spv);
 
     // add epsilon path, if needed
-    if (t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
+    if (continue_search && t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
     {
         StringPairVector empty_spv;
         HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
-- 
2.43.0


From 260638f19d200643495f99bd845f8c75651fab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 68/96] fix: string pairs with backslashes and tabulators

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 857e80d..34ee87f 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -99,6 +99,9 @@ HfstStrings2FstTokenizer::tokenize_string_pair(const std::string &str,
     else
     {
         tokenized_str = tokenizer.tokenize_one_level(str, false);
+        StringVector::iterator new_end = std::remove(
+            tokenized_str.begin(), tokenized_str.end(), BACKSLASH);
+        tokenized_str.erase(new_end, tokenized_str.end());
     }
     StringVector::iterator it;
     if ((it = find(tokenized_str.begin(), tokenized_str.end(), COL))
@@ -207,7 +210,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(BACKSLASH_ESC)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(BACKSLASH_ESC), EMPTY);
+        symbol.replace(pos, strlen(BACKSLASH_ESC), BACKSLASH);
     }
 
     pos = 0;
@@ -219,7 +222,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(TAB_ESCAPE)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(TAB_ESCAPE), "   ");
+        symbol.replace(pos, strlen(TAB_ESCAPE), "\t");
     }
 
     pos = 0;
-- 
2.43.0


From f202d2a160f15e6c3fc6fd11cdaf72e338956533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 69/96] fix: hfst-fst2strings filters

---
 tools/src/hfst-fst2strings.cc | 47 ++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-fst2strings.cc b/tools/src/hfst-fst2strings.cc
index 0a4f668..10031e5 100644
--- a/tools/src/hfst-fst2strings.cc
+++ b/tools/src/hfst-fst2strings.cc
@@ -24,6 +24,7 @@
 #include <io.h>
 #endif
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -38,6 +39,7 @@
 #include "HfstSymbolDefs.h"
 #include "HfstTransducer.h"
 #include "hfst-commandline.h"
+#include "implementations/HfstBasicTransducer.h"
 #include "hfst-program-options.h"
 
 using hfst::FdOperation;
@@ -62,6 +64,8 @@ static int cycles = -1;
 static int nbest_strings = -1;
 static int max_random_strings = -1;
 static float max_weight = -1;
+// how much a path at most weighs above the best path with the same beginning
+static float beam_slack = 0;
 static float beam = -1;
 static bool display_weights = false;
 static bool eval_fd = false;
@@ -322,8 +326,15 @@ class Callback : public hfst::ExtractStringsCb
         for (StringPairVector::const_iterator it = path.second.begin();
              it != path.second.end(); it++)
         {
-            istring.append(it->first);
-            ostring.append(it->second);
+            // epsilons are not part of the strings
+            if (not hfst::is_epsilon(it->first))
+            {
+                istring.append(it->first);
+            }
+            if (not hfst::is_epsilon(it->second))
+            {
+                ostring.append(it->second);
+            }
         }
         float weight = path.first;
 
@@ -373,10 +384,11 @@ class Callback : public hfst::ExtractStringsCb
             return RetVal(true, false);
             // continue searching, break off this path
         }
-        if (max_weight >= 0 && weight > (max_weight + beam))
+        if (beam >= 0 && weight > (max_weight + beam))
         {
-            return RetVal(true, false);
             // continue searching, break off this path
+            // unless its continuations can be inside the beam
+            return RetVal(true, weight <= (max_weight + beam + beam_slack));
         }
         // the path passed the checks. Print it if it is final
         if (final)
@@ -509,12 +521,35 @@ process_stream(HfstInputStream &instream, std::ostream &outstream)
                 tc.n_best(1);
                 HfstTwoLevelPaths best_paths;
                 tc.extract_paths(best_paths);
-                if (best_paths.size() != 1)
+                if (best_paths.size() > 1)
                 {
                     hfst_error(EXIT_FAILURE, 0,
                                "n_best(1) produced more than one path");
                 }
-                max_weight = best_paths.begin()->first;
+                // if there are no paths, none will be compared with the weight
+                max_weight
+                    = best_paths.empty() ? 0 : best_paths.begin()->first;
+                // a path can get lighter when it is continued: its final
+                // weight is left out and negative weights can be added
+                float max_final_weight = 0;
+                beam_slack = 0;
+                hfst::implementations::HfstBasicTransducer basic(t);
+                for (unsigned int s = 0; s <= basic.get_max_state(); s++)
+                {
+                    if (basic.is_final_state(s))
+                    {
+                        float w = basic.get_final_weight(s);
+                        max_final_weight = std::max(max_final_weight, w);
+                        beam_slack -= std::min(w, 0.0f);
+                    }
+                    const hfst::implementations::HfstBasicTransitions &trs
+                        = basic.transitions(s);
+                    for (size_t i = 0; i < trs.size(); i++)
+                    {
+                        beam_slack -= std::min(trs[i].get_weight(), 0.0f);
+                    }
+                }
+                beam_slack += max_final_weight;
             }
             catch (const FunctionNotImplementedException &e)
             {
-- 
2.43.0


From e4349408c6aaf5c61854aac7b1f35101530e8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 70/96] fix: hfst-fst2txt writes several networks in prolog
 format

---
 tools/src/hfst-fst2txt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-fst2txt.cc b/tools/src/hfst-fst2txt.cc
index 2608c3f..721e4bc 100644
--- a/tools/src/hfst-fst2txt.cc
+++ b/tools/src/hfst-fst2txt.cc
@@ -220,7 +220,8 @@ process_stream(HfstInputStream& instream, FILE* outf)
         }
 
         if(transducer_n > 1)
-            fprintf(outf, "--\n");
+            // networks in prolog format are separated with an empty line
+            fprintf(outf, format == PROLOG_TEXT ? "\n" : "--\n");
 
         bool printw; // whether weights are printed
         hfst::ImplementationType type = t->get_type();
-- 
2.43.0


From 0fb927cc865c9888fd42162f0e9d40d6b8dcec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 71/96] fix: hfst-compose with one transducer and many

---
 tools/src/hfst-compose.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/src/hfst-compose.cc b/tools/src/hfst-compose.cc
index f929085..76a8cd6 100644
--- a/tools/src/hfst-compose.cc
+++ b/tools/src/hfst-compose.cc
@@ -265,6 +265,10 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
                            firstname, secondname, transducer_n_first);
         }
 
+        // both operands are changed below, and one of them may be needed again
+        const HfstTransducer firstoperand(*first);
+        const HfstTransducer secondoperand(*second);
+
         if (first->has_flag_diacritics() or second->has_flag_diacritics())
         {
             if (not harmonize_flags)
@@ -351,10 +355,20 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
             {
                 delete first;
             }
+            else
+            {
+                delete first;
+                first = new HfstTransducer(firstoperand);
+            }
             if (secondstream.is_good())
             {
                 delete second;
             }
+            else
+            {
+                delete second;
+                second = new HfstTransducer(secondoperand);
+            }
         }
 
         // continueReading = firststream.is_good() &&
-- 
2.43.0


From 563e20f2a54242657a33df8f4a3f4ddec92508b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 72/96] fix: hfst-expand-equivalences reads its file for every
 transducer

---
 tools/src/hfst-expand-equivalences.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-expand-equivalences.cc b/tools/src/hfst-expand-equivalences.cc
index c2f5fc2..4b4e31d 100644
--- a/tools/src/hfst-expand-equivalences.cc
+++ b/tools/src/hfst-expand-equivalences.cc
@@ -255,6 +255,7 @@ process_stream(HfstInputStream* instream, HfstOutputStream* outstream)
             char* line = NULL;
             size_t len = 0;
             size_t line_n = 0;
+            rewind(tsv_file); // it is read again for every transducer
             verbose_printf("reading extensions from %s...\n", tsv_file_name);
             while (hfst_getline(&line, &len, tsv_file) != -1)
               {
-- 
2.43.0


From b7a51edd6dbd1425351c4fab83a55899d462b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 73/96] fix: hfst-insert-freely handles every transducer

---
 tools/src/hfst-insert-freely.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index 6bb2cb0..b87cc07 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -229,8 +229,6 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
         transducer_n++;
         HfstTransducer trans(instream);
         char* inputname = hfst_get_name(trans, inputfilename);
-        if (transducer_n==1)
-        {
 //            If harmonize is true, then identity and unknown symbols in the
 //    transducer will be exapanded byt the symbols in symbol
 //    pair. Otherwise they aren't.
@@ -239,10 +237,9 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
 
 // StringPair("a", "a")
 
-          trans.insert_freely(*symbol_pair, harmonise_flags);
-          hfst_set_name(trans, trans, "insert-freely");
-          hfst_set_formula(trans, trans, "Id");
-        }
+        trans.insert_freely(*symbol_pair, harmonise_flags);
+        hfst_set_name(trans, trans, "insert-freely");
+        hfst_set_formula(trans, trans, "Id");
         outstream << trans;
         free(inputname);
     }
-- 
2.43.0


From 50838f74227ee7871a431696c9c1a7546323fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 74/96] fix: hfst-priority-disjunct converts transducers of
 different types

---
 tools/src/hfst-priority-disjunct.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-priority-disjunct.cc b/tools/src/hfst-priority-disjunct.cc
index 69e0d3f..104bbb7 100644
--- a/tools/src/hfst-priority-disjunct.cc
+++ b/tools/src/hfst-priority-disjunct.cc
@@ -209,7 +209,7 @@ priority_disjunct_streams(HfstInputStream &firststream,
         {
             first->priority_union(*second); // harmonize
         }
-        catch (TransducerTypeMismatchException ttme)
+        catch (const HfstTransducerTypeMismatchException &)
         {
             if (allow_transducer_conversion)
             {
-- 
2.43.0


From c8cf73af71735468c1da4a61aa0297e17473ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 75/96] fix: hfst-repeat from N to infinity

---
 tools/src/hfst-repeat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-repeat.cc b/tools/src/hfst-repeat.cc
index 78a6711..8d4e34e 100644
--- a/tools/src/hfst-repeat.cc
+++ b/tools/src/hfst-repeat.cc
@@ -125,7 +125,7 @@ parse_options(int argc, char** argv)
 
 #include "inc/check-params-common.h"
 #include "inc/check-params-unary.h"
-    if (at_least > at_most)
+    if (!to_infinity && at_least > at_most)
       {
         error(EXIT_FAILURE, 0, "Cannot repeat from %lu to %lu times\n",
               at_least, at_most);
-- 
2.43.0


From 8b3c3050740366d9ef7be2b30d7d847a94df80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 76/96] fix: hfst-reweight reweights negative weights by
 default

---
 tools/src/hfst-reweight.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-reweight.cc b/tools/src/hfst-reweight.cc
index 40c562e..9d69fea 100644
--- a/tools/src/hfst-reweight.cc
+++ b/tools/src/hfst-reweight.cc
@@ -64,7 +64,7 @@ float multiplier = 1;
 char *funcname = 0;
 float (*func)(float) = id;
 float upper_bound = FLT_MAX;
-float lower_bound = 0;
+float lower_bound = -FLT_MAX;
 char *input_symbol = 0;
 char *output_symbol = 0;
 char *symbol = 0;
-- 
2.43.0


From 0d6873aa0e764564fe9c682be80b52eb0ad516cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 77/96] fix: hfst-reweight lines do not affect each other

---
 tools/src/hfst-reweight.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-reweight.cc b/tools/src/hfst-reweight.cc
index 9d69fea..7b0cce2 100644
--- a/tools/src/hfst-reweight.cc
+++ b/tools/src/hfst-reweight.cc
@@ -444,8 +444,6 @@ process_stream(HfstInputStream &instream, HfstOutputStream &outstream)
         {
             rewind(tsv_file);
             free(symbol);
-            addition = 0;
-            multiplier = 1;
             char *line = NULL;
             size_t len = 0;
             size_t linen = 0;
@@ -473,6 +471,9 @@ process_stream(HfstInputStream &instream, HfstOutputStream &outstream)
                     endstr++;
                 }
                 symbol = hfst_strndup(line, tab - line);
+                // what an earlier line gave does not concern this symbol
+                addition = 0;
+                multiplier = 1;
                 char *weightspec = hfst_strndup(tab + 1, endstr - tab - 1);
                 if (*weightspec == '+')
                 {
-- 
2.43.0


From 2d2e8872f2d285f777ed6d31abd245a79c8dd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 78/96] fix: hfst-substitute reads its file for every
 transducer

---
 tools/src/hfst-substitute.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-substitute.cc b/tools/src/hfst-substitute.cc
index f065419..e5e0e49 100644
--- a/tools/src/hfst-substitute.cc
+++ b/tools/src/hfst-substitute.cc
@@ -661,6 +661,7 @@ process_stream(HfstInputStream &instream)
             char *line = NULL;
             size_t len = 0;
             size_t line_n = 0;
+            rewind(from_file); // it is read again for every transducer
             verbose_printf("reading substitutions from %s...\n",
                            from_file_name);
             while (hfst_getline(&line, &len, from_file) != -1)
-- 
2.43.0


From c82405a3158b309397334de07397c81e19cb7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 79/96] fix: size the lookup output buffers for separators and
 unprintable symbols

---
 tools/src/hfst-flookup.cc | 10 +++-------
 tools/src/hfst-lookup.cc  | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index f0b871e..f510e24 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -682,7 +682,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += input_len;
             }
-            else if (*f == 'l')
+            else if (*f == 'l' || *f == 'b' || *f == 'a')
             {
                 space += lookup_len;
             }
@@ -704,9 +704,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     char *lookupform = 0;
     if (result != NULL)
     {
-        lookupform = static_cast<char *>(malloc(
-            sizeof(char) * lookup_len
-            + sizeof(char) * strlen(space_format) * (lookup_len - 1) + 1));
+        lookupform = static_cast<char *>(malloc(sizeof(char) * (lookup_len + 1)));
         char *p = lookupform;
         bool first = true;
         for (vector<string>::const_iterator s = result->second.begin();
@@ -747,9 +745,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     char *inputform = 0;
     if (input != NULL)
     {
-        inputform = static_cast<char *>(malloc(
-            sizeof(char) * input_len
-            + sizeof(char) * strlen(space_format) * (input_len - 1) + 1));
+        inputform = static_cast<char *>(malloc(sizeof(char) * (input_len + 1)));
         char *p = inputform;
         bool first = true;
         for (vector<string>::const_iterator s = input->second.begin();
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index b55a8f3..f2caaeb 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -696,7 +696,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += input_len;
             }
-            else if (*f == 'l')
+            else if (*f == 'l' || *f == 'b' || *f == 'a')
             {
                 space += lookup_len;
             }
@@ -718,9 +718,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     char *lookupform = 0;
     if (result != NULL)
     {
-        lookupform = static_cast<char *>(malloc(
-            sizeof(char) * lookup_len
-            + sizeof(char) * strlen(space_format) * (lookup_len - 1) + 1));
+        lookupform = static_cast<char *>(malloc(sizeof(char) * (lookup_len + 1)));
         char *p = lookupform;
         bool first = true;
         for (vector<string>::const_iterator s = result->second.begin();
@@ -761,9 +759,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
     char *inputform = 0;
     if (input != NULL)
     {
-        inputform = static_cast<char *>(malloc(
-            sizeof(char) * input_len
-            + sizeof(char) * strlen(space_format) * (input_len - 1) + 1));
+        inputform = static_cast<char *>(malloc(sizeof(char) * (input_len + 1)));
         char *p = inputform;
         bool first = true;
         for (vector<string>::const_iterator s = input->second.begin();
-- 
2.43.0


From 7daede23c06d4b290bce65ac32725c10754548e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 80/96] fix: split -F spaced input at spaces in hfst-lookup and
 hfst-flookup

---
 tools/src/hfst-flookup.cc | 7 ++++---
 tools/src/hfst-lookup.cc  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index f510e24..5c3ee93 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1020,12 +1020,13 @@ string_to_utf8(char *p)
 
 /* Add a '\' in front of ':', ' ' and '\'. */
 static std::string
-escape_special_characters(char *s)
+escape_special_characters(char *s, bool escape_spaces = true)
 {
     std::string retval;
     for (unsigned int i = 0; s[i] != '\0'; i++)
     {
-        if (s[i] == ':' || s[i] == '\\' || s[i] == ' ')
+        if (s[i] == ':' || s[i] == '\\'
+            || (escape_spaces && s[i] == ' '))
             retval.append(1, '\\');
         retval.append(1, s[i]);
     }
@@ -1056,7 +1057,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         break;
         */
 
-        std::string S = escape_special_characters(*s);
+        std::string S = escape_special_characters(*s, false);
 
         StringPairVector spv = tok.tokenize_string_pair(S, true);
 
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index f2caaeb..e23f1e2 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1034,12 +1034,13 @@ string_to_utf8(char *p)
 
 /* Add a '\' in front of ':', ' ' and '\'. */
 static std::string
-escape_special_characters(char *s)
+escape_special_characters(char *s, bool escape_spaces = true)
 {
     std::string retval;
     for (unsigned int i = 0; s[i] != '\0'; i++)
     {
-        if (s[i] == ':' || s[i] == '\\' || s[i] == ' ')
+        if (s[i] == ':' || s[i] == '\\'
+            || (escape_spaces && s[i] == ' '))
             retval.append(1, '\\');
         retval.append(1, s[i]);
     }
@@ -1070,7 +1071,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         break;
         */
 
-        std::string S = escape_special_characters(*s);
+        std::string S = escape_special_characters(*s, false);
 
         StringPairVector spv = tok.tokenize_string_pair(S, true);
 
-- 
2.43.0


From 2e76bfd6055816fbdfe2a661ad0ea74eada50753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 81/96] fix: print the symbol read instead of the identity
 symbol in optimized lookup pairs

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 190a314..1693791 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -561,7 +561,11 @@ void Transducer::find_transitions(SymbolNumber input,
                 // back in the input tape to find the symbol we want to write
                 output = input_tape[input_pos - 1];
             }
-            output_tape.write(output_pos, input, output);
+            // the symbol that was read, also if input stands for any symbol
+            output_tape.write(output_pos,
+                              alphabet->is_meta_arc(input)
+                                  ? input_tape[input_pos - 1] : input,
+                              output);
             current_weight += tables->get_weight(i);
             get_analyses(input_pos,
                          output_pos + 1,
-- 
2.43.0


From a710139bd56fb6d5f6964bf829f95ffc955b2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 82/96] fix: feed only the output symbols of a result to the
 next transducer of a lookup cascade

---
 tools/src/hfst-lookup.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index e23f1e2..2e98136 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1648,11 +1648,22 @@ lookup_cascading(const HfstOneLevelPath &s,
             {
                 // std::cerr << "using previous value of results as input to
                 // composition..." << std::endl;
+                // epsilons and flag diacritics are not part of the string
+                // that the next transducer reads
+                HfstOneLevelPath next_input(it->first, StringVector());
+                for (StringVector::const_iterator sym = it->second.begin();
+                     sym != it->second.end(); sym++)
+                {
+                    if (!is_epsilon(*sym) && !FdOperation::is_diacritic(*sym))
+                    {
+                        next_input.second.push_back(*sym);
+                    }
+                }
                 //  if last transducer in cascade, print results if
                 //  --print-pairs is requested
                 HfstOneLevelPaths *one_result = lookup_simple(
-                    *it, cascade[i], infinity, ((i + 1) == cascade.size()),
-                    false, &s, true);
+                    next_input, cascade[i], infinity,
+                    ((i + 1) == cascade.size()), false, &s, true);
                 for (HfstOneLevelPaths::const_iterator IT
                      = one_result->begin();
                      IT != one_result->end(); IT++)
-- 
2.43.0


From d1ca2e2d222acf272c6f77466f888731cff25e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 83/96] fix: keep the best weight of a string in
 hfst-optimized-lookup --unique

---
 tools/src/hfst-optimized-lookup.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 65e3171..4ab71a0 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -1748,8 +1748,7 @@ TransducerWUniq::note_analysis(SymbolNumber *whole_output_string)
     }
     if ((display_map.count(str) == 0) || (display_map[str] > current_weight))
     { // if there isn't an entry yet or we've found a lower weight
-        display_map.insert(
-            std::pair<std::string, Weight>(str, current_weight));
+        display_map[str] = current_weight;
     }
 }
 
@@ -1764,8 +1763,7 @@ TransducerWFdUniq::note_analysis(SymbolNumber *whole_output_string)
     }
     if ((display_map.count(str) == 0) || (display_map[str] > current_weight))
     { // if there isn't an entry yet or we've found a lower weight
-        display_map.insert(
-            std::pair<std::string, Weight>(str, current_weight));
+        display_map[str] = current_weight;
     }
 }
 
@@ -1875,11 +1873,15 @@ TransducerWUniq::printAnalyses(std::string prepend)
     int i = 0;
     float lowest_weight = -1;
     std::multimap<Weight, std::string> weight_sorted_map;
+    for (DisplayMap::iterator low = display_map.begin();
+         low != display_map.end(); ++low)
+    {
+        if (low == display_map.begin() || low->second < lowest_weight)
+            lowest_weight = low->second;
+    }
     DisplayMap::iterator it = display_map.begin();
     while (it != display_map.end())
     {
-        if (it == display_map.begin())
-            lowest_weight = it->second;
         if (beam < 0 || it->second <= (lowest_weight + beam))
             weight_sorted_map.insert(
                 std::pair<Weight, std::string>((*it).second, (*it).first));
@@ -1960,11 +1962,15 @@ TransducerWFdUniq::printAnalyses(std::string prepend)
     int i = 0;
     float lowest_weight = -1;
     std::multimap<Weight, std::string> weight_sorted_map;
+    for (DisplayMap::iterator low = display_map.begin();
+         low != display_map.end(); ++low)
+    {
+        if (low == display_map.begin() || low->second < lowest_weight)
+            lowest_weight = low->second;
+    }
     DisplayMap::iterator it;
     for (it = display_map.begin(); it != display_map.end(); it++)
     {
-        if (it == display_map.begin())
-            lowest_weight = it->second;
         if (beam < 0 || it->second <= (lowest_weight + beam))
             weight_sorted_map.insert(
                 std::pair<Weight, std::string>((*it).second, (*it).first));
-- 
2.43.0


From 356af51120f45b58cbc4f73af87d16ad4dd661fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 84/96] fix: hfst-flookup: do not set the limit of cycles from
 the argument of -X

---
 tools/src/hfst-flookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index 5c3ee93..c347325 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -473,6 +473,7 @@ parse_options(int argc, char **argv)
                 hfst_error(EXIT_FAILURE, 0, "Xfst variable %s unrecognised",
                            optarg);
             }
+            break;
         case 'c':
             infinite_cutoff = (size_t)atoi(hfst_strdup(optarg));
             break;
-- 
2.43.0


From 845c1f90cb1fb9fffe07b640839755bea43ab076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 85/96] fix: hfst-proc: keep the best weight of an analysis
 found twice

---
 tools/src/hfst-proc/lookup-state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/lookup-state.cc b/tools/src/hfst-proc/lookup-state.cc
index b7b9d8f..a7612a1 100644
--- a/tools/src/hfst-proc/lookup-state.cc
+++ b/tools/src/hfst-proc/lookup-state.cc
@@ -140,7 +140,7 @@ LookupState::get_finals_set() const
       {
         if(printDebuggingInformationFlag)
           std::cout << "  Duplicate LookupPath found" << std::endl;
-        if(*i < *(loc.first)) // if this form has a lower weight than the one there
+        if(LookupPathW::compare_weights(*i, *(loc.first))) // if this form has a lower weight than the one there
         {
           finals.erase(loc.first);
           finals.insert(*i);
-- 
2.43.0


From 0567bde3abca637e40305163166895a8b1e67696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 86/96] fix: hfst-proc: a symbol outside of the alphabet is not
 a tag

---
 tools/src/hfst-proc/alphabet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/src/hfst-proc/alphabet.cc b/tools/src/hfst-proc/alphabet.cc
index 168ad7b..c47e9f6 100644
--- a/tools/src/hfst-proc/alphabet.cc
+++ b/tools/src/hfst-proc/alphabet.cc
@@ -530,6 +530,8 @@ ProcTransducerAlphabet::is_space(const char *c) const
 bool
 ProcTransducerAlphabet::is_tag(SymbolNumber symbol) const
 {
+    if (symbol == NO_SYMBOL_NUMBER) // not in the alphabet
+        return false;
     std::string str = symbol_to_string(symbol);
     if (str[0] == '<' && str[str.length() - 1] == '>')
         return true;
-- 
2.43.0


From 9ea8f0155b6af40a969030669cde6ed96e725fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 87/96] fix: hfst-proc: analyse the last word of a text without
 a newline at its end

---
 tools/src/hfst-proc/alphabet.cc    |  8 +++++++-
 tools/src/hfst-proc/applicators.cc | 10 ++++------
 tools/src/hfst-proc/tokenizer.cc   |  5 +++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/tools/src/hfst-proc/alphabet.cc b/tools/src/hfst-proc/alphabet.cc
index c47e9f6..439615c 100644
--- a/tools/src/hfst-proc/alphabet.cc
+++ b/tools/src/hfst-proc/alphabet.cc
@@ -72,7 +72,11 @@ LetterTrie::extract_symbol(std::istream &is) const
 {
     int c = is.get();
     if (c == EOF)
-        return 0;
+    {
+        // no symbol continues here; let the caller put back what it has read
+        is.clear();
+        return NO_SYMBOL_NUMBER;
+    }
 
     if (letters[c] == NULL)
     {
@@ -137,6 +141,8 @@ SymbolNumber
 Symbolizer::extract_symbol(std::istream &is) const
 {
     int c = is.peek();
+    if (c == EOF)
+        return 0;
     if (c == 0)
         return NO_SYMBOL_NUMBER;
     if (ascii_symbols[c] == NO_SYMBOL_NUMBER || ascii_symbols[c] == 0)
diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 97428c7..34c0bff 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -92,7 +92,10 @@ AnalysisApplicator::apply()
     ProcResult analyzed_forms;
 
     Token next_token;
-    while ((next_token = token_stream.get_token()).type != None)
+    // the end of the stream ends the last word like any other
+    // non-alphabetic token
+    while ((next_token = token_stream.get_token()).type != None
+           || !surface_form.empty())
     {
         if (printDebuggingInformationFlag)
         {
@@ -240,11 +243,6 @@ AnalysisApplicator::apply()
 
     if (verboseFlag)
         std::cout << std::endl << "Got None/EOF symbol; done." << std::endl;
-
-    // print any valid transductions stored
-    if (analyzed_forms.size()
-        != 0) // && token_stream.get_pos() == last_stream_location)
-        formatter.print_word(surface_form, analyzed_forms);
 }
 
 //////////Function definitions for GenerationApplicator
diff --git a/tools/src/hfst-proc/tokenizer.cc b/tools/src/hfst-proc/tokenizer.cc
index 3ddaff7..234078c 100644
--- a/tools/src/hfst-proc/tokenizer.cc
+++ b/tools/src/hfst-proc/tokenizer.cc
@@ -374,8 +374,9 @@ TokenIOStream::get_token()
         return token_buffer.next();
 
     Token token = read_token();
-    if (token.type != None)
-        token_buffer.add(token);
+    // the end of the stream is a token in the buffer, too, so that moving back
+    // over it works as for any other token
+    token_buffer.add(token);
     return token;
 }
 
-- 
2.43.0


From 462cef68a058d22f911c05a753922ebaaf739299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 88/96] fix: hfst-proc: do not lose text after a character that
 begins no word

---
 tools/src/hfst-proc/applicators.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 34c0bff..4abb2e6 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -195,7 +195,12 @@ AnalysisApplicator::apply()
                 {
                     if (formatter.preserve_nonalphabetic())
                         token_stream << surface_form[0];
-                    token_stream.move_back(surface_form.size() - 1);
+                    // next_token was read after surface_form unless it was
+                    // made a part of it
+                    token_stream.move_back(surface_form.size()
+                                           - (next_token_is_part_of_word
+                                                  ? 1
+                                                  : 0));
                 }
                 else
                 {
-- 
2.43.0


From 599c69513e0a629c35aa2fdac3ea5647ff728cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 89/96] fix: hfst-proc: close the quotes of analyses that end
 in a compound boundary

---
 tools/src/hfst-proc/formatter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/formatter.cc b/tools/src/hfst-proc/formatter.cc
index fbb1547..47686bf 100644
--- a/tools/src/hfst-proc/formatter.cc
+++ b/tools/src/hfst-proc/formatter.cc
@@ -266,7 +266,7 @@ CGOutputFormatter::process_final(const SymbolNumberVector& symbols, Capitalizati
 
   res << '"'; // before start of lexical form
 
-  while(start_pos < symbols.size())
+  while(true) // the last segment may be empty
   {
     size_t tag_start = symbols.size();
     size_t compound_split = symbols.size();
-- 
2.43.0


From f71fa182f5038d64dccbb87a8d88b3def76828d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 90/96] fix: pmatch: without an input mark in the alphabet, do
 not take epsilons for it

---
 libhfst/src/implementations/optimized-lookup/pmatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.h b/libhfst/src/implementations/optimized-lookup/pmatch.h
index 8a77eec..8870d7d 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.h
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.h
@@ -57,7 +57,7 @@ namespace hfst_ol {
     class PmatchAlphabet: public TransducerAlphabet {
     protected:
         RtnVector rtns;
-        SymbolNumber input_mark_symbol = 0;
+        SymbolNumber input_mark_symbol = NO_SYMBOL_NUMBER;
         SymbolNumberVector special_symbols;
         std::map<SymbolNumber, std::string> end_tag_map;
         std::map<std::string, SymbolNumber> capture_tag_map;
-- 
2.43.0


From 994f8ae5a7d86245dde13813a465543f8f55b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 91/96] fix: hfst-tokenize -x: do not lose tokens whose
 analyses beside the plain one are beyond the beam

---
 .../optimized-lookup/pmatch_tokenize.cc       | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch_tokenize.cc b/libhfst/src/implementations/optimized-lookup/pmatch_tokenize.cc
index fd79d84..def6558 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch_tokenize.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch_tokenize.cc
@@ -1043,25 +1043,27 @@ print_location_vector(hfst_ol::PmatchContainer &container,
             if ((s.beam < 0.0 || loc_it->weight <= best_weight + s.beam) &&
                 // We don't print "plain" tokens without any analysis
                 // except if they are the only one present
-                (loc_it->output.compare(loc_it->input) != 0
-                 || (loc_it + 1 == locations.end() && !printed_something)))
+                loc_it->output.compare(loc_it->input) != 0)
             {
                 outstream << loc_it->input << "\t" << loc_it->output;
                 if (s.print_weights)
                 {
-                    if (loc_it + 1 == locations.end() && !printed_something)
-                    {
-                        outstream << "\t" << best_weight;
-                    }
-                    else
-                    {
-                        outstream << "\t" << loc_it->weight;
-                    }
+                    outstream << "\t" << loc_it->weight;
                 }
                 outstream << std::endl;
                 printed_something = true;
             }
         }
+        if (!printed_something) // all, or all within the beam, are plain
+        {
+            outstream << locations.at(0).input << "\t"
+                      << locations.at(0).input;
+            if (s.print_weights)
+            {
+                outstream << "\t" << best_weight;
+            }
+            outstream << std::endl;
+        }
         if (locations.at(0).tag == "<Boundary=Sentence>")
         {
             outstream << std::endl;
-- 
2.43.0


From 3db41834251f78fc2ecf78e5db5619235cbfc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 92/96] fix: hfst-proc -z: print the NUL after what comes
 before it

---
 tools/src/hfst-proc/applicators.cc |  5 ++++-
 tools/src/hfst-proc/tokenizer.cc   | 16 ++++++++++++----
 tools/src/hfst-proc/tokenizer.h    |  2 ++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 4abb2e6..c21f8ab 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -69,6 +69,8 @@ TokenizationApplicator::apply()
     while ((next_token = token_stream.get_token()).type != None)
     {
         std::cout << process_token(next_token) << std::endl;
+        if (token_stream.is_null_flush(next_token))
+            token_stream << next_token;
         if (printDebuggingInformationFlag)
             alltokens.insert(next_token);
     }
@@ -166,7 +168,8 @@ AnalysisApplicator::apply()
             if (surface_form.empty()
                 && !token_stream.is_alphabetic(next_token))
             {
-                if (formatter.preserve_nonalphabetic())
+                if (formatter.preserve_nonalphabetic()
+                    || token_stream.is_null_flush(next_token))
                     token_stream << next_token;
             }
             else if (analyzed_forms.size() == 0
diff --git a/tools/src/hfst-proc/tokenizer.cc b/tools/src/hfst-proc/tokenizer.cc
index 234078c..ed5b0b9 100644
--- a/tools/src/hfst-proc/tokenizer.cc
+++ b/tools/src/hfst-proc/tokenizer.cc
@@ -147,6 +147,12 @@ TokenIOStream::is_space(const Token &t) const
     }
 }
 
+bool
+TokenIOStream::is_null_flush(const Token &t) const
+{
+    return null_flush && t.type == Character && t.character[0] == '\0';
+}
+
 bool
 TokenIOStream::is_alphabetic(const Token &t) const
 {
@@ -294,11 +300,10 @@ TokenIOStream::read_token()
     if (is.eof())
         return Token();
 
+    // the output is flushed when the token is written, i.e. after everything
+    // that comes before it
     if (next_char == 0 && null_flush)
-    {
-        do_null_flush();
         return Token::as_character(is.get());
-    }
 
     if (escaped_chars.find(next_char) != escaped_chars.end())
     {
@@ -383,7 +388,10 @@ TokenIOStream::get_token()
 void
 TokenIOStream::put_token(const Token &t)
 {
-    os << token_to_string(t);
+    if (is_null_flush(t))
+        do_null_flush();
+    else
+        os << token_to_string(t);
 }
 
 void
diff --git a/tools/src/hfst-proc/tokenizer.h b/tools/src/hfst-proc/tokenizer.h
index 0ea02da..d7059c3 100644
--- a/tools/src/hfst-proc/tokenizer.h
+++ b/tools/src/hfst-proc/tokenizer.h
@@ -257,6 +257,8 @@ class TokenIOStream
 
     bool is_space(const Token &t) const;
     bool is_alphabetic(const Token &t) const;
+    /** whether the token asks for flushing the output (-z) */
+    bool is_null_flush(const Token& t) const;
 
     /**
      * Get a symbol representation of the token. The conversion depends on the
-- 
2.43.0


From 714a351e61d39bc3fb11a8be09d0c4d82b5fd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 93/96] fix: hfst-tokenize: let the naive tokenizer find words
 that are not in the dictionary

---
 tools/src/hfst-tokenize.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-tokenize.cc b/tools/src/hfst-tokenize.cc
index 436cd16..9fade7f 100644
--- a/tools/src/hfst-tokenize.cc
+++ b/tools/src/hfst-tokenize.cc
@@ -144,8 +144,9 @@ make_naive_tokenizer(HfstTransducer *dictionary)
     HfstTransducer *others
         = hfst::pmatch::make_exc_list(word_boundary, default_format);
     others->repeat_plus();
-    // make the default token less likely than any dictionary token
-    others->set_final_weights(std::numeric_limits<float>::max());
+    // make the default token less likely than any dictionary token, but stay
+    // below the weight from which on matches are given up
+    others->set_final_weights(hfst_ol::INFINITE_WEIGHT / 2);
     HfstTransducer *word_boundary_list
         = hfst::pmatch::make_list(word_boundary, default_format);
     // @BOUNDARY@ is pmatch's special input boundary marker
-- 
2.43.0


From c267e33a28f57dd64212eb26b6f7b62a5041bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 94/96] fix: hfst-tokenize: make --space-separated work

---
 tools/src/hfst-tokenize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-tokenize.cc b/tools/src/hfst-tokenize.cc
index 9fade7f..53ec01f 100644
--- a/tools/src/hfst-tokenize.cc
+++ b/tools/src/hfst-tokenize.cc
@@ -509,7 +509,7 @@ parse_options(int argc, char **argv)
                 { "weight-classes", required_argument, 0, 'l' },
                 { "unique", no_argument, 0, 'u' },
                 { "segment", no_argument, 0, 'z' },
-                { "space-separated", no_argument, 0, 'd' },
+                { "space-separated", no_argument, 0, 'i' },
                 { "xerox", no_argument, 0, 'x' },
                 { "cg", no_argument, 0, 'c' },
                 { "superblanks", no_argument, 0, 'S' },
-- 
2.43.0


From 7c47d8d19dd7115a3548ff611b5312235f996890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:14 +0000
Subject: [PATCH 95/96] fix: hfst-proc: find the token before the first one of
 the buffer

---
 tools/src/hfst-proc/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/buffer.h b/tools/src/hfst-proc/buffer.h
index 928bc92..e0f02ad 100644
--- a/tools/src/hfst-proc/buffer.h
+++ b/tools/src/hfst-proc/buffer.h
@@ -187,7 +187,8 @@ public:
    */
   T & get(size_t pos) const
     {
-      return buf[pos];
+      // the position before the first one is the last one
+      return buf[(pos + size) % size];
     }
  
   /**
-- 
2.43.0


From 9c1e0530612fcdd6bb70856423527e2272a1cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:14 +0000
Subject: [PATCH 96/96] fix: hfst-proc: do not look beyond the index table for
 symbols without an index

---
 tools/src/hfst-proc/lookup-state.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/hfst-proc/lookup-state.cc b/tools/src/hfst-proc/lookup-state.cc
index a7612a1..e86f2a2 100644
--- a/tools/src/hfst-proc/lookup-state.cc
+++ b/tools/src/hfst-proc/lookup-state.cc
@@ -271,6 +271,10 @@ LookupState::try_index(LookupPathVector& new_paths,
                          const LookupPath& path,
                          const SymbolNumber input) const
 {
+  // other symbols, e.g. those added for the blank or for case, have no index
+  if(input >= transducer.get_header().input_symbol_count())
+    return false;
+
   //??? is the +1 here correct?
   TransitionIndex index = transducer.get_index(path.get_index()+input+1);
   
-- 
2.43.0

