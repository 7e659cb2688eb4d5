------------------------------ MODULE Options ------------------------------
(* The command line: documented options, how they are spelled, what a sequence   *)
(* of arguments means.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Keys == {"i", "m", "s", "t", "k"}
Longs(key) ==
   CASE key = "i" -> {"--integer-type"}
     [] key = "m" -> {"--method"}
     [] key = "s" -> {"--sorting"}
     [] key = "t" -> {"--threads"}
     [] key = "k" -> {"--known-data", "--known-facets", "--known-vertices"}
(* documented values; every value has one meaning                                *)
Meanings(key) ==
   CASE key = "i" -> [v \in {"16", "32", "64", "safe", "inf"} |-> v]
     [] key = "m" -> [v \in {"ad", "adjacency-decomposition", "dd", "double-description"} |->
                        IF v \in {"ad", "adjacency-decomposition"} THEN "ad" ELSE "dd"]
     [] key = "s" -> [v \in {"lex_asc", "lexicographic_ascending", "lex_up", "lex_desc", "lexicographic_descending", "lex_down",
                             "nz_asc", "nonzero_ascending", "nz_up", "nz_desc", "nonzero_descending", "nz_down", "rev", "reverse"} |->
                        CASE v \in {"lex_asc", "lexicographic_ascending", "lex_up"} -> "lex_asc"
                          [] v \in {"lex_desc", "lexicographic_descending", "lex_down"} -> "lex_desc"
                          [] v \in {"nz_asc", "nonzero_ascending", "nz_up"} -> "nz_asc"
                          [] v \in {"nz_desc", "nonzero_descending", "nz_down"} -> "nz_desc"
                          [] v \in {"rev", "reverse"} -> "rev"]
     [] key = "t" -> [v \in {"1", "2", "3", "5", "11"} |-> v]
     [] key = "k" -> [v \in {"known"} |-> v]
Illegal(key) ==
   CASE key = "i" -> {"8", "128", "", "x", "inf2", "saf", "6 4"}
     [] key = "m" -> {"", "x", "d", "ddd", "add", "double", "fm"}
     [] key = "s" -> {"", "x", "lexx", "le", "nx", "n", "nzz", "lex_", "lexfoo", "rev_", "asc", "lex_ascx", "nonzero_x", "lexicographicx", "nonzer"}
     [] key = "t" -> {"", "x", "0", "-1", "1x", "1.5", "99999999999", "2 3", "two"}
     [] key = "k" -> {"", "nofile", "broken"}

Item(what, key, form, text) == [what |-> what, key |-> key, form |-> form, text |-> text]
Values(key) == DOMAIN Meanings(key) \union Illegal(key)
(* -x v, -x=v and --long=v; -x at the end, --long and -xv are errors             *)
OptionItems(key, values) ==
   {Item("option", key, f, v) : f \in {"split", "attached"} \union Longs(key), v \in values}
BrokenItems(key, values) ==
   {Item("option", key, "bare", "")} \union {Item("option", key, "longbare", l) : l \in Longs(key)}
   \union {Item("option", key, "glued", v) : v \in values} \union {Item("option", key, "longsplit", v) : v \in values}
FlagItems == {Item("flag", "c", "alone", "-c"), Item("flag", "c", "alone", "--check")}
FileItems == {Item("file", "", "alone", "input")}
HelpItems == {Item("help", "", "alone", x) : x \in {"--h", "-help", "--help", "?"}} \union {Item("help", "", "last", "-h")}
VersionItems == {Item("version", "", "alone", x) : x \in {"-v", "--v", "-version", "--version"}}
Topic(text) ==
   CASE text \in {"c", "-c", "check", "--check"} -> "c"
     [] text \in {"h", "-h", "--h", "-help", "--help", "help", "?", "help-command", "--help-command"} -> "h"
     [] text \in {"i", "-i", "integer-type", "--integer-type"} -> "i"
     [] text \in {"k", "-k", "known-data", "--known-data", "known-facets", "--known-facets", "known-vertices", "--known-vertices"} -> "k"
     [] text \in {"m", "-m", "method", "--method"} -> "m"
     [] text \in {"s", "-s", "sorting", "--sorting"} -> "s"
     [] text \in {"t", "-t", "threads", "--threads"} -> "t"
     [] text \in {"v", "-v", "--v", "-version", "--version", "version"} -> "v"
     [] OTHER -> "none"
TopicTexts == {"c", "-c", "check", "--check", "h", "-h", "--h", "-help", "--help", "help", "?", "help-command", "--help-command",
               "i", "-i", "integer-type", "--integer-type", "k", "-k", "known-data", "--known-data", "known-facets", "--known-facets",
               "known-vertices", "--known-vertices", "m", "-m", "method", "--method", "s", "-s", "sorting", "--sorting",
               "t", "-t", "threads", "--threads", "v", "-v", "--v", "-version", "--version", "version", "x", "tt", "integer", ""}
TopicItems(texts) == {Item("topic", "", f, x) : f \in {"split", "-h", "--help", "--help-command"}, x \in texts}

Tokens(it) ==
   CASE it.form = "alone" \/ it.form = "last" -> <<it.text>>
     [] it.what = "topic" /\ it.form = "split" -> <<"-h", it.text>>
     [] it.what = "topic" -> <<it.form \o "=" \o it.text>>
     [] it.form = "split" -> <<"-" \o it.key, it.text>>
     [] it.form = "attached" -> <<"-" \o it.key \o "=" \o it.text>>
     [] it.form = "bare" -> <<"-" \o it.key>>
     [] it.form = "longbare" -> <<it.text>>
     [] it.form = "glued" -> <<"-" \o it.key \o it.text>>
     [] it.form = "longsplit" -> <<CHOOSE l \in Longs(it.key) : TRUE, it.text>>
     [] OTHER -> <<it.form \o "=" \o it.text>>

Default(key) ==
   CASE key = "i" -> "default" [] key = "m" -> "ad" [] key = "s" -> "none" [] key = "t" -> "default" [] key = "k" -> "none"
(* direction: "facets" or "vertices" to be computed from the input file           *)
BadItem(it, direction) ==
   it.what = "option" /\ (\/ it.form \in {"bare", "longbare", "glued", "longsplit"}
                          \/ it.text \notin DOMAIN Meanings(it.key)
                          \/ it.form = "--known-facets" /\ direction # "facets"
                          \/ it.form = "--known-vertices" /\ direction # "vertices")
Info == {"help", "version", "topic"}
Meaning(items, direction) ==
   LET R == {items[k] : k \in DOMAIN items}
       info == {k \in DOMAIN items : items[k].what \in Info}
       first == items[CHOOSE k \in info : \A l \in info : k <= l]
       val(key) == LET S == {it \in R : it.what = "option" /\ it.key = key}
                   IN  IF S = {} THEN Default(key) ELSE LET it == CHOOSE it \in S : TRUE IN Meanings(key)[it.text]
       \* double description has no use for a number of threads
       dd == \E o \in R : o.what = "option" /\ o.key = "m" /\ ~BadItem(o, direction) /\ Meanings("m")[o.text] = "dd"
       none == [mode |-> "error", i |-> "", m |-> "", s |-> "", t |-> "", k |-> "", c |-> FALSE]
   IN  IF items = <<>> THEN [none EXCEPT !.mode = "help"]
       ELSE IF info # {} THEN [none EXCEPT !.mode = IF first.what = "topic" THEN (IF Topic(first.text) = "none" THEN "error" ELSE "topic " \o Topic(first.text)) ELSE first.what]
       ELSE IF Cardinality({k \in DOMAIN items : items[k].what = "file"}) # 1 THEN none
       ELSE IF \E it \in R : BadItem(it, direction) /\ ~(it.key = "t" /\ dd) THEN none
       ELSE [mode |-> direction, i |-> val("i"), m |-> val("m"), s |-> val("s"),
             t |-> IF \E it \in R : BadItem(it, direction) THEN "unused" ELSE val("t"), k |-> val("k"), c |-> \E it \in R : it.what = "flag"]

(* ---------------------------------------------------------------- sorting *)
Less(a, b) == \E n \in DOMAIN a : a[n] < b[n] /\ \A l \in 1 .. n - 1 : a[l] = b[l]
Zeros(a) == Cardinality({n \in DOMAIN a : a[n] = 0})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A x \in {a[k] : k \in DOMAIN a} \union {b[k] : k \in DOMAIN b} :
   Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
Ordered(order, before, after) ==
   /\ IsPermutation(before, after)
   /\ CASE order = "none" -> after = before
        [] order = "rev" -> after = Reverse(before)
        [] OTHER -> \A k, l \in DOMAIN after : k < l =>
             CASE order = "lex_asc" -> ~Less(after[l], after[k])
               [] order = "lex_desc" -> ~Less(after[k], after[l])
               [] order = "nz_asc" -> Zeros(after[k]) >= Zeros(after[l])
               [] order = "nz_desc" -> Zeros(after[k]) <= Zeros(after[l])
=============================================================================
