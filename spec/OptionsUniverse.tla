--------------------------- MODULE OptionsUniverse ---------------------------
(* Command lines: sequences of items in every order.                             *)
EXTENDS Options
CONSTANTS Level, MaxItems
VARIABLES items, argv

Few(key) == CASE key = "i" -> {"64", "inf", "x"} [] key = "m" -> {"dd", "adjacency-decomposition", "x"}
              [] key = "s" -> {"lex_asc", "nonzero_descending", "rev", "lexx"} [] key = "t" -> {"1", "3", "0"} [] key = "k" -> {"known", "nofile"}
One(key) == CASE key = "i" -> {"safe"} [] key = "m" -> {"dd"} [] key = "s" -> {"rev"} [] key = "t" -> {"2"} [] key = "k" -> {"known"}
Vocabulary ==
   CASE Level = "full" -> UNION {OptionItems(k, Values(k)) \union BrokenItems(k, DOMAIN Meanings(k)) : k \in Keys}
                          \union FlagItems \union HelpItems \union VersionItems \union TopicItems(TopicTexts) \union FileItems
     [] Level = "pairs" -> UNION {OptionItems(k, Few(k)) \union BrokenItems(k, One(k)) : k \in Keys}
                          \union FlagItems \union HelpItems \union VersionItems \union TopicItems({"-t", "x"}) \union FileItems
     [] Level = "many" -> UNION {OptionItems(k, One(k)) \union {Item("option", k, "bare", "")} : k \in Keys}
                          \union FlagItems \union FileItems \union {Item("help", "", "last", "-h"), Item("version", "", "alone", "--version")}

Final(it) == it.form \in {"bare", "last"}
Count(what) == Cardinality({k \in DOMAIN items : items[k].what = what})
May(it) ==
   /\ Len(items) < MaxItems
   /\ \A k \in DOMAIN items : ~Final(items[k])
   /\ CASE it.what = "option" -> \A k \in DOMAIN items : items[k].key # it.key
        [] it.what = "flag" -> Count("flag") = 0
        [] it.what \in Info -> \A k \in DOMAIN items : items[k].what \notin Info
        [] it.what = "file" -> Count("file") < 2
   /\ Level = "full" => Count("file") + (IF it.what = "file" THEN 1 ELSE 0) >= Len(items)
Init == items = <<>> /\ argv = <<>>
Next == \E it \in Vocabulary : May(it) /\ items' = Append(items, it) /\ argv' = argv \o Tokens(it)

(* every line means something; permuting items does not matter as long as the    *)
(* last ones stay (checked as: moving the first item behind the second)          *)
Swapped == <<items[2], items[1]>> \o SubSeq(items, 3, Len(items))
OrderIrrelevant ==
   (Len(items) >= 2 /\ ~Final(items[2])) => \A d \in {"facets", "vertices"} : Meaning(Swapped, d) = Meaning(items, d)
ErrorsPersist ==
   \A d \in {"facets", "vertices"} :
      (Len(items) > 1 /\ (\E k \in DOMAIN items : items[k].key # "t" /\ BadItem(items[k], d)) /\ \A k \in DOMAIN items : items[k].what \notin Info) => Meaning(items, d).mode = "error"
=============================================================================
