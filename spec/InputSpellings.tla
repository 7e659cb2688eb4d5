--------------------------- MODULE InputSpellings ---------------------------
(* Every word for every section, with and without a colon, with and without an    *)
(* end mark, in every order of the sections that is possible.                     *)
EXTENDS InputLanguage
VARIABLES order, at, word, colon, end

Contents == {{"names", "maps", "conv", "cone"}, {"names", "maps", "rconv", "rcone"}, {"names", "maps", "rconv", "cone"}, {"names", "maps", "conv", "rcone"},
             {"names", "maps", "dim", "ineq", "eq"}, {"names", "maps", "dim", "rineq"}, {"dim", "ineq"}, {"dim", "conv"}}
Position(o, kind) == CHOOSE k \in DOMAIN o : o[k] = kind
(* maps use names; rows that stand for a class need the maps                       *)
Before(o, a, b) == (\E k \in DOMAIN o : o[k] = a) /\ (\E k \in DOMAIN o : o[k] = b) => Position(o, a) < Position(o, b)
Possible(o) == Before(o, "names", "maps") /\ \A r \in ReducedKinds : Before(o, "maps", r)
Orders(S) == {o \in [1 .. Cardinality(S) -> S] : (\A k, l \in DOMAIN o : k # l => o[k] # o[l]) /\ Possible(o)}

Init == /\ \E S \in Contents : order \in Orders(S)
        /\ at \in DOMAIN order
        /\ word \in Words(order[at])
        /\ colon \in (IF order[at] = "dim" THEN {FALSE} ELSE BOOLEAN)
        /\ end \in (IF order[at] \in {"dim", "names"} THEN {""} ELSE {"", "END", "End"})
Next == UNCHANGED <<order, at, word, colon, end>>
(* no word has two meanings                                                       *)
Unambiguous == \A k \in Kinds \union ReducedKinds : word \in Words(k) => k = order[at]
=============================================================================
