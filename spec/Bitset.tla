------------------------------- MODULE Bitset -------------------------------
(* Registers that hold finite sets of indices, and the operations on them.    *)
(* `bound` is the number of indices in use; all members are below it.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Registers
R == 1 .. Registers

(* an instruction [op, d, s, t, x]                                             *)
Legal(sets, bound, i) ==
   CASE i.op = "set" -> i.x < bound
     [] i.op = "grow" -> i.x >= bound
     [] OTHER -> TRUE
Apply(sets, i) ==
   CASE i.op = "set" -> [sets EXCEPT ![i.d] = @ \cup {i.x}]
     [] i.op = "merge" -> [sets EXCEPT ![i.d] = sets[i.s] \cup sets[i.t]]
     [] i.op = "copy" -> [sets EXCEPT ![i.d] = sets[i.s]]
     [] i.op = "swap" -> [sets EXCEPT ![i.d] = sets[i.s], ![i.s] = sets[i.d]]
     [] i.op = "grow" -> sets
Bound(bound, i) == IF i.op = "grow" THEN i.x ELSE bound

(* what can be asked                                                           *)
Equal(sets) == [a \in R |-> [b \in R |-> sets[a] = sets[b]]]
Contains(sets) == [a \in R |-> [b \in R |-> sets[b] \subseteq sets[a]]]
Count(sets) == [a \in R |-> Cardinality(sets[a])]
UnionCount(sets) == [a \in R |-> [b \in R |-> Cardinality(sets[a] \cup sets[b])]]
UnionContains(sets) == [a \in R |-> [b \in R |-> [c \in R |-> sets[c] \subseteq sets[a] \cup sets[b]]]]
=============================================================================
