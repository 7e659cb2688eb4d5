----------------------------- MODULE BitsetWords -----------------------------
(* Sets stored in words of Width bits, and operations on the words that are in  *)
(* use: a refinement of Bitset.  The invariants are what makes the word-wise    *)
(* operations correct: with all members below `bound` it is enough to look at   *)
(* the words up to the one that contains bound - 1.  (Words are sets of bit      *)
(* positions here; what the machine does with them is bitwise.)                 *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Width, Words
VARIABLES bound, sets
Capacity == Width * Words
S == INSTANCE Bitset WITH Registers <- 2

Encode(A) == [w \in 1 .. Words |-> {i % Width : i \in {i \in A : i \div Width = w - 1}}]
Decode(e) == {Width * (w - 1) + p : w \in 1 .. Words, p \in 0 .. Width - 1} \cap
             UNION {{Width * (w - 1) + p : p \in e[w]} : w \in 1 .. Words}
Used == 1 .. 1 + (bound - 1) \div Width
E == [r \in 1 .. 2 |-> Encode(sets[r])]
Sum[w \in 0 .. Words] == IF w = 0 THEN 0 ELSE Sum[w - 1] + (IF w \in Used THEN Cardinality(E[1][w]) ELSE 0)
USum[w \in 0 .. Words] == IF w = 0 THEN 0
   ELSE USum[w - 1] + (IF w \in Used THEN Cardinality(E[1][w]) + Cardinality(E[2][w]) - Cardinality(E[1][w] \cap E[2][w]) ELSE 0)

Init == bound \in 1 .. Capacity /\ sets \in [1 .. 2 -> SUBSET (0 .. Capacity - 1)] /\ \A r \in 1 .. 2 : sets[r] \subseteq 0 .. bound - 1
Next == \E i \in {[op |-> "set", d |-> d, s |-> 0, t |-> 0, x |-> x] : d \in 1 .. 2, x \in 0 .. Capacity - 1}
            \cup {[op |-> "merge", d |-> d, s |-> 1, t |-> 2, x |-> 0] : d \in 1 .. 2} \cup {[op |-> "grow", d |-> 0, s |-> 0, t |-> 0, x |-> x] : x \in 1 .. Capacity} :
           S!Legal(sets, bound, i) /\ sets' = S!Apply(sets, i) /\ bound' = S!Bound(bound, i)

Faithful == \A r \in 1 .. 2 : Decode(E[r]) = sets[r]
EqualByWords == S!Equal(sets)[1][2] <=> \A w \in Used : E[1][w] = E[2][w]
ContainsByWords == S!Contains(sets)[1][2] <=> \A w \in Used : E[1][w] \cap E[2][w] = E[2][w]
CountByWords == S!Count(sets)[1] = Sum[Words]
UnionCountByWords == S!UnionCount(sets)[1][2] = USum[Words]
MergeByWords == Decode([w \in 1 .. Words |-> IF w \in Used THEN E[1][w] \cup E[2][w] ELSE E[1][w]]) = sets[1] \cup sets[2]
=============================================================================
