------------------------- MODULE PolytopeAlgebraMC -------------------------
(* Model checking of the closed forms: all terms of bounded size, built by  *)
(* one constructor per step, against the definition of facets.              *)
EXTENDS PolytopeAlgebra
CONSTANTS MaxDim, MaxGens, MaxSteps
VARIABLES t, steps

Atoms == {[op |-> "simplex", d |-> d] : d \in 0..3}
         \cup {[op |-> "cyclic", n |-> n, d |-> d, o |-> o] : n \in 3..6, d \in 1..4, o \in {1, 3}}
         \cup {[op |-> "cross", d |-> d] : d \in 1..3}
OkAtom(a) == a.op = "cyclic" => a.n > a.d
(* free sums need the origin in the relative interior of both *)
Centred(a) == a.op = "cross" \/ (a.op = "cyclic" /\ a.d = 1 /\ a.o = 3 /\ a.n > 3)

Init == t \in {a \in Atoms : OkAtom(a)} /\ steps = 0
Small(x) == AmbientDim(x) <= MaxDim /\ NumGens(x) <= MaxGens
Second == {[op |-> "simplex", d |-> 0], [op |-> "simplex", d |-> 1], [op |-> "simplex", d |-> 2],
           [op |-> "cyclic", n |-> 4, d |-> 1, o |-> 1], [op |-> "cyclic", n |-> 4, d |-> 2, o |-> 2], [op |-> "cross", d |-> 2]}
Binary == \E b \in Second, op \in {"product", "join"} :
             /\ ~(op = "product" /\ HasRays(t))
             /\ LET x == [op |-> op, a |-> t, b |-> b] IN Small(x) /\ t' = x
Sum == /\ Centred(t)
       /\ \E b \in {[op |-> "cross", d |-> 1], [op |-> "cross", d |-> 2]} :
             LET x == [op |-> "freesum", a |-> t, b |-> b] IN Small(x) /\ t' = x
Redundant == /\ t.op # "redundant"
             /\ \E S \in {x \in SUBSET (1..NumGens(t)) : Cardinality(x) \in {1, 2}} :
                  /\ ~HasRays(t)
                  /\ LET x == [op |-> "redundant", a |-> t, s |-> <<SetToSortSeq(S, <), SetToSortSeq(1..NumGens(t), <)>>]
                     IN Small(x) /\ t' = x
Orthant == /\ t.op # "orthant"
           /\ \E k \in 1..2 : LET x == [op |-> "orthant", a |-> t, k |-> k] IN Small(x) /\ t' = x
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Binary \/ Sum \/ Redundant \/ Orthant)

ClosedFormIsRight == /\ FacetsOfCone(Realise(t)) = Facets(t)
                     /\ Len(Realise(t)) = NumGens(t)
                     /\ \A g \in Range(Realise(t)) : Len(g) = AmbientDim(t) + 1
                     /\ (HasRays(t) <=> RayIdx(Realise(t)) # {})
=============================================================================
