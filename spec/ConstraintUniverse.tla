------------------------- MODULE ConstraintUniverse ------------------------
(* The inputs of vertex enumeration as a transition system (see             *)
(* GeneratorUniverse): rows a with a . (x, 1) <= 0, and equations.           *)
EXTENDS Polyhedra
CONSTANTS Dim, Below, Hi, RhsBelow, RhsHi, MaxRows, MaxEqs, Box
VARIABLES rows, eqs

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
Pool == {Append(v, b) : v \in {w \in [1..Dim -> -Below..Hi] : ~IsZero(w)}, b \in -RhsBelow..RhsHi}
(* Box: start from the non-negativity rows, so that the system is pointed   *)
Start == IF Box THEN [k \in 1..Dim |-> [c \in 1..(Dim + 1) |-> IF c = k THEN -1 ELSE 0]] ELSE <<>>

Init == rows = Start /\ eqs = <<>>
AddRow == /\ Len(rows) < MaxRows + Len(Start) /\ eqs = <<>>
          /\ \E v \in Pool : /\ (Len(rows) = Len(Start) \/ LexLess(rows[Len(rows)], v)) = TRUE
                             /\ rows' = Append(rows, v)
          /\ UNCHANGED eqs
AddEq == /\ rows # <<>> /\ Len(eqs) < MaxEqs
         /\ \E v \in Pool : /\ (eqs = <<>> \/ LexLess(eqs[Len(eqs)], v)) = TRUE
                            /\ eqs' = Append(eqs, v)
         /\ UNCHANGED rows
Next == AddRow \/ AddEq

N == Dim + 1
InDomain == rows # <<>> /\ Pointed(rows, eqs, N) /\ \E y \in ExtremeRays(rows, eqs, N) : y[N] > 0
(* ---- theory: the extreme rays of a pointed cone are its minimal           *)
(* generators, so the facets of their cone are (up to the equations) given   *)
(* by rows of the description                                                *)
Weyl ==
  InDomain =>
    LET P == SetToSeq(ExtremeRays(rows, eqs, N))
        all == Append(rows, [c \in 1..N |-> IF c = N THEN -1 ELSE 0])
        tights == {TightIdx(Signs(all[k], P)) : k \in 1..Len(all)}
    IN FacetsOfCone(P) \subseteq tights
ExtremeAreIrredundant ==
  InDomain =>
    LET P == SetToSeq(ExtremeRays(rows, eqs, N))
        fs == FacetsOfCone(P)
    IN \A a \in 1..Len(P), b \in 1..Len(P) : a # b =>
          ~({F \in fs : a \in F} \subseteq {F \in fs : b \in F})
=============================================================================
