----------------------------- MODULE KnownData -----------------------------
(* Known data: rows of the result that are given beforehand.  Adjacency       *)
(* decomposition starts from the first of them instead of from a facet it has *)
(* found itself, and feeds the others in while it runs.                       *)
(*                                                                            *)
(* Theory (checked on the universe of descriptions): the graph of the facets  *)
(* of the polyhedron without the face at infinity - two facets are adjacent   *)
(* if they share a ridge - is connected, so the closure of any non-empty set  *)
(* of known facets is the set of all facets; dually for extreme rays.         *)
(* Plans: sequences of references to rows of the result, each with a scale    *)
(* and a multiple of an equation to be added; TLC enumerates all of them up   *)
(* to MaxLen and each one is replayed into the real program.                  *)
EXTENDS Polyhedra
CONSTANTS Items, Scales, MaxShift, MaxLen
VARIABLE plan
Shifts == -MaxShift..MaxShift

Init == plan = <<>>
Next == /\ Len(plan) < MaxLen
        /\ \E k \in Items, s \in Scales, e \in Shifts : plan' = Append(plan, <<k, s, e>>)

(* ---- what a plan does to a run ---- *)
Adjacent(G, F, H) == F # H /\ Rank(SubSeqOf(G, F \cap H)) = Rank(G) - 2
RECURSIVE Closure(_, _, _)
Closure(G, X, fs) == LET Y == X \cup {H \in fs : \E F \in X : Adjacent(G, F, H)}
                     IN IF Y = X THEN X ELSE Closure(G, Y, fs)
AnyFacetSuffices(G) == LET fs == FacetsOfPolyhedron(G) IN \A F \in fs : Closure(G, {F}, fs) = fs

AdjacentRays(A, n, y, z) == y # z /\ LET t == {k \in 1..Len(A) : Dot(A[k], y) = 0 /\ Dot(A[k], z) = 0}
                                     IN Rank(SubSeqOf(A, t)) = n - 2
RECURSIVE RayClosure(_, _, _, _)
RayClosure(A, n, X, rs) == LET Y == X \cup {z \in rs : \E y \in X : AdjacentRays(A, n, y, z)}
                           IN IF Y = X THEN X ELSE RayClosure(A, n, Y, rs)
AnyRaySuffices(A, E, n) ==
  LET rs == ExtremeRays(A, E, n)
      all == Append(A, [i \in 1..n |-> IF i = n THEN -1 ELSE 0]) \o E
  IN \A y \in rs : RayClosure(all, n, {y}, rs) = rs
(* a plan touches only true rows and a reference is never lost               *)
PlanWellFormed == \A k \in 1..Len(plan) : plan[k][2] > 0 /\ plan[k][1] \in Items
=============================================================================
