----------------------------- MODULE LargeTheory -----------------------------
(* The definitions for large numbers agree with those for small ones: checked  *)
(* for every description of GeneratorUniverse, with numbers of several digits. *)
EXTENDS GeneratorUniverse
B == INSTANCE LargeGeometry WITH Base <- 3
Lift(M) == [k \in 1..Len(M) |-> [j \in 1..Len(M[k]) |-> B!Of(M[k][j])]]
Agree ==
  verts # <<>> =>
    LET G == Gens  L == Lift(G)
    IN /\ B!BRank(L) = Rank(G)
       /\ B!BFacetsOfCone(L) = FacetsOfCone(G)
       /\ B!BFacetsOfPolyhedron(L) = FacetsOfPolyhedron(G)
=============================================================================
