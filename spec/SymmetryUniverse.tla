-------------------------- MODULE SymmetryUniverse --------------------------
(* Small symmetric polyhedra: one or two affine maps of finite order and the  *)
(* closure of a few seeds.  TLC visits all of them and checks that orbits of  *)
(* facets are what a group action makes them; the real program gets every one.*)
EXTENDS Symmetry
CONSTANTS Dim, Hi, MaxSeeds, MaxMaps, MaxPoints, WithRays
VARIABLES maps, points

E3(k) == [c \in 1..(Dim + 1) |-> IF c = k THEN 1 ELSE 0]
Hom(rows) == Append(rows, E3(Dim + 1))
Lin(P, s, t) == Hom([r \in 1..Dim |-> [c \in 1..(Dim + 1) |-> IF c = Dim + 1 THEN t[r] ELSE IF c = P[r] THEN s[r] ELSE 0]])
Perms == {p \in [1..Dim -> 1..Dim] : \A a, b \in 1..Dim : a # b => p[a] # p[b]}
(* signed permutations (a reflected coordinate about 0 or 1/2), and the maps  *)
(* x |-> 1 - x - y, y |-> y  and  x |-> -y, y |-> x + y  of orders 2 and 6    *)
SignedPerms == {Lin(p, s, [r \in 1..Dim |-> IF s[r] < 0 THEN h ELSE 0]) : p \in Perms, s \in [1..Dim -> {1, -1}], h \in {0, 1}}
Shear == IF Dim < 2 THEN {}
         ELSE {Hom([r \in 1..Dim |-> [c \in 1..(Dim + 1) |-> IF r = 1 THEN (IF c \in {1, 2} THEN -1 ELSE IF c = Dim + 1 THEN 1 ELSE 0) ELSE E3(r)[c]]]),
               Hom([r \in 1..Dim |-> [c \in 1..(Dim + 1) |-> IF r = 1 THEN (IF c = 2 THEN -1 ELSE 0) ELSE IF r = 2 THEN (IF c \in {1, 2} THEN 1 ELSE 0) ELSE E3(r)[c]]])}
RECURSIVE Bounded(_, _)
Bounded(X, new) ==       \* the closure, or some set with more than MaxPoints points
  IF new = {} \/ Cardinality(X) > MaxPoints THEN X
  ELSE LET Y == {Primitive(Apply(M, x)) : M \in Range(maps), x \in new} \ X IN Bounded(X \cup Y, Y)
Identity == Lin([r \in 1..Dim |-> r], [r \in 1..Dim |-> 1], [r \in 1..Dim |-> 0])
Pool == {M \in SignedPerms \cup Shear : M # Identity}
Seeds == {Append(v, 1) : v \in [1..Dim -> 0..Hi]} \cup (IF WithRays THEN {Append(v, 0) : v \in [1..Dim -> 0..1] \ {[r \in 1..Dim |-> 0]}} ELSE {})

Init == /\ maps \in {<<M>> : M \in Pool} /\ points = {}
Next == \/ /\ points = {} /\ Len(maps) < MaxMaps
           /\ \E M \in Pool : maps' = Append(maps, M) /\ M # maps[1]
           /\ UNCHANGED points
        \/ /\ points = {}
           /\ \E S \in UNION {kSubset(k, Seeds) : k \in 1..MaxSeeds} :
                /\ \E v \in S : v[Dim + 1] = 1
                /\ LET C == Bounded(S, S)
                   IN Cardinality(C) <= MaxPoints /\ points' = C
           /\ UNCHANGED maps

(* ---- theory ---- *)
G == SetToSeq(points)
ps == {Perm(G, M) : M \in Range(maps)}
Facets == FacetsOfPolyhedron(G)
ActsOnFacets == points # {} => (\A M \in Range(maps) : IsSymmetry(G, M)) /\ (\A p \in ps, F \in Facets : {p[i] : i \in F} \in Facets)
OrbitsPartition == points # {} => \A F, H \in Facets : Orbit(F, ps) = Orbit(H, ps) \/ Orbit(F, ps) \cap Orbit(H, ps) = {}
=============================================================================
