--------------------------- MODULE CheckUniverse ---------------------------
(* Descriptions with maps and known rows that are all valid, and what one or   *)
(* two small changes make of them.                                             *)
EXTENDS Check, Randomization
CONSTANTS Dim, Hi, Points, MaxMaps, MaxPoints, WithRays, Bases, Sample, MaxEdits
VARIABLES dir, list, maps, known, edits
vars == <<dir, list, maps, known, edits>>
n == Dim + 1

E3(k) == [c \in 1..n |-> IF c = k THEN 1 ELSE 0]
Hom(rows) == Append(rows, E3(n))
Lin(P, s, t) == Hom([r \in 1..Dim |-> [c \in 1..n |-> IF c = n THEN t[r] ELSE IF c = P[r] THEN s[r] ELSE 0]])
Perms == {p \in [1..Dim -> 1..Dim] : \A a, b \in 1..Dim : a # b => p[a] # p[b]}
SignedPerms == {Lin(p, s, [r \in 1..Dim |-> IF s[r] < 0 THEN h ELSE 0]) : p \in Perms, s \in [1..Dim -> {1, -1}], h \in {0, 1, 2}}
Shear == IF Dim < 2 THEN {}
         ELSE {Hom([r \in 1..Dim |-> [c \in 1..n |-> IF r = 1 THEN (IF c \in {1, 2} THEN -1 ELSE IF c = n THEN 1 ELSE 0) ELSE E3(r)[c]]]),
               Hom([r \in 1..Dim |-> [c \in 1..n |-> IF r = 1 THEN (IF c = 2 THEN -1 ELSE 0) ELSE IF r = 2 THEN (IF c \in {1, 2} THEN 1 ELSE 0) ELSE E3(r)[c]]])}
MapPool == SignedPerms \union Shear
RECURSIVE Bounded(_, _, _)
Bounded(Ms, X, new) ==
   IF new = {} \/ Cardinality(X) > MaxPoints THEN X
   ELSE LET Y == {Primitive(Apply(M, x)) : M \in Ms, x \in new} \ X IN Bounded(Ms, X \union Y, Y)
Seeds == {Append(v, 1) : v \in [1..Dim -> 0..Hi]} \union (IF WithRays THEN {Append(v, 0) : v \in [1..Dim -> 0..1] \ {[r \in 1..Dim |-> 0]}} ELSE {})
(* a base: points closed under the maps; facets by definition                   *)
Normals(G) == IF Len(G) < Dim THEN {} ELSE {h \in UNION {{h, Neg(h)} : h \in {Normal(SubSeqOf(G, S), n) : S \in kSubset(Dim, DOMAIN G)}} : ~IsZero(h) /\ FacetFits(G, h)}
ExtremePoints(G) == {G[k] : k \in {m \in DOMAIN G : Rank(SetToSeq({h \in Normals(G) \union {Neg(E3(n))} : Dot(h, G[m]) = 0})) = n - 1}}
Random(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Take(k, S) == SetToSeq(RandomSubset(IF k < Cardinality(S) THEN k ELSE Cardinality(S), S))
BaseOf(b) ==   \* drawn at random
   LET Ms == RandomSubset(1 + (b % MaxMaps), MapPool)
       S == RandomSubset(1 + (b % Points), Seeds)
   IN  [maps |-> SetToSeq(Ms), points |-> Bounded(Ms, S, S)]
Usable(x, d) ==
   LET G == SetToSeq(x.points)
   IN  Cardinality(x.points) <= MaxPoints /\ VertexIdx(G) # {} /\ Cardinality(x.points) > 1 /\ (d = "vertices" => Rank(G) = n)
Init == /\ \E b \in Bases, d \in {"facets", "vertices"} : \E x \in {BaseOf(b)} :
             /\ Usable(x, d)
             /\ dir = d
             /\ LET G == SetToSeq(x.points) IN
                IF d = "facets"
                THEN \E F \in {Normals(G)} : list = G /\ known = (IF b % 3 = 0 \/ Rank(G) < n THEN <<>> ELSE Take(2, F))
                ELSE \E F \in {Normals(G)} : F # {} /\ Pointed(SetToSeq(F), <<>>, n) /\ list = SetToSeq(F) /\ known = (IF b % 3 = 0 THEN <<>> ELSE Take(2, ExtremePoints(G)))
             /\ maps = (IF b % 5 = 0 /\ b % 3 # 0 THEN <<>> ELSE x.maps)
        /\ edits = 0
EntryEdits(s, S) == {[s EXCEPT ![k][c] = @ + d] : k \in DOMAIN s, c \in S, d \in {-1, 1}}
ListEdits ==
   {[list EXCEPT ![k] = [c \in 1..n |-> 2 * list[k][c]]] : k \in DOMAIN list}
   \union (IF Len(list) > 1 THEN {SubSeq(list, 1, k - 1) \o SubSeq(list, k + 1, Len(list)) : k \in DOMAIN list} ELSE {})
   \union {Append(list, [list[k] EXCEPT ![c] = @ + 1]) : k \in DOMAIN list, c \in 1..Dim}
   \union EntryEdits(list, IF dir = "facets" THEN 1..Dim ELSE 1..n)
MapEdits ==
   {[maps EXCEPT ![k][r][c] = x] : k \in DOMAIN maps, r \in 1..Dim, c \in 1..n, x \in {-1, 0, 1, 2}}
   \union {Append(maps, M) : M \in RandomSubset(3, MapPool)}
KnownEdits ==
   {[known EXCEPT ![k] = [c \in 1..n |-> 3 * known[k][c]]] : k \in DOMAIN known}
   \union EntryEdits(known, IF dir = "facets" THEN 1..n ELSE 1..Dim)
   \union {Append(known, IF dir = "facets" THEN a ELSE [a EXCEPT ![n] = 1]) : a \in RandomSubset(4, [1..n -> -2..2] \ {[c \in 1..n |-> 0]})}
   \union (IF Len(known) < 2 THEN {} ELSE {Append(known, [c \in 1..n |-> known[1][c] + known[2][c]])})
   \union {Append(known, h) : h \in IF dir = "vertices" THEN {} ELSE RandomSubset(1, {list[k] : k \in DOMAIN list})}
Some(S) == RandomSubset(IF Sample < Cardinality(S) THEN Sample ELSE Cardinality(S), S)
Next == /\ edits < MaxEdits /\ edits' = edits + 1 /\ dir' = dir
        /\ \/ list' \in Some(ListEdits) /\ maps' = maps /\ known' = known
           \/ maps # <<>> /\ maps' \in Some(MapEdits) /\ list' = list /\ known' = known
           \/ known # <<>> /\ known' \in Some(KnownEdits) /\ list' = list /\ maps' = maps

(* the bases are accepted; the program's criterion by rank is the definition; a  *)
(* map that fits permutes the facets                                            *)
BasesAccepted == edits = 0 => Accepts(dir, list, <<>>, n, maps, known) = "yes"
ByRank == \A k \in DOMAIN known :
   IF dir = "facets" THEN TightIdx(Signs(known[k], list)) = {} \/ (ByRankFacet(list, known[k]) <=> (FacetFits(list, known[k]) \/ AtInfinity(list, known[k])))
   ELSE (Pointed(list, <<>>, n) /\ known[k][n] > 0) => (ByRankRay(list, <<>>, n, known[k]) <=> RayFits(list, <<>>, n, known[k]))
FittingMapsPermute == dir = "facets" /\ DistinctRows(list) => \A k \in DOMAIN maps : MapFits("facets", list, maps[k]) =>
   LET p == Perm(list, maps[k])  F == FacetsOfCone(list) IN {{p[i] : i \in f} : f \in F} = F
=============================================================================
