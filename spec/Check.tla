------------------------------- MODULE Check -------------------------------
(* Option --check: which inputs are accepted.  A description is a list of      *)
(* distinct rows; a map has to permute them up to positive scaling; a known    *)
(* row has to be a facet (or a vertex or extreme ray) of the polyhedron.       *)
EXTENDS Symmetry

Rows(L) == {Primitive(L[k]) : k \in DOMAIN L}
DistinctRows(L) == Cardinality(Rows(L)) = Len(L)
Image(dir, M, a) == Primitive(IF dir = "facets" THEN Apply(M, a) ELSE ApplyRow(a, M))
(* onto, hence a bijection                                                     *)
MapFits(dir, L, M) == {Image(dir, M, L[k]) : k \in DOMAIN L} = Rows(L)

FacetFits(G, a) == LET s == Signs(a, G) IN (~\E k \in DOMAIN s : s[k] > 0) /\ TightIdx(s) \in FacetsOfPolyhedron(G)
AtInfinity(G, a) == LET s == Signs(a, G) IN (~\E k \in DOMAIN s : s[k] > 0) /\ TightIdx(s) \in FacetsOfCone(G) /\ TightIdx(s) \intersect VertexIdx(G) = {}
RayFits(A, E, n, y) == Primitive(y) \in ExtremeRays(A, E, n)

(* "yes", "no" or "any" where nothing is promised                              *)
FEAccepts(G, maps, known) ==
   IF ~DistinctRows(G) \/ VertexIdx(G) = {} THEN "any"
   ELSE IF \E k \in DOMAIN maps : ~MapFits("facets", G, maps[k]) THEN "no"
   ELSE IF \E k \in DOMAIN known : ~FacetFits(G, known[k]) /\ ~AtInfinity(G, known[k]) THEN "no"
   ELSE IF \E k \in DOMAIN known : AtInfinity(G, known[k]) THEN "any" ELSE "yes"
VEAccepts(A, E, n, maps, known) ==
   IF ~DistinctRows(A) \/ (E # <<>> /\ maps # <<>>) \/ ~Pointed(A, E, n) \/ ~\E y \in ExtremeRays(A, E, n) : y[n] > 0 THEN "any"
   ELSE IF \E k \in DOMAIN maps : ~MapFits("vertices", A, maps[k]) THEN "no"
   ELSE IF \E k \in DOMAIN known : ~RayFits(A, E, n, known[k]) THEN "no" ELSE "yes"
Accepts(dir, L, E, n, maps, known) == IF dir = "facets" THEN FEAccepts(L, maps, known) ELSE VEAccepts(L, E, n, maps, known)

(* how the program decides about known rows: by rank instead of maximality      *)
ByRankFacet(G, a) == LET s == Signs(a, G)  t == TightIdx(s) IN (~\E k \in DOMAIN s : s[k] > 0) /\ t # {} /\ Rank(SubSeqOf(G, t)) = Rank(G) - 1
ByRankRay(A, E, n, y) ==
   LET all == Append(A, [i \in 1..n |-> IF i = n THEN -1 ELSE 0]) \o E \o [k \in DOMAIN E |-> Neg(E[k])]
       t == {k \in DOMAIN all : Dot(all[k], y) = 0}
   IN  (\A k \in DOMAIN all : Dot(all[k], y) <= 0) /\ Rank(SubSeqOf(all, t)) = n - 1
=============================================================================
