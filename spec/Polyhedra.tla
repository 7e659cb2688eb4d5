----------------------------- MODULE Polyhedra -----------------------------
(* What facet enumeration and vertex enumeration have to deliver, by        *)
(* definition.  A polyhedron is given by homogeneous generators: <<v, 1>>   *)
(* (or a positive multiple) for a vertex, <<r, 0>> for a ray; a constraint  *)
(* is a row a with  a . g <= 0  (inequality) or  a . g = 0  (equation).     *)
EXTENDS LinearAlgebra, TLC

(* a problem found by a judge, as text *)
Problem(msg, witness) == msg \o " " \o ToString(witness)

(* ---------------- facets of the cone spanned by G ----------------------- *)
Signs(a, G) == [i \in 1..Len(G) |-> Sign(Dot(a, G[i]))]
TightIdx(s) == {i \in DOMAIN s : s[i] = 0}
OneSided(s) == ~(\E i \in DOMAIN s : s[i] > 0) \/ ~(\E i \in DOMAIN s : s[i] < 0)

(* The facets, each as the set of the generators it contains.  Projecting   *)
(* on the pivot columns is injective on the span of G, so faces correspond. *)
FacetsOfCone(G) ==
  LET cols == PivotCols(G)
      r == Len(cols)
      H == [i \in 1..Len(G) |-> Columns(G[i], cols)]
      cand == kSubset(r - 1, 1..Len(G))
      normals == {Normal(SubSeqOf(H, S), r) : S \in cand}
      signs == {Signs(h, H) : h \in {x \in normals : ~IsZero(x)}}
  IN {TightIdx(s) : s \in {x \in signs : OneSided(x)}}

VertexIdx(G) == {i \in 1..Len(G) : G[i][Len(G[i])] # 0}
RayIdx(G) == {i \in 1..Len(G) : G[i][Len(G[i])] = 0}
(* facets of the polyhedron: those of the cone, without the face at infinity *)
FacetsOfPolyhedron(G) == {F \in FacetsOfCone(G) : F \cap VertexIdx(G) # {}}

(* ---------------- facet enumeration is exact ---------------------------- *)
FEVerdict(G, eqs, ineqs) ==
  LET n == Len(G[1])
      r == Rank(G)
      badLen == \E e \in Range(eqs) \cup Range(ineqs) : Len(e) # n
      expected == FacetsOfPolyhedron(G)
      signs == [k \in 1..Len(ineqs) |-> Signs(ineqs[k], G)]
      tights == [k \in 1..Len(ineqs) |-> TightIdx(signs[k])]
  IN IF badLen THEN {Problem("row of wrong length", {})}
     ELSE UNION {
       IF \E e \in Range(eqs) : ~IsZero(Signs(e, G)) THEN {Problem("equation does not hold", {})} ELSE {},
       IF Len(eqs) # n - r \/ Rank(eqs) # n - r THEN {Problem("equations are no basis", {})} ELSE {},
       IF \E k \in DOMAIN signs : \E i \in DOMAIN signs[k] : signs[k][i] > 0 THEN {Problem("inequality is not valid", {})} ELSE {},
       IF Range(tights) \ expected # {} THEN {Problem("printed row is no facet", Range(tights) \ expected)} ELSE {},
       IF expected \ Range(tights) # {} THEN {Problem("facet missing", expected \ Range(tights))} ELSE {},
       IF Cardinality(Range(tights)) # Len(tights) THEN {Problem("facet printed twice", {})} ELSE {} }

(* ---------------- vertex enumeration is exact --------------------------- *)
(* The extreme rays of {y : A y <= 0, E y = 0, -y_n <= 0}, as primitive     *)
(* vectors.  Exact if the cone is pointed.                                  *)
ExtremeRays(A, E, n) ==
  LET AA == Append(A, [i \in 1..n |-> IF i = n THEN -1 ELSE 0])
      EB == RowBasis(E)
      k == n - 1 - Len(EB)
      cands == IF k < 0 THEN {} ELSE {Normal(EB \o SubSeqOf(AA, S), n) : S \in kSubset(k, 1..Len(AA))}
      ok(y) == \A i \in 1..Len(AA) : Dot(AA[i], y) <= 0
  IN {y \in cands \cup {Neg(x) : x \in cands} : ~IsZero(y) /\ ok(y)}
Pointed(A, E, n) == Rank(Append(A, [i \in 1..n |-> IF i = n THEN -1 ELSE 0]) \o E) = n

(* An empty polyhedron has no vertex; the rays of its recession cone may or  *)
(* may not be printed.                                                       *)
VEVerdict(A, E, n, points) ==
  LET expected == ExtremeRays(A, E, n)
      got == [k \in 1..Len(points) |-> Primitive(points[k])]
      empty == ~(\E y \in expected : y[n] > 0)
  IN IF ~Pointed(A, E, n) THEN {Problem("outside the domain", {})}
     ELSE IF \E k \in DOMAIN points : Len(points[k]) # n THEN {Problem("row of wrong length", {})}
     ELSE UNION {
       IF Range(got) \ expected # {} THEN {Problem("no vertex or ray of the polyhedron", Range(got) \ expected)} ELSE {},
       IF expected \ Range(got) # {} /\ ~empty THEN {Problem("vertex or ray missing", expected \ Range(got))} ELSE {},
       IF Cardinality(Range(got)) # Len(got) THEN {Problem("printed twice", {})} ELSE {} }
=============================================================================
