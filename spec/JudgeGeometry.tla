--------------------------- MODULE JudgeGeometry ---------------------------
(* Conformance: TLC reads what the real program printed (one observation    *)
(* per line of the file named by the environment variable OBS) and decides  *)
(* every observation with the definitions of Polyhedra.                     *)
EXTENDS PolytopeAlgebra, Json, IOUtils
CONSTANT Stride
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)

(* Inputs built from a closed-form term: the spec recomputes the generators *)
(* (term, permutation of the rows, affine transformation) and the facets.    *)
(* The program's inequalities are observed through their signs on the        *)
(* generators (exact integers, evaluated by the driver): tight index sets    *)
(* and whether any sign is positive.                                         *)
Image(g, T) == [c \in 1..Len(T) |-> Dot(T[c], g)]
AlgVerdict(o) ==
  LET G0 == Realise(o.term)
      G == [k \in 1..Len(o.perm) |-> IF "T" \in DOMAIN o THEN Image(G0[o.perm[k]], o.T) ELSE G0[o.perm[k]]]
      expected == {{o.pos[x] : x \in S} : S \in FacetsOf(o.term)}   \* pos is the inverse of perm
      tights == {Range(s) : s \in Range(o.tights)}
      r == AmbientDim(o.term) + 1      \* all terms are full-dimensional
      n == Len(o.gens[1])
  IN IF ("T" \in DOMAIN o /\ Rank(o.T) # Len(o.T[1])) \/ G # o.gens \/ Len(G0) # Len(o.perm) \/ \E k \in 1..Len(o.perm) : o.pos[o.perm[k]] # k THEN {Problem("driver and specification disagree on the input", {})}
     ELSE UNION {
       IF \E e \in Range(o.eqs) : Len(e) # n THEN {Problem("equation of wrong length", {})} ELSE {},
       IF o.badeq # 0 THEN {Problem("equation does not hold", {})} ELSE {},
       IF Len(o.eqs) # n - r \/ Rank(o.eqs) # n - r THEN {Problem("equations are no basis", {})} ELSE {},
       IF o.invalid # 0 THEN {Problem("inequality is not valid", {})} ELSE {},
       IF tights \ expected # {} THEN {Problem("printed row is no facet", CHOOSE F \in tights \ expected : TRUE)} ELSE {},
       IF expected \ tights # {} THEN {Problem("facet missing", CHOOSE F \in expected \ tights : TRUE)} ELSE {},
       IF Cardinality(tights) # Len(o.tights) THEN {Problem("facet printed twice", {})} ELSE {} }

(* Facet enumeration observed through signs (rows too large for TLC).        *)
SignVerdict(o) ==
  LET n == Len(o.gens[1])
      r == Rank(o.gens)
      expected == FacetsOfPolyhedron(o.gens)
      tights == {Range(s) : s \in Range(o.tights)}
  IN UNION {
       IF o.badeq # 0 THEN {Problem("equation does not hold", {})} ELSE {},
       IF o.neq # n - r \/ o.eqrank # n - r THEN {Problem("equations are no basis", {})} ELSE {},
       IF o.invalid # 0 THEN {Problem("inequality is not valid", {})} ELSE {},
       IF tights \ expected # {} THEN {Problem("printed row is no facet", tights \ expected)} ELSE {},
       IF expected \ tights # {} THEN {Problem("facet missing", expected \ tights)} ELSE {},
       IF Cardinality(tights) # Len(o.tights) THEN {Problem("facet printed twice", {})} ELSE {} }

(* Two runs on the same generators in another order or multiplicity: the     *)
(* same facets as sets of points, the same number of independent equations.  *)
SameVerdict(o) ==
  LET pts(gens, tights) == {{Primitive(gens[k]) : k \in Range(s)} : s \in Range(tights)}
      a == pts(o.gensA, o.tightsA)  b == pts(o.gensB, o.tightsB)
  IN UNION {
       IF Range(o.gensA) # Range(o.gensB) THEN {Problem("outside the domain", {})} ELSE {},
       IF a \ b # {} THEN {Problem("row only in the first result", CHOOSE x \in a \ b : TRUE)} ELSE {},
       IF b \ a # {} THEN {Problem("row only in the second result", CHOOSE x \in b \ a : TRUE)} ELSE {},
       IF o.invalid # 0 THEN {Problem("inequality is not valid", {})} ELSE {},
       IF Len(o.tightsA) # Len(o.tightsB) \/ Cardinality(a) # Len(o.tightsA) THEN {Problem("a row is printed twice", {})} ELSE {},
       IF o.eqsA # o.eqsB THEN {Problem("different number of equations", {})} ELSE {} }

Verdict(o) ==
  CASE o.kind = "FE" -> FEVerdict(o.gens, o.eqs, o.ineqs)
    [] o.kind = "ALG" -> AlgVerdict(o)
    [] o.kind = "SAME" -> SameVerdict(o)
    [] o.kind = "SIGN" -> SignVerdict(o)
    [] o.kind = "VE" -> VEVerdict(o.A, o.E, o.n, o.points)

Init == i \in 1..(IF Stride < Len(Obs) THEN Stride ELSE Len(Obs))
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN v = {} \/ (PrintT("REJECT " \o ToString(i) \o " " \o ToString(v) \o " ENDREJECT") /\ FALSE)
=============================================================================
