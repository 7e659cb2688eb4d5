-------------------------- MODULE JudgeRoundTrip --------------------------
(* Judges two runs of which the second reads what the first has printed.    *)
(*   VFV [gens, eqs, ineqs, points]: facet enumeration of gens printed eqs    *)
(*       and ineqs, vertex enumeration of that text printed points            *)
(*   FVF [A, E, n, points, eqs, ineqs]: the other way round                   *)
EXTENDS Polyhedra, TLC, Json, IOUtils
CONSTANT Stride
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)

(* A generator is extreme if the facets and the face at infinity (and the     *)
(* equations) that contain it leave one dimension only.  Decided on the        *)
(* generators alone, without looking at the rows that were printed.            *)
ExtremeGenerators(gens) ==
   LET n == Len(gens[1])
       F == FacetsOfPolyhedron(gens) \cup (IF \E g \in Range(gens) : g[n] = 0 THEN {{k \in DOMAIN gens : gens[k][n] = 0}} ELSE {})
       smallest(k) == {j \in DOMAIN gens : \A S \in F : k \in S => j \in S}
   IN  {Primitive(gens[k]) : k \in {k \in DOMAIN gens : \A j \in smallest(k) : Primitive(gens[j]) = Primitive(gens[k])}}

Verdict(o) ==
  CASE o.kind = "VFV" ->
         FEVerdict(o.gens, o.eqs, o.ineqs) \cup
         (IF Range(o.points) # ExtremeGenerators(o.gens) THEN {Problem("the second run does not return to the input", {ExtremeGenerators(o.gens), Range(o.points)})} ELSE {}) \cup
         (IF Cardinality(Range(o.points)) # Len(o.points) THEN {Problem("a point is printed twice", {})} ELSE {})
    [] o.kind = "FVF" -> VEVerdict(o.A, o.E, o.n, o.points) \cup FEVerdict(o.points, o.eqs, o.ineqs)

Init == i \in 1..(IF Stride < Len(Obs) THEN Stride ELSE Len(Obs))
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN v = {} \/ (PrintT("REJECT " \o ToString(i) \o " " \o ToString(v) \o " ENDREJECT") /\ FALSE)
=============================================================================
