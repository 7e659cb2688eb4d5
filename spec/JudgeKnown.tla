----------------------------- MODULE JudgeKnown -----------------------------
(* A run with known data: the known rows have to be what the property speaks  *)
(* of (otherwise the input is outside the domain); the verdict is that of a   *)
(* run without known data.                                                    *)
EXTENDS Symmetry, Json, IOUtils
CONSTANT Stride
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
TrueFacet(a, G) == LET s == Signs(a, G) IN (~\E k \in DOMAIN s : s[k] > 0) /\ TightIdx(s) \in FacetsOfPolyhedron(G)
TrueRay(y, A, E, n) == Primitive(y) \in ExtremeRays(A, E, n)
Verdict(o) ==
  IF o.kind \in {"FE", "FSYM"}
  THEN IF \E k \in 1..Len(o.known) : ~TrueFacet(o.known[k], o.gens) THEN {Problem("outside the domain", {})}
       ELSE IF o.kind = "FE" THEN FEVerdict(o.gens, o.eqs, o.ineqs) ELSE OrbitVerdict(o.gens, o.maps, o.eqs, o.ineqs)
  ELSE IF \E k \in 1..Len(o.known) : ~TrueRay(o.known[k], o.A, o.E, o.n) THEN {Problem("outside the domain", {})}
       ELSE IF o.kind = "VE" THEN VEVerdict(o.A, o.E, o.n, o.points) ELSE VOrbitVerdict(o.A, o.E, o.maps, o.n, FALSE, o.points)
Init == i \in 1..(IF Stride < Len(Obs) THEN Stride ELSE Len(Obs))
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN v = {} \/ (PrintT("REJECT " \o ToString(i) \o " " \o ToString(v) \o " ENDREJECT") /\ FALSE)
=============================================================================
