---------------------------- MODULE JudgeSymmetry ----------------------------
EXTENDS Symmetry, Json, IOUtils
CONSTANT Stride
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
(* kind FSYM: gens (listed; reduced: representatives), maps, eqs, ineqs       *)
(* kind VSYM: A, E, maps, n, reduced, points                                  *)
Verdict(o) ==
  CASE o.kind = "FSYM" -> OrbitVerdict(IF o.reduced THEN SetToSeq(ClosePoints(o.gens, o.maps)) ELSE o.gens, o.maps, o.eqs, o.ineqs)
    [] o.kind = "VSYM" -> VOrbitVerdict(o.A, o.E, o.maps, o.n, o.reduced, o.points)
    [] o.kind = "FE" -> FEVerdict(o.gens, o.eqs, o.ineqs)
    [] o.kind = "VE" -> VEVerdict(o.A, o.E, o.n, o.points)
Init == i \in 1..(IF Stride < Len(Obs) THEN Stride ELSE Len(Obs))
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN v = {} \/ (PrintT("REJECT " \o ToString(i) \o " " \o ToString(v) \o " ENDREJECT") /\ FALSE)
=============================================================================
