----------------------------- MODULE JudgeLarge -----------------------------
(* Judges results with coefficients of any size (C14, C16).                   *)
EXTENDS LargeGeometry, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

(* ok: the program ended normally; otherwise it must have ended with an error.  *)
(* Only with the checked type is that acceptable (and, excused, if coefficients  *)
(* of the maps do not fit into the type of these).                              *)
Verdict(o) ==
   IF ~o.ok THEN (IF o.type = "inf" /\ ~o.excused THEN "no result" ELSE IF o.hang THEN "the program does not end" ELSE "")
   ELSE IF o.kind = "FE" THEN FacetVerdict(o.gens, o.perms, o.eqs, o.rows)
   ELSE PointVerdict(o.gens, o.rows)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
