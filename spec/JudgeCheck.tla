----------------------------- MODULE JudgeCheck -----------------------------
(* Judges runs with the option --check.                                         *)
EXTENDS Check, Json, IOUtils
CONSTANT Stride
VARIABLE i
Obs == ndJsonDeserialize(IOEnv.OBS)
Verdict(o) ==
   LET a == Accepts(o.dir, o.list, o.E, o.n, o.maps, o.known)
   IN  IF a = "any" THEN ""
       ELSE IF o.timeout THEN "does not end"
       ELSE IF a = "no" /\ o.status = 0 THEN "invalid maps or known data are accepted"
       ELSE IF a = "no" /\ o.rows THEN "result for an input that is refused"
       ELSE IF a = "no" /\ ~o.message THEN "no message for an input that is refused"
       ELSE IF a = "yes" /\ o.status # 0 THEN "valid maps and known data are refused"
       ELSE IF a = "yes" /\ ~o.same THEN "other result than without the check" ELSE ""
Init == i \in 1..(IF Stride < Len(Obs) THEN Stride ELSE Len(Obs))
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
