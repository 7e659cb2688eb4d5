----------------------------- MODULE JudgeHelpers -----------------------------
(* Validates executions of the real helpers as behaviours of Helpers.           *)
(* [prog, runs]: runs[k] = how often every action ran up to operation k          *)
EXTENDS Helpers, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

RECURSIVE Walk(_, _, _, _)
Walk(m, prog, runs, k) ==
   IF k > Len(prog) THEN ""
   ELSE IF ~Enabled(m, prog[k]) THEN "outside the domain"
   ELSE LET n == Do(m, prog[k])
        IN  IF runs[k] # n.runs THEN "after operation " \o ToString(k) \o " (" \o prog[k].op \o ") the actions ran " \o ToString(runs[k]) \o " times, expected " \o ToString(n.runs)
            ELSE Walk(n, prog, runs, k + 1)
Verdict(o) == IF Len(o.runs) # Len(o.prog) THEN "incomplete" ELSE Walk(Machine(8), o.prog, o.runs, 1)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
