----------------------------- MODULE JudgeStreams -----------------------------
(* Validates uses of real files as behaviours of Streams.                        *)
(* [content, prog, seen]: seen[k] = [pos, eof, fail, out] after operation k       *)
EXTENDS Streams, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

RECURSIVE Walk(_, _, _, _)
Walk(f, prog, seen, k) ==
   IF k > Len(prog) THEN ""
   ELSE IF ~Can(f, prog[k]) THEN "outside the domain"
   ELSE LET n == Do(f, prog[k])  s == seen[k]
            at == " after operation " \o ToString(k) \o " (" \o prog[k] \o ")"
        IN  IF s.fail # n.fail \/ s.eof # n.eof THEN "wrong state" \o at
            ELSE IF s.pos # n.pos THEN "wrong position" \o at
            ELSE IF s.out # n.out THEN "wrong text" \o at
            ELSE Walk(n, prog, seen, k + 1)
Verdict(o) == IF Len(o.seen) # Len(o.prog) THEN "incomplete" ELSE Walk(Stream(o.content), o.prog, o.seen, 1)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
