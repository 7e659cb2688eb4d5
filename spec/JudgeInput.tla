----------------------------- MODULE JudgeInput -----------------------------
(* Judges what the real program read from a file against the document the file    *)
(* was written from.                                                             *)
EXTENDS InputLanguage, LinearAlgebra, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

Count(S, r) == Cardinality({k \in DOMAIN S : S[k] = r})
SameBag(S, T) == Len(S) = Len(T) /\ \A k \in DOMAIN S : Count(S, S[k]) = Count(T, S[k])
Reduced(S) == TLCEval([k \in DOMAIN S |-> TLCEval(Primitive(S[k]))])
Minus(r) == [k \in DOMAIN r |-> -r[k]]
(* 0 <= c, which holds everywhere, may be added or left out                       *)
Void(r) == (\A k \in 1 .. Len(r) - 1 : r[k] = 0) /\ r[Len(r)] <= 0
Proper(S) == SelectSeq(S, LAMBDA r : ~Void(r))
(* equations may be kept with any non-zero factor                                 *)
Rows(M) == IF M.conv # <<>> THEN M.conv \o M.cone ELSE Proper(M.ineq \o M.eq \o [k \in DOMAIN M.eq |-> Minus(M.eq[k])])
SumUp(image, n) == [c \in 1 .. n + 1 |-> FoldLeft(LAMBDA acc, t : IF t[1] + 1 = c THEN acc + t[2] ELSE acc, 0, image)]
SameMaps(maps, read, n) ==
   /\ Len(maps) = Len(read)
   /\ \A k \in DOMAIN maps : Len(read[k]) >= n /\ \A r \in 1 .. n : SumUp(read[k][r], n) = maps[k][r]
Main(o) ==
   LET M == TLCEval(Meaning(o.doc))  g == o.got  rows == IF M.conv # <<>> THEN g.rows ELSE Proper(g.rows)
   IN  IF M.ok = "any" THEN ""
       ELSE IF M.ok = "error" THEN (IF g.ok = "error" THEN "" ELSE "malformed input is accepted")
       ELSE IF g.ok = "error" THEN "input is refused"
       ELSE IF Len(g.names) # M.names \/ g.names # SubSeq(o.names, 1, M.names) THEN "wrong names"
       ELSE IF ~SameBag(Reduced(Rows(M)), Reduced(rows)) THEN "wrong rows"
       ELSE IF ~SameMaps(M.maps, g.maps, M.names) THEN "wrong maps" ELSE ""
Known(o) ==
   LET M == KnownMeaning(o.doc[1], o.knownnames, 2)  g == o.got
   IN  IF M.ok = "any" THEN ""
       ELSE IF M.ok = "error" THEN (IF g.ok = "error" THEN "" ELSE "malformed known data are accepted")
       ELSE IF g.ok = "error" THEN "known data are refused"
       ELSE IF ~SameBag(Reduced(M.row), Reduced(g.known)) THEN "wrong known data" ELSE ""
(* whole runs: a malformed file gives a message, an exit status and no result; the  *)
(* same document gives the same result in every notation                           *)
Refused(o) ==
   LET verdict == IF o.known THEN KnownMeaning(o.doc[1], o.knownnames, 2).ok ELSE Meaning(o.doc).ok
   IN  IF verdict # "error" THEN ""
       ELSE IF o.timeout THEN "does not end on malformed input"
       ELSE IF o.status = 0 THEN "malformed input gives exit status 0"
       ELSE IF ~o.message THEN "no message for malformed input"
       ELSE IF o.printed THEN "result for malformed input" ELSE ""
Equal(o) == IF Meaning(o.doc).ok = "ok" /\ o.outputs[1] # o.outputs[2] THEN "two notations of a document give different results" ELSE ""
Spelling(o) == IF o.outputs[1] # o.outputs[2] THEN "a spelling of a section changes the result" ELSE ""
Verdict(o) ==
   CASE o.kind = "main" -> Main(o)
     [] o.kind = "known" -> Known(o)
     [] o.kind = "refused" -> Refused(o)
     [] o.kind = "equal" -> Equal(o)
     [] o.kind = "spelling" -> Spelling(o)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
