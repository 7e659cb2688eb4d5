---------------------------- MODULE JudgePrinting ----------------------------
(* Judges what was written: by the row operations themselves, and by whole runs. *)
(* kinds:                                                                       *)
(*   named   [row, rel, tokens]   prettyPrint with names                         *)
(*   plain   [row, tokens]        a row without names                            *)
(*   frac    [row, tokens]        printFractional of a vertex                    *)
(*   same    [rows, lines, rel, n]  a run without names printed the rows, a run   *)
(*                                with names printed the lines                   *)
EXTENDS Printing, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

PlainRow(ts) == Fractions(ts)
(* b is printed for the entry x: p/q with q = 1 and p = x *)
PlainVerdict(row, ts) ==
   LET f == Fractions(ts)
   IN  IF Len(f) # Len(row) THEN "wrong number of entries"
       ELSE IF \E k \in DOMAIN f : f[k].bad THEN "not a row of numbers"
       ELSE IF \E k \in DOMAIN f : f[k].q # Of(1) \/ f[k].p # row[k] THEN "wrong entry" ELSE ""
FracVerdict(row, ts) ==
   LET f == Fractions(ts)
       h == row[Len(row)]
   IN  IF Len(f) # Len(row) - 1 THEN "wrong number of entries"
       ELSE IF \E k \in DOMAIN f : f[k].bad THEN "not a row of fractions"
       ELSE IF \E k \in DOMAIN f : IsZero(f[k].q) \/ Mul(f[k].p, h) # Mul(row[k], f[k].q) THEN "wrong fraction"
       ELSE IF \E k \in DOMAIN f : Gcd(f[k].p, f[k].q) # Of(1) THEN "fraction is not reduced" ELSE ""
NamedVerdict(row, rel, ts) ==
   LET d == Denotes(ts, Len(row) - 1, rel)
   IN  IF ~d.ok THEN "not a constraint" ELSE IF d.row # row THEN "denotes another row" ELSE ""
SameVerdict(o) ==
   LET d == {Denotes(o.lines[k], o.n, o.rel) : k \in DOMAIN o.lines}
       r == {o.rows[k] : k \in DOMAIN o.rows}
   IN  IF \E x \in d : ~x.ok THEN "not a constraint"
       ELSE IF {x.row : x \in d} # r \/ Len(o.lines) # Len(o.rows) THEN "named and unnamed output differ" ELSE ""
Verdict(o) ==
   CASE o.kind = "named" -> NamedVerdict(o.row, o.rel, o.tokens)
     [] o.kind = "plain" -> PlainVerdict(o.row, o.tokens)
     [] o.kind = "frac" -> FracVerdict(o.row, o.tokens)
     [] o.kind = "same" -> SameVerdict(o)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
