---------------------------- MODULE JudgeOptions ----------------------------
(* Judges how the real program understood its command line.                      *)
EXTENDS Options, Json, IOUtils, LargeGeometry
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

Rows(order, o) ==   \* the two kinds of rows are sorted separately; the trivial row belongs to no input
   LET n == Len(o.rows[1])
       trivial(r) == \A k \in 1 .. n - 1 : r[k] = 0
       before == SelectSeq(o.rows, LAMBDA r : ~trivial(r))
       after == SelectSeq(o.sorted, LAMBDA r : ~trivial(r))
       cone(S) == SelectSeq(S, LAMBDA r : r[n] = 0)
       conv(S) == SelectSeq(S, LAMBDA r : r[n] # 0)
   IN  IF o.direction = "facets" THEN Ordered(order, cone(before), cone(after)) /\ Ordered(order, conv(before), conv(after))
       ELSE Ordered(order, before, after)
(* results of the functions that look at the arguments                            *)
Functions(o) ==
   LET m == Meaning(o.items, o.direction)
       g == o.got
       some == \E f \in DOMAIN g : g[f] = "error"
   IN  IF m.mode \in {"help", "version"} THEN (IF g.mode = m.mode THEN "" ELSE "wrong mode")
       ELSE IF \E k \in DOMAIN o.items : o.items[k].what = "topic" THEN (IF g.mode = "topic" THEN "" ELSE "wrong mode")
       ELSE IF m.mode = "error" THEN (IF some THEN "" ELSE "illegal command line accepted")
       ELSE IF \E f \in DOMAIN g \ {"t"} : g[f] = "error" THEN "documented command line refused"
       ELSE IF g.mode # m.mode THEN "wrong mode"
       ELSE IF g.i # m.i THEN "wrong integer type"
       ELSE IF g.m # m.m THEN "wrong method"
       ELSE IF g.s # m.s THEN "wrong order"
       ELSE IF m.t # "unused" /\ g.t # (IF m.t = "default" THEN o.hardware ELSE m.t) THEN "wrong number of threads"
       ELSE IF g.c # (IF m.c THEN "yes" ELSE "no") THEN "wrong check flag"
       ELSE IF g.file # "input" THEN "wrong file"
       ELSE IF o.known # (IF m.k = "none" THEN 0 ELSE 1) THEN "wrong known data"
       ELSE IF ~Rows(m.s, o) THEN "rows in wrong order" ELSE ""
(* whole runs: vertices of a simplex and what was printed                          *)
Exact(o) ==
   /\ Len(o.result) = Len(o.simplex)
   /\ \A r \in DOMAIN o.result : Len(o.result[r]) = Len(o.simplex[1])
   /\ \A r \in DOMAIN o.result : LET d == [k \in DOMAIN o.simplex |-> BDot(o.result[r], o.simplex[k])]
                                 IN  /\ Cardinality({k \in DOMAIN d : IsZero(d[k])}) = Len(o.simplex) - 1
                                     /\ \A k \in DOMAIN d : IsZero(d[k]) \/ d[k].neg
   /\ \A r, s \in DOMAIN o.result : r # s => BPrimitive(o.result[r]) # BPrimitive(o.result[s])
MustBeExact(size, t) == CASE size = 1 -> t # "16" [] size = 2 -> t \in {"64", "safe", "inf"} [] size = 3 -> t = "inf"
Whole(o) ==
   LET m == Meaning(o.items, o.direction)
       refused == o.status # 0 /\ o.message
   IN  IF m.mode = "error" THEN (IF ~refused THEN "illegal command line: no error reported" ELSE IF o.printed THEN "illegal command line: result printed" ELSE "")
       ELSE IF m.mode = "help" THEN (IF o.status = 0 /\ o.help THEN "" ELSE "no help")
       ELSE IF m.mode = "version" THEN (IF o.status = 0 /\ o.version /\ ~o.help THEN "" ELSE "no version")
       ELSE IF m.mode \notin {"facets", "vertices"} THEN (IF m.mode = "topic " \o o.page THEN "" ELSE "wrong help page")
       ELSE IF o.probe = "check" THEN (IF m.c THEN (IF refused /\ ~o.printed THEN "" ELSE "input is not checked")
                                       ELSE IF o.status = 0 THEN "" ELSE "input is checked without being asked")
       ELSE IF o.probe = "size" /\ o.size = 3 /\ m.i = "safe" THEN (IF refused THEN "" ELSE "overflow goes unnoticed: other integer type used")
       ELSE IF m.m # o.method THEN "other method used"
       ELSE IF o.probe = "size" /\ MustBeExact(o.size, m.i) /\ (o.status # 0 \/ ~Exact(o)) THEN "result is not exact: other integer type used"
       ELSE IF o.probe = "size" /\ ~MustBeExact(o.size, m.i) /\ Exact(o) THEN "result is exact: other integer type used"
       ELSE IF o.probe # "size" /\ o.status # 0 THEN "documented command line refused"
       ELSE IF o.probe = "order" /\ m.m = "dd" /\ o.output # o.outputs[m.s] THEN "other order used"
       ELSE IF m.m = "ad" /\ o.threads >= 0 /\ m.t \notin {"default", "unused"} /\ ToString(o.threads) # m.t THEN "other number of threads used: " \o ToString(o.threads)
       ELSE ""
Sections(o) == \* which sections are in the file decides about the operation
   LET S == {o.sections[k] : k \in DOMAIN o.sections}
       inner == S \intersect {"conv", "cone", "rconv", "rcone"} # {}
       outer == S \intersect {"ineq", "rineq", "eq"} # {}
   IN  IF inner = outer THEN (IF o.status # 0 /\ o.message /\ ~o.printed THEN "" ELSE "file is not refused")
       ELSE IF S = {"eq"} THEN (IF o.status # 0 /\ ~o.printed THEN "" ELSE "file is not refused")
       ELSE IF o.status # 0 THEN "file is refused"
       ELSE IF o.operation # (IF inner THEN "facets" ELSE "vertices") THEN "wrong operation" ELSE ""
Verdict(o) ==
   CASE o.kind = "functions" -> Functions(o)
     [] o.kind = "run" -> Whole(o)
     [] o.kind = "sections" -> Sections(o)
     [] o.kind = "reference" -> IF Ordered(o.order, o.before, o.after) THEN "" ELSE "reference is not in order"

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
