----------------------------- MODULE JudgeBitset -----------------------------
(* Validates executions of the real bit sets as behaviours of Bitset.           *)
(* [bound, init, run]: run[k] = [op, d, s, t, x, member, equal, contains, count, *)
(* unionCount, unionContains]; run[1].op = "start" observes the initial sets.    *)
EXTENDS Bitset, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

AsSet(s) == {s[k] : k \in DOMAIN s}
Observed(sets, o) ==
   IF \E r \in R : AsSet(o.member[r]) # sets[r] THEN "members"
   ELSE IF o.equal # Equal(sets) THEN "equality"
   ELSE IF o.contains # Contains(sets) THEN "inclusion"
   ELSE IF o.count # Count(sets) THEN "count"
   ELSE IF o.unionCount # UnionCount(sets) THEN "count of the union"
   ELSE IF o.unionContains # UnionContains(sets) THEN "inclusion in the union" ELSE ""
RECURSIVE Walk(_, _, _, _)
Walk(sets, bound, run, k) ==
   IF k > Len(run) THEN ""
   ELSE IF run[k].op # "start" /\ ~Legal(sets, bound, run[k]) THEN "outside the domain"
   ELSE LET next == IF run[k].op = "start" THEN sets ELSE Apply(sets, run[k])
            nb == IF run[k].op = "start" THEN bound ELSE Bound(bound, run[k])
            v == Observed(next, run[k])
        IN  IF v # "" THEN v \o " after step " \o ToString(k) ELSE Walk(next, nb, run, k + 1)
Verdict(o) == Walk([r \in R |-> AsSet(o.init[r])], o.bound, o.run, 1)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
