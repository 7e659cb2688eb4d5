-------------------------- MODULE JobPoolSchedules --------------------------
(* JobPool with the history of who moved: TLC's simulator prints behaviours, *)
(* which the harness forces on the real pool, one critical section per step. *)
EXTENDS JobPool
VARIABLE hist
HInit == Init /\ hist = <<>>
HNext == \E p \in Procs : Step(p) /\ hist' = Append(hist, p)
KnownRows == SubSeq(SeqOf(Reach(first, succ)), 1, IF Known < Cardinality(Reach(first, succ)) THEN Known ELSE Cardinality(Reach(first, succ)))
Report == AllDone => PrintT("SCHEDULE " \o ToString(<<SeqOf(first), [r \in 1..Cardinality(Rows) |-> SeqOf(succ[r])], KnownRows, hist, out>>) \o " END")
=============================================================================
