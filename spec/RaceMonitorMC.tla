--------------------------- MODULE RaceMonitorMC ---------------------------
(* Every execution of bounded length: the vector clocks find a race exactly  *)
(* when the definition does.                                                  *)
EXTENDS RaceMonitor
CONSTANT MaxLen
VARIABLE h
Acc(t) == {[k |-> "acc", t |-> t, r |-> r, w |-> w] : r \in {<<>>, <<1>>}, w \in {<<>>, <<1>>}} \ {[k |-> "acc", t |-> t, r |-> <<>>, w |-> <<>>]}
Evs == UNION {Acc(t) \cup {[k |-> kk, t |-> t, o |-> o] : kk \in {"acq", "rel"}, o \in Objs}
                     \cup {[k |-> kk, t |-> t, o |-> u] : kk \in {"fork", "join"}, u \in Thr \ {t}} : t \in Thr}
(* a forked thread starts with the fork and ends with the join               *)
Sane(e) == /\ e.k = "fork" => ~(\E a \in 1..Len(h) : h[a].t = e.o \/ (h[a].k \in {"fork", "join"} /\ h[a].o = e.o))
           /\ ~(\E a \in 1..Len(h) : h[a].k = "join" /\ h[a].o = e.t)
Init == MInit /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E e \in Evs : Sane(e) /\ MStep(e) /\ h' = Append(h, e)
Agree == (race # 0) <=> HasRace(h)
=============================================================================
