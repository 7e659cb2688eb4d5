------------------------------ MODULE Helpers ------------------------------
(* Scope guards, delayed actions and joining threads: every helper owns at     *)
(* most one action; moving passes the action on; the end of a helper's scope,  *)
(* left normally or by an exception, performs what it owns (a delayed action   *)
(* only when it is due, a thread is waited for).                               *)
EXTENDS Integers, Sequences, FiniteSets

Slot(kind, act, armed, start, delay) == [kind |-> kind, act |-> act, armed |-> armed, start |-> start, delay |-> delay]
Empty == Slot("none", 0, FALSE, 0, 0)
Machine(slots) == [slots |-> [s \in 1..slots |-> Empty], runs |-> <<>>, clock |-> 0, ended |-> FALSE]

Due(m, s) == s.armed /\ (s.kind = "delay" => m.clock - s.start >= s.delay)
(* the end of the scope of one helper *)
Finish(m, s) ==
   LET x == m.slots[s]
   IN  [m EXCEPT !.slots[s] = Empty, !.runs = IF Due(m, x) THEN [@ EXCEPT ![x.act] = @ + 1] ELSE @]
RECURSIVE FinishAll(_, _)
FinishAll(m, s) == IF s = 0 THEN m ELSE FinishAll(Finish(m, s), s - 1)

(* operations: [op, i, j, v]: v is a delay or an amount of time in nanoseconds  *)
Enabled(m, o) ==
   /\ ~m.ended
   /\ CASE o.op \in {"guard", "thread", "delay"} -> m.slots[o.i].kind = "none"
        [] o.op = "move" -> o.i # o.j /\ m.slots[o.i].kind # "none" /\ m.slots[o.j].kind = "none"
        [] o.op = "dismiss" -> m.slots[o.i].kind \in {"guard", "delay"}
        [] o.op = "destroy" -> m.slots[o.i].kind # "none"
        [] OTHER -> TRUE
Do(m, o) ==
   CASE o.op \in {"guard", "thread", "delay"} -> [m EXCEPT !.runs = Append(@, 0), !.slots[o.i] = Slot(o.op, Len(m.runs) + 1, TRUE, m.clock, o.v)]
     [] o.op = "move" -> [m EXCEPT !.slots[o.j] = m.slots[o.i], !.slots[o.i].armed = FALSE]
     [] o.op = "dismiss" -> [m EXCEPT !.slots[o.i].armed = FALSE]
     [] o.op = "advance" -> [m EXCEPT !.clock = @ + o.v]
     [] o.op = "destroy" -> Finish(m, o.i)
     [] o.op \in {"throw", "leave"} -> [FinishAll(m, Len(m.slots)) EXCEPT !.ended = TRUE]
=============================================================================
