-------------------------- MODULE HelpersUniverse --------------------------
(* All short programs over the helpers.                                       *)
EXTENDS Helpers, TLC
CONSTANTS Slots, MaxLen, Delays, Steps, Kinds, MaxClock, Walkers   \* Walkers > 0: random programs instead of all
VARIABLES walker, prog, m, dismissed   \* dismissed: actions that were dismissed
vars == <<walker, prog, m, dismissed>>

Op(op, i, j, v) == [op |-> op, i |-> i, j |-> j, v |-> v]
FirstFree == {s \in 1..Slots : m.slots[s].kind = "none" /\ \A t \in 1..s - 1 : m.slots[t].kind # "none"}
Ops == (IF "guard" \in Kinds THEN {Op("guard", s, 0, 0) : s \in FirstFree} ELSE {})
       \union (IF "thread" \in Kinds THEN {Op("thread", s, 0, 0) : s \in FirstFree} ELSE {})
       \union (IF "delay" \in Kinds THEN {Op("delay", s, 0, d) : s \in FirstFree, d \in Delays} ELSE {})
       \union {Op("move", i, j, 0) : i \in 1..Slots, j \in 1..Slots}
       \union {Op(x, i, 0, 0) : i \in 1..Slots, x \in {"dismiss", "destroy"}}
       \union (IF "delay" \in Kinds THEN {Op("advance", 0, 0, d) : d \in {d \in Steps : d <= MaxClock - m.clock}} ELSE {})
       \union {Op(x, 0, 0, 0) : x \in {"throw", "leave"}}
Init == prog = <<>> /\ m = Machine(Slots) /\ dismissed = {} /\ walker \in (IF Walkers = 0 THEN {0} ELSE 1..Walkers)
Perform(o) == /\ prog' = Append(prog, o) /\ m' = Do(m, o) /\ UNCHANGED walker
              /\ dismissed' = IF o.op = "dismiss" /\ m.slots[o.i].armed THEN dismissed \union {m.slots[o.i].act} ELSE dismissed
Possible == {o \in Ops : Enabled(m, o)}
Calm == {o \in Possible : o.op \notin {"throw", "leave"}}
Next == /\ Len(prog) < MaxLen /\ ~m.ended
        /\ IF Walkers = 0 THEN \E o \in Possible : Perform(o)
           ELSE IF Len(prog) = MaxLen - 1 THEN \E o \in {RandomElement({Op("throw", 0, 0, 0), Op("leave", 0, 0, 0)})} : Perform(o)
           ELSE Calm # {} /\ \E o \in {RandomElement(Calm)} : Perform(o)

(* an action is owned by at most one helper and performed at most once; never   *)
(* after being dismissed; guards and threads that were not dismissed have been   *)
(* performed when everything is left                                            *)
Owned(a) == {s \in 1..Slots : m.slots[s].armed /\ m.slots[s].act = a}
AtMostOnce == \A a \in DOMAIN m.runs : m.runs[a] + Cardinality(Owned(a)) <= 1
DismissedNever == \A a \in dismissed : m.runs[a] = 0
Complete == m.ended /\ "delay" \notin Kinds => \A a \in DOMAIN m.runs : m.runs[a] = 1 \/ a \in dismissed
=============================================================================
