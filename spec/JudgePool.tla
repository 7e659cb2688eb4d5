------------------------------ MODULE JudgePool ------------------------------
(* Trace validation: every recorded execution of the real pool must be a      *)
(* behaviour of Pool.  One trace per line; events in the order in which they  *)
(* happened (the program ran under a scheduler that runs one thread at a time)*)
(*   callput t rows one | retput t | retget t row (0: stop) | print t row     *)
(*   start t num n | done t num    (the progress messages)                    *)
(* Rows are numbers; the messages are optional.  A trace of the whole program *)
(* (kind "cli") has no call events: see CliStep.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, l, bad, known, handed, batch, single, busy, stopped, num, started, finished
pv == <<known, handed, batch, single, busy, stopped>>
MaxT == 16
P == INSTANCE Pool WITH Threads <- 0..MaxT, NoBatch <- {-1}, Idle <- 0, Filling <- -1

Range(s) == {s[k] : k \in DOMAIN s}
Start(k) == /\ i = k /\ l = 1 /\ bad = "" /\ num = [t \in 0..MaxT |-> 0] /\ started = 0 /\ finished = {}
            /\ P!PInit
Init == \E k \in 1..Len(Obs) : Start(k)
O == Obs[i]
Ev == O.ev[l]
Total == Cardinality({k \in 1..Len(O.ev) : O.ev[k].k = "print"})

(* ---- the whole program, seen from its output: who prints is unknown ---- *)
(* rows before the first message come from the initialisation; afterwards a  *)
(* row may only appear while some row is being processed (or known rows are  *)
(* being added); every row is processed exactly once and all work ends       *)
CliPrint == /\ Ev.row \notin known
            /\ (started = 0 \/ Cardinality(finished) < started \/ O.async) = TRUE
            /\ known' = known \cup {Ev.row}
            /\ UNCHANGED <<handed, batch, single, busy, stopped, num, started, finished>>
CliStart == /\ Ev.num = started + 1 /\ Ev.num <= Cardinality(known) /\ Ev.num <= Ev.n /\ Ev.n <= Total
            /\ started + 1 - Cardinality(finished) <= O.threads
            /\ started' = started + 1
            /\ UNCHANGED <<pv, num, finished>>
CliDone == /\ Ev.num \in 1..started /\ Ev.num \notin finished
           /\ finished' = finished \cup {Ev.num}
           /\ UNCHANGED <<pv, num, started>>
CliFinal == started = Cardinality(known) /\ Cardinality(finished) = started
CliStep == \/ Ev.k = "print" /\ CliPrint
           \/ Ev.k = "start" /\ CliStart
           \/ Ev.k = "done" /\ CliDone

(* ---- the pool itself, seen from its interface ---- *)
ApiStep ==
  \/ /\ Ev.k = "callput" /\ P!BeginPut(Ev.t, Range(Ev.rows), Ev.one) /\ UNCHANGED <<num, started, finished>>
  \/ /\ Ev.k = "retput" /\ P!EndPut(Ev.t) /\ UNCHANGED <<num, started, finished>>
  \/ /\ Ev.k = "print" /\ P!Print(Ev.t, Ev.row) /\ UNCHANGED <<num, started, finished>>
  \/ /\ Ev.k = "retget" /\ Ev.row # 0 /\ P!Take(Ev.t, Ev.row) /\ UNCHANGED <<num, started, finished>>
  \/ /\ Ev.k = "retget" /\ Ev.row = 0 /\ P!Stop(Ev.t) /\ UNCHANGED <<num, started, finished>>
  \/ /\ Ev.k = "start" /\ Ev.num = started + 1 /\ Ev.num <= Cardinality(known) /\ Ev.num <= Ev.n /\ Ev.n <= Total
     /\ started' = started + 1 /\ num' = [num EXCEPT ![Ev.t] = Ev.num]
     /\ UNCHANGED <<pv, finished>>
  \/ /\ Ev.k = "done" /\ num[Ev.t] = Ev.num /\ Ev.num \notin finished
     /\ (batch[Ev.t] # {-1} /\ batch[Ev.t] \subseteq known) = TRUE
     /\ finished' = finished \cup {Ev.num}
     /\ UNCHANGED <<pv, num, started>>
ApiFinal == /\ stopped = 1..O.workers /\ handed = known
            /\ \A t \in 0..MaxT : batch[t] = {-1} /\ busy[t] = 0
            /\ known = UNION {Range(O.ev[k].rows) : k \in {x \in 1..Len(O.ev) : O.ev[x].k = "callput"}}
            /\ (started > 0 => (started = Cardinality(handed) /\ Cardinality(finished) = started))

Step == bad = "" /\ l <= Len(O.ev) /\ (IF O.kind = "cli" THEN CliStep ELSE ApiStep)
Final == IF O.kind = "cli" THEN CliFinal ELSE ApiFinal
Next == \/ Step /\ l' = l + 1 /\ UNCHANGED <<i, bad>>
        \/ /\ bad = "" /\ l <= Len(O.ev) /\ ~ENABLED Step
           /\ bad' = "event " \o ToString(l) \o " not allowed: " \o ToString(Ev)
           /\ UNCHANGED <<i, l, pv, num, started, finished>>
        \/ /\ bad = "" /\ l = Len(O.ev) + 1 /\ ~Final
           /\ bad' = "the execution ended with work left or a worker not stopped"
           /\ UNCHANGED <<i, l, pv, num, started, finished>>
Accepted == /\ bad = "" \/ PrintT("REJECT " \o ToString(i) \o " " \o bad \o " ENDREJECT")
            /\ (bad = "" /\ l = Len(O.ev) + 1 /\ Final) => PrintT("ACCEPT " \o ToString(i))
Sane == P!HandedAreKnown /\ (Len(Obs) > 0 /\ O.kind = "api" => P!StopIsFinal)
=============================================================================
