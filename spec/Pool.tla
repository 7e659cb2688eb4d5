-------------------------------- MODULE Pool --------------------------------
(* The worker pool as its users see it.  Threads put batches of rows; every  *)
(* new row is printed; workers take rows; a worker is stopped only when      *)
(* nothing is left and nothing can come.  Thread 0 is the initialisation:    *)
(* it counts as busy until its first batch is in.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads,   \* 0 .. number of workers (0: the initialisation)
          NoBatch,   \* a thread that is not putting
          Idle, Filling
VARIABLES known,     \* rows that have been printed
          handed,    \* rows that have been handed out
          batch,     \* thread |-> the set of rows it is putting, or NoBatch
          single,    \* thread |-> TRUE: the batch is a single row (no effect on busy)
          busy,      \* thread |-> row it works on, Idle, or Filling (initialisation)
          stopped    \* workers that have been told to stop
pvars == <<known, handed, batch, single, busy, stopped>>

PInit == /\ known = {} /\ handed = {} /\ stopped = {}
         /\ batch = [t \in Threads |-> NoBatch]
         /\ single = [t \in Threads |-> FALSE]
         /\ busy = [t \in Threads |-> IF t = 0 THEN Filling ELSE Idle]

BeginPut(t, rows, one) ==
  /\ batch[t] = NoBatch /\ t \notin stopped
  /\ one \/ busy[t] # Idle                 \* a batch ends the work on a row
  /\ batch' = [batch EXCEPT ![t] = rows]
  /\ single' = [single EXCEPT ![t] = one]
  /\ UNCHANGED <<known, handed, busy, stopped>>
Print(t, r) ==
  /\ batch[t] # NoBatch /\ r \in batch[t]
  /\ r \notin known                        \* never printed twice
  /\ stopped = {}                          \* the end is the end
  /\ known' = known \cup {r}
  /\ UNCHANGED <<handed, batch, single, busy, stopped>>
EndPut(t) ==
  /\ batch[t] # NoBatch /\ batch[t] \subseteq known   \* nothing lost
  /\ batch' = [batch EXCEPT ![t] = NoBatch]
  /\ busy' = [busy EXCEPT ![t] = IF single[t] THEN @ ELSE Idle]
  /\ UNCHANGED <<known, handed, single, stopped>>
Take(t, r) ==
  /\ busy[t] = Idle /\ batch[t] = NoBatch /\ t \notin stopped
  /\ r \in known /\ r \notin handed        \* once, and only rows that exist
  /\ handed' = handed \cup {r}
  /\ busy' = [busy EXCEPT ![t] = r]
  /\ UNCHANGED <<known, batch, single, stopped>>
(* the work of t is over as soon as its batch is in, even if the call has    *)
(* not returned yet                                                          *)
Finished(t) == busy[t] = Idle \/ (batch[t] # NoBatch /\ ~single[t] /\ batch[t] \subseteq known)
Quiescent == handed = known /\ \A t \in Threads : Finished(t)
Stop(t) ==
  /\ busy[t] = Idle /\ batch[t] = NoBatch /\ t \notin stopped
  /\ Quiescent
  /\ stopped' = stopped \cup {t}
  /\ UNCHANGED <<known, handed, batch, single, busy>>

HandedAreKnown == handed \subseteq known
(* quiescence is final: once a worker may stop, there is nothing to do for   *)
(* anyone                                                                    *)
StopIsFinal == stopped # {} => handed = known
=============================================================================
