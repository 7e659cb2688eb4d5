------------------------------ MODULE JobPool ------------------------------
(* The pool as it is implemented (src/list.cpp): one mutex, one condition    *)
(* variable, one action per critical section.  Workers loop get/put; the     *)
(* main thread (0) puts the initial batch, then starts the workers; thread   *)
(* A puts known rows one by one meanwhile.  Checked: refinement of Pool,     *)
(* absence of deadlock, termination.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers,      \* e.g. {1, 2}
          Rows,         \* e.g. 1..3
          AllGraphs,    \* TRUE: every successor relation, FALSE: the one below
          Known,        \* number of rows put asynchronously
          Spurious,     \* TRUE: spurious wake-ups
          NotifyAll,    \* TRUE: the end is announced to all (the implementation)
          KeepMarker,   \* TRUE: the end marker stays in the queue (the implementation)
          CheckedEmpty  \* TRUE: workers = 0 is required for the end (the implementation)
End == 0                \* the end marker, an empty row
VARIABLES succ, first,  \* the work: results of a row, initial batch
          set, queue, workers,        \* the state of the list
          waiting,                    \* threads inside condition.wait
          pc, todo, row,              \* per thread: program counter, batch left, current row
          out                         \* printed rows, in order (history)
vars == <<succ, first, set, queue, workers, waiting, pc, todo, row, out>>
work == <<succ, first>>
Async == 100
Procs == Workers \cup {0, Async}

SeqOf(S) == LET RECURSIVE F(_) F(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o F(X \ {m}) IN F(S)

Reach(f, s) == LET RECURSIVE C(_) C(X) == LET Y == X \cup UNION {s[x] : x \in X} IN IF Y = X THEN X ELSE C(Y) IN C(f)

Init == /\ succ \in (IF AllGraphs THEN [Rows -> SUBSET Rows] ELSE {[r \in Rows |-> {x \in Rows : x = r + 1 \/ x = r + 2 \/ x = 1}]})
        /\ first \in (IF AllGraphs THEN SUBSET Rows ELSE {{1}})
        /\ set = {} /\ queue = <<>> /\ workers = 1 /\ waiting = {}
        /\ pc = [p \in Procs |-> IF p = 0 THEN "put" ELSE "none"]
        /\ todo = [p \in Procs |-> IF p = 0 THEN SeqOf(first) ELSE <<>>]
        /\ row = [p \in Procs |-> End]
        /\ out = <<>>

(* ---- put(Row), one critical section per row ---- *)
Insert(p, r) ==
  IF r \in set THEN UNCHANGED <<set, queue, out, waiting>>
  ELSE /\ set' = set \cup {r} /\ queue' = Append(queue, r) /\ out' = Append(out, r)
       /\ IF waiting = {} THEN UNCHANGED waiting ELSE \E w \in waiting : waiting' = waiting \ {w}
PutRow(p) == /\ pc[p] = "put" /\ todo[p] # <<>>
             /\ Insert(p, Head(todo[p]))
             /\ todo' = [todo EXCEPT ![p] = Tail(@)]
             /\ UNCHANGED <<work, workers, pc, row>>
(* ---- end of put(Matrix) ---- *)
PutDone(p) == /\ pc[p] = "put" /\ todo[p] = <<>>
              /\ IF p = Async
                 THEN /\ pc' = [pc EXCEPT ![p] = "stop"] /\ UNCHANGED <<workers, todo, row>>
                 ELSE /\ workers' = workers - 1
                      /\ IF p = 0
                         THEN /\ pc' = [q \in Procs |-> IF q = 0 THEN "stop" ELSE IF q = Async THEN "put" ELSE "check"]
                              /\ todo' = [todo EXCEPT ![Async] = LET S == SeqOf(Reach(first, succ)) IN SubSeq(S, 1, IF Known < Len(S) THEN Known ELSE Len(S))]
                              /\ UNCHANGED row
                         ELSE /\ pc' = [pc EXCEPT ![p] = "check"] /\ row' = [row EXCEPT ![p] = End] /\ UNCHANGED todo
              /\ UNCHANGED <<work, set, queue, waiting, out>>
(* ---- get ---- *)
Check(p) == /\ pc[p] = "check"
            /\ pc' = [pc EXCEPT ![p] = IF (workers = 0 \/ ~CheckedEmpty) /\ queue = <<>> THEN "mark" ELSE "wait"]
            /\ UNCHANGED <<work, set, queue, workers, waiting, todo, row, out>>
Mark(p) == /\ pc[p] = "mark"
           /\ set' = set \cup {End} /\ queue' = Append(queue, End)
           /\ IF NotifyAll THEN waiting' = {} ELSE IF waiting = {} THEN UNCHANGED waiting ELSE \E w \in waiting : waiting' = waiting \ {w}
           /\ pc' = [pc EXCEPT ![p] = "wait"]
           /\ UNCHANGED <<work, workers, todo, row, out>>
Sleep(p) == /\ pc[p] = "wait" /\ p \notin waiting /\ queue = <<>>
            /\ waiting' = waiting \cup {p}
            /\ UNCHANGED <<work, set, queue, workers, pc, todo, row, out>>
Take(p) == /\ pc[p] = "wait" /\ p \notin waiting /\ queue # <<>>
           /\ workers' = workers + 1
           /\ LET r == Head(queue) IN
                /\ row' = [row EXCEPT ![p] = r]
                /\ queue' = IF r = End /\ KeepMarker THEN queue ELSE Tail(queue)
                /\ pc' = [pc EXCEPT ![p] = IF r = End THEN "stop" ELSE "put"]
                /\ todo' = [todo EXCEPT ![p] = IF r = End THEN <<>> ELSE SeqOf(succ[r])]
           /\ UNCHANGED <<work, set, waiting, out>>
WakeUp(p) == /\ Spurious /\ p \in waiting
             /\ waiting' = waiting \ {p}
             /\ UNCHANGED <<work, set, queue, workers, pc, todo, row, out>>

Step(p) == PutRow(p) \/ PutDone(p) \/ Check(p) \/ Mark(p) \/ Sleep(p) \/ Take(p)
AllDone == \A p \in Procs : pc[p] = "stop"
Next == (\E p \in Procs : Step(p)) \/ (\E p \in Workers : WakeUp(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(* ---- properties ---- *)
TypeOK == workers \in 0..(2 * Cardinality(Procs) + 1)
Termination == <>AllDone
PrintedOnce == \A a \in 1..Len(out), b \in 1..Len(out) : a # b => out[a] # out[b]
Complete == AllDone => {out[k] : k \in 1..Len(out)} = Reach(first, succ)

(* ---- refinement: the state of Pool as a function of this state ---- *)
Ever == {out[k] : k \in 1..Len(out)}
InQueue == {queue[k] : k \in 1..Len(queue)} \ {End}
putting(p) == pc[p] = "put" /\ (p \in {0, Async} \/ row[p] # End)
whole(p) == IF p = 0 THEN first ELSE IF p = Async THEN {x \in Reach(first, succ) : Cardinality({y \in Reach(first, succ) : y < x}) < Known} ELSE succ[row[p]]
P == INSTANCE Pool WITH
       Threads <- Workers \cup {0}, NoBatch <- {-1}, Idle <- 0, Filling <- -1,
       known <- Ever, handed <- Ever \ InQueue,
       batch <- [t \in Workers \cup {0} |-> IF putting(t) THEN whole(t) ELSE {-1}],
       single <- [t \in Workers \cup {0} |-> FALSE],
       busy <- [t \in Workers \cup {0} |-> IF t = 0 THEN (IF pc[0] = "put" THEN -1 ELSE 0)
                                              ELSE IF pc[t] = "put" THEN row[t] ELSE 0],
       stopped <- {t \in Workers : pc[t] = "stop"}
(* A worker reaches "put" in the step that takes the row: Take and BeginPut  *)
(* of Pool in one; the asynchronous thread prints on behalf of nobody.       *)
HandedAreKnown == P!HandedAreKnown
StopIsFinal == P!StopIsFinal
TakeOnce == \A a \in Workers, b \in Workers : (a # b /\ row[a] # End /\ pc[a] = "put" /\ pc[b] = "put") => row[a] # row[b]
(* told to stop only in quiescence, and quiescence is stable *)
StopQuiescent == [][\A w \in Workers : (pc[w] # "stop" /\ pc'[w] = "stop") => P!Quiescent]_vars
TakenFromPrinted == [][\A w \in Workers : (pc[w] = "wait" /\ pc'[w] = "put") => (row'[w] \in Ever /\ row'[w] \in InQueue /\ row'[w] \notin InQueue')]_vars
PrintedFromBatch == [][out' # out => \E p \in Procs : todo[p] # <<>> /\ out' = Append(out, Head(todo[p]))]_vars
=============================================================================
