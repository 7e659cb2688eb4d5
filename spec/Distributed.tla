---------------------------- MODULE Distributed ----------------------------
(* The adjacency decomposition distributed over nodes.  Node 0 (the master)    *)
(* owns the pool of classes; it has Local threads of its own and, for every    *)
(* other node, one request thread per thread of that node.  A request thread   *)
(* takes a class, sends it to its node, waits for a matrix from that node and  *)
(* puts it.  A matrix is a sequence of messages: number of rows, then the rows.*)
(* Messages between two nodes keep their order and are delayed arbitrarily.    *)
(* Every node has one lock around its use of the network.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Nodes,        \* number of nodes besides the master
          Threads,      \* threads per node
          Local,        \* threads of the master
          Rows,         \* number of classes
          AllGraphs,    \* TRUE: every relation between the classes
          Synchronous,  \* TRUE: a send is completed only when it is received
          SendLock,     \* TRUE: a matrix is sent under the lock (the implementation)
          ReceiveLock,  \* TRUE: a matrix is received under the lock (the implementation)
          EndPerThread, \* TRUE: every thread of a node gets its own end (the implementation)
          Failing       \* TRUE: the initialization may fail
VARIABLES succ, first,              \* the work
          known, queue, busy, ended, \* the pool
          down, up,                 \* messages to a node, from a node
          lock,                     \* lock[n]: thread that uses the network of node n
          pc, row, part, left,      \* per thread: program counter, class, matrix so far, parts to come
          taken, started            \* history: how often a class was given out; pool filled
vars == <<succ, first, known, queue, busy, ended, down, up, lock, pc, row, part, left, taken, started>>

R == 1 .. Rows
End == 0
Request == {<<"req", n, t>> : n \in 1 .. Nodes, t \in 1 .. Threads}
Remote == {<<"far", n, t>> : n \in 1 .. Nodes, t \in 1 .. Threads}
Own == {<<"own", 0, t>> : t \in 1 .. Local}
All == Request \cup Remote \cup Own
NodeOf(p) == IF p[1] = "far" THEN p[2] ELSE 0
None == <<"none", 0, 0>>
Free(p) == lock[NodeOf(p)] = None
Mine(p) == lock[NodeOf(p)] = p
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Order(S \ {m})
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {succ[r] : r \in S} IN IF T = S THEN S ELSE Reach(T)

Init == /\ succ \in (IF AllGraphs THEN [R -> SUBSET R] ELSE {[r \in R |-> {x \in R : x = r + 1 \/ x = r + 2 \/ x = 1}]})
        /\ first \in (IF AllGraphs THEN SUBSET R ELSE {{1}})
        /\ known = {} /\ queue = <<>> /\ busy = 1 /\ ended = FALSE
        /\ down = [n \in 1 .. Nodes |-> <<>>] /\ up = [n \in 1 .. Nodes |-> <<>>]
        /\ lock = [n \in 0 .. Nodes |-> None]
        /\ pc = [p \in All |-> IF p \in Remote THEN "look" ELSE IF p \in Own THEN "unborn" ELSE "get"]
        /\ row = [p \in All |-> End] /\ part = [p \in All |-> <<>>] /\ left = [p \in All |-> 0]
        /\ taken = [r \in R |-> 0] /\ started = FALSE

(* ---- the pool: one critical section each (see JobPool for the details) ---- *)
Insert(S) == LET new == S \ known IN known' = known \cup new /\ queue' = queue \o Order(new)
Fill == /\ ~started /\ started' = TRUE /\ busy' = 0
        /\ Insert(first)
        /\ pc' = [p \in All |-> IF pc[p] = "unborn" THEN "get" ELSE pc[p]]
        /\ UNCHANGED <<succ, first, ended, down, up, lock, row, part, left, taken>>
(* the initialization fails: nobody must wait for classes any more *)
Abandon == /\ Failing /\ ~started /\ started' = TRUE /\ busy' = 0 /\ ended' = TRUE
           /\ pc' = [p \in All |-> IF pc[p] = "unborn" THEN "end" ELSE pc[p]]
           /\ UNCHANGED <<succ, first, known, queue, down, up, lock, row, part, left, taken>>
Get(p) == /\ pc[p] = "get"
          /\ \/ /\ queue # <<>> /\ ~ended
                /\ row' = [row EXCEPT ![p] = Head(queue)] /\ queue' = Tail(queue)
                /\ busy' = busy + 1 /\ taken' = [taken EXCEPT ![Head(queue)] = @ + 1]
                /\ UNCHANGED ended
             \/ /\ (queue = <<>> /\ busy = 0) \/ ended
                /\ ended' = TRUE /\ row' = [row EXCEPT ![p] = End]
                /\ UNCHANGED <<queue, busy, taken>>
          /\ pc' = [pc EXCEPT ![p] = IF p \in Own THEN (IF row'[p] = End THEN "end" ELSE "work") ELSE "post"]
          /\ UNCHANGED <<succ, first, known, down, up, lock, part, left, started>>
Put(p) == /\ pc[p] = "put"
          /\ Insert({part[p][k] : k \in DOMAIN part[p]}) /\ busy' = busy - 1
          /\ pc' = [pc EXCEPT ![p] = "get"] /\ part' = [part EXCEPT ![p] = <<>>] /\ row' = [row EXCEPT ![p] = End]
          /\ UNCHANGED <<succ, first, ended, down, up, lock, left, taken, started>>
(* ---- the work on a class ---- *)
Work(p) == /\ pc[p] = "work"
           /\ part' = [part EXCEPT ![p] = Order(succ[row[p]])]
           /\ left' = [left EXCEPT ![p] = Cardinality(succ[row[p]])]
           /\ pc' = [pc EXCEPT ![p] = IF p \in Own THEN "put" ELSE "size"]
           /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, up, lock, row, taken, started>>
(* ---- a request thread: send the class, then receive a matrix ---- *)
Post(p) == /\ pc[p] = "post" /\ Free(p)
           /\ down' = [down EXCEPT ![p[2]] = IF row[p] = End /\ ~EndPerThread /\ p[3] # 1 THEN @ ELSE Append(@, row[p])]
           /\ pc' = [pc EXCEPT ![p] = IF Synchronous THEN "sent" ELSE IF row[p] = End THEN "end" ELSE "look"]
           /\ UNCHANGED <<succ, first, known, queue, busy, ended, up, lock, row, part, left, taken, started>>
Sent(p) == /\ pc[p] = "sent" /\ (\A k \in DOMAIN down[p[2]] : down[p[2]][k] # row[p])
           /\ pc' = [pc EXCEPT ![p] = IF row[p] = End THEN "end" ELSE "look"]
           /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, up, lock, row, part, left, taken, started>>
LookMatrix(p) == /\ p \in Request /\ pc[p] = "look" /\ Free(p) /\ up[p[2]] # <<>>
                 /\ left' = [left EXCEPT ![p] = Head(up[p[2]])] /\ up' = [up EXCEPT ![p[2]] = Tail(@)]
                 /\ pc' = [pc EXCEPT ![p] = IF Head(up[p[2]]) = 0 THEN "put" ELSE "receive"]
                 /\ lock' = IF ReceiveLock /\ Head(up[p[2]]) # 0 THEN [lock EXCEPT ![0] = p] ELSE lock
                 /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, row, part, taken, started>>
ReceiveRow(p) == /\ pc[p] = "receive" /\ up[p[2]] # <<>> /\ (IF ReceiveLock THEN Mine(p) ELSE Free(p))
                 /\ part' = [part EXCEPT ![p] = Append(@, Head(up[p[2]]))] /\ up' = [up EXCEPT ![p[2]] = Tail(@)]
                 /\ left' = [left EXCEPT ![p] = @ - 1]
                 /\ pc' = [pc EXCEPT ![p] = IF left[p] = 1 THEN "put" ELSE "receive"]
                 /\ lock' = IF left[p] = 1 /\ ReceiveLock THEN [lock EXCEPT ![0] = None] ELSE lock
                 /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, row, taken, started>>
(* ---- a thread of another node ---- *)
LookRow(p) == /\ p \in Remote /\ pc[p] = "look" /\ Free(p) /\ down[p[2]] # <<>>
              /\ row' = [row EXCEPT ![p] = Head(down[p[2]])] /\ down' = [down EXCEPT ![p[2]] = Tail(@)]
              /\ pc' = [pc EXCEPT ![p] = IF Head(down[p[2]]) = End THEN "end" ELSE "work"]
              /\ UNCHANGED <<succ, first, known, queue, busy, ended, up, lock, part, left, taken, started>>
SendSize(p) == /\ pc[p] = "size" /\ Free(p)
               /\ up' = [up EXCEPT ![p[2]] = Append(@, left[p])]
               /\ pc' = [pc EXCEPT ![p] = IF left[p] = 0 THEN "look" ELSE "send"]
               /\ lock' = IF SendLock /\ left[p] # 0 THEN [lock EXCEPT ![p[2]] = p] ELSE lock
               /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, row, part, left, taken, started>>
SendRow(p) == /\ pc[p] = "send" /\ (IF SendLock THEN Mine(p) ELSE Free(p))
              /\ up' = [up EXCEPT ![p[2]] = Append(@, Head(part[p]))]
              /\ part' = [part EXCEPT ![p] = Tail(@)] /\ left' = [left EXCEPT ![p] = @ - 1]
              /\ pc' = [pc EXCEPT ![p] = IF left[p] # 1 THEN "send" ELSE IF Synchronous THEN "flush" ELSE "look"]
              /\ lock' = IF left[p] = 1 /\ SendLock THEN [lock EXCEPT ![p[2]] = None] ELSE lock
              /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, row, taken, started>>
Flush(p) == /\ pc[p] = "flush" /\ up[p[2]] = <<>>
            /\ pc' = [pc EXCEPT ![p] = "look"]
            /\ UNCHANGED <<succ, first, known, queue, busy, ended, down, up, lock, row, part, left, taken, started>>

Step(p) == Get(p) \/ Put(p) \/ Work(p) \/ Post(p) \/ Sent(p) \/ LookMatrix(p) \/ ReceiveRow(p) \/ LookRow(p) \/ SendSize(p) \/ SendRow(p) \/ Flush(p)
Next == Fill \/ Abandon \/ \E p \in All : Step(p)
Done == started /\ \A p \in All : pc[p] = "end"
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill \/ Abandon) /\ \A p \in All : WF_vars(Step(p))

(* ---- what is to hold ---- *)
Once == \A r \in R : taken[r] <= 1
(* a matrix that was received completely is the result of a class that was sent  *)
(* to that node                                                                  *)
Unmixed == \A p \in Request : pc[p] = "put" => \E r \in R : taken[r] = 1 /\ {part[p][k] : k \in DOMAIN part[p]} = succ[r] /\ Len(part[p]) = Cardinality(succ[r])
Complete == Done => known = (IF known = {} /\ Failing THEN {} ELSE Reach(first)) /\ (\A r \in known : taken[r] = 1) /\ (\A n \in 1 .. Nodes : down[n] = <<>> /\ up[n] = <<>>)
NoDeadlock == Done \/ ENABLED Next
Termination == <>Done
=============================================================================
