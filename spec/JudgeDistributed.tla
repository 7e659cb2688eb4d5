--------------------------- MODULE JudgeDistributed ---------------------------
(* Judges distributed runs of the real program: how it used the network, that    *)
(* every class was sent once and its results arrived, and what was printed,      *)
(* compared with a run of a single process.                                      *)
(* o: [nodes, hung, status, single, result, others, jobs, processed, events]     *)
(*   single, result: [ok, eqs, rows]; others: output of other nodes is empty     *)
(*   jobs: the spellings of the printed rows on the wire; processed: number of   *)
(*   announcements of the work on a class, -1 if there are none                  *)
(*   events: [k, r, t, peer, tag, id, data] in the order of the network          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

Set(s) == {s[k] : k \in DOMAIN s}
(* ---- the network: one channel per pair of nodes and tag ---- *)
(* flying: posted, not received; open: posted, not completed by the sender;       *)
(* turn: how often a thread has received; seen: labels of a channel in order;     *)
(* taker: who receives the messages of a label                                    *)
Start == [bad |-> "", flying |-> <<>>, open |-> {}, turn |-> <<>>, seen |-> <<>>, taker |-> <<>>]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Label(s, e) == <<e.r, e.t, Get(s.turn, <<e.r, e.t>>, 0)>>
Bad(s, text, e) == [s EXCEPT !.bad = text \o " (node " \o ToString(e.r) \o ", message " \o ToString(e.id) \o ")"]
(* what one thread sends between two receipts is one unit; units do not mix       *)
Mixes(labels, l) == labels # <<>> /\ labels[Len(labels)] # l /\ l \in Set(labels)
Step(s, e) ==
   IF s.bad # "" THEN s
   ELSE CASE e.k = "post" ->
               LET c == <<e.r, e.peer, e.tag>>  l == Label(s, e)  old == Get(s.seen, c, <<>>)
               IN  IF Mixes(old, l) THEN Bad(s, "messages of two threads are mixed", e)
                   ELSE [s EXCEPT !.flying = Append(@, [id |-> e.id, from |-> e.r, to |-> e.peer, tag |-> e.tag, data |-> e.data, label |-> l]),
                                  !.open = @ \cup {<<e.r, e.id>>},
                                  !.seen = (c :> (IF old # <<>> /\ old[Len(old)] = l THEN old ELSE Append(old, l))) @@ @]
          [] e.k = "done" -> IF <<e.r, e.id>> \in s.open THEN [s EXCEPT !.open = @ \ {<<e.r, e.id>>}] ELSE Bad(s, "completion of an unknown message", e)
          [] e.k = "recv" ->
               LET own(m) == m.from = e.peer /\ m.to = e.r /\ m.tag = e.tag
                   at == SelectInSeq(s.flying, own)
               IN  IF at = 0 THEN Bad(s, "received a message that was not sent", e)
                   ELSE LET m == s.flying[at]  me == <<e.r, e.t>>
                        IN  IF m.id # e.id THEN Bad(s, "received messages in a wrong order", e)
                            ELSE IF m.data # e.data THEN Bad(s, "message changed before it was sent", e)
                            ELSE IF Get(s.taker, m.label, me) # me THEN Bad(s, "one matrix is received by two threads", e)
                            ELSE [s EXCEPT !.flying = RemoveAt(@, at), !.taker = (m.label :> me) @@ @, !.turn = (me :> (Get(@, me, 0) + 1)) @@ @]
          [] e.k = "final" -> IF \E x \in s.open : x[1] = e.r THEN Bad(s, "a message is given up before it is completed", e) ELSE s
          [] e.k = "overlap" -> Bad(s, "two threads use the network at the same time", e)
          [] e.k = "init" -> s
          [] OTHER -> Bad(s, e.k, e)
(* a receiving thread counts its units by receipts; for the turn of a sender only  *)
(* the first receipt after a post matters, which the count respects                *)
Network(o) ==
   LET s == FoldLeft(Step, Start, o.events)
   IN  IF s.bad # "" THEN s.bad
       ELSE IF s.flying # <<>> THEN "message " \o ToString(s.flying[1].id) \o " is never received"
       ELSE IF Cardinality({e \in Set(o.events) : e.k = "final"}) # o.nodes THEN "a node does not leave the network" ELSE ""
(* ---- every class goes to one node ---- *)
Sent(o) == SelectSeq(o.events, LAMBDA e : e.k = "post" /\ e.r = 0 /\ \E j \in DOMAIN o.jobs : e.data \in Set(o.jobs[j]))
Once(o) ==
   LET s == Sent(o)
   IN  IF \E a, b \in DOMAIN s : a < b /\ s[a].data = s[b].data THEN "a class is sent twice"
       ELSE IF o.processed >= 0 /\ o.processed # Len(o.result.rows) THEN "work on " \o ToString(o.processed) \o " classes, " \o ToString(Len(o.result.rows)) \o " printed"
       ELSE ""
Printed(o) ==
   IF o.result.eqs # o.single.eqs THEN "other equations"
   ELSE IF ~(Set(o.single.rows) \subseteq Set(o.result.rows)) THEN "rows are missing"
   ELSE IF Set(o.single.rows) # Set(o.result.rows) THEN "additional rows"
   ELSE IF Len(o.result.rows) # Cardinality(Set(o.result.rows)) THEN "a row is printed twice"
   ELSE IF ~o.others THEN "another node prints" ELSE ""
Verdict(o) ==
   IF o.hung THEN "a node does not end"
   ELSE IF ~o.single.ok THEN IF \A n \in DOMAIN o.status : o.status[n] = 0 THEN "the run succeeds although a single process fails" ELSE ""
   ELSE IF \E n \in DOMAIN o.status : o.status[n] # 0 THEN "a node fails"
   ELSE LET p == Printed(o)  n == Network(o)
        IN  IF p # "" THEN p ELSE IF n # "" THEN n ELSE Once(o)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
