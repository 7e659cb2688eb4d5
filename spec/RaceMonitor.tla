----------------------------- MODULE RaceMonitor -----------------------------
(* Happens-before over one recorded execution: sets of events by definition,  *)
(* and vector clocks that decide the same in one pass.                        *)
(* An event:  k in {"acq","rel","fork","join","begin","end","acc"},           *)
(*   t the thread, o the object (acq, rel) or thread (fork, join),            *)
(*   r, w the locations read and written (acc)                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thr, Objs, Locs
VARIABLES clock,   \* thread |-> vector clock
          lockc,   \* object |-> vector clock of the releases so far
          wr,      \* location |-> vector of the last write of every thread
          rd,      \* location |-> vector of the last read of every thread
          fin,     \* thread |-> clock at its end
          race     \* a location with two unordered accesses, or 0
mvars == <<clock, lockc, wr, rd, fin, race>>
Zero == [t \in Thr |-> 0]
Max2(a, b) == [t \in Thr |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Below(a, b) == \A t \in Thr : a[t] <= b[t]
MInit == /\ clock = [t \in Thr |-> [u \in Thr |-> IF u = t THEN 1 ELSE 0]]
         /\ lockc = [o \in Objs |-> Zero]
         /\ wr = [x \in Locs |-> Zero] /\ rd = [x \in Locs |-> Zero]
         /\ fin = [t \in Thr |-> Zero] /\ race = 0
Tick(c, t) == [c EXCEPT ![t][t] = @ + 1]
Acquire(t, o) == /\ clock' = [clock EXCEPT ![t] = Max2(@, lockc[o])]
                 /\ UNCHANGED <<lockc, wr, rd, fin, race>>
Release(t, o) == /\ lockc' = [lockc EXCEPT ![o] = Max2(@, clock[t])]
                 /\ clock' = Tick(clock, t)
                 /\ UNCHANGED <<wr, rd, fin, race>>
Fork(t, u) == /\ clock' = Tick([clock EXCEPT ![u] = Max2(@, clock[t])], t)
              /\ UNCHANGED <<lockc, wr, rd, fin, race>>
Join(t, u) == /\ clock' = [clock EXCEPT ![t] = Max2(@, clock[u])]
              /\ UNCHANGED <<lockc, wr, rd, fin, race>>
Access(t, r, w) ==
  LET bad == {x \in r \cup w : ~Below(wr[x], clock[t])} \cup {x \in w : ~Below(rd[x], clock[t])}
  IN /\ race' = IF race # 0 \/ bad = {} THEN race ELSE CHOOSE x \in bad : TRUE
     /\ wr' = [x \in Locs |-> IF x \in w THEN [wr[x] EXCEPT ![t] = clock[t][t]] ELSE wr[x]]
     /\ rd' = [x \in Locs |-> IF x \in r THEN [rd[x] EXCEPT ![t] = clock[t][t]] ELSE rd[x]]
     /\ UNCHANGED <<clock, lockc, fin>>
Rng(s) == {s[k] : k \in DOMAIN s}
MStep(e) ==
  CASE e.k = "acq" -> Acquire(e.t, e.o)
    [] e.k = "rel" -> Release(e.t, e.o)
    [] e.k = "fork" -> Fork(e.t, e.o)
    [] e.k = "join" -> Join(e.t, e.o)
    [] e.k = "acc" -> Access(e.t, Rng(e.r), Rng(e.w))
    [] e.k \in {"begin", "end"} -> UNCHANGED mvars

(* ---------------- the definition ---------------- *)
(* program order, release before a later acquire of the same object, fork     *)
(* before everything of the child, everything of a thread before its join     *)
Direct(h, a, b) ==
  a < b /\ \/ h[a].t = h[b].t
           \/ h[a].k = "rel" /\ h[b].k = "acq" /\ h[a].o = h[b].o
           \/ h[a].k = "fork" /\ h[b].t = h[a].o
           \/ h[b].k = "join" /\ (h[a].t = h[b].o \/ (h[a].k = "fork" /\ h[a].o = h[b].o))
RECURSIVE Reaches(_, _, _)
Reaches(h, a, b) == Direct(h, a, b) \/ \E c \in (a + 1)..(b - 1) : Direct(h, a, c) /\ Reaches(h, c, b)
Conflict(e, f) == e.t # f.t /\ ((Rng(e.w) \cap (Rng(f.r) \cup Rng(f.w))) # {} \/ (Rng(f.w) \cap Rng(e.r)) # {})
HasRace(h) == \E a, b \in 1..Len(h) : a < b /\ h[a].k = "acc" /\ h[b].k = "acc" /\ Conflict(h[a], h[b]) /\ ~Reaches(h, a, b)
=============================================================================
