------------------------------ MODULE JudgeRace ------------------------------
(* Recorded executions of the real program: no two accesses to a location by  *)
(* different threads, one of them a write, without an order.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Stride, MaxThr, MaxObj, MaxLoc
VARIABLES i, l, done, clock, lockc, wr, rd, fin, race
Obs == ndJsonDeserialize(IOEnv.OBS)
M == INSTANCE RaceMonitor WITH Thr <- 0..MaxThr, Objs <- 1..MaxObj, Locs <- 1..MaxLoc
mv == <<clock, lockc, wr, rd, fin, race>>
Init == i \in 1..Len(Obs) /\ l = 1 /\ done = FALSE /\ M!MInit
Next == \/ l <= Len(Obs[i].ev) /\ race = 0 /\ M!MStep(Obs[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED <<i, done>>
        \/ (l > Len(Obs[i].ev) \/ race # 0) = TRUE /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, l, mv>>
Accepted == done => IF race = 0 THEN PrintT("ACCEPT " \o ToString(i))
                    ELSE PrintT("REJECT " \o ToString(i) \o " location " \o ToString(race) \o " event " \o ToString(l - 1) \o " ENDREJECT")
Sane == TRUE
=============================================================================
