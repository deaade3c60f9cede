----------------------------- MODULE PrintTrace -----------------------------
(* Recorded output of threads that printed.  Each record has the programs, what *)
(* each stream got in the end, and how much of it when a thread had got so far. *)
EXTENDS PrintText, Json, TLC
CONSTANT File
Obs == JsonDeserialize(File)
VARIABLES rec, str, off, pos
vars == <<rec, str, off, pos>>
O == Obs[rec]
Mine(t) == For(O.progs[t], str)
(* Which message of its program the thread's n-th for this stream is. *)
RECURSIVE Place(_, _, _)
Place(q, n, i) == IF q[i].s = str THEN (IF n = 1 THEN i ELSE Place(q, n - 1, i + 1)) ELSE Place(q, n, i + 1)
Start(r, s) == rec = r /\ str = s /\ off = 0 /\ pos = [t \in DOMAIN Obs[r].progs |-> 0]
Init == \E r \in DOMAIN Obs, s \in {1, 2} : Start(r, s)
Next == \E t \in DOMAIN O.progs :
    /\ pos[t] < Len(Mine(t))
    /\ LET m == Mine(t)[pos[t] + 1]
           i == Place(O.progs[t], pos[t] + 1, 1)
       IN /\ Starts(O.out[str], m.t, off)
          /\ off' = off + Len(m.t)
          /\ \A k \in DOMAIN O.marks : (O.marks[k].t = t /\ i <= O.marks[k].n) => off' <= O.marks[k].len[str]
    /\ pos' = [pos EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<rec, str>>
Spec == Init /\ [][Next]_vars
Complete == off = Len(O.out[str]) /\ \A t \in DOMAIN O.progs : pos[t] = Len(Mine(t))
Emit == Complete => PrintT("V " \o ToJson([r |-> rec, s |-> str]))
=============================================================================
