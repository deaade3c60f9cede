-------------------------------- MODULE Print --------------------------------
(* Threads printing messages to two streams.  A print takes the stream, hands  *)
(* its text over in pieces of any length, and returns when all of it is out.   *)
EXTENDS PrintText
CONSTANTS Progs     \* each thread's messages: [s |-> 1 or 2, t |-> the text]
Threads == DOMAIN Progs
Streams == {1, 2}
VARIABLES
    out,            \* what each stream was given
    own,            \* who is printing to it (0: nobody)
    at,             \* each thread's next message
    left            \* what of it is still to be written
vars == <<out, own, at, left>>

Busy(t) == \E s \in Streams : own[s] = t
Init ==
    /\ out = [s \in Streams |-> << >>]
    /\ own = [s \in Streams |-> 0]
    /\ at = [t \in Threads |-> 1]
    /\ left = [t \in Threads |-> << >>]
Take(t) ==
    /\ ~Busy(t) /\ at[t] <= Len(Progs[t])
    /\ LET m == Progs[t][at[t]]
       IN /\ own[m.s] = 0
          /\ own' = [own EXCEPT ![m.s] = t]
          /\ left' = [left EXCEPT ![t] = m.t]
    /\ UNCHANGED <<out, at>>
Write(t) ==
    /\ left[t] # << >>
    /\ \E s \in Streams, n \in 1..Len(left[t]) :
        /\ own[s] = t
        /\ out' = [out EXCEPT ![s] = @ \o SubSeq(left[t], 1, n)]
        /\ left' = [left EXCEPT ![t] = SubSeq(@, n + 1, Len(@))]
    /\ UNCHANGED <<own, at>>
Return(t) ==
    /\ left[t] = << >>
    /\ \E s \in Streams : own[s] = t /\ own' = [own EXCEPT ![s] = 0]
    /\ at' = [at EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<out, left>>
Next == \E t \in Threads : Take(t) \/ Write(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : SF_vars(Take(t)) /\ WF_vars(Write(t) \/ Return(t))

(* The text consists of whole messages, pos[t] of each thread t having been    *)
(* found in the first o places.                                                *)
RECURSIVE Whole(_, _, _, _)
Whole(x, s, o, pos) ==
    \/ o = Len(x)
    \/ \E t \in Threads : /\ pos[t] < Len(For(Progs[t], s))
                          /\ Starts(x, For(Progs[t], s)[pos[t] + 1].t, o)
                          /\ Len(For(Progs[t], s)[pos[t] + 1].t) > 0
                          /\ Whole(x, s, o + Len(For(Progs[t], s)[pos[t] + 1].t), [pos EXCEPT ![t] = @ + 1])
None == [t \in Threads |-> 0]
Intact == \A s \in Streams :
    LET x == out[s]
        n == IF own[s] = 0 THEN 0 ELSE Len(Progs[own[s]][at[own[s]]].t) - Len(left[own[s]])
    IN Whole(SubSeq(x, 1, Len(x) - n), s, 0, None)
RECURSIVE Sum(_, _)
Sum(q, s) == IF q = << >> THEN 0 ELSE (IF q[1].s = s THEN Len(q[1].t) ELSE 0) + Sum(Tail(q), s)
(* What was printed is out when the call returns. *)
AtOnce == \A t \in Threads, s \in Streams : Len(out[s]) >= Sum(SubSeq(Progs[t], 1, at[t] - 1), s)
Ends == <>(\A t \in Threads : at[t] > Len(Progs[t]))
=============================================================================
