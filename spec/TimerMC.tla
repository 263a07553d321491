------------------------------ MODULE TimerMC ------------------------------
(* Design check: with the service's bookkeeping the recorded times account for the elapsed time. *)
EXTENDS TimerSpec
CONSTANTS Threads, Attrs, MaxClock, MaxOpen
VARIABLES clock, st,   \* timer state per thread
          regs,        \* ground truth: thread -> sequence of open regions <<attribute, begin time>>
          sum, first,  \* thread -> sum of durations since its first snapshot; time of the first one (-1: none)
          lastin       \* the inclusive time of the last end event and the true one
vars == <<clock, st, regs, sum, first, lastin>>
Init == /\ clock = 0 /\ st = [t \in Threads |-> Fresh] /\ regs = [t \in Threads |-> <<>>]
        /\ sum = [t \in Threads |-> 0] /\ first = [t \in Threads |-> -1] /\ lastin = <<0, 0>>
Tick == clock < MaxClock /\ clock' = clock + 1 /\ UNCHANGED <<st, regs, sum, first, lastin>>
Snap(t, kind) ==
  /\ st' = [st EXCEPT ![t] = After(@, TRUE, kind, clock)]
  /\ sum' = [sum EXCEPT ![t] = IF first[t] = -1 THEN 0 ELSE @ + Duration(st[t], clock)]
  /\ first' = [first EXCEPT ![t] = IF @ = -1 THEN clock ELSE @]
Begin(t, a) == /\ Len(regs[t]) < MaxOpen /\ Snap(t, BeginEv(a))
               /\ regs' = [regs EXCEPT ![t] = Append(@, <<a, clock>>)] /\ UNCHANGED <<clock, lastin>>
\* the innermost open region of attribute a ends, whatever else is open
End(t, a) == /\ \E i \in 1..Len(regs[t]) :
                  /\ regs[t][i][1] = a /\ \A k \in i+1..Len(regs[t]) : regs[t][k][1] # a
                  /\ regs' = [regs EXCEPT ![t] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                  /\ lastin' = <<Inclusive(st[t], TRUE, EndEv(a), clock), clock - regs[t][i][2]>>
             /\ Snap(t, EndEv(a)) /\ UNCHANGED clock
Push(t) == Snap(t, Other) /\ UNCHANGED <<clock, regs, lastin>>
Next == Tick \/ \E t \in Threads : Push(t) \/ \E a \in Attrs : Begin(t, a) \/ End(t, a)
Spec == Init /\ [][Next]_vars
DurationsAddUp == \A t \in Threads : first[t] # -1 => sum[t] = st[t].prev - first[t]
InclusiveRight == lastin[1] = lastin[2]
PrevNotAhead == \A t \in Threads : st[t].prev <= clock
=============================================================================
