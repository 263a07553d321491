----------------------------- MODULE TimerSpec -----------------------------
(***************************************************************************)
(* The timer service (C10).  Per channel and thread it keeps the time of   *)
(* the last snapshot and, per attribute, the times of the begin events not *)
(* yet ended.  Time is relative to the creation of the channel.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the kind of a snapshot: the event that triggered it, <<kind, attribute>>
BeginEv(a) == <<"begin", a>>
EndEv(a) == <<"end", a>>
Other == <<"other", 0>>

\* per thread and channel: [prev, open]; open: attribute -> sequence of begin times
Fresh == [prev |-> 0, open |-> [x \in {} |-> <<>>]]
OpenOf(s, a) == IF a \in DOMAIN s.open THEN s.open[a] ELSE <<>>
SetOpen(s, a, q) == [x \in DOMAIN s.open \cup {a} |-> IF x = a THEN q ELSE s.open[x]]
\* a snapshot at time now (since channel creation): what is recorded; -1: no inclusive time
Duration(s, now) == now - s.prev
Inclusive(s, incl, kind, now) ==
  IF incl /\ kind[1] = "end" /\ OpenOf(s, kind[2]) # <<>>
  THEN LET q == OpenOf(s, kind[2]) IN now - q[Len(q)] ELSE -1
\* and the state after it
After(s, incl, kind, now) ==
  [prev |-> now,
   open |-> IF ~incl THEN s.open
            ELSE CASE kind[1] = "begin" -> SetOpen(s, kind[2], Append(OpenOf(s, kind[2]), now))
                   [] kind[1] = "end" /\ OpenOf(s, kind[2]) # <<>> ->
                        LET q == OpenOf(s, kind[2]) IN SetOpen(s, kind[2], SubSeq(q, 1, Len(q) - 1))
                   [] OTHER -> s.open]
=============================================================================
