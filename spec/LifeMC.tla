------------------------------- MODULE LifeMC -------------------------------
(* All histories of a few channels and threads: what a channel is told is     *)
(* post_init once, first; finish once, last, preceded by pre_finish; exactly  *)
(* one report at the end iff flush on exit; threads announced and released    *)
(* at most once each, and nothing after finish.                               *)
EXTENDS LifeSpec, TLC
CONSTANTS NCH, NT, MAXLOG
VARIABLES S, log, nch
vars == <<S, log, nch>>
Cfgs == [rec : {0}, tr : {0}, foe : {0, 1}, hook : {0, 1}]
Cycle == {"post_init", "pre_finish", "finish", "write", "create_thread", "release_thread"}
Init == S = Fresh /\ log = [c \in 1..NCH |-> <<>>] /\ nch = 0
\* of other notifications only those outside of the channel's life are kept
For(c, evs) == LET q == SelectSeq(evs, LAMBDA e : e[2] = c /\ (e[1] \in Cycle \/ log[c] = <<>> \/ log[c][Len(log[c])] = "finish"))
               IN [i \in 1..Len(q) |-> q[i][1]]
Do(t, N, evs) == \E q \in {EnterEvs(S, t) \o evs} :
  S' = N /\ log' = [c \in 1..NCH |-> log[c] \o For(c, q)]
T == 1..NT
Act(t) == \E E \in {Entered(S, t)} :
  \/ Do(t, E, BeginEvs(E)) /\ UNCHANGED nch
  \/ \E c \in 1..NCH : Live(E, c) /\ UNCHANGED nch /\
       (\/ Do(t, E, PushEvs(c)) \/ Do(t, E, WriteEvs(E, c)) \/ Do(t, Activated(E, c), <<>>)
        \/ Do(t, Deleted(E, c), DeleteEvs(E, c)))
  \/ nch < NCH /\ nch' = nch + 1 /\ \E g \in Cfgs, a \in BOOLEAN : Do(t, Created(E, nch + 1, g, a), <<<<"post_init", nch + 1>>>>)
Next ==
  \/ S.up # "down" /\ \E t \in T : Act(t)
  \/ S.up = "up" /\ (\E t \in T : t # 1 /\ t \in S.thr /\ S' = Left(S, t) /\ UNCHANGED nch
                        /\ log' = [c \in 1..NCH |-> log[c] \o For(c, LeaveEvs(S, t))])
  \/ S.up = "up" /\ UNCHANGED nch /\ \E t \in T \cap S.thr : Do(t, Final(S), FinalEvs(S))
Spec == Init /\ [][Next]_vars
Bound == \A c \in 1..NCH : Len(log[c]) <= MAXLOG
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Inv == \A c \in 1..NCH : LET q == log[c] IN
  /\ q # <<>> => q[1] = "post_init" /\ Count(q, "post_init") = 1
  /\ Count(q, "finish") <= 1 /\ Count(q, "pre_finish") = Count(q, "finish")
  /\ Count(q, "finish") = 1 => q[Len(q)] = "finish"
  /\ S.up = "down" /\ q # <<>> => Count(q, "finish") = 1
  /\ Count(q, "release_thread") <= Count(q, "create_thread") + NT
  /\ ~In(S.chans, c) => q = <<>> \/ Count(q, "finish") = 1
\* flush on exit: a channel that is live at the end gets exactly one more report iff asked for
FinalWrites == [][S.up = "up" /\ S'.up = "down" =>
  \A c \in 1..NCH : In(S.chans, c) => Count(log'[c], "write") = Count(log[c], "write") + S.cfg[c].foe]_vars
Silent == [][S.up = "down" => log' = log]_vars
=============================================================================
