------------------------------ MODULE LifeSpec ------------------------------
(* Life cycle of Caliper, its channels and its threads, as the sequences of   *)
(* notifications that services receive. A channel goes through                *)
(* "live" -> "dead"; Caliper through "no" -> "up" -> "down". Expected         *)
(* notifications are given as sequences of <<kind, channel>>.                 *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE CatMap(_, _)
CatMap(Op(_), q) == IF q = <<>> THEN <<>> ELSE Op(q[1]) \o CatMap(Op, Tail(q))
All(kind, chs) == [i \in 1..Len(chs) |-> <<kind, chs[i]>>]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
In(q, x) == \E i \in 1..Len(q) : q[i] = x

(* S: [up, chans (live channels in creation order), act (active ones in       *)
(* order of activation), cfg : channel -> [rec, tr, foe, hook], thr (threads  *)
(* known to Caliper)].                                                         *)
Fresh == [up |-> "no", chans |-> <<>>, act |-> <<>>, cfg |-> [x \in {} |-> 0], thr |-> {}]
Live(S, ch) == S.up = "up" /\ In(S.chans, ch)

BeginEvs(S) == All("pre_begin", S.act) \o All("post_begin", S.act)
PushEvs(ch) == <<<<"snapshot", ch>>, <<"process", ch>>>>
FlushEvs(ch) == <<<<"pre_flush", ch>>, <<"flush", ch>>, <<"post_flush", ch>>>>
\* a report is written once; the recorder flushes the channel for it
WriteEvs(S, ch) == <<<<"write", ch>>>> \o (IF S.cfg[ch].rec = 1 THEN FlushEvs(ch) ELSE <<>>)
\* the channel's services can still annotate and take snapshots before they are finished
HookEvs(S, ch) == IF S.cfg[ch].hook = 1 THEN BeginEvs(S) \o PushEvs(ch) \o All("pre_end", S.act) ELSE <<>>
DeleteEvs(S, ch) == <<<<"pre_finish", ch>>>> \o HookEvs(S, ch) \o <<<<"finish", ch>>>>
Deleted(S, ch) == [S EXCEPT !.chans = Without(@, ch), !.act = Without(@, ch)]
RECURSIVE FinalEvs(_)
FinalEvs(S) == IF S.chans = <<>> THEN <<>> ELSE
  LET ch == S.chans[1]
  IN (IF S.cfg[ch].foe = 1 THEN WriteEvs(S, ch) ELSE <<>>) \o DeleteEvs(S, ch) \o FinalEvs(Deleted(S, ch))
Final(S) == [S EXCEPT !.up = "down", !.chans = <<>>, !.act = <<>>]

(* First contact of a thread: the first one brings Caliper up, later ones are *)
(* announced to all channels.                                                 *)
EnterEvs(S, t) == IF S.up = "up" /\ t \notin S.thr THEN All("create_thread", S.chans) ELSE <<>>
Entered(S, t) == IF S.up = "down" THEN S
                 ELSE [S EXCEPT !.up = "up", !.thr = @ \cup {t}]
\* end of a thread
LeaveEvs(S, t) == IF S.up = "up" /\ t \in S.thr THEN All("release_thread", S.chans) ELSE <<>>
Left(S, t) == [S EXCEPT !.thr = @ \ {t}]

Activated(S, ch) == IF Live(S, ch) /\ ~In(S.act, ch) THEN [S EXCEPT !.act = Append(@, ch)] ELSE S
Created(S, ch, c, active) ==
  LET N == [S EXCEPT !.chans = Append(@, ch),
                     !.cfg = [x \in DOMAIN @ \cup {ch} |-> IF x = ch THEN c ELSE @[x]]]
  IN IF active THEN Activated(N, ch) ELSE N
=============================================================================
