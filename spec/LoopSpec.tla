------------------------------ MODULE LoopSpec ------------------------------
(***************************************************************************)
(* Loop monitoring (C21).  loops: the open loops, outermost first, each    *)
(* [v: name number, target: is the monitored loop].  The monitored loop is *)
(* the outermost open one in the target list.  cnt/start: iterations begun *)
(* since the last loop snapshot and the first of them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Monitored(loops) == {i \in 1..Len(loops) : loops[i].target}
InTarget(loops) == loops # <<>> /\ loops[Len(loops)].target
OpenLoop(loops, v, listed) == Append(loops, [v |-> v, target |-> listed /\ Monitored(loops) = {}])
CloseLoop(loops) == SubSeq(loops, 1, Len(loops) - 1)
\* does the begin of a loop take a snapshot?
BeginSnaps(loops, listed) == listed /\ Monitored(loops) = {}
EndLoopSnaps(loops) == InTarget(loops)
\* does the end of an iteration take one? (interval 0: none; elapsed: time since the last snapshot)
IterSnaps(loops, cnt, interval, tlimit, elapsed) ==
  InTarget(loops) /\ ((interval > 0 /\ cnt % interval = 0) \/ (tlimit > 0 /\ elapsed > tlimit))
=============================================================================
