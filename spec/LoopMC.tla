------------------------------- MODULE LoopMC -------------------------------
(* Design check: the loop snapshots partition the iterations of the monitored loops. *)
EXTENDS LoopSpec
CONSTANTS Names, Targets, Interval, MaxIter, MaxDepth
VARIABLES loops, cnt, start,
  iter,    \* open iterations: sequence of the loop depth they belong to
  done,    \* ground truth: depth of the loop -> iterations begun in the loop now open there
  logged,  \* snapshots of the loop now monitored: sequence of <<count, start>>
  total    \* iterations of the monitored loop that was closed last and its snapshots: <<true number, snapshots>>
vars == <<loops, cnt, start, iter, done, logged, total>>
Init == loops = <<>> /\ cnt = 0 /\ start = 0 /\ iter = <<>> /\ done = <<>> /\ logged = <<>> /\ total = <<0, <<>>>>
Listed(v) == Targets = {} \/ v \in Targets
Snap == <<cnt, start>>
BeginLoop(v) ==
  /\ Len(loops) < MaxDepth /\ Len(iter) = Len(loops)
  /\ loops' = OpenLoop(loops, v, Listed(v)) /\ done' = Append(done, 0)
  /\ IF BeginSnaps(loops, Listed(v)) THEN logged' = <<>> /\ cnt' = 0 /\ start' = 0 ELSE UNCHANGED <<logged, cnt, start>>
  /\ UNCHANGED <<iter, total>>
BeginIter ==
  /\ Len(iter) < Len(loops) /\ done[Len(done)] < MaxIter
  /\ iter' = Append(iter, Len(loops)) /\ done' = [done EXCEPT ![Len(done)] = @ + 1]
  /\ IF InTarget(loops) THEN cnt' = cnt + 1 /\ start' = (IF cnt = 0 THEN done[Len(done)] ELSE start) ELSE UNCHANGED <<cnt, start>>
  /\ UNCHANGED <<loops, logged, total>>
EndIter ==
  /\ loops # <<>> /\ Len(iter) = Len(loops) /\ iter' = SubSeq(iter, 1, Len(iter) - 1)
  /\ \E late \in BOOLEAN :
     IF IterSnaps(loops, cnt, Interval, 1, IF late THEN 2 ELSE 0)
     THEN logged' = Append(logged, Snap) /\ cnt' = 0 /\ start' = 0
     ELSE UNCHANGED <<logged, cnt, start>>
  /\ UNCHANGED <<loops, done, total>>
EndLoop ==
  /\ loops # <<>> /\ Len(iter) = Len(loops) - 1
  /\ loops' = CloseLoop(loops) /\ done' = SubSeq(done, 1, Len(done) - 1)
  /\ IF EndLoopSnaps(loops) THEN /\ total' = <<done[Len(done)], Append(logged, Snap)>> /\ logged' = <<>> /\ cnt' = 0 /\ start' = 0
     ELSE UNCHANGED <<logged, cnt, start, total>>
  /\ UNCHANGED iter
Next == (\E v \in Names : BeginLoop(v)) \/ BeginIter \/ EndIter \/ EndLoop
Spec == Init /\ [][Next]_vars
RECURSIVE SumTo(_, _)
SumTo(q, i) == IF i = 0 THEN 0 ELSE q[i][1] + SumTo(q, i - 1)
Partition == LET q == total[2] IN
  /\ SumTo(q, Len(q)) = total[1]
  /\ \A i \in 1..Len(q) : q[i][1] > 0 => q[i][2] = SumTo(q, i - 1)   \* iterations are numbered from 0 here
  /\ \A i \in 1..Len(q) - 1 : q[i][1] > 0
OneMonitored == Cardinality(Monitored(loops)) <= 1
=============================================================================
