----------------------------- MODULE SnapshotMC -----------------------------
(* Exhaustive configuration of SnapshotSpec with the properties of C07, and program generator. *)
EXTENDS SnapshotSpec, TLC, Json, IOUtils
CONSTANTS Threads, Attrs, Values, MaxDepth
VARIABLE prog
View == <<ak, bb, err, active, brst>>

\* attribute 1: nested string, 2: as-value int, 3: unaligned string
K(n) == [val |-> n = 2, proc |-> FALSE, una |-> n = 3, hid |-> FALSE, nest |-> n = 1, skip |-> FALSE, str |-> n # 2,
         lvl |-> IF n = 3 THEN 2 ELSE 0]
\* channel 1: branch filter on value 1; channel 2: level 1; channel 3: exclude value 2, no trigger information
Cfgs == <<[NoEvent EXCEPT !.on = TRUE, !.br = <<TRUE, {1, 2}>>],
          [NoEvent EXCEPT !.on = TRUE, !.lvl = 1],
          [NoEvent EXCEPT !.on = TRUE, !.info = FALSE, !.exc = <<TRUE, {2}>>]>>

MCInit ==
  /\ ak = [a \in Attrs |-> K(a)] /\ bb = [s \in {0} \cup Threads |-> EmptyStore]
  /\ chbb = [c \in 1..3 |-> EmptyStore] /\ err = {} /\ active = <<1, 2, 3>> /\ evs = <<>>
  /\ cfg = [c \in 1..3 |-> Cfgs[c]] /\ brst = [c \in 1..3 |-> EmptyFn] /\ snaps = <<>> /\ prog = <<>>
Depth(s) == Len(bb[s].reg) + Len(bb[s].una) + Cardinality(DOMAIN bb[s].imm)
Rec(x) == prog' = Append(prog, x)
MCNext ==
  \/ \E t \in Threads, a \in Attrs, v \in Values :
       \/ Depth(t) < MaxDepth /\ SBegin(t, a, v) /\ Rec(<<"begin", t, a, v>>)
       \/ Depth(t) < MaxDepth /\ a = 2 /\ SSet(t, a, v) /\ Rec(<<"set", t, a, v>>)
  \/ \E t \in Threads, a \in Attrs :
       StoreCanEnd(bb[t], ak[a], a) /\ SEnd(t, a, 0) /\ Rec(<<"end", t, a>>)
MCSpec == MCInit /\ [][MCNext]_<<svars, prog>>

OneSnapPerChannel == [][\A i, j \in 1..Len(snaps') : i # j => snaps'[i][1] # snaps'[j][1]]_svars
Pairs2(S) == UNION {{Tail(e)[i] : i \in 1..(Len(e)-1)} : e \in S}
\* the whole context of some thread before the call is in every snapshot
FullContext == [][\A i \in 1..Len(snaps') : \E t \in Threads : Pairs2(Context(t)) \subseteq Pairs2(snaps'[i][2])]_svars
\* begin and end of the same region are treated alike: inside a selected branch exactly while a selected value is open
Open(t, v) == \E a \in {1, 3} : LET p == IF a = 3 THEN bb[t].una ELSE bb[t].reg IN \E i \in 1..Len(p) : p[i] = <<a, v>>
BranchIsOpen == \A t \in Threads : (Stack(1, t) # <<>>) <=> (Open(t, 1) \/ Open(t, 2))
Indep == [][\A i \in 1..Len(snaps') : snaps'[i][1] = 2 => \A e \in snaps'[i][2] : TRUE]_svars
PrintProg == IF IOEnv.VF_PRINT = "1" THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
=============================================================================
