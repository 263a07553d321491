---------------------------- MODULE SnapshotSpec ----------------------------
(***************************************************************************)
(* Snapshots: which calls process one on which channel, and what is in it. *)
(* Adds the event service (EventTrigger) and explicit pushes to the core   *)
(* runtime.  Attributes created by the services are numbered from the      *)
(* attribute they belong to: 100+a event.begin#a, 200+a event.set#a,       *)
(* 300+a event.end#a, 400 region.count.                                    *)
(***************************************************************************)
EXTENDS CaliperCore

VARIABLES
  cfg,     \* channel -> event service configuration (see NoEvent)
  brst,    \* channel -> thread -> stack of values that opened a selected branch
  snaps    \* snapshots processed by the last call: <<channel, set of entries>>

svars == <<vars, cfg, brst, snaps>>

BeginOf(a) == 100 + a
SetOf(a) == 200 + a
EndOf(a) == 300 + a
RegionCount == 400

(* on: event service enabled; all/trig: trigger list; lvl: minimum level; info: trigger information;   *)
(* inc/exc/br: <<given, set of value numbers matched>> for the include, exclude and branch filters     *)
NoEvent == [on |-> FALSE, all |-> TRUE, trig |-> {}, lvl |-> 0, info |-> TRUE,
            inc |-> <<FALSE, {}>>, exc |-> <<FALSE, {}>>, br |-> <<FALSE, {}>>]

Marked(c, a) == c.on /\ ~ak[a].skip /\ (c.all \/ a \in c.trig) /\ ak[a].lvl >= c.lvl
RegionPass(c, a, v) ==
  ak[a].str => /\ c.inc[1] => v \in c.inc[2]
               /\ c.exc[1] => v \notin c.exc[2]
BranchMatch(c, a, v) == ak[a].str /\ v \in c.br[2]

Stack(ch, t) == IF t \in DOMAIN brst[ch] THEN brst[ch][t] ELSE <<>>
(* A begin or set that is seen at all and matches the branch filter opens a branch ... *)
BranchAfterOpen(ch, t, a, v) ==
  LET c == cfg[ch] IN IF c.br[1] /\ BranchMatch(c, a, v) THEN Append(Stack(ch, t), v) ELSE Stack(ch, t)
(* ... which its end closes. *)
BranchAfterEnd(ch, t, a, v) ==
  LET c == cfg[ch] s == Stack(ch, t)
      hits == {i \in 1..Len(s) : s[i] = v}
  IN IF c.br[1] /\ hits # {} /\ ak[a].str
     THEN LET i == CHOOSE i \in hits : \A k \in hits : k <= i IN SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
     ELSE s

Seen(ch, a, v) == Marked(cfg[ch], a) /\ RegionPass(cfg[ch], a, v)
OpenTriggers(ch, t, a, v) == Seen(ch, a, v) /\ (cfg[ch].br[1] => BranchAfterOpen(ch, t, a, v) # <<>>)
EndTriggers(ch, t, a, v) == Seen(ch, a, v) /\ (cfg[ch].br[1] => Stack(ch, t) # <<>>)

(* The path entry that holds attribute a in the thread's view (<<>> if none) *)
PathEntry(t, a) ==
  LET s == bb[StoreOf(t, a)] p == IF ak[a].una THEN s.una ELSE s.reg
  IN IF p = <<>> THEN <<>> ELSE <<1>> \o p

(* Trigger information about a reference attribute extends the path it belongs to *)
WithInfo(t, a, ia, v) ==
  IF ak[a].val THEN Context(t) \cup {<<2, <<ia, v>>>>}
  ELSE LET p == PathEntry(t, a)
       IN (Context(t) \ {p}) \cup {(IF p = <<>> THEN <<1>> ELSE p) \o <<<<ia, v>>>>}

BeginSnap(ch, t, a, v) == IF cfg[ch].info THEN WithInfo(t, a, BeginOf(a), v) ELSE Context(t)
SetSnap(ch, t, a, v) == IF cfg[ch].info THEN WithInfo(t, a, SetOf(a), v) ELSE Context(t)
EndSnap(ch, t, a, v) ==
  (IF cfg[ch].info THEN WithInfo(t, a, EndOf(a), v) ELSE Context(t)) \cup {<<2, <<RegionCount, 1>>>>}

(* The snapshots of one notification, over the active channels in order *)
Snaps(trig(_), content(_)) ==
  LET q == SelectSeq(active, trig) IN [i \in 1..Len(q) |-> <<q[i], content(q[i])>>]

UpdStack(t, f(_), seen(_)) ==
  [ch \in DOMAIN brst |->
     IF (\E i \in 1..Len(active) : active[i] = ch) /\ seen(ch)
     THEN [u \in DOMAIN brst[ch] \cup {t} |-> IF u = t THEN f(ch) ELSE brst[ch][u]]
     ELSE brst[ch]]

SBegin(t, a, v) ==
  /\ Begin(t, a, v)
  /\ IF t \in err \/ ak[a].skip THEN snaps' = <<>> /\ UNCHANGED brst
     ELSE /\ snaps' = Snaps(LAMBDA ch : OpenTriggers(ch, t, a, v), LAMBDA ch : BeginSnap(ch, t, a, v))
          /\ brst' = UpdStack(t, LAMBDA ch : BranchAfterOpen(ch, t, a, v), LAMBDA ch : Seen(ch, a, v))
  /\ UNCHANGED cfg

SSet(t, a, v) ==
  /\ Set(t, a, v)
  /\ IF t \in err \/ ak[a].skip THEN snaps' = <<>> /\ UNCHANGED brst
     ELSE /\ snaps' = Snaps(LAMBDA ch : OpenTriggers(ch, t, a, v), LAMBDA ch : SetSnap(ch, t, a, v))
          /\ brst' = UpdStack(t, LAMBDA ch : BranchAfterOpen(ch, t, a, v), LAMBDA ch : Seen(ch, a, v))
  /\ UNCHANGED cfg

SEnd(t, a, v) ==
  /\ End(t, a, v)
  /\ IF t \in err \/ ak[a].skip \/ ~Matches(t, a, v) THEN snaps' = <<>> /\ UNCHANGED brst
     ELSE LET w == Get(t, a) IN
          /\ snaps' = Snaps(LAMBDA ch : EndTriggers(ch, t, a, w), LAMBDA ch : EndSnap(ch, t, a, w))
          /\ brst' = UpdStack(t, LAMBDA ch : BranchAfterEnd(ch, t, a, w), LAMBDA ch : Seen(ch, a, w))
  /\ UNCHANGED cfg

(* An explicit push: the context and the given information; info is a sequence of <<a, v>> *)
InfoEntries(info) == {IF ak[info[i][1]].val THEN <<2, info[i]>> ELSE <<1, info[i]>> : i \in 1..Len(info)}
(* Through the C interface, reference values are chained to one path *)
InfoRefs(info) == SelectSeq(info, LAMBDA x : ~ak[x[1]].val)
InfoRecord(info) ==
  {<<2, info[i]>> : i \in {k \in 1..Len(info) : ak[info[k][1]].val}}
  \cup (IF InfoRefs(info) = <<>> THEN {} ELSE {<<1>> \o InfoRefs(info)})

Push(t, ch, info) ==
  /\ snaps' = <<<<ch, Context(t) \cup InfoEntries(info)>>>>
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, bb, chbb, err, active, cfg, brst>>

(* order: all channels in creation order *)
CPush(t, ch, info, order) ==
  LET on(c) == \E i \in 1..Len(active) : active[i] = c
      q == SelectSeq(IF ch = 0 THEN order ELSE <<ch>>, on)
  IN /\ snaps' = [i \in 1..Len(q) |-> <<q[i], Context(t) \cup InfoRecord(info)>>]
     /\ evs' = <<>>
     /\ UNCHANGED <<ak, bb, chbb, err, active, cfg, brst>>

SUnchanged == UNCHANGED <<cfg, brst>> /\ snaps' = <<>>
=============================================================================
