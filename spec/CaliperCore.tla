----------------------------- MODULE CaliperCore -----------------------------
(***************************************************************************)
(* The annotation runtime: attributes, per-thread and process context,     *)
(* error containment and channel notification.  Threads are 1..N, the      *)
(* process-wide context store is store 0.  Every action is one call of the *)
(* public API (calls are atomic here; ProcessView.tla refines the ones on  *)
(* process-scope attributes into their critical sections).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  ak,      \* attribute kinds: attribute -> [val, proc, una, hid, nest, skip, str : BOOLEAN]
  bb,      \* context stores: {0} \cup Threads -> Store
  chbb,    \* channel-local context stores: channel -> Store
  err,     \* set of threads that ceased region tracking
  active,  \* active channels in notification order
  evs      \* notifications delivered by the last call: <<channel, kind, attribute, value, value visible now>>

vars == <<ak, bb, chbb, err, active, evs>>

(* A store has two paths of reference values (aligned and unaligned) and one value per as-value attribute. *)
EmptyFn == [x \in {} |-> 0]
EmptyStore == [reg |-> <<>>, una |-> <<>>, imm |-> EmptyFn]

PreBegin == 1  PostBegin == 2  PreSet == 3  PreEnd == 4

---------------------------------------------------------------------------
(* Path operations *)

RECURSIVE LastPos(_, _, _)
LastPos(p, a, i) == IF i = 0 THEN 0 ELSE IF p[i][1] = a THEN i ELSE LastPos(p, a, i-1)
Innermost(p, a) == LastPos(p, a, Len(p))
DropAt(p, i) == SubSeq(p, 1, i-1) \o SubSeq(p, i+1, Len(p))
DropInnermost(p, a) == LET i == Innermost(p, a) IN IF i = 0 THEN p ELSE DropAt(p, i)

(* Store operations.  k is the attribute's kind record. *)
StoreGet(s, k, a) ==
  IF k.val THEN IF a \in DOMAIN s.imm THEN s.imm[a] ELSE 0
  ELSE LET p == IF k.una THEN s.una ELSE s.reg
           i == Innermost(p, a)
       IN IF i = 0 THEN 0 ELSE p[i][2]

StoreBegin(s, k, a, v) ==
  IF k.val THEN [s EXCEPT !.imm = [x \in DOMAIN s.imm \cup {a} |-> IF x = a THEN v ELSE s.imm[x]]]
  ELSE IF k.una THEN [s EXCEPT !.una = Append(@, <<a, v>>)]
  ELSE [s EXCEPT !.reg = Append(@, <<a, v>>)]

StoreSet(s, k, a, v) ==
  IF k.val THEN StoreBegin(s, k, a, v)
  ELSE IF k.una THEN [s EXCEPT !.una = Append(DropInnermost(@, a), <<a, v>>)]
  ELSE [s EXCEPT !.reg = Append(DropInnermost(@, a), <<a, v>>)]

(* May an end of this attribute be applied? Aligned reference values have to be innermost. *)
StoreCanEnd(s, k, a) ==
  IF k.val THEN a \in DOMAIN s.imm
  ELSE IF k.una THEN Innermost(s.una, a) > 0
  ELSE s.reg # <<>> /\ s.reg[Len(s.reg)][1] = a

StoreEnd(s, k, a) ==
  IF k.val THEN [s EXCEPT !.imm = [x \in DOMAIN s.imm \ {a} |-> s.imm[x]]]
  ELSE IF k.una THEN [s EXCEPT !.una = DropInnermost(@, a)]
  ELSE [s EXCEPT !.reg = SubSeq(@, 1, Len(@)-1)]

(* What a snapshot of the store holds: a set of entries, tagged 1 (path) or 2 (as-value) *)
Visible(s, kinds) ==
       (IF s.reg = <<>> THEN {} ELSE {<<1>> \o s.reg})
  \cup (IF s.una = <<>> THEN {} ELSE {<<1>> \o s.una})
  \cup {<<2, <<a, s.imm[a]>>>> : a \in {x \in DOMAIN s.imm : ~kinds[x].hid}}

---------------------------------------------------------------------------
(* Observations *)

StoreOf(t, a) == IF ak[a].proc THEN 0 ELSE t
Get(t, a) == StoreGet(bb[StoreOf(t, a)], ak[a], a)
Context(t) == Visible(bb[t], ak) \cup Visible(bb[0], ak)

RECURSIVE NestedPrefix(_, _)
NestedPrefix(p, i) == IF i = 0 THEN p ELSE IF ak[p[i][1]].nest THEN SubSeq(p, 1, i) ELSE NestedPrefix(p, i-1)
(* the current region path: up to the innermost nested region *)
Path(t) == LET p == IF bb[t].reg # <<>> THEN bb[t].reg ELSE bb[0].reg IN NestedPrefix(p, Len(p))

(* the name of the current region: the innermost element of that path, if it is a string *)
CurrentRegion(t) == LET p == Path(t) IN IF p = <<>> \/ ~ak[p[Len(p)][1]].str THEN 0 ELSE p[Len(p)][2]

Notify(kind, a, v, now) ==
  IF ak[a].skip THEN <<>> ELSE [i \in 1..Len(active) |-> <<active[i], kind, a, v, now>>]

---------------------------------------------------------------------------
(* Actions *)

Silent == UNCHANGED <<ak, bb, chbb, err, active>> /\ evs' = <<>>

Begin(t, a, v) ==
  IF t \in err THEN Silent
  ELSE /\ bb' = [bb EXCEPT ![StoreOf(t, a)] = StoreBegin(@, ak[a], a, v)]
       /\ evs' = Notify(PreBegin, a, v, Get(t, a)) \o Notify(PostBegin, a, v, v)
       /\ UNCHANGED <<ak, chbb, err, active>>

Set(t, a, v) ==
  IF t \in err THEN Silent
  ELSE /\ bb' = [bb EXCEPT ![StoreOf(t, a)] = StoreSet(@, ak[a], a, v)]
       /\ evs' = Notify(PreSet, a, v, Get(t, a))
       /\ UNCHANGED <<ak, chbb, err, active>>

(* v = 0: the value is not checked *)
Matches(t, a, v) == /\ StoreCanEnd(bb[StoreOf(t, a)], ak[a], a)
                    /\ v # 0 => Get(t, a) = v

End(t, a, v) ==
  IF t \in err THEN Silent
  ELSE IF Matches(t, a, v)
       THEN /\ bb' = [bb EXCEPT ![StoreOf(t, a)] = StoreEnd(@, ak[a], a)]
            /\ evs' = Notify(PreEnd, a, Get(t, a), Get(t, a))
            /\ UNCHANGED <<ak, chbb, err, active>>
       ELSE /\ err' = err \cup {t}
            /\ evs' = <<>>
            /\ UNCHANGED <<ak, bb, chbb, active>>

(* Channel-local context; only the channel itself is notified *)
ChNotify(ch, kind, a, v, now) ==
  IF ak[a].skip \/ ~\E i \in 1..Len(active) : active[i] = ch THEN <<>> ELSE <<<<ch, kind, a, v, now>>>>

ChBegin(t, ch, a, v) ==
  /\ chbb' = [chbb EXCEPT ![ch] = StoreBegin(@, ak[a], a, v)]
  /\ evs' = ChNotify(ch, PreBegin, a, v, Get(t, a)) \o ChNotify(ch, PostBegin, a, v, Get(t, a))
  /\ UNCHANGED <<ak, bb, err, active>>

ChSet(t, ch, a, v) ==
  /\ chbb' = [chbb EXCEPT ![ch] = StoreSet(@, ak[a], a, v)]
  /\ evs' = ChNotify(ch, PreSet, a, v, Get(t, a))
  /\ UNCHANGED <<ak, bb, err, active>>

ChEnd(t, ch, a) ==
  IF StoreCanEnd(chbb[ch], ak[a], a)
  THEN /\ chbb' = [chbb EXCEPT ![ch] = StoreEnd(@, ak[a], a)]
       /\ evs' = ChNotify(ch, PreEnd, a, StoreGet(chbb[ch], ak[a], a), Get(t, a))
       /\ UNCHANGED <<ak, bb, err, active>>
  ELSE /\ err' = err \cup {t}
       /\ evs' = <<>>
       /\ UNCHANGED <<ak, bb, chbb, active>>

ChGet(ch, a) == StoreGet(chbb[ch], ak[a], a)

CreateChannel(ch) ==
  /\ ch \notin DOMAIN chbb
  /\ chbb' = [c \in DOMAIN chbb \cup {ch} |-> IF c = ch THEN EmptyStore ELSE chbb[c]]
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, bb, err, active>>

Activate(ch) ==
  /\ ch \in DOMAIN chbb
  /\ active' = IF \E i \in 1..Len(active) : active[i] = ch THEN active ELSE Append(active, ch)
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, bb, chbb, err>>

Deactivate(ch) ==
  /\ ch \in DOMAIN chbb
  /\ active' = SelectSeq(active, LAMBDA c : c # ch)
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, bb, chbb, err>>

DeleteChannel(ch) ==
  /\ ch \in DOMAIN chbb
  /\ chbb' = [c \in DOMAIN chbb \ {ch} |-> chbb[c]]
  /\ active' = SelectSeq(active, LAMBDA c : c # ch)
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, bb, err>>

(* A thread ends: its context disappears with it *)
ThreadExit(t) ==
  /\ bb' = [bb EXCEPT ![t] = EmptyStore]
  /\ err' = err \ {t}
  /\ evs' = <<>>
  /\ UNCHANGED <<ak, chbb, active>>

===========================================================================
