--------------------------- MODULE ValidatorSpec ---------------------------
(***************************************************************************)
(* The nesting validator (C22) next to the annotation runtime.             *)
(* opn: ground truth: context store -> the regions begun and not ended, in *)
(*   begin order, for the program run so far                               *)
(* bad: a region was ended although a nested region begun later was open   *)
(* miss: a mismatched end occurred (the runtime stops tracking the thread) *)
(***************************************************************************)
EXTENDS CaliperCore
VARIABLES opn, bad, miss
gvars == <<opn, bad, miss>>

Pos(q, a) == Innermost(q, a)
\* begin and end of the ground truth; everything after a thread's mismatched end is ignored by the runtime
GBegin(t, a, v) ==
  /\ Begin(t, a, v)
  /\ opn' = IF t \in err THEN opn ELSE [opn EXCEPT ![StoreOf(t, a)] = Append(@, <<a, v>>)]
  /\ UNCHANGED <<bad, miss>>
GEnd(t, a, v) ==
  /\ End(t, a, v)
  /\ IF t \in err THEN UNCHANGED gvars
     ELSE IF ~Matches(t, a, v) THEN miss' = TRUE /\ UNCHANGED <<opn, bad>>
     ELSE LET s == StoreOf(t, a) q == opn[s] i == Pos(q, a) IN
          /\ opn' = [opn EXCEPT ![s] = DropAt(@, i)]
          /\ bad' = (bad \/ (ak[a].nest /\ \E k \in i+1..Len(q) : ak[q[k][1]].nest))
          /\ UNCHANGED miss
GExit(t) == /\ ThreadExit(t) /\ bad' = (bad \/ opn[t] # <<>>) /\ opn' = [opn EXCEPT ![t] = <<>>] /\ UNCHANGED miss
\* is the program so far correctly nested and closed?
Open == \E s \in DOMAIN opn : opn[s] # <<>>
Incorrect == bad \/ Open \/ miss
\* the mismatched end of a region that is not open is the only error: the runtime stops the thread without an event
OnlyUnseen == miss /\ ~bad /\ ~Open

-----------------------------------------------------------------------------
(* Implementation model: per store, a stack of values per attribute and one of the nested attributes. *)
VARIABLES vst  \* store -> [vals: attribute -> sequence, nest: sequence, error: BOOLEAN]
VEmpty == [vals |-> EmptyFn, nest |-> <<>>, error |-> FALSE]
VVals(x, a) == IF a \in DOMAIN x.vals THEN x.vals[a] ELSE <<>>
VSet(x, a, q) == [x EXCEPT !.vals = [b \in DOMAIN @ \cup {a} |-> IF b = a THEN q ELSE @[b]]]
Front(q) == SubSeq(q, 1, Len(q) - 1)
VBegin(x, a, v) == IF x.error THEN x
  ELSE [VSet(x, a, Append(VVals(x, a), v)) EXCEPT !.nest = IF ak[a].nest THEN Append(@, a) ELSE @]
VEnd(x, a, v) == IF x.error THEN x
  ELSE IF VVals(x, a) = <<>> THEN [x EXCEPT !.error = TRUE]
  ELSE LET q == VVals(x, a)
           y == VSet(x, a, Front(q))
           n == x.nest
           z == IF ak[a].nest THEN [y EXCEPT !.nest = IF n = <<>> THEN <<>> ELSE Front(n)] ELSE y
       IN [z EXCEPT !.error = (ak[a].nest /\ (n = <<>> \/ n[Len(n)] # a)) \/ q[Len(q)] # v]
VFinal(x) == x.error \/ \E a \in DOMAIN x.vals : x.vals[a] # <<>>
ImplReport(fin) == fin \/ \E s \in DOMAIN vst : VFinal(vst[s])
=============================================================================
