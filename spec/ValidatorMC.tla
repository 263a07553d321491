---------------------------- MODULE ValidatorMC ----------------------------
(* Design check: the validator's stacks report exactly the incorrect programs, up to unseen ends. *)
EXTENDS ValidatorSpec, TLC
CONSTANTS Threads, Attrs, Values, MaxOpen
KindOf(n) == [val |-> n = 4, proc |-> n = 3, una |-> n = 2, hid |-> FALSE, nest |-> n # 4, skip |-> FALSE, str |-> TRUE]
mvars == <<vars, gvars, vst>>
MInit == /\ ak = [a \in Attrs |-> KindOf(a)]
         /\ bb = [s \in {0} \cup Threads |-> EmptyStore] /\ chbb = EmptyFn /\ err = {} /\ active = <<1>> /\ evs = <<>>
         /\ opn = [s \in {0} \cup Threads |-> <<>>] /\ bad = FALSE /\ miss = FALSE
         /\ vst = [s \in {0} \cup Threads |-> VEmpty]
MBegin(t, a, v) ==
  /\ Len(opn[StoreOf(t, a)]) < MaxOpen /\ GBegin(t, a, v)
  /\ vst' = IF evs' # <<>> THEN [vst EXCEPT ![StoreOf(t, a)] = VBegin(@, a, v)] ELSE vst
MEnd(t, a, v) ==
  /\ GEnd(t, a, v)
  /\ vst' = IF evs' # <<>> THEN [vst EXCEPT ![StoreOf(t, a)] = VEnd(@, a, evs'[1][4])] ELSE vst
MNext == \E t \in Threads, a \in Attrs : MEnd(t, a, 0) \/ \E v \in Values : MBegin(t, a, v) \/ MEnd(t, a, v)
MSpec == MInit /\ [][MNext]_mvars
MView == <<bb, err, opn, bad, miss, vst>>
ReportRight == IF OnlyUnseen THEN ~ImplReport(FALSE) ELSE ImplReport(FALSE) = Incorrect
=============================================================================
