--------------------------- MODULE ValidatorTrace ---------------------------
(* Recorded programs with the validator service: is its verdict right? *)
EXTENDS ValidatorSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l, strict  \* strict: report unseen ends as well (the known finding's demonstration)
tvars == <<vars, gvars, vst, l, strict>>
MaxThread == 16
Start == /\ ak' = EmptyFn /\ bb' = [s \in 0..MaxThread |-> EmptyStore]
         /\ chbb' = EmptyFn /\ err' = {} /\ active' = <<>> /\ evs' = <<>>
         /\ opn' = [s \in 0..MaxThread |-> <<>>] /\ bad' = FALSE /\ miss' = FALSE /\ strict' = FALSE
TInit == /\ ak = EmptyFn /\ bb = [s \in 0..MaxThread |-> EmptyStore]
         /\ chbb = EmptyFn /\ err = {} /\ active = <<>> /\ evs = <<>>
         /\ opn = [s \in 0..MaxThread |-> <<>>] /\ bad = FALSE /\ miss = FALSE /\ strict = FALSE
         /\ vst = EmptyFn /\ l = 1
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
B(x) == x = 1
Un == UNCHANGED <<vst, strict>>
TScenario == IsEv("scenario") /\ Start /\ UNCHANGED vst
TAttr ==
  /\ IsEv("attr")
  /\ ak' = [a \in DOMAIN ak \cup {Ev.a} |->
              IF a = Ev.a THEN [val |-> B(Ev.val), proc |-> B(Ev.proc), una |-> B(Ev.una), hid |-> B(Ev.hid),
                                nest |-> B(Ev.nest), skip |-> B(Ev.skip), str |-> B(Ev.str)]
              ELSE ak[a]]
  /\ UNCHANGED <<bb, chbb, err, active, evs, gvars>> /\ Un
TSkip == (IsEv("end") \/ IsEv("con") \/ IsEv("cnew") \/ IsEv("get")) /\ UNCHANGED <<vars, gvars>> /\ Un
TBegin == IsEv("begin") /\ GBegin(Ev.t, Ev.a, Ev.v) /\ Un
TEndA == IsEv("end1") /\ GEnd(Ev.t, Ev.a, 0) /\ Un
TEndChk == IsEv("endchk") /\ GEnd(Ev.t, Ev.a, Ev.v) /\ Un
TExit == IsEv("texit") /\ GExit(Ev.t) /\ Un
TStrict == IsEv("strict") /\ strict' = TRUE /\ UNCHANGED <<vars, gvars, vst>>
\* a channel with the validator is deleted: its verdict
TDel == /\ IsEv("vdel") /\ UNCHANGED <<vars, gvars>> /\ Un
        /\ IF OnlyUnseen /\ ~strict THEN Ev.res \in {0, 1} ELSE Ev.res = IF Incorrect THEN 1 ELSE 0
        /\ Ev.res = 1 => Ev.hint = 1
TNext == TScenario \/ TAttr \/ TSkip \/ TBegin \/ TEndA \/ TEndChk \/ TExit \/ TStrict \/ TDel
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
