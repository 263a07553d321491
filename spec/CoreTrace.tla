----------------------------- MODULE CoreTrace -----------------------------
(* Is a recorded execution of the annotation runtime a behaviour of CaliperCore? *)
EXTENDS CaliperCore, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
MaxThread == 16

TInit ==
  /\ ak = EmptyFn /\ bb = [s \in 0..MaxThread |-> EmptyStore]
  /\ chbb = EmptyFn /\ err = {} /\ active = <<>> /\ evs = <<>> /\ l = 1

IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]

\* flat integer encodings of the log
Pairs(q, from) == [i \in 1..((Len(q) - from + 1) \div 2) |-> <<q[from + 2*i - 2], q[from + 2*i - 1]>>]
Decode(q) == IF Len(q) = 0 THEN <<>> ELSE <<q[1]>> \o Pairs(q, 2)
LoggedContext == [i \in 1..Len(Ev.ctx) |-> Decode(Ev.ctx[i])]
SameSet(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S

\* the observation of the state after the call, if it was logged
\* (the quantifiers bind the logged thread before the state expressions are primed)
CtxOK(x) == "ctx" \in DOMAIN Ev => \E t \in {x} : SameSet(LoggedContext, (Context(t))')
PathOK(x) == "path" \in DOMAIN Ev => \E t \in {x} : (IF Len(Ev.path) = 0 THEN <<>> ELSE Tail(Decode(Ev.path))) = (Path(t))'
CbOK == [i \in 1..Len(Ev.cb) |-> Ev.cb[i]] = evs'

TScenario ==
  /\ IsEv("scenario")
  /\ ak' = EmptyFn /\ bb' = [s \in 0..MaxThread |-> EmptyStore]
  /\ chbb' = EmptyFn /\ err' = {} /\ active' = <<>> /\ evs' = <<>>
TEnd == IsEv("end") /\ UNCHANGED vars
B(x) == x = 1
TAttr ==
  /\ IsEv("attr")
  /\ ak' = [a \in DOMAIN ak \cup {Ev.a} |->
              IF a = Ev.a THEN [val |-> B(Ev.val), proc |-> B(Ev.proc), una |-> B(Ev.una), hid |-> B(Ev.hid),
                                nest |-> B(Ev.nest), skip |-> B(Ev.skip), str |-> B(Ev.str)]
              ELSE ak[a]]
  /\ UNCHANGED <<bb, chbb, err, active, evs>>

Obs(t) == CbOK /\ CtxOK(t) /\ PathOK(t)
TBegin  == IsEv("begin")  /\ Begin(Ev.t, Ev.a, Ev.v) /\ Obs(Ev.t)
TSet    == IsEv("set")    /\ Set(Ev.t, Ev.a, Ev.v)   /\ Obs(Ev.t)
TEndA   == IsEv("end1")   /\ End(Ev.t, Ev.a, 0)      /\ Obs(Ev.t)
TEndChk == IsEv("endchk") /\ End(Ev.t, Ev.a, Ev.v)   /\ Obs(Ev.t)
TCBegin == IsEv("cbegin") /\ ChBegin(Ev.t, Ev.ch, Ev.a, Ev.v) /\ Obs(Ev.t)
TCSet   == IsEv("cset")   /\ ChSet(Ev.t, Ev.ch, Ev.a, Ev.v) /\ Obs(Ev.t)
TCEnd   == IsEv("cend")   /\ ChEnd(Ev.t, Ev.ch, Ev.a) /\ Obs(Ev.t)
TGet    == IsEv("get")  /\ Ev.r = Get(Ev.t, Ev.a) /\ UNCHANGED vars
TCGet   == IsEv("cget") /\ Ev.r = ChGet(Ev.ch, Ev.a) /\ UNCHANGED vars
TCtx    == IsEv("ctx")  /\ UNCHANGED vars /\ CtxOK(Ev.t)
TPath   == IsEv("path") /\ UNCHANGED vars /\ PathOK(Ev.t)
TCur    == IsEv("cur")  /\ UNCHANGED vars /\ Ev.r = CurrentRegion(Ev.t)
TExit   == IsEv("texit") /\ ThreadExit(Ev.t)
IsActive(ch, q) == \E i \in 1..Len(q) : q[i] = ch
TCNew   == IsEv("cnew") /\ CreateChannel(Ev.ch) /\ Ev.act = 0
TCOn    == IsEv("con")  /\ Activate(Ev.ch) /\ Ev.act = 1
TCOff   == IsEv("coff") /\ Deactivate(Ev.ch) /\ Ev.act = 0
TCDel   == IsEv("cdel") /\ DeleteChannel(Ev.ch)

TNext == TScenario \/ TEnd \/ TAttr \/ TBegin \/ TSet \/ TEndA \/ TEndChk \/ TCBegin \/ TCSet \/ TCEnd
         \/ TGet \/ TCGet \/ TCtx \/ TPath \/ TCur \/ TExit \/ TCNew \/ TCOn \/ TCOff \/ TCDel
TSpec == TInit /\ [][TNext]_tvars

\* state invariants that are evaluated at every step of every recorded execution
TraceInv ==
  /\ \A i \in 1..Len(active) : active[i] \in DOMAIN chbb
  /\ \A s \in 0..MaxThread : \A a \in DOMAIN bb[s].imm : ak[a].val
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
===========================================================================
