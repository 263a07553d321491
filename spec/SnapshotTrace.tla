---------------------------- MODULE SnapshotTrace ----------------------------
(* Is a recorded execution a behaviour of SnapshotSpec? *)
EXTENDS SnapshotSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, order
tvars == <<svars, l, order>>
MaxThread == 16

Reset == /\ ak' = EmptyFn /\ bb' = [s \in 0..MaxThread |-> EmptyStore]
         /\ chbb' = EmptyFn /\ err' = {} /\ active' = <<>> /\ evs' = <<>>
         /\ cfg' = EmptyFn /\ brst' = EmptyFn /\ snaps' = <<>> /\ order' = <<>>
TInit == /\ ak = EmptyFn /\ bb = [s \in 0..MaxThread |-> EmptyStore]
         /\ chbb = EmptyFn /\ err = {} /\ active = <<>> /\ evs = <<>>
         /\ cfg = EmptyFn /\ brst = EmptyFn /\ snaps = <<>> /\ order = <<>> /\ l = 1

IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
Pairs(q, from) == [i \in 1..((Len(q) - from + 1) \div 2) |-> <<q[from + 2*i - 2], q[from + 2*i - 1]>>]
Decode(q) == IF Len(q) = 0 THEN <<>> ELSE <<q[1]>> \o Pairs(q, 2)
SeqToSet(q) == {q[i] : i \in 1..Len(q)}
SameSet(q, S) == Len(q) = Cardinality(S) /\ SeqToSet(q) = S
DecodeAll(q) == [i \in 1..Len(q) |-> Decode(q[i])]

Keep == UNCHANGED order
B(x) == x = 1
LoggedSnaps == [i \in 1..Len(Ev.snap) |-> <<Ev.snap[i][1], DecodeAll(Ev.snap[i][2])>>]
SnapsOK == LET q == LoggedSnaps IN
  /\ Len(q) = Len(snaps')
  /\ \A i \in 1..Len(q) : \E s \in {snaps'[i]} : q[i][1] = s[1] /\ SameSet(q[i][2], s[2])

TScenario == IsEv("scenario") /\ Reset
TEnd == IsEv("end") /\ UNCHANGED <<svars, order>>
TAttr ==
  /\ IsEv("attr")
  /\ ak' = [a \in DOMAIN ak \cup {Ev.a} |->
              IF a = Ev.a THEN [val |-> B(Ev.val), proc |-> B(Ev.proc), una |-> B(Ev.una), hid |-> B(Ev.hid),
                                nest |-> B(Ev.nest), skip |-> B(Ev.skip), str |-> B(Ev.str), lvl |-> Ev.lvl]
              ELSE ak[a]]
  /\ UNCHANGED <<bb, chbb, err, active, evs, cfg, brst, snaps, order>>
(* The configuration of the channel created next *)
FilterOf(f) == <<B(f[1]), {f[i] : i \in 2..Len(f)}>>
TCfg ==
  /\ IsEv("evtcfg")
  /\ LET x == Ev.x IN
     cfg' = [c \in DOMAIN cfg \cup {x.ch} |-> IF c = x.ch THEN
              [on |-> B(x.on), all |-> B(x.all), trig |-> SeqToSet(x.trig), lvl |-> x.lvl, info |-> B(x.info),
               inc |-> FilterOf(x.inc), exc |-> FilterOf(x.exc), br |-> FilterOf(x.br)] ELSE cfg[c]]
  /\ UNCHANGED <<vars, brst, snaps, order>>
TCNew == /\ IsEv("cnew") /\ CreateChannel(Ev.ch) /\ Ev.act = 0
         /\ cfg' = IF Ev.ch \in DOMAIN cfg THEN cfg ELSE [c \in DOMAIN cfg \cup {Ev.ch} |-> IF c = Ev.ch THEN NoEvent ELSE cfg[c]]
         /\ brst' = [c \in DOMAIN brst \cup {Ev.ch} |-> IF c = Ev.ch THEN EmptyFn ELSE brst[c]]
         /\ snaps' = <<>> /\ order' = Append(order, Ev.ch)
TCOn  == IsEv("con")  /\ Activate(Ev.ch) /\ Ev.act = 1 /\ SUnchanged /\ Keep
TCOff == IsEv("coff") /\ Deactivate(Ev.ch) /\ Ev.act = 0 /\ SUnchanged /\ Keep
TCDel == IsEv("cdel") /\ DeleteChannel(Ev.ch) /\ order' = SelectSeq(order, LAMBDA c : c # Ev.ch) /\ SUnchanged
TExit == IsEv("texit") /\ ThreadExit(Ev.t) /\ SUnchanged /\ Keep

TBegin  == IsEv("begin")  /\ SBegin(Ev.t, Ev.a, Ev.v) /\ SnapsOK /\ Keep
TSet    == IsEv("set")    /\ SSet(Ev.t, Ev.a, Ev.v)   /\ SnapsOK /\ Keep
TEndA   == IsEv("end1")   /\ SEnd(Ev.t, Ev.a, 0)      /\ SnapsOK /\ Keep
TEndChk == IsEv("endchk") /\ SEnd(Ev.t, Ev.a, Ev.v)   /\ SnapsOK /\ Keep
TPush   == IsEv("push")   /\ Push(Ev.t, Ev.ch, Ev.info) /\ SnapsOK /\ Keep
TCPush  == IsEv("cpush")  /\ CPush(Ev.t, Ev.ch, Ev.info, order) /\ SnapsOK /\ Keep
TGet    == IsEv("get")  /\ Ev.r = Get(Ev.t, Ev.a) /\ UNCHANGED <<svars, order>>
TCtx    == IsEv("ctx")  /\ SameSet(DecodeAll(Ev.ctx), Context(Ev.t)) /\ UNCHANGED <<svars, order>>

(* Snapshots taken and unpacked through the C interface: the same pairs of attribute and value *)
Flat(S) == UNION {{Tail(e)[i] : i \in 1..(Len(e)-1)} : e \in S}
CountIn(S, p) == LET RECURSIVE Sum(_)
                     Sum(X) == IF X = {} THEN 0 ELSE LET e == CHOOSE e \in X : TRUE IN
                                 Cardinality({i \in 2..Len(e) : e[i] = p}) + Sum(X \ {e})
                 IN Sum(S)
TCPull ==
  /\ IsEv("cpull") /\ Ev.len = 1
  /\ LET C == Context(Ev.t) F == Flat(C) IN
     /\ SeqToSet(Ev.all) = F
     /\ \A p \in F : Cardinality({i \in 1..Len(Ev.all) : Ev.all[i] = p}) = CountIn(C, p)
     /\ SeqToSet(Ev.some) = {p \in F : p[1] = Ev.a}
     /\ \A p \in SeqToSet(Ev.some) : Cardinality({i \in 1..Len(Ev.some) : Ev.some[i] = p}) = CountIn(C, p)
     /\ IF \E p \in F : p[1] = Ev.a THEN <<Ev.a, Ev.first>> \in F ELSE Ev.first = 0
     \* innermost first
     /\ ~ak[Ev.a].val /\ Get(Ev.t, Ev.a) # 0 => Ev.first = Get(Ev.t, Ev.a)
  /\ UNCHANGED <<svars, order>>

TNext == TScenario \/ TEnd \/ TAttr \/ TCfg \/ TCNew \/ TCOn \/ TCOff \/ TCDel \/ TExit \/ TBegin \/ TSet \/ TEndA
         \/ TEndChk \/ TPush \/ TCPush \/ TGet \/ TCtx \/ TCPull
TSpec == TInit /\ [][TNext]_tvars

TraceInv == \A i \in 1..Len(active) : active[i] \in DOMAIN chbb
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
