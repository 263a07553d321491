------------------------------ MODULE LifeTrace ------------------------------
(* Recorded histories: every operation's notifications are the expected ones, *)
(* in order and on the calling thread; at exit, the finalisation.             *)
EXTENDS LifeSpec, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, exiting, pend,
  tr,    \* channel -> number of snapshots in its trace
  wr     \* reports written with the recorder: <<channel, number of snapshots, -1: any (aggregated)>>
vars == <<l, S, exiting, pend, tr, wr>>
Emp == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ S = Fresh /\ exiting = FALSE /\ pend = <<>> /\ tr = Emp /\ wr = <<>>
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]

Annot == {"begin", "set", "end", "region", "mkannot", "async", "mem"}
\* interfaces that do not attach the calling thread
NoAttach == {"join"}
Sigsafe == Ev.op = "get" /\ Ev.api \in {"c", "p", "g", "r"}
\* operations on a channel object the program does not have do not reach Caliper
HasChan(ch) == ch \in DOMAIN S.cfg
ByChan == {"act", "deact", "del", "isact", "push", "flush", "write", "clear", "chset", "chreg", "chget"}
Attaches == /\ Ev.op \notin NoAttach /\ ~Sigsafe
            /\ (Ev.op \in ByChan => HasChan(Ev.k))
            /\ Ev.known
\* without any channel there is nothing to see of the finalisation at exit but its result
S0 == IF exiting /\ S.up = "up" /\ S.chans = <<>> /\ Ev.up = 0 /\ Ev.op # "release" THEN Final(S) ELSE S
E == IF Attaches THEN Entered(S0, Ev.t) ELSE S0
Pre == IF Attaches THEN EnterEvs(S0, Ev.t) ELSE <<>>
Clear(ch) == <<<<"clear", ch>>>>
\* C functions find channels by id: deleted ones are unknown
Exp ==
  LET c == Ev.k
      one == IF Live(E, c) /\ In(E.act, c) THEN <<c>> ELSE <<>>
  IN CASE Ev.op = "join" -> LeaveEvs(S0, Ev.t)
       [] Ev.op = "release" -> FinalEvs(E)
       [] E.up # "up" -> <<>>
       [] Ev.op = "begin" -> IF Ev.skip THEN <<>> ELSE BeginEvs(E)
       [] Ev.op \in {"set", "mkannot"} -> IF Ev.skip THEN <<>> ELSE All("pre_set", E.act)
       [] Ev.op = "end" -> IF Ev.skip THEN <<>> ELSE All("pre_end", E.act)
       [] Ev.op = "region" -> BeginEvs(E) \o All("pre_end", E.act)
       [] Ev.op = "async" -> All("async", E.act)
       [] Ev.op = "mem" -> All("track", E.act) \o All("untrack", E.act)
       [] Ev.op = "cpush" -> CatMap(LAMBDA ch : IF In(E.act, ch) THEN PushEvs(ch) ELSE <<>>, E.chans)
       [] Ev.op = "create" -> <<<<"post_init", c>>>>
       \* pulling a snapshot runs the channel's snapshot callbacks
       [] Ev.op = "get" -> IF Ev.api = "p" /\ Ev.known /\ Ev.t \in E.thr /\ Live(E, Ev.idch) THEN <<<<"snapshot", Ev.idch>>>> ELSE <<>>
       [] Ev.op \in ByChan /\ ~Live(E, c) -> <<>>
       [] Ev.op = "push" -> IF Ev.api = "c" /\ one = <<>> THEN <<>> ELSE PushEvs(c)
       [] Ev.op = "flush" -> FlushEvs(c)
       [] Ev.op = "write" -> WriteEvs(E, c) \o (IF Ev.v = 1 THEN Clear(c) ELSE <<>>)
       [] Ev.op = "clear" -> Clear(c)
       [] Ev.op = "chset" -> All("pre_set", one)
       [] Ev.op = "chreg" -> All("pre_begin", one) \o All("post_begin", one) \o All("pre_end", one)
       [] Ev.op = "del" -> DeleteEvs(E, c)
       [] Ev.op = "cflush0" -> IF In(E.chans, Ev.first) THEN WriteEvs(E, Ev.first) \o (IF Ev.v = 1 THEN Clear(Ev.first) ELSE <<>>) ELSE <<>>
       [] OTHER -> <<>>
New ==
  CASE Ev.op = "join" -> Left(S0, Ev.t)
    [] Ev.op = "release" -> Final(E)
    [] E.up # "up" -> E
    [] Ev.op = "create" -> Created(E, Ev.k, [rec |-> Ev.cfg.rec, tr |-> Ev.cfg.tr, foe |-> Ev.cfg.foe, hook |-> Ev.cfg.hook], Ev.cfg.act = 1)
    [] Ev.op = "act" -> Activated(E, Ev.k)
    [] Ev.op = "deact" -> [E EXCEPT !.act = Without(@, Ev.k)]
    [] Ev.op = "del" -> IF Live(E, Ev.k) THEN Deleted(E, Ev.k) ELSE E
    [] OTHER -> E

\* effect of notifications on traces and reports; cb: sequence of <<kind, channel>>
RECURSIVE Eff(_, _, _, _)
Eff(C, cb, T, W) == IF cb = <<>> THEN <<T, W>> ELSE
  LET k == cb[1][1]  c == cb[1][2]
  IN Eff(C, Tail(cb),
         IF k = "process" /\ C[c].tr = 1 THEN [T EXCEPT ![c] = @ + 1] ELSE IF k = "clear" THEN [T EXCEPT ![c] = 0] ELSE T,
         IF k = "write" /\ C[c].rec = 1 THEN Append(W, <<c, IF C[c].tr = 2 THEN -1 ELSE T[c]>>) ELSE W)
Apply(cb, N) == \E r \in {Eff(N.cfg, cb, IF Ev.e = "op" /\ Ev.op = "create" /\ Ev.k \in DOMAIN N.cfg THEN Upd(tr, Ev.k, 0) ELSE tr, wr)} :
  tr' = r[1] /\ wr' = r[2]

\* results: nothing can be found once Caliper is down; channels are active or not
ResultOK == CASE New.up = "down" -> Ev.r = 0
              [] Ev.op \in {"use", "attr", "create"} -> Ev.r = 1
              [] Ev.op = "isact" -> Ev.r = IF In(New.act, Ev.k) THEN 1 ELSE 0
              [] OTHER -> TRUE
TOp ==
  /\ IsEv("op") /\ pend = <<>>
  /\ \E q \in {Pre \o Exp} :
       /\ [i \in 1..Len(Ev.cb) |-> <<Ev.cb[i][1], Ev.cb[i][2]>>] = q
       /\ \A i \in 1..Len(Ev.cb) : Ev.cb[i][3] = Ev.t
       /\ \E N \in {New} : S' = N /\ Apply(q, N)
  /\ Ev.up = (IF New.up = "up" THEN 1 ELSE 0)
  /\ ResultOK
  /\ UNCHANGED <<exiting, pend>>
TExit == IsEv("exit") /\ ~exiting /\ exiting' = TRUE /\ UNCHANGED <<S, pend, tr, wr>>
\* notifications outside of operations: only the finalisation at exit, complete and once
TCb ==
  /\ IsEv("cb") /\ exiting
  /\ \E q \in {IF pend = <<>> /\ S.up = "up" THEN FinalEvs(S) ELSE pend} :
       /\ q # <<>> /\ q[1] = <<Ev.k, Ev.ch>>
       /\ pend' = Tail(q)
       /\ S' = IF pend = <<>> THEN Final(S) ELSE S
       /\ Apply(<<q[1]>>, S')
  /\ UNCHANGED exiting
TOut == /\ IsEv("out") /\ pend = <<>> /\ (S.up = "up" => S.chans = <<>>)
        /\ Len(Ev.w) = Len(wr) /\ \A i \in 1..Len(wr) : Ev.w[i][1] = wr[i][1] /\ wr[i][2] \in {-1, Ev.w[i][2]}
        /\ Ev.rest = 0
        /\ UNCHANGED <<S, exiting, pend, tr, wr>>
TScenario == IsEv("scenario") /\ S' = Fresh /\ exiting' = FALSE /\ pend' = <<>> /\ tr' = Emp /\ wr' = <<>>
TEnd == IsEv("end") /\ pend = <<>> /\ UNCHANGED <<S, exiting, pend, tr, wr>>
Next == TScenario \/ TOp \/ TExit \/ TCb \/ TOut \/ TEnd
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
