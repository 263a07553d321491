----------------------------- MODULE TraceTrace -----------------------------
(* Recorded executions with the trace service, checked against TraceSpec's FlushOK relation. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
T == INSTANCE TraceSpec WITH Threads <- {}, Cap <- 0, MaxLen <- 0, pol <- 0, chunks <- 0, stopped <- 0, hist <- 0, cnt <- 0, out <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  cfg,   \* channel -> [pol, size]
  bufs,  \* channel -> sequence of buffers [t, from, n, cum, k]: k = -1, or the number kept once a flush showed that it stopped
  own    \* channel -> thread -> index of the thread's buffer, 0: none
vars == <<l, cfg, bufs, own>>
Emp == [x \in {} |-> 0]
Init == l = 1 /\ cfg = Emp /\ bufs = Emp /\ own = Emp
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Num(ch, t, k) == ch * 100000000 + t * 1000000 + k

NewBuf(from) == [from |-> from, n |-> 0, cum |-> <<0>>, k |-> -1]
\* the snapshots a call processed on channel ch as pairs <<number, entries>>
ChanOf(x) == x \div 100000000
RECURSIVE AddAll(_, _, _, _)
AddAll(b, q, i, j) == IF i > j THEN b
  ELSE AddAll([b EXCEPT !.n = @ + 1, !.cum = Append(@, @[Len(@)] + T!Worst(q[i][2]))], q, i + 1, j)
\* numbers must continue the buffer's (the generator makes every content unique)
Continues(b, q, i, j) == \A x \in i..j : q[x][1] = b.from + b.n + (x - i)

\* flush: which runs belong to which buffer
InBuf(b, r) == r[1] >= b.from /\ r[1] < b.from + b.n
RunsOf(runs, b) == SelectSeq(runs, LAMBDA r : InBuf(b, r))
\* the log joins the runs of consecutive buffers of one thread when they are adjacent: cut them at buffer starts
RECURSIVE CutRun(_, _)
CutRun(r, starts) ==
  LET S == {s \in starts : r[1] < s /\ s < r[1] + r[2]} IN
  IF S = {} THEN <<r>>
  ELSE LET s == CHOOSE s \in S : \A z \in S : s <= z IN <<<<r[1], s - r[1]>>>> \o CutRun(<<s, r[1] + r[2] - s>>, starts)
RECURSIVE Cut(_, _)
Cut(runs, starts) == IF runs = <<>> THEN <<>> ELSE CutRun(Head(runs), starts) \o Cut(Tail(runs), starts)

BufOK(b, runs, c) ==
  IF c.pol = "stop" THEN
     LET k == IF runs = <<>> THEN 0 ELSE runs[1][2] IN
     /\ T!StopOK(runs, b.from, b.n, k, b.cum, c.size)
     /\ b.k >= 0 => k = b.k
  ELSE T!GrowOK(runs, b.from, b.n, b.cum, c.size)
FlushOK(B, c, runs0) ==
  \E runs \in {Cut(runs0, {B[i].from : i \in 1..Len(B)})} :
    /\ \A i \in 1..Len(runs) : \E j \in 1..Len(B) : InBuf(B[j], runs[i])
    /\ \A j \in 1..Len(B) : B[j].n > 0 => \E rj \in {RunsOf(runs, B[j])} : BufOK(B[j], rj, c)
\* after a flush we know which buffers have stopped
Kept(b, runs) == LET rj == RunsOf(runs, b) IN IF rj = <<>> THEN 0 ELSE rj[1][2]
AfterFlush(B, c, runs0) ==
  IF c.pol # "stop" THEN B
  ELSE LET runs == Cut(runs0, {B[i].from : i \in 1..Len(B)}) IN
       [j \in 1..Len(B) |-> IF B[j].n > 0 /\ Kept(B[j], runs) < B[j].n THEN [B[j] EXCEPT !.k = Kept(B[j], runs)] ELSE B[j]]
Cleared(B) == [j \in 1..Len(B) |-> NewBuf(B[j].from + B[j].n)]

Ensure(ch, t, first) ==
  IF t \in DOMAIN own[ch] /\ own[ch][t] > 0 THEN <<bufs[ch], own[ch][t]>>
  ELSE <<Append(bufs[ch], NewBuf(first)), Len(bufs[ch]) + 1>>

(* A call that processes snapshots q on channel ch with automatic outputs outs = <<[pos, runs], ...>> in between. *)
(* (pos counts the snapshots before; the one that caused the output is recorded after it)                           *)
RECURSIVE Process(_, _, _, _, _, _)
Process(B, i, c, q, outs, done) ==
  IF outs = <<>> THEN
     IF Continues(B[i], q, done + 1, Len(q)) THEN {[B EXCEPT ![i] = AddAll(@, q, done + 1, Len(q))]} ELSE {}
  ELSE LET p == outs[1].pos IN
       IF Continues(B[i], q, done + 1, p)
       THEN LET B1 == [B EXCEPT ![i] = AddAll(@, q, done + 1, p)]
            IN IF /\ FlushOK(B1, c, outs[1].runs)
                  \* only when the next snapshot may not have fitted
                  /\ c.pol = "flush" /\ p < Len(q)
                  /\ B1[i].cum[Len(B1[i].cum)] + T!Worst(q[p + 1][2]) >= c.size
               THEN Process(Cleared(B1), i, c, q, Tail(outs), p)
               ELSE {}
       ELSE {}

TScenario == IsEv("scenario") /\ cfg' = Emp /\ bufs' = Emp /\ own' = Emp
TEnd == IsEv("end") /\ UNCHANGED <<cfg, bufs, own>>
TSkip == (IsEv("attr") \/ IsEv("con") \/ IsEv("coff") \/ IsEv("get")) /\ UNCHANGED <<cfg, bufs, own>>
TCfg == IsEv("tracecfg") /\ cfg' = Upd(cfg, Ev.x.ch, [pol |-> Ev.x.pol, size |-> Ev.x.size]) /\ UNCHANGED <<bufs, own>>
TNew == IsEv("cnew") /\ bufs' = Upd(bufs, Ev.ch, <<>>) /\ own' = Upd(own, Ev.ch, Emp) /\ UNCHANGED cfg
TDel == IsEv("cdel") /\ bufs' = Upd(bufs, Ev.ch, <<>>) /\ UNCHANGED <<cfg, own>>
\* calls: begin/set/end/push/tburst; snapshots of several channels in one call are split
SnapOn(ch) == SelectSeq(Ev.snap, LAMBDA s : ChanOf(s[1]) = ch)
RECURSIVE Apply(_, _, _)
\* applies the snapshots channel by channel: chs is a sequence of channels; returns a set with the resulting <<bufs, own>>
Apply(b, o, chs) ==
  IF chs = <<>> THEN {<<b, o>>}
  ELSE LET ch == chs[1]
           q == SnapOn(ch)
       IN IF q = <<>> THEN Apply(b, o, Tail(chs))
          ELSE LET t == Ev.t
                   has == t \in DOMAIN o[ch] /\ o[ch][t] > 0
                   B == IF has THEN b[ch] ELSE Append(b[ch], NewBuf(q[1][1]))
                   i == IF has THEN o[ch][t] ELSE Len(B)
               IN UNION {Apply(Upd(b, ch, r), Upd(o, ch, Upd(o[ch], t, i)), Tail(chs)) :
                         r \in Process(B, i, cfg[ch], q, Ev.outs, 0)}
Call ==
  /\ l <= Len(Trace) /\ "snap" \in DOMAIN Trace[l] /\ l' = l + 1
  /\ \E r \in Apply(bufs, own, SetToSortSeq(DOMAIN bufs, <)) : bufs' = r[1] /\ own' = r[2]
  /\ UNCHANGED cfg
TExit == IsEv("texit") /\ own' = [ch \in DOMAIN own |-> Upd(own[ch], Ev.t, 0)] /\ UNCHANGED <<cfg, bufs>>
TFlush == /\ IsEv("mflush") /\ FlushOK(bufs[Ev.ch], cfg[Ev.ch], Ev.runs)
          /\ bufs' = Upd(bufs, Ev.ch, AfterFlush(bufs[Ev.ch], cfg[Ev.ch], Ev.runs)) /\ UNCHANGED <<cfg, own>>
TWrite == /\ IsEv("mwrite") /\ Len(Ev.outs) = 1 /\ FlushOK(bufs[Ev.ch], cfg[Ev.ch], Ev.outs[1].runs)
          /\ bufs' = Upd(bufs, Ev.ch, AfterFlush(bufs[Ev.ch], cfg[Ev.ch], Ev.outs[1].runs)) /\ UNCHANGED <<cfg, own>>
TClear == IsEv("clear") /\ bufs' = Upd(bufs, Ev.ch, Cleared(bufs[Ev.ch])) /\ UNCHANGED <<cfg, own>>
Next == TScenario \/ TEnd \/ TSkip \/ TCfg \/ TNew \/ TDel \/ Call \/ TExit \/ TFlush \/ TWrite \/ TClear
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
