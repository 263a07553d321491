----------------------------- MODULE TimerTrace -----------------------------
(* Recorded executions with the timer service under a controlled clock. *)
EXTENDS TimerSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Offs == 500
Dur == 501
Incl == 502
SumDur == 4501
VARIABLES l, clock,
  cfg,  \* channel -> [incl: inclusive durations on (and event information available)]
  ch0,  \* channel -> creation time
  st,   \* <<channel, thread>> -> timer state
  tot   \* channel -> sum of the durations since the last clear
vars == <<l, clock, cfg, ch0, st, tot>>
Emp == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ clock = 0 /\ cfg = Emp /\ ch0 = Emp /\ st = Emp /\ tot = Emp
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
State(s, ch, t) == IF <<ch, t>> \in DOMAIN s THEN s[<<ch, t>>] ELSE Fresh

\* the <<attribute, value>> pairs of a record as logged: entries <<1, a, v, a, v, ...>> or <<2, a, v>>
PairsOf(rec) == UNION {{<<rec[i][2*k], rec[i][2*k + 1]>> : k \in 1..((Len(rec[i]) - 1) \div 2)} : i \in 1..Len(rec)}
\* entries of attribute a, with multiplicity
Imm(rec, a) == SelectSeq(rec, LAMBDA e : e[1] = 2 /\ e[2] = a)
\* the triggering event
KindOf(rec) ==
  LET E == {p[1] : p \in {p \in PairsOf(rec) : p[1] > 100 /\ p[1] < 400}} IN
  IF E = {} THEN Other
  ELSE LET x == CHOOSE x \in E : TRUE IN
       IF x < 200 THEN BeginEv(x - 100) ELSE IF x > 300 THEN EndEv(x - 300) ELSE Other
RECURSIVE Replay(_, _, _, _)
\* explains the snapshots q from number i on; the result is {<<states, totals>>} or {}
Replay(q, i, t, s) ==
  IF i > Len(q) THEN {s}
  ELSE
   UNION {
     LET sc == State(s[1], ch, t)
         now == clock - ch0[ch]
         inc == Inclusive(sc, cfg[ch].incl, kind, now)
         o == Imm(rec, Offs)
         d == Imm(rec, Dur)
         n == Imm(rec, Incl)
     IN IF /\ Len(o) = 1 /\ o[1][3] = now
           /\ Len(d) = 1 /\ d[1][3] = Duration(sc, now)
           /\ IF inc = -1 THEN n = <<>> ELSE Len(n) = 1 /\ n[1][3] = inc
        THEN Replay(q, i + 1, t, <<Upd(s[1], <<ch, t>>, After(sc, cfg[ch].incl, kind, now)),
                                   Upd(s[2], ch, s[2][ch] + Duration(sc, now))>>)
        ELSE {}
     : ch \in {q[i][1]}, rec \in {q[i][2]}, kind \in {KindOf(q[i][2])}}

TScenario == IsEv("scenario") /\ clock' = 0 /\ cfg' = Emp /\ ch0' = Emp /\ st' = Emp /\ tot' = Emp
Same == UNCHANGED <<clock, cfg, ch0, st, tot>>
TSkip == (IsEv("end") \/ IsEv("attr") \/ IsEv("con") \/ IsEv("coff") \/ IsEv("get") \/ IsEv("ctx")) /\ Same
TAdv == IsEv("adv") /\ clock' = clock + Ev.d /\ UNCHANGED <<cfg, ch0, st, tot>>
TCfg == IsEv("timercfg") /\ cfg' = Upd(cfg, Ev.x.ch, [incl |-> Ev.x.incl = 1]) /\ UNCHANGED <<clock, ch0, st, tot>>
TNew == IsEv("cnew") /\ ch0' = Upd(ch0, Ev.ch, clock) /\ tot' = Upd(tot, Ev.ch, 0) /\ UNCHANGED <<clock, cfg, st>>
TCall == /\ l <= Len(Trace) /\ "snap" \in DOMAIN Trace[l] /\ l' = l + 1
         /\ \E r \in Replay(Ev.snap, 1, Ev.t, <<st, tot>>) : st' = r[1] /\ tot' = r[2]
         /\ UNCHANGED <<clock, cfg, ch0>>
\* a snapshot taken through the C interface: pairs of attribute and value
\* (in signal-safe mode, which creates no data for a thread the timer does not know)
PullRec == [i \in 1..Len(Ev.all) |-> <<2, Ev.all[i][1], Ev.all[i][2]>>]
TPullUnknown == /\ IsEv("cpull") /\ <<Ev.ch, Ev.t>> \notin DOMAIN st
                /\ Imm(PullRec, Dur) = <<>> /\ Imm(PullRec, Incl) = <<>>
                /\ Len(Imm(PullRec, Offs)) = 1 /\ Imm(PullRec, Offs)[1][3] = clock - ch0[Ev.ch] /\ Same
TPull == /\ IsEv("cpull")
         /\ \E r \in Replay(<<<<Ev.ch, PullRec>>>>, 1, Ev.t, <<st, tot>>) :
              st' = r[1]
         /\ UNCHANGED <<clock, cfg, ch0, tot>>
TExit == IsEv("texit") /\ st' = [k \in {k \in DOMAIN st : k[2] # Ev.t} |-> st[k]] /\ UNCHANGED <<clock, cfg, ch0, tot>>
RECURSIVE SumOf(_, _)
SumOf(recs, i) == IF i > Len(recs) THEN 0
                  ELSE LET d == Imm(recs[i], SumDur) IN (IF d = <<>> THEN 0 ELSE d[1][3]) + SumOf(recs, i + 1)
TFlush == IsEv("flush") /\ SumOf(Ev.recs, 1) = tot[Ev.ch] /\ Same
TClear == IsEv("clear") /\ tot' = Upd(tot, Ev.ch, 0) /\ UNCHANGED <<clock, cfg, ch0, st>>
Next == TScenario \/ TSkip \/ TAdv \/ TCfg \/ TNew \/ TCall \/ TPull \/ TPullUnknown \/ TExit \/ TFlush \/ TClear
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
