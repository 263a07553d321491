------------------------------ MODULE LoopTrace ------------------------------
(* Recorded executions with the loop_monitor service. *)
EXTENDS LoopSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Iters == 600
StartIter == 601
VARIABLES l, clock, loopattr, iterattrs,
  cfg,  \* channel -> [interval, tlimit, all, names]
  st    \* channel -> [loops, cnt, start, last]
vars == <<l, clock, loopattr, iterattrs, cfg, st>>
Emp == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Init == l = 1 /\ clock = 0 /\ loopattr = 0 /\ iterattrs = {} /\ cfg = Emp /\ st = Emp
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
Same == UNCHANGED <<clock, loopattr, iterattrs, cfg, st>>

Imm(rec, a) == SelectSeq(rec, LAMBDA e : e[1] = 2 /\ e[2] = a)
\* the loop snapshots of this call on channel ch
LoopSnaps(ch) == SelectSeq(Ev.snap, LAMBDA s : s[1] = ch /\ (Imm(s[2], Iters) # <<>> \/ Imm(s[2], StartIter) # <<>>))
\* the open loops as the record shows them
RECURSIVE LoopsOf(_, _)
LoopsOf(e, i) == IF i + 1 > Len(e) THEN <<>>
                 ELSE (IF e[i] = loopattr THEN <<e[i+1]>> ELSE <<>>) \o LoopsOf(e, i + 2)
RecLoops(rec) == LET R == {LoopsOf(rec[i], 2) : i \in {i \in 1..Len(rec) : rec[i][1] = 1}} \ {<<>>}
                 IN IF R = {} THEN <<>> ELSE CHOOSE q \in R : TRUE
\* the snapshot is the one we expect: count, start iteration (if any iterations), and inside the right loops
SnapOK(s, x) == LET r == s[2] IN
  /\ Imm(r, Iters) = <<<<2, Iters, x.cnt>>>>
  /\ Imm(r, StartIter) = IF x.cnt > 0 THEN <<<<2, StartIter, x.start>>>> ELSE <<>>
  /\ RecLoops(r) = [i \in 1..Len(x.loops) |-> x.loops[i].v]
None(chs) == \A ch \in chs : LoopSnaps(ch) = <<>>
One(ch, x) == \E q \in {LoopSnaps(ch)} : Len(q) = 1 /\ SnapOK(q[1], x)
Elapsed(x) == clock - x.last

Listed(ch, v) == cfg[ch].all \/ v \in cfg[ch].names
Ch == DOMAIN st
Reset(x) == [x EXCEPT !.cnt = 0, !.start = 0, !.last = clock]
BeginLoop ==
  /\ \A ch \in Ch : IF BeginSnaps(st[ch].loops, Listed(ch, Ev.v)) THEN One(ch, [st[ch] EXCEPT !.cnt = 0]) ELSE LoopSnaps(ch) = <<>>
  /\ st' = [ch \in Ch |-> LET x == IF BeginSnaps(st[ch].loops, Listed(ch, Ev.v)) THEN Reset(st[ch]) ELSE st[ch]
                          IN [x EXCEPT !.loops = OpenLoop(@, Ev.v, Listed(ch, Ev.v))]]
BeginIter ==
  /\ None(Ch)
  /\ st' = [ch \in Ch |-> IF InTarget(st[ch].loops)
                          THEN [st[ch] EXCEPT !.cnt = @ + 1, !.start = IF st[ch].cnt = 0 THEN Ev.v ELSE @] ELSE st[ch]]
ItSnaps(ch) == IterSnaps(st[ch].loops, st[ch].cnt, cfg[ch].interval, cfg[ch].tlimit, Elapsed(st[ch]))
EndIter ==
  /\ \A ch \in Ch : IF ItSnaps(ch) THEN One(ch, st[ch]) ELSE LoopSnaps(ch) = <<>>
  /\ st' = [ch \in Ch |-> IF ItSnaps(ch) THEN Reset(st[ch]) ELSE st[ch]]
EndLoop ==
  /\ \A ch \in Ch : IF EndLoopSnaps(st[ch].loops) THEN One(ch, st[ch]) ELSE LoopSnaps(ch) = <<>>
  /\ st' = [ch \in Ch |-> LET x == IF EndLoopSnaps(st[ch].loops) THEN Reset(st[ch]) ELSE st[ch]
                          IN [x EXCEPT !.loops = CloseLoop(@)]]
Plain == UNCHANGED <<clock, loopattr, iterattrs, cfg>>
IsEnd == Ev.e \in {"end1", "endchk"}
TCall ==
  /\ l <= Len(Trace) /\ "snap" \in DOMAIN Trace[l] /\ l' = l + 1 /\ Plain
  /\ IF Ev.e = "begin" /\ Ev.a = loopattr THEN BeginLoop
     ELSE IF Ev.e = "begin" /\ Ev.a \in iterattrs THEN BeginIter
     ELSE IF IsEnd /\ Ev.a = loopattr THEN EndLoop
     ELSE IF IsEnd /\ Ev.a \in iterattrs THEN EndIter
     ELSE None(Ch) /\ UNCHANGED st
TScenario == IsEv("scenario") /\ clock' = 0 /\ loopattr' = 0 /\ iterattrs' = {} /\ cfg' = Emp /\ st' = Emp
TSkip == (IsEv("end") \/ IsEv("con") \/ IsEv("get") \/ IsEv("texit")) /\ Same
TLoopAttr == IsEv("loopattr") /\ loopattr' = Ev.x /\ UNCHANGED <<clock, iterattrs, cfg, st>>
TAttr == IsEv("attr") /\ iterattrs' = (IF "iter" \in DOMAIN Ev THEN iterattrs \cup {Ev.a} ELSE iterattrs)
         /\ UNCHANGED <<clock, loopattr, cfg, st>>
TAdv == IsEv("adv") /\ clock' = clock + Ev.d /\ UNCHANGED <<loopattr, iterattrs, cfg, st>>
TCfg == IsEv("loopcfg") /\ cfg' = Upd(cfg, Ev.x.ch, [interval |-> Ev.x.interval, tlimit |-> Ev.x.tlimit, all |-> Ev.x.all = 1, names |-> SetOf(Ev.x.names)])
        /\ UNCHANGED <<clock, loopattr, iterattrs, st>>
TNew == IsEv("cnew") /\ st' = Upd(st, Ev.ch, [loops |-> <<>>, cnt |-> 0, start |-> 0, last |-> -1000000000])
        /\ UNCHANGED <<clock, loopattr, iterattrs, cfg>>
Next == TScenario \/ TSkip \/ TLoopAttr \/ TAttr \/ TAdv \/ TCfg \/ TNew \/ TCall
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
