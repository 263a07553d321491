------------------------------ MODULE CaliTrace ------------------------------
(* Recorded writing, reading and merging of streams. *)
EXTENDS CaliStream, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  st,    \* stream -> [kind, tab, out, gl, cs, src, srcg, cut]
  cur,   \* the stream whose records are being compared, "" if none
  at     \* number of its records seen
vars == <<l, st, cur, at>>
Init == l = 1 /\ st = NoTab /\ cur = "" /\ at = 0
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
New(kind) == [kind |-> kind, tab |-> NoTab, out |-> <<>>, gl |-> <<>>, cs |-> {}, src |-> <<>>, srcg |-> <<>>, cut |-> FALSE]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(k) == IF k \in DOMAIN st THEN st[k] ELSE New("none")
TScenario == IsEv("scenario") /\ st' = NoTab /\ cur' = "" /\ at' = 0
TEnd == IsEv("end") /\ cur = "" /\ UNCHANGED <<st, cur, at>>
\* what the writer was asked to write
TSrc == IsEv("src") /\ st' = Upd(st, Ev.k, [Get(Ev.k) EXCEPT !.src = Append(@, Ev.r)]) /\ UNCHANGED <<cur, at>>
TSrcG == IsEv("srcg") /\ st' = Upd(st, Ev.k, [Get(Ev.k) EXCEPT !.srcg = Ev.r]) /\ UNCHANGED <<cur, at>>
TStream == /\ IsEv("stream")
           /\ st' = Upd(st, Ev.k, [Get(Ev.k) EXCEPT !.kind = Ev.kind]) /\ UNCHANGED <<cur, at>>
\* references first, then the immediate entries: the order of the entries inside a record has no meaning
IsRef(e) == \E c \in {"R"} : SubSeq(e, 1, 1) = c
Norm(r) == SelectSeq(r, IsRef) \o SelectSeq(r, LAMBDA e : ~IsRef(e))
TLine ==
  /\ IsEv("line")
  /\ \E s \in {st[Ev.k]} :
     /\ s.kind = "written" =>
          /\ WellFormed(s.tab, Ev)
          /\ Ev.x = "ctx" => /\ Len(s.out) < Len(s.src)
                             /\ Record(s.tab, Ev) = Norm(s.src[Len(s.out) + 1])
          /\ Ev.x = "globals" => Record(s.tab, Ev) = Norm(s.srcg)
     /\ st' = [st EXCEPT ![Ev.k] =
          IF Ev.x = "node" THEN
             LET t == AddNode(s.tab, Ev) IN
             [s EXCEPT !.tab = t, !.cs = IF GoodNode(s.tab, Ev) THEN @ \cup {NewNode(s.tab, Ev).c} ELSE @]
          ELSE IF Ev.x = "ctx" THEN [s EXCEPT !.out = Append(@, Record(s.tab, Ev))]
          ELSE IF Ev.x = "globals" THEN [s EXCEPT !.gl = AddGlobals(@, s.tab, Ev)]
          ELSE IF Ev.x = "cut" THEN [s EXCEPT !.cut = TRUE]
          ELSE s]
  /\ UNCHANGED <<cur, at>>
TBegin == /\ IsEv("begin") /\ cur = "" /\ cur' = Ev.k /\ at' = 0 /\ UNCHANGED st
          /\ st[Ev.k].kind = "written" => Len(st[Ev.k].out) = Len(st[Ev.k].src)
\* an incomplete last line may be read as far as it goes
TGot == /\ IsEv("got") /\ cur # "" /\ at' = at + 1 /\ UNCHANGED <<st, cur>>
        /\ \E s \in {st[cur]} :
             \/ s.kind = "opaque"
             \/ at < Len(s.out) /\ Ev.r = s.out[at + 1]
             \/ s.cut /\ at = Len(s.out)
TDone == /\ IsEv("done") /\ cur # "" /\ cur' = "" /\ UNCHANGED <<st, at>>
         /\ st[cur].kind # "opaque" => at >= Len(st[cur].out)
         /\ st[cur].kind \in {"written", "good"} => Ev.err = 0
SetOf(q) == {q[i] : i \in 1..Len(q)}
BootAttrNodes == {"#3/(#10)=i64", "#3/(#10)=i64/(#8)=sattribute.alias", "#3/(#10)=i64/(#8)=sattribute.unit"}
RECURSIVE MergeGl(_, _)
MergeGl(a, q) == IF q = <<>> THEN a
  ELSE LET g == q[1] IN
       MergeGl(IF \E i \in 1..Len(a) : a[i].r = g.r /\ a[i].k = g.k
               THEN [i \in 1..Len(a) |-> IF a[i].r = g.r /\ a[i].k = g.k THEN g ELSE a[i]]
               ELSE Append(a, g), Tail(q))
RECURSIVE AllGl(_, _)
AllGl(a, ks) == IF ks = <<>> THEN a ELSE AllGl(MergeGl(a, st[ks[1]].gl), Tail(ks))
(* The database holds exactly the nodes of the streams, each once. *)
TDb == /\ IsEv("db") /\ UNCHANGED <<st, cur, at>>
       /\ Ev.ok = 1
       /\ IF \E k \in SetOf(Ev.ks) : st[k].kind = "opaque" THEN TRUE ELSE
          \E cs \in {UNION {st[k].cs : k \in SetOf(Ev.ks)}} :
          \E have \in {SetOf(Ev.n)} :
          \E cuts \in {{k \in SetOf(Ev.ks) : st[k].cut}} :
             /\ Cardinality(have) = Len(Ev.n)
             /\ cs \subseteq have
             /\ Cardinality(have \ (cs \cup BootAttrNodes)) <= Cardinality(cuts)
             /\ cuts = {} => \E gl \in {AllGl(<<>>, Ev.ks)} :
                  /\ Len(Ev.g) = Len(gl)
                  /\ \A i \in 1..Len(gl) :
                       IF gl[i].r THEN GlobalText(gl[i]) \in SetOf(Ev.g)
                       ELSE \* an as-value global: the value of the last stream (read in parallel: of one of them)
                            \E k \in SetOf(Ev.ks) : \E j \in 1..Len(st[k].gl) :
                               /\ st[k].gl[j].k = gl[i].k /\ ~st[k].gl[j].r
                               /\ GlobalText(st[k].gl[j]) \in SetOf(Ev.g)
                               /\ Ev.par = 0 => st[k].gl[j] = gl[i]
(* Copying a record to another database keeps what it says. *)
TMBegin == IsEv("mbegin") /\ UNCHANGED <<st, cur, at>>
TMerged == IsEv("merged") /\ Ev.r = Ev.o /\ UNCHANGED <<st, cur, at>>
Next == \/ TScenario \/ TEnd \/ TSrc \/ TSrcG \/ TStream \/ TLine \/ TBegin \/ TGot \/ TDone \/ TDb \/ TMBegin \/ TMerged
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter >= Len(Trace) + 1 THEN TRUE
            ELSE PrintT("REJECTED " \o ToString(TLCGet("stats").diameter - 1)) /\ FALSE
=============================================================================
