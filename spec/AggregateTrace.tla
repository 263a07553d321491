--------------------------- MODULE AggregateTrace ---------------------------
(* Recorded executions with the aggregation service: the snapshots are explained by SnapshotSpec, *)
(* and what a flush delivers is what AggregateSpec says about those snapshots.                     *)
EXTENDS SnapshotTrace
A == INSTANCE AggregateSpec

VARIABLES dbs,   \* channel -> sequence of databases, one per thread that ever recorded
          cur,   \* channel -> thread -> index of its database (0: none)
          keys,  \* channel -> immediate key attributes
          aggs   \* aggregatable attributes
avars == <<tvars, dbs, cur, keys, aggs>>

Emp == [x \in {} |-> 0]
ATInit == TInit /\ dbs = Emp /\ cur = Emp /\ keys = Emp /\ aggs = {400}

Calls == {"begin", "set", "end1", "endchk", "push", "cpush"}

\* the thread's database, creating one if needed: <<sequence, index>>
Ensure(D, c, t) == IF t \in DOMAIN c /\ c[t] > 0 THEN <<D, c[t]>> ELSE <<Append(D, A!EmptyDB), Len(D) + 1>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* applies a function to the database of thread t on channel ch
RECURSIVE Consume(_, _, _, _)
Consume(d, c, q, t) ==
  IF q = <<>> THEN <<d, c>>
  ELSE LET ch == q[1][1] IN
       IF ch \notin DOMAIN d THEN Consume(d, c, Tail(q), t)
       ELSE LET e == Ensure(d[ch], c[ch], t)
                nd == [e[1] EXCEPT ![e[2]] = A!Add(@, q[1][2], keys[ch], aggs)]
            IN Consume(Upd(d, ch, nd), Upd(c, ch, Upd(c[ch], t, e[2])), Tail(q), t)

\* burst: n snapshots, attribute a = b + i mod k, metric m = (7i+3) mod 11
RECURSIVE BurstVal(_, _, _, _)
BurstVal(i, n, k, acc) ==
  IF i >= n THEN acc
  ELSE LET v == (i * 7 + 3) % 11 IN
       BurstVal(i + k, n, k, [n |-> acc.n + 1, min |-> A!Min2(acc.min, v), max |-> A!Max2(acc.max, v), sum |-> acc.sum + v])
\* (operators take evaluated values: TLC would evaluate expressions again for each key)
Zero == [n |-> 0, min |-> 1000, max |-> -1000, sum |-> 0]
BurstKeys(C, n, a, k, b, ks, val) ==
  IF val /\ a \notin ks THEN {A!KeyOf(C, ks)}
  ELSE LET K == A!KeyOf(C, ks) IN
       IF val THEN {K \cup {<<2, <<a, b + j>>>>} : j \in 0..((IF k < n THEN k ELSE n) - 1)}
       ELSE {K \cup {<<1, <<a, b + j>>>>} : j \in 0..((IF k < n THEN k ELSE n) - 1)}
BurstSum(kx, n, a, k, m, b, val) ==
  LET j == (CHOOSE e \in kx : IF val THEN e[1] = 2 /\ e[2][1] = a ELSE e[1] = 1 /\ e[2][1] = a)[2][2] - b
      w == BurstVal(j, n, k, Zero)
  IN [n |-> w.n, vals |-> [x \in {m} |-> w]]
BurstNew(KS, n, a, k, m, b, ks, val) ==
  IF val /\ a \notin ks THEN [kx \in KS |-> [n |-> n, vals |-> [x \in {m} |-> BurstVal(0, n, 1, Zero)]]]
  ELSE [kx \in KS |-> BurstSum(kx, n, a, k, m, b, val)]
Combine(D, N, DD, DN) ==
  [x \in DD \cup DN |-> IF x \notin DN THEN D[x] ELSE IF x \notin DD THEN N[x] ELSE A!Merge(D[x], N[x])]

\* logged rows
RowSet(q) == {DecodeAll(q)[i] : i \in 1..Len(q)}
LogRows == [i \in 1..Len(Ev.recs) |-> RowSet(Ev.recs[i])]
Expected(ch) == [i \in 1..Len(dbs[ch]) |-> A!Rows(dbs[ch][i])]
RowsOK(ch) ==
  \E E \in {Expected(ch)} : \E L \in {LogRows} :
  \E LS \in {{L[i] : i \in 1..Len(L)}} : \E ES \in {UNION {E[i] : i \in 1..Len(E)}} :
  \E total \in {A!SumSet([i \in 1..Len(E) |-> Cardinality(E[i])], 1..Len(E))} :
     /\ Len(L) = total
     /\ LS = ES
     /\ \A i \in 1..Len(L) : Len(Ev.recs[i]) = Cardinality(L[i])   \* nothing twice in a row
     /\ Cardinality(LS) = Len(L) \/
        \A r \in LS : Cardinality({i \in 1..Len(L) : L[i] = r}) = Cardinality({i \in 1..Len(E) : r \in E[i]})

AUn == UNCHANGED <<dbs, cur, keys, aggs>>
AStep ==
  /\ TNext
  /\ IF Ev.e = "scenario" THEN dbs' = Emp /\ cur' = Emp /\ keys' = Emp /\ aggs' = {400}
     ELSE IF Ev.e = "attr" THEN aggs' = (IF "agg" \in DOMAIN Ev /\ Ev.agg = 1 THEN aggs \cup {Ev.a} ELSE aggs) /\ UNCHANGED <<dbs, cur, keys>>
     ELSE IF Ev.e \in Calls THEN
        /\ \E r \in {Consume(dbs, cur, snaps', Ev.t)} : dbs' = r[1] /\ cur' = r[2]
        /\ UNCHANGED <<keys, aggs>>
     ELSE IF Ev.e = "texit" THEN
        cur' = [ch \in DOMAIN cur |-> Upd(cur[ch], Ev.t, 0)] /\ UNCHANGED <<dbs, keys, aggs>>
     ELSE IF Ev.e = "cdel" THEN
        /\ dbs' = [c \in DOMAIN dbs \ {Ev.ch} |-> dbs[c]] /\ cur' = [c \in DOMAIN cur \ {Ev.ch} |-> cur[c]] /\ UNCHANGED <<keys, aggs>>
     ELSE AUn

\* aggregation configuration of a channel: [ch, keys]
AggCfg ==
  /\ IsEv("aggcfg")
  /\ dbs' = Upd(dbs, Ev.x.ch, <<>>) /\ cur' = Upd(cur, Ev.x.ch, Emp) /\ keys' = Upd(keys, Ev.x.ch, SeqToSet(Ev.x.keys))
  /\ UNCHANGED <<svars, order, aggs>>
TBurst ==
  /\ IsEv("burst") /\ Ev.nsnap = Ev.n
  /\ \E e \in {Ensure(dbs[Ev.ch], cur[Ev.ch], Ev.t)} : \E C \in {Context(Ev.t)} :
     \E ks \in {keys[Ev.ch]} : \E val \in {ak[Ev.a].val} :
     \E KS \in {BurstKeys(C, Ev.n, Ev.a, Ev.k, Ev.b, ks, val)} :
     \E N \in {BurstNew(KS, Ev.n, Ev.a, Ev.k, Ev.m, Ev.b, ks, val)} :
     \E D \in {e[1][e[2]]} : \E DD \in {DOMAIN D} :
     \E F \in {Combine(D, N, DD, KS)} :
       /\ dbs' = Upd(dbs, Ev.ch, [e[1] EXCEPT ![e[2]] = F])
       /\ cur' = Upd(cur, Ev.ch, Upd(cur[Ev.ch], Ev.t, e[2]))
  /\ UNCHANGED <<svars, order, keys, aggs>>
TFlush == IsEv("flush") /\ RowsOK(Ev.ch) /\ UNCHANGED <<svars, order>> /\ AUn
TClear == /\ IsEv("clear")
          /\ dbs' = Upd(dbs, Ev.ch, [i \in 1..Len(dbs[Ev.ch]) |-> A!EmptyDB])
          /\ UNCHANGED <<svars, order, cur, keys, aggs>>
ATNext == AStep \/ AggCfg \/ TBurst \/ TFlush \/ TClear
ATSpec == ATInit /\ [][ATNext]_avars
=============================================================================
