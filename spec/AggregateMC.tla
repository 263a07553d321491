----------------------------- MODULE AggregateMC -----------------------------
(* Conservation of snapshots by aggregation, for all small histories. *)
EXTENDS AggregateSpec, TLC, Bags
CONSTANTS MaxSnaps
VARIABLES dbs, hist  \* one database per thread; history: sequence of <<thread, snapshot>> since the last clear
Threads == {1, 2}
\* attribute 1: path; 2: immediate key; 3, 4: aggregated
Snapshots == {{<<1, <<1, p>>>>} \cup K \cup V :
                p \in {1, 2}, K \in {{}, {<<2, <<2, 1>>>>}}, V \in {{}, {<<2, <<3, 5>>>>}, {<<2, <<3, -2>>>>, <<2, <<4, 1>>>>}}}
Keys == {2}  Aggs == {3, 4}
Init == dbs = [t \in Threads |-> EmptyDB] /\ hist = <<>>
Snap(t, S) == Len(hist) < MaxSnaps /\ dbs' = [dbs EXCEPT ![t] = Add(@, S, Keys, Aggs)] /\ hist' = Append(hist, <<t, S>>)
Clear == dbs' = [t \in Threads |-> EmptyDB] /\ hist' = <<>>
Next == (\E t \in Threads, S \in Snapshots : Snap(t, S)) \/ Clear
Spec == Init /\ [][Next]_<<dbs, hist>>

Idx(t, k) == {i \in 1..Len(hist) : hist[i][1] = t /\ KeyOf(hist[i][2], Keys) = k}
Vals(t, k, a) == [i \in {j \in Idx(t, k) : \E e \in hist[j][2] : e[1] = 2 /\ e[2][1] = a} |->
                    (CHOOSE e \in hist[i][2] : e[1] = 2 /\ e[2][1] = a)[2][2]]
Conserved ==
  \A t \in Threads :
    /\ Total(dbs[t]) = Cardinality({i \in 1..Len(hist) : hist[i][1] = t})
    /\ \A k \in DOMAIN dbs[t] :
         /\ dbs[t][k].n = Cardinality(Idx(t, k)) /\ dbs[t][k].n > 0
         /\ \A a \in Aggs : LET f == Vals(t, k, a) IN
              IF DOMAIN f = {} THEN a \notin DOMAIN dbs[t][k].vals
              ELSE /\ dbs[t][k].vals[a].sum = SumSet(f, DOMAIN f)
                   /\ dbs[t][k].vals[a].n = Cardinality(DOMAIN f)
                   /\ \A i \in DOMAIN f : f[i] >= dbs[t][k].vals[a].min /\ f[i] <= dbs[t][k].vals[a].max
                   /\ \E i \in DOMAIN f : f[i] = dbs[t][k].vals[a].min
                   /\ \E i \in DOMAIN f : f[i] = dbs[t][k].vals[a].max
OneRowPerKey == \A t \in Threads : Cardinality(Rows(dbs[t])) = Cardinality(DOMAIN dbs[t])
=============================================================================
