--------------------------- MODULE AggregateSpec ---------------------------
(***************************************************************************)
(* On-line aggregation (C08): what a set of snapshots aggregates to.       *)
(* A snapshot is a set of entries as in CaliperCore: <<1, pairs...>> for   *)
(* paths, <<2, <<a, v>>>> for as-value entries.  A database maps keys      *)
(* (sets of entries) to summaries.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EmptyDB == [k \in {} |-> 0]
NoVals == [a \in {} |-> 0]

CountAttr == 401
MinOf(a) == 2000 + a   MaxOf(a) == 3000 + a   SumOf(a) == 4000 + a   AvgOf(a) == 5000 + a

KeyOf(S, keys) == {e \in S : e[1] = 1 \/ (e[1] = 2 /\ e[2][1] \in keys)}
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
TruncDiv(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)

\* summary: n snapshots; vals: attribute -> [n, min, max, sum]
One(S, aggs) ==
  [n |-> 1,
   vals |-> LET A == {a \in aggs : \E e \in S : e[1] = 2 /\ e[2][1] = a}
            IN [a \in A |-> LET v == (CHOOSE e \in S : e[1] = 2 /\ e[2][1] = a)[2][2]
                            IN [n |-> 1, min |-> v, max |-> v, sum |-> v]]]
MergeVal(x, y) == [n |-> x.n + y.n, min |-> Min2(x.min, y.min), max |-> Max2(x.max, y.max), sum |-> x.sum + y.sum]
Merge(s, t) ==
  [n |-> s.n + t.n,
   vals |-> [a \in DOMAIN s.vals \cup DOMAIN t.vals |->
               IF a \notin DOMAIN s.vals THEN t.vals[a] ELSE IF a \notin DOMAIN t.vals THEN s.vals[a]
               ELSE MergeVal(s.vals[a], t.vals[a])]]
\* adding a summary under a key
Put(db, k, s) == IF k \in DOMAIN db THEN [db EXCEPT ![k] = Merge(@, s)]
                 ELSE [x \in DOMAIN db \cup {k} |-> IF x = k THEN s ELSE db[x]]
Add(db, S, keys, aggs) == Put(db, KeyOf(S, keys), One(S, aggs))

\* the result row of a key: a set of entries
Row(k, s) ==
  k \cup UNION {{<<2, <<MinOf(a), s.vals[a].min>>>>, <<2, <<MaxOf(a), s.vals[a].max>>>>,
                 <<2, <<SumOf(a), s.vals[a].sum>>>>,
                 <<2, <<AvgOf(a), TruncDiv(s.vals[a].sum, s.vals[a].n)>>>>} : a \in DOMAIN s.vals}
    \cup {<<2, <<CountAttr, s.n>>>>}
Rows(db) == {Row(k, db[k]) : k \in DOMAIN db}

RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumSet(f, D \ {x})
Total(db) == SumSet([k \in DOMAIN db |-> db[k].n], DOMAIN db)
=============================================================================
