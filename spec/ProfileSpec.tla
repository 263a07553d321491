----------------------------- MODULE ProfileSpec -----------------------------
(* Region profiles of a collection of records.  A record is [p |-> region path, outermost first, of <<type, name>>,
   m |-> <<>> or <<value of the metric>>].  t: the region type asked for, "" for all.
   kind: "fx" flat exclusive, "fi" flat inclusive, "nx" nested exclusive, "ni" nested inclusive. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SetOf(s) == {s[j] : j \in 1..Len(s)}
Of(r, t) == SelectSeq(r.p, LAMBDA e : t = "" \/ e[1] = t)
Names(p) == [j \in 1..Len(p) |-> p[j][2]]
Innermost(r, t) == r.p # <<>> /\ (t = "" \/ r.p[Len(r.p)][1] = t)
\* the regions (flat: names, nested: paths of names) a record counts for, each once
Regions(r, kind, t) ==
  LET n == Names(Of(r, t)) IN
  CASE kind = "fx" -> IF Innermost(r, t) THEN {<<n[Len(n)]>>} ELSE {}
    [] kind = "nx" -> IF Innermost(r, t) THEN {n} ELSE {}
    [] kind = "fi" -> {<<x>> : x \in SetOf(n)}
    [] kind = "ni" -> {SubSeq(n, 1, j) : j \in 1..Len(n)}
With(recs) == SelectSeq(recs, LAMBDA r : r.m # <<>>)
Sum(recs) == SumSeq([j \in 1..Len(recs) |-> recs[j].m[1]])
Keys(recs, kind, t) == UNION {Regions(r, kind, t) : r \in SetOf(With(recs))}
Value(recs, kind, t, k) == Sum(SelectSeq(With(recs), LAMBDA r : k \in Regions(r, kind, t)))
InType(recs, kind, t) == Sum(SelectSeq(With(recs), LAMBDA r : Regions(r, kind, t) # {}))
Total(recs) == Sum(With(recs))
=============================================================================
