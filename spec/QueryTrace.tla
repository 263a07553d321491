----------------------------- MODULE QueryTrace -----------------------------
EXTENDS QuerySpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, recs, ty, meta
vars == <<l, recs, ty, meta>>
Init == l = 1 /\ recs = <<>> /\ ty = <<>> /\ meta = <<>>
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
TScenario == IsEv("scenario") /\ recs' = <<>> /\ UNCHANGED <<ty, meta>>
TEnd == IsEv("end") /\ UNCHANGED <<recs, ty, meta>>
\* the records read, and what is known about the attributes
TLoad == IsEv("load") /\ recs' = Ev.recs /\ ty' = Ev.ty /\ meta' = Ev.meta
In(q) == LET x == [j \in 1..Len(recs) |-> LetApply(recs[j], q.lets, q.ty)] IN
         SelectSeq(x, LAMBDA r : Selected(r, q.wheres))
Norm(r) == [p |-> r.p, q |-> r.q, i |-> {<<e[1], e[2]>> : e \in SetOf(r.i)}]
TResult ==
  /\ IsEv("result") /\ UNCHANGED <<recs, ty, meta>>
  /\ \E rs \in {In(Ev.q)} :
     IF Ev.q.aggr = <<>>
     THEN /\ Len(Ev.rows) = Len(rs)
          /\ \A j \in 1..Len(rs) : Norm(Ev.rows[j]) = Norm(rs[j]) /\ Len(Ev.rows[j].i) = Len(rs[j].i)
     ELSE \E ks \in {Keys(rs, Ev.q.g, Ev.q.meta, Ev.q.aggr)} :
          /\ Len(Ev.rows) = Cardinality(ks)
          /\ \A k \in ks : \E ws \in {Expected(k, rs, Ev.q.g, Ev.q.meta, Ev.q.aggr, Ev.q.ty)} :
               \E j \in 1..Len(Ev.rows) : RowIs(Ev.rows[j], k, ws)
Next == TScenario \/ TEnd \/ TLoad \/ TResult
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter >= Len(Trace) + 1 THEN TRUE
            ELSE PrintT("REJECTED " \o ToString(TLCGet("stats").diameter - 1)) /\ FALSE
=============================================================================
