---------------------------- MODULE ProfileTrace ----------------------------
EXTENDS ProfileSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, recs
vars == <<l, recs>>
Init == l = 1 /\ recs = <<>>
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
TScenario == IsEv("scenario") /\ recs' = <<>>
TEnd == IsEv("end") /\ UNCHANGED recs
TLoad == IsEv("load") /\ recs' = Ev.recs
\* the records as seen for one metric: their paths and all their entries; the first one counts
Metric(m) == [j \in 1..Len(recs) |->
   LET v == SelectSeq(recs[j].i, LAMBDA e : e[1] = m) IN [p |-> recs[j].p, m |-> IF v = <<>> THEN <<>> ELSE <<v[1][2]>>]]
TProf ==
  /\ IsEv("prof") /\ UNCHANGED recs
  /\ \E rs \in {Metric(Ev.m)} :
     /\ Ev.tt = Total(rs)
     /\ Ev.tr = InType(rs, Ev.k, Ev.r)
     /\ Len(Ev.reg) = Cardinality(Keys(rs, Ev.k, Ev.r))
     /\ \A j \in 1..Len(Ev.reg) : Ev.reg[j][1] \in Keys(rs, Ev.k, Ev.r) /\ Ev.reg[j][2] = Value(rs, Ev.k, Ev.r, Ev.reg[j][1])
     /\ \A i, j \in 1..Len(Ev.reg) : i # j => Ev.reg[i][1] # Ev.reg[j][1]
Next == TScenario \/ TEnd \/ TLoad \/ TProf
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter >= Len(Trace) + 1 THEN TRUE
            ELSE PrintT("REJECTED " \o ToString(TLCGet("stats").diameter - 1)) /\ FALSE
=============================================================================
