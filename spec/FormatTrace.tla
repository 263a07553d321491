---------------------------- MODULE FormatTrace ----------------------------
(* Recorded reports: the data of a scenario, then what queries printed.       *)
EXTENDS FormatSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, A, recs, globs
tvars == <<l, A, recs, globs>>
Ev == Trace[l]
IsEv(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Init == l = 1 /\ A = <<>> /\ recs = <<>> /\ globs = {}
Fn(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE p \in SetOf(ps) : p[1] = x)[2]]
TScenario == IsEv("scenario") /\ A' = <<>> /\ recs' = <<>> /\ globs' = {}
TInfo == IsEv("info") /\ A' = Fn(Ev.x.attrs) /\ recs' = Ev.x.recs /\ globs' = SetOf(Ev.x.globs)
Q == [Ev.q EXCEPT !.as = Fn(@)]
\* all of the attributes are described, global values are there
AttrsOK(q, obj) == \A a \in DOMAIN A : LET want == Shown(A, q, a) /\ (q.sep \/ ~A[a].nested)
                                       IN want => \E x \in SetOf(obj) : x[1] = a /\ x[2] = A[a].nested
TFmt == /\ IsEv("fmt") /\ Ev.wf
        /\ \E q \in {Q} :
             CASE q.fmt = "table" -> IsTable(A, q, recs, Ev.x)
               [] q.fmt = "tree" -> IsTree(A, q, recs, Ev.x)
               [] q.fmt = "json" -> IsJson(A, q, recs, Ev.x) /\ (q.object => SetOf(Ev.globs) = globs /\ AttrsOK(q, Ev.attrs))
               [] q.fmt = "json-split" -> IsSplit(A, q, recs, Ev.x) /\ SetOf(Ev.globs) = globs
               [] q.fmt = "expand" -> IsExpand(A, q, recs, Ev.x)
               [] q.fmt = "format" -> IsUser(A, q, recs, Ev.x)
               [] q.fmt = "cali" -> IsCali(A, recs, Ev.x) /\ SetOf(Ev.globs) = globs
        /\ UNCHANGED <<A, recs, globs>>
TEnd == IsEv("end") /\ UNCHANGED <<A, recs, globs>>
TNext == TScenario \/ TInfo \/ TFmt \/ TEnd
TSpec == Init /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
