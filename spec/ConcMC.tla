------------------------------- MODULE ConcMC -------------------------------
(* How the runtime implements the process-wide context (Caliper.cpp): one     *)
(* store under a lock with a counter of its updates; end looks at the store,  *)
(* notifies channels without the lock, then looks again and removes; every    *)
(* thread keeps a copy for its snapshots and renews it when the counter,      *)
(* read without the lock, has moved on. Every execution of these steps is     *)
(* explainable by ConcSpec, where calls are atomic.                           *)
EXTENDS ConcSpec
CONSTANTS Threads, Ops,   \* number of threads, calls per thread
          Recheck, Bump   \* TRUE: as implemented. FALSE: designs that do not work
P == 1 \* a region attribute
Q == 2 \* another one
V == 3 \* as-value
K(val) == [val |-> val, proc |-> TRUE, una |-> FALSE, hid |-> FALSE, nest |-> FALSE, skip |-> FALSE, str |-> FALSE]
kinds == <<K(FALSE), K(FALSE), K(TRUE)>>
env == [presets |-> Fn0, defscope |-> "thread"]
T == 1..Threads
VARIABLES st, cnt,      \* shared: store and number of updates
          cache,        \* thread -> [cnt, v]
          bad,          \* threads that have given up after an error
          pc, left,     \* thread -> step, calls left
          C             \* the monitor
mvars == <<st, cnt, cache, bad, pc, left, C>>
Idle == [s |-> "idle"]
MInit == /\ st = EmptyStore /\ cnt = 0 /\ cache = [t \in T |-> [cnt |-> 0, v |-> {}]] /\ bad = {}
         /\ pc = [t \in T |-> Idle] /\ left = [t \in T |-> Ops] /\ C = {Start(T)}
         /\ ak = Fn0 /\ bb = Fn0 /\ chbb = Fn0 /\ err = {} /\ active = <<>> /\ evs = <<>>
Calls == {<<"begin", P, 1>>, <<"begin", Q, 1>>, <<"end", P, 0>>, <<"end", V, 0>>, <<"set", P, 2>>, <<"set", V, 1>>, <<"snap", 0, 0>>, <<"get", P, 0>>}
Call(t) == /\ pc[t].s = "idle" /\ left[t] > 0
           /\ \E c \in Calls : \E call \in {[t |-> t, op |-> c[1], x |-> IF c[1] = "snap" THEN <<0>> ELSE <<c[2], c[3]>>, props |-> {}]} :
                /\ pc' = [pc EXCEPT ![t] = [s |-> "start", call |-> call]]
                /\ C' = Called(kinds, env, C, t, call)
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<st, cnt, cache, bad>>
Update(s) == st' = s /\ cnt' = IF Bump THEN cnt + 1 ELSE IF Visible(s, kinds) = {} \/ Cardinality(Visible(s, kinds)) # Cardinality(Visible(st, kinds)) THEN cnt + 1 ELSE cnt
Done(t, r) == pc' = [pc EXCEPT ![t] = [s |-> "ret", r |-> r]]
Step(t) ==
  /\ pc[t].s \in {"start", "again", "renew"}
  /\ \E call \in {pc[t].call} : \E op \in {call.op}, a \in {call.x[1]} :
     IF op \in {"begin", "set", "end"} /\ t \in bad /\ pc[t].s = "start" THEN Done(t, Ok) /\ UNCHANGED <<st, cnt, bad, cache>>
     ELSE CASE op = "begin" -> Update(StoreBegin(st, kinds[a], a, call.x[2])) /\ Done(t, Ok) /\ UNCHANGED <<bad, cache>>
            [] op = "set" -> Update(StoreSet(st, kinds[a], a, call.x[2])) /\ Done(t, Ok) /\ UNCHANGED <<bad, cache>>
            [] op = "get" -> Done(t, [k |-> "get", v |-> StoreGet(st, kinds[a], a)]) /\ UNCHANGED <<st, cnt, bad, cache>>
            [] op = "end" /\ pc[t].s = "start" ->
                 IF StoreCanEnd(st, kinds[a], a)
                 THEN pc' = [pc EXCEPT ![t] = [s |-> "again", call |-> call, seen |-> st]] /\ UNCHANGED <<st, cnt, bad, cache>>
                 ELSE Done(t, Ok) /\ bad' = bad \cup {t} /\ UNCHANGED <<st, cnt, cache>>
            [] op = "end" /\ pc[t].s = "again" ->
                 \E cur \in {IF Recheck THEN st ELSE pc[t].seen} :
                   IF StoreCanEnd(cur, kinds[a], a) THEN Update(StoreEnd(cur, kinds[a], a)) /\ Done(t, Ok) /\ UNCHANGED <<bad, cache>>
                   ELSE Done(t, Ok) /\ bad' = bad \cup {t} /\ UNCHANGED <<st, cnt, cache>>
            [] op = "snap" /\ pc[t].s = "start" ->
                 /\ IF cache[t].cnt < cnt THEN pc' = [pc EXCEPT ![t] = [s |-> "renew", call |-> call]]
                    ELSE Done(t, [k |-> "snap", v |-> cache[t].v])
                 /\ UNCHANGED <<st, cnt, bad, cache>>
            [] op = "snap" /\ pc[t].s = "renew" ->
                 /\ cache' = [cache EXCEPT ![t] = [cnt |-> cnt, v |-> Visible(st, kinds)]]
                 /\ Done(t, [k |-> "snap", v |-> Visible(st, kinds)])
                 /\ UNCHANGED <<st, cnt, bad>>
  /\ UNCHANGED <<left, C>>
Ret(t) == /\ pc[t].s = "ret"
          /\ C' = Returned(C, t, LAMBDA w : w = pc[t].r)
          /\ pc' = [pc EXCEPT ![t] = Idle]
          /\ UNCHANGED <<st, cnt, cache, bad, left>>
MNext == (\E t \in T : Call(t) \/ Step(t) \/ Ret(t)) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<mvars, vars>>
Explainable == C # {}
=============================================================================
