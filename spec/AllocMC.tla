------------------------------ MODULE AllocMC ------------------------------
(* Design check: the alloc service's steps (two locks) under every interleaving of the threads' calls. *)
EXTENDS AllocSpec, TLC
CONSTANTS Threads, Addrs, Sizes, MaxOps
VARIABLES pc, arg,           \* per thread
          tree, act, hwm,    \* the service's data
          gmax,              \* ghost: maximum of the active amount since the last snapshot
          ops, bad
vars == <<pc, arg, tree, act, hwm, gmax, ops, bad>>
TSum == SumF(tree, DOMAIN tree)
Init == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> <<0, 0>>]
        /\ tree = Emp /\ act = 0 /\ hwm = 0 /\ gmax = 0 /\ ops = 0 /\ bad = FALSE
\* a thread uses its own addresses
Mine(t) == {a \in Addrs : a % Cardinality(Threads) = t % Cardinality(Threads)}
Call(t) == /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E a \in Mine(t), z \in Sizes, k \in {"track", "untrack"} :
                arg' = [arg EXCEPT ![t] = <<a, z>>] /\ pc' = [pc EXCEPT ![t] = k]
           /\ UNCHANGED <<tree, act, hwm, gmax, bad>>
\* announce: replace and account under the tree lock
Track(t) == /\ pc[t] = "track"
            /\ LET a == arg[t][1] z == arg[t][2]
                   old == IF a \in DOMAIN tree THEN tree[a] ELSE 0
               IN /\ tree' = Upd(tree, a, z) /\ act' = act + z - old /\ hwm' = Max(hwm, act + z - old)
                  /\ gmax' = Max(gmax, act + z - old)
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<arg, ops, bad>>
\* release: take the region out, later subtract its size
Untrack(t) == /\ pc[t] = "untrack"
              /\ LET a == arg[t][1] IN
                 IF a \in DOMAIN tree
                 THEN tree' = Del(tree, a) /\ arg' = [arg EXCEPT ![t] = <<a, tree[a]>>] /\ pc' = [pc EXCEPT ![t] = "sub"]
                 ELSE UNCHANGED <<tree, arg>> /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<act, hwm, gmax, ops, bad>>
Sub(t) == /\ pc[t] = "sub" /\ act' = act - arg[t][2] /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<arg, tree, hwm, gmax, ops, bad>>
Snapshot == /\ ops < MaxOps /\ ops' = ops + 1
            /\ bad' = (bad \/ hwm # gmax) /\ hwm' = act /\ gmax' = act /\ UNCHANGED <<pc, arg, tree, act>>
Next == Snapshot \/ \E t \in Threads : Call(t) \/ Track(t) \/ Untrack(t) \/ Sub(t)
Spec == Init /\ [][Next]_vars
Quiet == \A t \in Threads : pc[t] = "idle"
AddsUp == Quiet => act = TSum
NeverLess == act >= TSum
HighWater == ~bad
=============================================================================
