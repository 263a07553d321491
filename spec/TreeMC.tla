------------------------------- MODULE TreeMC -------------------------------
(* How context tree nodes are found or created (MetadataTree, lockfree-tree): *)
(* children are linked lists that grow at the head. A request reads the head, *)
(* looks through the list, and if it finds nothing links a new node of its    *)
(* thread's own block in front with a compare-and-swap; if that fails it      *)
(* looks at the nodes added since and may take one of those.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Ops, Values,
          Look   \* FALSE: a design that does not look again (duplicates)
T == 1..Threads
None == 0
VARIABLES heap, head,   \* node -> [v, par, next, own]; node -> first child (0: root's)
          got,          \* <<thread, parent, value, node>> of completed requests
          pc, left
mvars == <<heap, head, got, pc, left>>
Nodes == 1..Len(heap)
MInit == heap = <<>> /\ head = [n \in {0} |-> None] /\ got = {} /\ pc = [t \in T |-> [s |-> "idle"]] /\ left = [t \in T |-> Ops]
RECURSIVE Scan(_, _, _)
Scan(n, stop, v) == IF n = stop THEN None ELSE IF heap[n].v = v THEN n ELSE Scan(heap[n].next, stop, v)
Listed(p) == LET RECURSIVE L(_)  L(n) == IF n = None THEN <<>> ELSE <<n>> \o L(heap[n].next) IN L(head[p])
To(t, x) == pc' = [pc EXCEPT ![t] = x]
Ask(t) == /\ pc[t].s = "idle" /\ left[t] > 0
          /\ \E v \in Values : \E p \in {0} \cup {g[4] : g \in {g \in got : g[1] = t}} :
               To(t, [s |-> "read", p |-> p, v |-> v])
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<heap, head, got>>
Give(t, n) == got' = got \cup {<<t, pc[t].p, pc[t].v, n>>} /\ To(t, [s |-> "idle"])
Read(t) == /\ pc[t].s = "read"
           /\ \E f \in {head[pc[t].p]} : \E n \in {Scan(f, None, pc[t].v)} :
                IF n # None THEN Give(t, n) /\ UNCHANGED <<heap, head>>
                ELSE /\ heap' = Append(heap, [v |-> pc[t].v, par |-> pc[t].p, next |-> f, own |-> t])
                     /\ head' = [m \in DOMAIN head \cup {Len(heap) + 1} |-> IF m = Len(heap) + 1 THEN None ELSE head[m]]
                     /\ To(t, [pc[t] EXCEPT !.s = "link"] @@ [n |-> Len(heap) + 1, seen |-> f]) /\ UNCHANGED got
           /\ UNCHANGED left
Link(t) == /\ pc[t].s = "link"
           /\ \E n \in {pc[t].n}, p \in {pc[t].p} :
                IF head[p] = heap[n].next THEN head' = [head EXCEPT ![p] = n] /\ Give(t, n) /\ UNCHANGED heap
                ELSE \E o \in {IF Look THEN Scan(head[p], pc[t].seen, pc[t].v) ELSE None} :
                     IF o # None THEN Give(t, o) /\ UNCHANGED <<heap, head>>
                     ELSE heap' = [heap EXCEPT ![n].next = head[p]] /\ To(t, [pc[t] EXCEPT !.seen = head[p]]) /\ UNCHANGED <<head, got>>
           /\ UNCHANGED left
MNext == \E t \in T : Ask(t) \/ Read(t) \/ Link(t)
MSpec == MInit /\ [][MNext]_mvars
\* what was given spells the request, stays below its parent, is the same for all, and is there once
Spells == \A g \in got : heap[g[4]].v = g[3] /\ heap[g[4]].par = g[2]
Reachable == \A g \in got : \E i \in 1..Len(Listed(g[2])) : Listed(g[2])[i] = g[4]
Same == \A g, h \in got : g[2] = h[2] /\ g[3] = h[3] => g[4] = h[4]
NoTwins == \A p \in DOMAIN head : \A i, j \in 1..Len(Listed(p)) : heap[Listed(p)[i]].v = heap[Listed(p)[j]].v => i = j
Immutable == [][\A n \in Nodes : heap'[n].v = heap[n].v /\ heap'[n].par = heap[n].par]_mvars
=============================================================================
