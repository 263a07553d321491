------------------------------- MODULE AttrMC -------------------------------
(* How the runtime creates attributes (Caliper::create_attribute): look the   *)
(* name up under the table lock, build nodes without it, look again and enter *)
(* the name, notify the channels. Also the first use of the runtime: whoever  *)
(* finds it uninitialized initializes it under a lock after looking again.    *)
(* Every execution is explainable by ConcSpec, each attribute is announced    *)
(* once, and there is one initialization.                                     *)
EXTENDS ConcSpec
CONSTANTS Threads, Ops, Relook \* Relook = FALSE: designs that do not work
T == 1..Threads
Names == {1, 2}
env == [presets |-> [x \in {2} |-> {"asvalue"}], defscope |-> "thread"]
kinds == <<>>
VARIABLES inits, ready, lock,  \* number of initializations, runtime is there, thread that initializes (0: none)
          tab, nodes, told,    \* table: name -> [node, attr]; number of nodes; nodes announced (in order)
          pc, left, C
mvars == <<inits, ready, lock, tab, nodes, told, pc, left, C>>
Idle == [s |-> "idle"]
MInit == /\ inits = 0 /\ ready = FALSE /\ lock = 0 /\ tab = Fn0 /\ nodes = 0 /\ told = <<>>
         /\ pc = [t \in T |-> Idle] /\ left = [t \in T |-> Ops] /\ C = {Start(T)}
         /\ ak = Fn0 /\ bb = Fn0 /\ chbb = Fn0 /\ err = {} /\ active = <<>> /\ evs = <<>>
To(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t].s = "idle" /\ left[t] > 0
           /\ \E n \in Names : \E call \in {[t |-> t, op |-> "mkattr", x |-> <<n, "int", "", 0>>, props |-> IF t = 1 THEN {"nested"} ELSE {"process"}],
                                            [t |-> t, op |-> "find", x |-> <<n, "", "", 0>>, props |-> {}]} :
                /\ To(t, [s |-> "enter", call |-> call]) /\ C' = Called(kinds, env, C, t, call)
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<inits, ready, lock, tab, nodes, told>>
Enter(t) == /\ pc[t].s = "enter" /\ To(t, [pc[t] EXCEPT !.s = IF ready THEN "look" ELSE "wait"])
            /\ UNCHANGED <<inits, ready, lock, tab, nodes, told, left, C>>
Lock(t) == /\ pc[t].s = "wait" /\ lock = 0
           /\ IF Relook /\ ready THEN To(t, [pc[t] EXCEPT !.s = "look"]) /\ UNCHANGED lock
              ELSE lock' = t /\ To(t, [pc[t] EXCEPT !.s = "init"])
           /\ UNCHANGED <<inits, ready, tab, nodes, told, left, C>>
InitRt(t) == /\ pc[t].s = "init" /\ inits' = inits + 1 /\ ready' = TRUE /\ lock' = 0
             /\ tab' = Fn0 \* a new, empty runtime
             /\ To(t, [pc[t] EXCEPT !.s = "look"]) /\ UNCHANGED <<nodes, told, left, C>>
Answer(t, r) == To(t, [s |-> "ret", r |-> [k |-> "attr", v |-> r]])
Look(t) == /\ pc[t].s = "look"
           /\ \E n \in {pc[t].call.x[1]} :
                IF n \in DOMAIN tab THEN Answer(t, tab[n].attr) /\ UNCHANGED nodes
                ELSE IF pc[t].call.op = "find" THEN Answer(t, Fn0) /\ UNCHANGED nodes
                ELSE nodes' = nodes + 1 /\ To(t, [s |-> "add", call |-> pc[t].call, node |-> nodes + 1])
           /\ UNCHANGED <<inits, ready, lock, tab, told, left, C>>
Add(t) == /\ pc[t].s = "add"
          /\ \E call \in {pc[t].call} : \E n \in {call.x[1]} :
               \E a \in {[type |-> "int", props |-> EffProps(env, n, call.props, 0), meta |-> 0]} :
               IF Relook /\ n \in DOMAIN tab THEN Answer(t, tab[n].attr) /\ UNCHANGED tab
               ELSE /\ tab' = UpdF(tab, n, [node |-> pc[t].node, attr |-> a])
                    /\ To(t, [s |-> "tell", node |-> pc[t].node, attr |-> a, name |-> n])
          /\ UNCHANGED <<inits, ready, lock, nodes, told, left, C>>
Tell(t) == /\ pc[t].s = "tell" /\ told' = Append(told, <<pc[t].name, pc[t].node>>) /\ Answer(t, pc[t].attr)
           /\ UNCHANGED <<inits, ready, lock, tab, nodes, left, C>>
Ret(t) == /\ pc[t].s = "ret" /\ C' = Returned(C, t, LAMBDA w : w = pc[t].r) /\ To(t, Idle)
          /\ UNCHANGED <<inits, ready, lock, tab, nodes, told, left>>
MNext == (\E t \in T : Call(t) \/ Enter(t) \/ Lock(t) \/ InitRt(t) \/ Look(t) \/ Add(t) \/ Tell(t) \/ Ret(t)) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<mvars, vars>>
Explainable == C # {}
Once == inits <= 1
ToldOnce == \A i, j \in 1..Len(told) : told[i][1] = told[j][1] => i = j
AllTold == (\A t \in T : pc[t].s = "idle") => {told[i][1] : i \in 1..Len(told)} = DOMAIN tab
=============================================================================
