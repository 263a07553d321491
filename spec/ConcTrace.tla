------------------------------ MODULE ConcTrace ------------------------------
(* Recorded concurrent executions. Besides the configurations (ConcSpec),     *)
(* attribute and node identities are global facts: once seen, never different.*)
EXTENDS ConcSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Threads
VARIABLES l, kinds, env, C, calls,
  ids,      \* attribute name -> id
  fresh,    \* ids of attributes created since the last quiet moment
  chans,    \* channels
  nodes,    \* node id -> <<attribute, value, parent>>
  slots,    \* program variables holding nodes
  memo,     \* <<thread, parent, request>> -> node
  known     \* threads that have used Caliper
tvars == <<l, kinds, env, C, calls, ids, fresh, chans, nodes, slots, memo, known>>
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* entries of a snapshot as recorded: <<1, attribute, value, attribute, value, ...>> or <<2, attribute, value>>
Dec(e) == IF e[1] = 1 THEN <<1>> \o [i \in 1..((Len(e) - 1) \div 2) |-> <<e[2*i], e[2*i+1]>>] ELSE <<2, <<e[2], e[3]>>>>
Entries(q) == {Dec(q[i]) : i \in 1..Len(q)}
NoEnv == [presets |-> Fn0, defscope |-> "thread"]
Reset == /\ kinds' = Fn0 /\ env' = NoEnv /\ C' = {Start(Threads)} /\ calls' = Fn0 /\ ids' = Fn0 /\ fresh' = {} /\ chans' = {}
         /\ nodes' = Fn0 /\ slots' = Fn0 /\ memo' = Fn0 /\ known' = {}
Init == /\ ak = Fn0 /\ bb = Fn0 /\ chbb = Fn0 /\ err = {} /\ active = <<>> /\ evs = <<>>
        /\ l = 1 /\ kinds = Fn0 /\ env = NoEnv /\ C = {Start(Threads)} /\ calls = Fn0 /\ ids = Fn0 /\ fresh = {} /\ chans = {}
        /\ nodes = Fn0 /\ slots = Fn0 /\ memo = Fn0 /\ known = {}
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
KeepIds == UNCHANGED <<ids, fresh>>
KeepNodes == UNCHANGED <<nodes, slots, memo>>
KeepSetup == UNCHANGED <<kinds, env, chans>>

NodeOps == {"child", "path", "copy"}
CallOf(ev) == [t |-> ev.t, op |-> ev.op, x |-> IF ev.x = <<>> THEN <<0>> ELSE ev.x,
               props |-> IF "props" \in DOMAIN ev THEN SetOf(ev.props) ELSE {}]

(* attributes *)
AttrIdOK(name, r) == r.id >= 0 => /\ r.same
                                  /\ name \in DOMAIN ids => ids[name] = r.id
                                  /\ name \notin DOMAIN ids => \A m \in DOMAIN ids : ids[m] # r.id
NewIds(name, r) == IF r.id >= 0 /\ name \notin DOMAIN ids
                   THEN ids' = UpdF(ids, name, r.id) /\ fresh' = fresh \cup {r.id} ELSE KeepIds

(* nodes: the request <<attribute, value>>, ... below a parent is spelt by the chain of the answer *)
Want(call) ==
  LET x == call.x
  IN CASE call.op = "child" -> <<<<x[3], x[4]>>>>
       [] call.op = "path" -> [i \in 1..(Len(x) - 3) |-> <<x[3], x[i+3]>>]
       [] call.op = "copy" -> [i \in 1..(Len(x) - 2) |-> LET n == nodes[slots[x[i+2]]] IN <<n[1], n[2]>>]
ParentOf(call) == IF call.x[2] = 0 THEN -1 ELSE slots[call.x[2]]
ChainOK(call, r) ==
  LET w == Want(call)  p == r.p
  IN /\ r.under /\ r.par = ParentOf(call)
     /\ Len(p) = Len(w) /\ r.id = p[1][1]
     /\ \A i \in 1..Len(p) : <<p[i][2], p[i][3]>> = w[Len(w) + 1 - i]
     /\ \A i \in 1..Len(p) : p[i][4] = IF i < Len(p) THEN p[i+1][1] ELSE r.par
     /\ \A i \in 1..Len(p) : p[i][1] \in DOMAIN nodes => nodes[p[i][1]] = <<p[i][2], p[i][3], p[i][4]>>
     /\ LET m == <<call.t, r.par, w>> IN m \in DOMAIN memo => memo[m] = r.id
NodeRet(call, r) ==
  /\ ChainOK(call, r)
  /\ nodes' = [i \in DOMAIN nodes \cup {r.p[j][1] : j \in 1..Len(r.p)} |->
                 IF i \in DOMAIN nodes THEN nodes[i] ELSE LET q == CHOOSE q \in SetOf(r.p) : q[1] = i IN <<q[2], q[3], q[4]>>]
  /\ slots' = UpdF(slots, call.x[1], r.id)
  /\ memo' = UpdF(memo, <<call.t, r.par, Want(call)>>, r.id)

(* results *)
Matches2(call, r, want) ==
  CASE want.k \in {"get", "xchg"} -> r.k = want.k /\ r.v = want.v
    [] want.k = "snap" -> r.k \in {"snap", "globals"} /\ Entries(r.v) = want.v /\ Len(r.v) = Cardinality(want.v) /\ r.n = 1
    [] want.k = "n" -> r.k = "n" /\ r.v = <<want.v>>
    [] want.k = "attr" -> r.k = "attr" /\ IF want.v = Fn0 THEN r.id = -1
                          ELSE r.id >= 0 /\ r.type = want.v.type /\ SetOf(r.props) = want.v.props /\ r.meta = want.v.meta
    [] want.k = "all" -> r.k = "all" /\ SetOf(r.v) = want.v /\ Len(r.v) = Cardinality(want.v)
    [] OTHER -> TRUE

TCall == /\ IsEv("call")
         /\ \E call \in {CallOf(Ev)} :
              /\ calls' = UpdF(calls, Ev.n, call)
              /\ C' = IF call.op \in NodeOps THEN C ELSE Called(kinds, env, C, Ev.n, call)
              /\ known' = known \cup {Ev.t}
              /\ chans' = IF call.op \in {"chan", "chanoff"} THEN chans \cup {call.x[1]} ELSE chans
         /\ UNCHANGED <<kinds, env>> /\ KeepIds /\ KeepNodes
TRet == /\ IsEv("ret")
        /\ \E call \in {calls[Ev.n]}, r \in {Ev.r} :
             IF call.op \in NodeOps THEN NodeRet(call, r) /\ UNCHANGED C /\ KeepIds
             ELSE /\ C' = Returned(C, Ev.n, LAMBDA w : Matches2(call, r, w)) /\ C' # {}
                  /\ r.k = "attr" => AttrIdOK(call.x[1], r)
                  /\ IF r.k = "attr" THEN NewIds(call.x[1], r) ELSE KeepIds
                  /\ KeepNodes
        /\ calls' = DelF(calls, Ev.n) /\ UNCHANGED <<kinds, env, chans, known>>
(* every channel hears of every new attribute once *)
TAttrEvt == /\ IsEv("attrevt")
            /\ SetOf(Ev.x) = {<<ch, i>> : ch \in chans, i \in fresh}
            /\ Len(Ev.x) = Cardinality(chans) * Cardinality(fresh)
            /\ fresh' = {} /\ UNCHANGED <<C, calls, ids, known>> /\ KeepNodes /\ KeepSetup

(* A signal handler ran at every instruction of a call: s are its distinct    *)
(* findings in order, <<0>> refused or <<1, context, value>>.                 *)
SigOK(c, call, sa, s, first) ==
  LET t == call.t
      after == Eff(kinds, env, c, call)[1]
      View(d) == <<Ctx(kinds, d, t), IF sa = 0 THEN 0 ELSE StoreGet(d.bb[At(kinds, t, sa)], kinds[sa], sa)>>
      Is(x, d) == Entries(x[2]) = View(d)[1] /\ Len(x[2]) = Cardinality(View(d)[1]) /\ x[3] = View(d)[2]
      n == Len(s)
  IN \* outside of the call the handler is always let in and sees all of it
     /\ n >= 1 /\ s[n][1] = 1 /\ Is(s[n], after)
     /\ ~first => s[1][1] = 1 /\ Is(s[1], c)
     \* inside, it is refused or sees the context before or after the call, never before again once after
     /\ \E m \in 0..n : /\ \A i \in 1..m : (IF s[i][1] = 0 THEN TRUE ELSE Is(s[i], c))
                        /\ \A i \in (m+1)..n : (IF s[i][1] = 0 THEN TRUE ELSE Is(s[i], after))
TSweep == /\ IsEv("sweep") /\ Ev.full = 0
          /\ \E call \in {CallOf(Ev)} : \E first \in {Ev.t \notin known} :
               /\ IF call.op \in NodeOps THEN /\ \A c \in C : SigOK(c, call, Ev.sa, Ev.s, first)
                                              /\ NodeRet(call, Ev.r) /\ UNCHANGED C /\ KeepIds
                  ELSE /\ C' = {e[1] : e \in {e \in {Eff(kinds, env, c, call) : c \in {c \in C : SigOK(c, call, Ev.sa, Ev.s, first)}} : Matches2(call, Ev.r, e[2])}}
                       /\ C' # {}
                       /\ Ev.r.k = "attr" => AttrIdOK(call.x[1], Ev.r)
                       /\ IF Ev.r.k = "attr" THEN NewIds(call.x[1], Ev.r) ELSE KeepIds
                       /\ KeepNodes
               /\ chans' = IF call.op \in {"chan", "chanoff"} THEN chans \cup {call.x[1]} ELSE chans
          /\ known' = known \cup {Ev.t} /\ UNCHANGED <<kinds, env, calls>>
(* all nodes that anyone got are still there, unchanged, below their parents *)
TTree == /\ IsEv("tree") /\ Ev.bad = 0
         /\ \E S \in {SetOf(Ev.x)} :
              /\ \A i \in DOMAIN nodes : <<i, nodes[i][1], nodes[i][2], nodes[i][3], 1>> \in S
              /\ Cardinality({x[1] : x \in S}) = Len(Ev.x)
         /\ UNCHANGED <<C, calls, known>> /\ KeepIds /\ KeepNodes /\ KeepSetup
TAttr == IsEv("attr") /\ kinds' = UpdF(kinds, Ev.a, Ev.k) /\ UNCHANGED <<env, C, calls, chans, known>> /\ KeepIds /\ KeepNodes
TEnv == /\ IsEv("env")
        /\ env' = [presets |-> [x \in {Ev.x.presets[i][1] : i \in 1..Len(Ev.x.presets)} |->
                                  LET i == CHOOSE i \in 1..Len(Ev.x.presets) : Ev.x.presets[i][1] = x IN SetOf(Ev.x.presets[i][2])],
                   defscope |-> Ev.x.defscope]
        /\ UNCHANGED <<kinds, C, calls, chans, known>> /\ KeepIds /\ KeepNodes
(* a thread ends; its number is used for a new one *)
TJoin == /\ IsEv("join") /\ \A n \in DOMAIN calls : calls[n].t # Ev.t
         /\ C' = {[c EXCEPT !.bb[Ev.t] = EmptyStore, !.err = @ \ {Ev.t}] : c \in C}
         /\ known' = known \ {Ev.t}
         /\ memo' = [m \in {m \in DOMAIN memo : m[1] # Ev.t} |-> memo[m]]
         /\ UNCHANGED <<kinds, env, calls, chans, nodes, slots>> /\ KeepIds
TScenario == IsEv("scenario") /\ Reset
TEnd == IsEv("end") /\ calls = Fn0 /\ UNCHANGED <<kinds, env, C, calls, chans, known>> /\ KeepIds /\ KeepNodes
TNext == (TCall \/ TRet \/ TAttrEvt \/ TSweep \/ TTree \/ TAttr \/ TEnv \/ TJoin \/ TScenario \/ TEnd) /\ UNCHANGED vars
TSpec == Init /\ [][TNext]_<<vars, tvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
