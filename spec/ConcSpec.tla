------------------------------ MODULE ConcSpec ------------------------------
(* Concurrent use of the runtime. The context and the attribute table as one  *)
(* atomic object, and the set of all ways in which the calls seen so far can  *)
(* have taken effect (a configuration per way): a call takes effect at once,  *)
(* at some moment between its start and its return. A history is explainable  *)
(* iff the set stays non-empty.                                               *)
EXTENDS CaliperCore, TLC

\* c: [bb, err, names, pushes] with the calls in progress: todo (number -> call) and done (number -> result)
Fn0 == [x \in {} |-> 0]
UpdF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DelF(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* kinds: attribute -> kind record; T: threads
Start(T) == [bb |-> [t \in {0} \cup T |-> EmptyStore], err |-> {}, names |-> Fn0, pushes |-> Fn0, todo |-> Fn0, done |-> Fn0]
At(kinds, t, a) == IF kinds[a].proc THEN 0 ELSE t
Ctx(kinds, c, t) == Visible(c.bb[t], kinds) \cup Visible(c.bb[0], kinds)

(* Properties of a new attribute: presets replace what the program asks for;  *)
(* global attributes are process-wide and unaligned; the default scope fills  *)
(* in a missing one; metadata from 100 on marks aggregatable attributes.      *)
Scopes == {"thread", "process", "otherscope"}
EffProps(env, name, props, meta) ==
  LET p0 == IF name \in DOMAIN env.presets THEN env.presets[name] ELSE props
      p1 == IF "global" \in p0 THEN (p0 \ Scopes) \cup {"process", "unaligned"} ELSE p0
      p2 == IF p1 \cap Scopes = {} THEN p1 \cup {env.defscope} ELSE p1
  IN IF meta >= 100 THEN p2 \cup {"agg"} ELSE p2

\* effect of one call: <<configuration, result>>
Ok == [k |-> "none"]
Upd0(c, s, st) == [c EXCEPT !.bb[s] = st]
Eff(kinds, env, c, call) ==
  LET t == call.t  op == call.op  x == call.x
      a == x[1]  s == At(kinds, t, a)  st == c.bb[s]  k == kinds[a]
      name == x[1]
      new == [type |-> x[2], props |-> EffProps(env, name, call.props, x[4]), meta |-> IF x[4] >= 200 THEN x[4] - 100 ELSE x[4]]
  IN CASE op \in {"begin", "set", "cset", "end", "endv"} /\ t \in c.err -> <<c, Ok>>
       [] op = "begin" -> <<Upd0(c, s, StoreBegin(st, k, a, x[2])), Ok>>
       [] op \in {"set", "cset"} -> <<Upd0(c, s, StoreSet(st, k, a, x[2])), Ok>>
       [] op \in {"end", "endv"} ->
            IF StoreCanEnd(st, k, a) /\ (op = "endv" => StoreGet(st, k, a) = x[2])
            THEN <<Upd0(c, s, StoreEnd(st, k, a)), Ok>> ELSE <<[c EXCEPT !.err = @ \cup {t}], Ok>>
       [] op = "get" -> <<c, [k |-> "get", v |-> StoreGet(st, k, a)]>>
       [] op = "xchg" -> <<Upd0(c, s, StoreBegin(st, k, a, x[2])), [k |-> "xchg", v |-> StoreGet(st, k, a)]>>
       [] op \in {"snap", "pull"} -> <<c, [k |-> "snap", v |-> Ctx(kinds, c, t)]>>
       [] op = "push" -> <<[c EXCEPT !.pushes = UpdF(@, x[1], (IF x[1] \in DOMAIN @ THEN @[x[1]] ELSE 0) + 1)], [k |-> "snap", v |-> Ctx(kinds, c, t)]>>
       [] op = "count" -> <<c, [k |-> "n", v |-> IF x[1] \in DOMAIN c.pushes THEN c.pushes[x[1]] ELSE 0]>>
       [] op = "clearch" -> <<[c EXCEPT !.pushes = DelF(@, x[1])], Ok>>
       [] op = "mkattr" -> IF name \in DOMAIN c.names THEN <<c, [k |-> "attr", v |-> c.names[name]]>>
                           ELSE <<[c EXCEPT !.names = UpdF(@, name, new)], [k |-> "attr", v |-> new]>>
       [] op \in {"find", "findc", "byid"} -> <<c, [k |-> "attr", v |-> IF name \in DOMAIN c.names THEN c.names[name] ELSE Fn0]>>
       [] op = "all" -> <<c, [k |-> "all", v |-> DOMAIN c.names]>>
       [] OTHER -> <<c, Ok>>

(* every way in which calls in progress may have taken effect *)
Steps(kinds, env, c) == {[e[1] EXCEPT !.todo = DelF(@, n), !.done = UpdF(@, n, e[2])] : <<n, e>> \in {<<n, Eff(kinds, env, c, c.todo[n])>> : n \in DOMAIN c.todo}}
RECURSIVE Close(_, _, _, _)
Close(kinds, env, new, all) ==
  IF new = {} THEN all ELSE LET n == UNION {Steps(kinds, env, c) : c \in new} \ all IN Close(kinds, env, n, all \cup n)
Called(kinds, env, C, n, call) == LET N == {[c EXCEPT !.todo = UpdF(@, n, call)] : c \in C} IN Close(kinds, env, N, N)
\* the call returned a result with property P
Returned(C, n, P(_)) == {[c EXCEPT !.done = DelF(@, n)] : c \in {c \in C : n \in DOMAIN c.done /\ P(c.done[n])}}
=============================================================================
