----------------------------- MODULE CaliStream -----------------------------
(* The meaning of a .cali stream, line by line.                             *)
(* A node is known by what it says, its content: the contents of its parent, *)
(* its attribute (itself a node) and its value; never by its id, which means  *)
(* something inside one stream only. Contents, values and ids are strings.   *)
EXTENDS Sequences, Naturals
BootIds == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"}
BootAttrs == {"8", "9", "10"}
NoTab == [i \in {} |-> 0]
Boot(i) == [c |-> "#" \o i, at |-> i \in BootAttrs, v |-> (CASE i = "8" -> "scali.attribute.name" [] i = "9" -> "scali.attribute.type" [] i = "10" -> "scali.attribute.prop" [] OTHER -> ""), g |-> FALSE, av |-> FALSE]
Defined(t, i) == i \in DOMAIN t \/ i \in BootIds
Node(t, i) == IF i \in DOMAIN t THEN t[i] ELSE Boot(i)
IsAttr(t, i) == Defined(t, i) /\ Node(t, i).at
Label(t, a) == "(" \o Node(t, a).c \o ")="

(* A node line defines a node if all it refers to is defined and its value can be read. *)
GoodNode(t, x) == IsAttr(t, x.attr) /\ (x.par = "" \/ Defined(t, x.par)) /\ x.v # "-"
NewNode(t, x) ==
  [c |-> (IF x.par = "" THEN "" ELSE Node(t, x.par).c) \o "/" \o Label(t, x.attr) \o x.v,
   at |-> x.attr = "8", v |-> x.v, g |-> x.g = 1, av |-> x.av = 1]
AddNode(t, x) == IF ~GoodNode(t, x) \/ x.id \in DOMAIN t THEN t
                 ELSE [i \in DOMAIN t \cup {x.id} |-> IF i = x.id THEN NewNode(t, x) ELSE t[i]]
(* A record: its entries that refer to defined entities. *)
RefEntry(t, i) == IF Node(t, i).at THEN "I" \o Label(t, i) \o Node(t, i).v ELSE "R" \o Node(t, i).c
RECURSIVE RefPart(_, _)
RefPart(t, q) == IF q = <<>> THEN <<>>
                 ELSE (IF Defined(t, q[1]) THEN <<RefEntry(t, q[1])>> ELSE <<>>) \o RefPart(t, Tail(q))
RECURSIVE ImmPart(_, _, _)
ImmPart(t, q, w) == IF q = <<>> THEN <<>>
                    ELSE (IF IsAttr(t, q[1]) THEN <<"I" \o Label(t, q[1]) \o w[1]>> ELSE <<>>) \o ImmPart(t, Tail(q), Tail(w))
Record(t, x) == RefPart(t, x.refs) \o ImmPart(t, x.at, x.vals)
(* Globals: references are collected; an as-value global attribute has one value, the last. *)
In(e, q) == \E i \in 1..Len(q) : q[i] = e
RECURSIVE AddRefs(_, _, _)
AddRefs(gl, t, q) == IF q = <<>> THEN gl
  ELSE AddRefs(IF ~Defined(t, q[1]) \/ In([r |-> TRUE, k |-> RefEntry(t, q[1]), v |-> ""], gl) THEN gl
               ELSE Append(gl, [r |-> TRUE, k |-> RefEntry(t, q[1]), v |-> ""]), t, Tail(q))
RECURSIVE AddImms(_, _, _, _)
AddImms(gl, t, q, w) == IF q = <<>> THEN gl
  ELSE LET n == Node(t, q[1]) k == "I" \o Label(t, q[1]) IN
       AddImms(IF IsAttr(t, q[1]) /\ n.g /\ n.av
               THEN IF \E i \in 1..Len(gl) : ~gl[i].r /\ gl[i].k = k
                    THEN [i \in 1..Len(gl) |-> IF ~gl[i].r /\ gl[i].k = k THEN [gl[i] EXCEPT !.v = w[1]] ELSE gl[i]]
                    ELSE Append(gl, [r |-> FALSE, k |-> k, v |-> w[1]])
               ELSE gl, t, Tail(q), Tail(w))
AddGlobals(gl, t, x) == AddImms(AddRefs(gl, t, x.refs), t, x.at, x.vals)
GlobalText(g) == g.k \o g.v

(* What a writer may write: nothing is used before it is defined, nothing is defined twice. *)
WellFormed(t, x) ==
  IF x.x = "node" THEN GoodNode(t, x) /\ ~(x.id \in DOMAIN t)
  ELSE /\ x.x \in {"ctx", "globals"} /\ x.eq = 1
       /\ \A i \in 1..Len(x.refs) : Defined(t, x.refs[i]) /\ ~IsAttr(t, x.refs[i])
       /\ \A i \in 1..Len(x.at) : IsAttr(t, x.at[i]) /\ x.vals[i] # "-"
=============================================================================
