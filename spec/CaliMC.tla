------------------------------- MODULE CaliMC -------------------------------
(* Two streams, any of whose lines may be missing, are read in any interleaving into one database that  *)
(* numbers the nodes itself and keeps a map of ids per stream. What is reported must be what the lines   *)
(* of each stream alone mean (CaliStream), and the database must hold the union of the nodes, each once.  *)
EXTENDS CaliStream, TLC, FiniteSets
N(id, attr, par, v) == [x |-> "node", id |-> id, attr |-> attr, par |-> par, v |-> v, g |-> 0, av |-> 0]
C(refs, at, vals) == [x |-> "ctx", refs |-> refs, at |-> at, vals |-> vals, eq |-> 1]
Streams == <<
  << N("12", "8", "3", "sA"), N("13", "12", "", "sx"), N("14", "12", "13", "sy"), C(<<"14">>, <<>>, <<>>), C(<<"13">>, <<"12">>, <<"sz">>) >>,
  << N("13", "8", "3", "sA"), N("12", "8", "3", "sB"), N("14", "13", "", "sx"), N("16", "12", "14", "sy"), N("15", "13", "14", "sy"),
     C(<<"16", "15">>, <<"13">>, <<"sz">>) >> >>
VARIABLES pos, db, map, got,   \* implementation: lines consumed, nodes, id maps, records (as contents)
          tab, out, gone       \* specification; was the line after which we are lost?
vars == <<pos, db, map, got, tab, out, gone>>
Init == /\ pos = [k \in 1..2 |-> 0] /\ db = <<>> /\ map = [k \in 1..2 |-> NoTab] /\ got = [k \in 1..2 |-> <<>>]
        /\ tab = [k \in 1..2 |-> NoTab] /\ out = [k \in 1..2 |-> <<>>] /\ gone = [k \in 1..2 |-> 0]
\* the database
DbId(i) == ToString(11 + i)
Known(k, i) == i \in BootIds \/ i \in DOMAIN map[k]
Map(k, i) == IF i \in DOMAIN map[k] THEN map[k][i] ELSE i
Idx(i) == CHOOSE n \in 1..Len(db) : DbId(n) = i
RECURSIVE DbContent(_)
DbContent(i) == IF i = "" THEN "" ELSE IF i \in BootIds THEN "#" \o i
                ELSE LET n == db[Idx(i)] IN DbContent(n.par) \o "/(" \o DbContent(n.attr) \o ")=" \o n.v
DbAttr(i) == IF i \in BootIds THEN i \in BootAttrs ELSE db[Idx(i)].attr = "8"
Read(k, x) ==
  IF x.x = "node"
  THEN LET a == Map(k, x.attr) p == IF x.par = "" THEN "" ELSE Map(k, x.par) IN
       IF ~Known(k, x.attr) \/ ~DbAttr(a) \/ (x.par # "" /\ ~Known(k, x.par))
       THEN UNCHANGED <<db, map, got>>
       ELSE LET same == {n \in 1..Len(db) : db[n].attr = a /\ db[n].par = p /\ db[n].v = x.v}
                new == IF same = {} THEN Len(db) + 1 ELSE CHOOSE n \in same : TRUE
            IN /\ db' = IF same = {} THEN Append(db, [attr |-> a, par |-> p, v |-> x.v]) ELSE db
               /\ map' = [map EXCEPT ![k] = [i \in DOMAIN @ \cup {x.id} |-> IF i = x.id THEN DbId(new) ELSE @[i]]]
               /\ UNCHANGED got
  ELSE LET Refs == SelectSeq(x.refs, LAMBDA i : Known(k, i))
           Ats == SelectSeq([i \in 1..Len(x.at) |-> <<x.at[i], x.vals[i]>>], LAMBDA e : Known(k, e[1]) /\ DbAttr(Map(k, e[1])))
       IN /\ got' = [got EXCEPT ![k] = Append(@, [i \in 1..Len(Refs) |-> "R" \o DbContent(Map(k, Refs[i]))]
                        \o [i \in 1..Len(Ats) |-> "I(" \o DbContent(Map(k, Ats[i][1])) \o ")=" \o Ats[i][2]])]
          /\ UNCHANGED <<db, map>>
Line(k) == /\ pos[k] < Len(Streams[k]) /\ pos' = [pos EXCEPT ![k] = @ + 1]
           /\ \/ LET x == Streams[k][pos[k] + 1] IN
                 /\ Read(k, x)
                 /\ IF x.x = "node" THEN tab' = [tab EXCEPT ![k] = AddNode(@, x)] /\ UNCHANGED out
                    ELSE out' = [out EXCEPT ![k] = Append(@, Record(tab[k], x))] /\ UNCHANGED tab
                 /\ UNCHANGED gone
              \/ gone' = [gone EXCEPT ![k] = @ + 1] /\ UNCHANGED <<db, map, got, tab, out>>
Next == \E k \in 1..2 : Line(k)
Spec == Init /\ [][Next]_vars
Same == got = out
DbContents == {DbContent(DbId(n)) : n \in 1..Len(db)}
Once == Cardinality(DbContents) = Len(db)
Union == DbContents = UNION {{tab[k][i].c : i \in DOMAIN tab[k]} : k \in 1..2}
Intact == gone = [k \in 1..2 |-> 0] => \A k \in 1..2 : pos[k] = Len(Streams[k]) => \A i \in 1..Len(got[k]) : got[k][i] # <<>>
=============================================================================
