------------------------------ MODULE ProfileMC ------------------------------
(* Laws of region profiles over all small record collections, recursion included. *)
EXTENDS ProfileSpec, TLC
CONSTANTS MaxRecs
Regs == {<<"f", 1>>, <<"a", 1>>, <<"f", 2>>}
Paths == {<<>>} \cup [1..1 -> Regs] \cup [1..2 -> Regs] \cup {<<<<"f", 1>>, <<"a", 2>>, <<"f", 1>>>>}
Recs == {[p |-> p, m |-> m] : p \in Paths, m \in {<<>>, <<1>>, <<3>>}}
VARIABLE recs
Init == recs = <<>>
Next == Len(recs) < MaxRecs /\ \E r \in Recs : recs' = Append(recs, r)
Spec == Init /\ [][Next]_recs
RECURSIVE Over(_, _, _, _)
Over(S, rs, k, t) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Value(rs, k, t, x) + Over(S \ {x}, rs, k, t)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
AddsUp == \A t \in {"", "f", "a"} :
  /\ \A k \in {"fx", "nx"} : Over(Keys(recs, k, t), recs, k, t) = InType(recs, k, t)
  /\ InType(recs, "fx", t) = InType(recs, "nx", t) /\ InType(recs, "fi", t) = InType(recs, "ni", t)
  /\ InType(recs, "fx", t) <= InType(recs, "fi", t) /\ InType(recs, "fi", t) <= Total(recs)
  /\ \A n \in Keys(recs, "fx", t) : n \in Keys(recs, "fi", t) /\ Value(recs, "fx", t, n) <= Value(recs, "fi", t, n)
  /\ \A n \in Keys(recs, "fi", t) : Value(recs, "fi", t, n) <= Total(recs)
AllTypes ==
  /\ InType(recs, "fx", "") = InType(recs, "fi", "")
  /\ \A n \in Keys(recs, "ni", "") :
       Value(recs, "ni", "", n) = Over({x \in Keys(recs, "nx", "") : Prefix(n, x)}, recs, "nx", "")
  /\ InType(recs, "fx", "") + Sum(SelectSeq(With(recs), LAMBDA r : r.p = <<>>)) = Total(recs)
=============================================================================
