------------------------------- MODULE QueryMC -------------------------------
(* Design of distributed aggregation, checked against QuerySpec: records reach any of several aggregators in any
   order, partial results are merged pairwise in any order (while records still arrive); what remains in the end
   shows exactly the rows and results QuerySpec defines for all records together.  A row's partial state keeps the
   values of its own records and, for the inclusive operators, those below it; merging adds a partial row to the
   row of the same key only, because the rows above it are partial rows of their own. *)
EXTENDS QuerySpec, TLC
CONSTANTS Parts, MaxRecs
Fn(s) == [j \in 1..Len(s) |-> <<"f", s[j], 0>>]
Paths == {<<>>, <<1>>, <<1, 2>>, <<2>>}
Imms == {<<>>, <<<<"x", 16, 0>>>>, <<<<"x", 48, 0>>, <<"y", 32, 0>>>>, <<<<"y", 16, 0>>>>}
Recs == {[p |-> Fn(p), q |-> <<>>, i |-> i] : p \in Paths, i \in Imms}
g == [all |-> FALSE, path |-> TRUE, list |-> <<>>]
op(f, a) == [f |-> f, args |-> a, num |-> 1, den |-> 1, text |-> ""]
Aggr == <<op("count", <<>>), op("sum", <<"x">>), op("inclusive_sum", <<"x">>), op("min", <<"x">>), op("inclusive_max", <<"x">>),
          op("avg", <<"x">>), op("percent_total", <<"x">>), op("inclusive_percent_total", <<"x">>),
          op("ratio", <<"x", "y">>), op("inclusive_ratio", <<"x", "y">>), op("variance", <<"x">>)>>
Meta == [x |-> <<>>, y |-> <<>>, f |-> <<>>]
Ty == [x |-> "d", y |-> "d"]
VARIABLES in, part, alive
vars == <<in, part, alive>>
Empty == [c |-> 0, n |-> 0, s |-> 0, q |-> 0, mn |-> {}, y |-> 0, ny |-> 0, is |-> 0, in |-> 0, imx |-> {}, iy |-> 0, iny |-> 0]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Empty
xs(r) == Vals(<<r>>, "x")
ys(r) == Vals(<<r>>, "y")
Own(st, r) == [st EXCEPT !.c = @ + 1, !.n = @ + Len(xs(r)), !.s = @ + SumSeq(xs(r)), !.q = @ + Square(xs(r)), !.mn = @ \cup SetOf(xs(r)),
                         !.y = @ + SumSeq(ys(r)), !.ny = @ + Len(ys(r))]
Inc(st, r) == [st EXCEPT !.is = @ + SumSeq(xs(r)), !.in = @ + Len(xs(r)), !.imx = @ \cup SetOf(xs(r)), !.iy = @ + SumSeq(ys(r)), !.iny = @ + Len(ys(r))]
Add(m, r) ==
  LET k == KeyOf(r, g, Meta)
      up == IF Feeds(r, Aggr) THEN Above(k) ELSE {}
  IN [j \in DOMAIN m \cup {k} \cup up |->
        IF j = k THEN Inc(Own(Get(m, j), r), r) ELSE IF j \in up THEN Inc(Get(m, j), r) ELSE m[j]]
Bound(S, f(_)) == IF S = {} THEN {} ELSE {f(S)}
Both(a, b) == [c |-> a.c + b.c, n |-> a.n + b.n, s |-> a.s + b.s, q |-> a.q + b.q, mn |-> Bound(a.mn \cup b.mn, Min), y |-> a.y + b.y,
               ny |-> a.ny + b.ny, is |-> a.is + b.is, in |-> a.in + b.in, imx |-> Bound(a.imx \cup b.imx, Max), iy |-> a.iy + b.iy, iny |-> a.iny + b.iny]
Merge(m, o) == [k \in DOMAIN m \cup DOMAIN o |-> Both(Get(m, k), Get(o, k))]
Init == in = <<>> /\ part = [p \in Parts |-> <<>>] /\ alive = Parts
Deal(p, r) == p \in alive /\ Len(in) < MaxRecs /\ in' = Append(in, r) /\ part' = [part EXCEPT ![p] = Add(@, r)] /\ UNCHANGED alive
Exchange(p, o) == {p, o} \subseteq alive /\ p # o
  /\ part' = [part EXCEPT ![p] = Merge(@, part[o]), ![o] = <<>>] /\ alive' = alive \ {o} /\ UNCHANGED in
Next == \E p \in Parts : (\E r \in Recs : Deal(p, r)) \/ \E o \in Parts : Exchange(p, o)
Spec == Init /\ [][Next]_vars
RECURSIVE TotalOf(_, _)
TotalOf(m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN m[k].s + TotalOf(m, S \ {k})
Total(m) == TotalOf(m, DOMAIN m)
Shown(st, m) ==
  LET t == Total(m) IN
  (IF st.c > 0 THEN {<<"count", "n", {16 * st.c}>>} ELSE {})
  \cup (IF st.n > 0 THEN {<<"sum#x", "n", {st.s}>>, <<"min#x", "n", {Min(st.mn)}>>, <<"avg#x", "x", st.s, st.n>>,
                          <<"variance#x", "v", (((st.q * st.n - st.s * st.s) \div (st.n * st.n)) * 100) \div 256>>,
                          <<"percent_total#x", "x", 1600 * st.s, t>>} ELSE {})
  \cup (IF st.in > 0 THEN {<<"inclusive#x", "n", {st.is}>>, <<"imax#x", "n", {Max(st.imx)}>>,
                           <<"ipercent_total#x", "x", 1600 * st.is, t>>} ELSE {})
  \cup (IF st.n > 0 /\ st.ny > 0 THEN {<<"ratio#x/y", "x", 16 * st.s, st.y>>} ELSE {})
  \cup (IF st.in > 0 /\ st.iny > 0 THEN {<<"iratio#x/y", "x", 16 * st.is, st.iy>>} ELSE {})
\* the row of one aggregator left shows what QuerySpec defines
Combined ==
  Cardinality(alive) = 1 =>
  LET m == part[CHOOSE p \in alive : TRUE] IN
  /\ DOMAIN m = Keys(in, g, Meta, Aggr)
  /\ \A k \in DOMAIN m : Shown(m[k], m) = Expected(k, in, g, Meta, Aggr, Ty)
\* laws of the definition itself
Laws ==
  LET ks == Keys(in, g, Meta, Aggr)
      rev == [j \in 1..Len(in) |-> in[Len(in) + 1 - j]]
      W(k, rs, f) == {w \in Expected(k, rs, g, Meta, Aggr, Ty) : w[1] = f}
      N(k, f) == LET w == W(k, in, f) IN IF w = {} THEN 0 ELSE CHOOSE v \in (CHOOSE x \in w : TRUE)[3] : TRUE
      All(S, f) == LET RECURSIVE go(_)
                       go(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN N(x, f) + go(X \ {x})
                   IN go(S)
  IN /\ Keys(rev, g, Meta, Aggr) = ks
     /\ \A k \in ks : Expected(k, rev, g, Meta, Aggr, Ty) = Expected(k, in, g, Meta, Aggr, Ty)
     /\ All(ks, "count") = 16 * Len(in)                                  \* every record counts in one row
     /\ All(ks, "sum#x") = SumSeq(Vals(in, "x"))
     /\ \A k \in ks : N(k, "inclusive#x") = N(k, "sum#x") + All({j \in ks : k \in Above(j)}, "sum#x")
     /\ \A k \in ks : \A u \in Above(k) \cap ks : N(u, "inclusive#x") >= N(k, "inclusive#x")
=============================================================================
