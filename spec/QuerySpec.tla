------------------------------ MODULE QuerySpec ------------------------------
(* What a CalQL query yields for a collection of records.
   A record is [p |-> nested path (outermost first), q |-> other context-tree entries grouped by attribute,
                i |-> immediate entries]; each entry is <<attribute, value, rounded value>>.
   Values are integers: numbers in units of 1/16, strings as their rank, booleans 0/16.  The third
   component (units of 1/100) is only compared for results that need not be multiples of 1/16.
   A query is [lets, wheres, groupby, aggr] (see LetApply, Holds, KeyOf, OpResults). *)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)         \* b > 0, towards zero
TRem(a, b) == a - b * TDiv(a, b)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
SetOf(s) == {s[j] : j \in 1..Len(s)}

\* ---- values of an attribute in a record
Of(es, a) == SelectSeq(es, LAMBDA e : e[1] = a)
Occ(r, a) == {e[2] : e \in {x \in SetOf(r.p) \cup SetOf(r.q) \cup SetOf(r.i) : x[1] = a}}
Has(r, a) == Occ(r, a) # {}
\* the value an operator sees: the innermost one
Val(r, a) == LET p == Of(r.p, a) q == Of(r.q, a) i == Of(r.i, a) IN
             IF p # <<>> THEN p[Len(p)][2] ELSE IF q # <<>> THEN q[Len(q)][2] ELSE i[1][2]

\* ---- conditions
Holds(r, c) ==
  CASE c.c = "none"   -> TRUE
    [] c.c = "exist"  -> Has(r, c.a)
    [] c.c = "nexist" -> ~Has(r, c.a)
    [] c.c = "eq"     -> c.v \in Occ(r, c.a)
    [] c.c = "neq"    -> c.v \notin Occ(r, c.a)
    [] c.c = "lt"     -> \E v \in Occ(r, c.a) : v < c.v
    [] c.c = "gt"     -> \E v \in Occ(r, c.a) : v > c.v
    [] c.c = "le"     -> \E v \in Occ(r, c.a) : v <= c.v
    [] c.c = "ge"     -> \E v \in Occ(r, c.a) : v >= c.v
Selected(r, wheres) == \A j \in 1..Len(wheres) : Holds(r, wheres[j])

\* ---- LET: adds <<target, value>> or nothing.  f.num / f.den is the scale or factor.
Exact(n, d) == IF d > 0 THEN n \div d ELSE (-n) \div (-d)          \* the driver's inputs divide evenly
LetValue(r, f, ty) ==
  LET a1 == IF Len(f.args) > 0 THEN f.args[1] ELSE "" IN
  CASE f.f = "ratio" -> IF Has(r, a1) /\ Has(r, f.args[2]) /\ Val(r, f.args[2]) # 0
                        THEN <<Exact(Val(r, a1) * 16 * f.num, Val(r, f.args[2]) * f.den)>> ELSE <<>>
    [] f.f = "scale" -> IF Has(r, a1) THEN <<Exact(Val(r, a1) * f.num, f.den)>> ELSE <<>>
    [] f.f = "truncate" -> IF ~Has(r, a1) THEN <<>>
                           ELSE LET v == Val(r, a1) - TRem(Val(r, a1), f.num) IN
                                <<IF ty[a1] = "u" THEN Abs(v) ELSE v>>
    [] f.f = "first" -> LET have == SelectSeq(f.args, LAMBDA a : Has(r, a)) IN
                        IF have = <<>> THEN <<>> ELSE <<Val(r, have[1])>>
    [] f.f = "sum" -> LET have == SelectSeq(f.args, LAMBDA a : Has(r, a)) IN
                      IF have = <<>> THEN <<>> ELSE <<SumSeq([j \in 1..Len(have) |-> Val(r, have[j])])>>
    [] f.f = "leaf" -> IF f.args = <<>> THEN (IF r.p = <<>> THEN <<>> ELSE <<r.p[Len(r.p)][2]>>)
                       ELSE IF Has(r, a1) THEN <<Val(r, a1)>> ELSE <<>>
RECURSIVE LetApply(_, _, _)
LetApply(r, lets, ty) ==
  IF lets = <<>> THEN r ELSE
  LET t == Head(lets)
      v == IF Holds(r, t.cond) THEN LetValue(r, t, ty) ELSE <<>>
  IN LetApply(IF v = <<>> THEN r ELSE [r EXCEPT !.i = Append(@, <<t.t, v[1], 0>>)], Tail(lets), ty)

\* ---- GROUP BY.  g.all: no list given; g.path: the region path; g.list: attribute names, meta[a]: metadata of a
IsKey(a, g, meta) == \E k \in SetOf(g.list) : k = a \/ k \in SetOf(meta[a])
KeyOf(r, g, meta) ==
  [p |-> SelectSeq(r.p, LAMBDA e : g.all \/ g.path \/ IsKey(e[1], g, meta)),
   q |-> SelectSeq(r.q, LAMBDA e : g.all \/ IsKey(e[1], g, meta)),
   i |-> {<<e[1], e[2]>> : e \in {x \in SetOf(r.i) : IsKey(x[1], g, meta)}}]
Above(k) == {[k EXCEPT !.p = SubSeq(k.p, 1, n)] : n \in 1..(Len(k.p) - 1)}

\* ---- operators
Inclusive == {"inclusive_sum", "inclusive_scale", "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max"}
Targets(o) == CASE o.f \in {"count", "scale_count"} -> {}
                [] o.f \in {"ratio", "inclusive_ratio"} -> {o.args[1], o.args[2]}
                [] OTHER -> {o.args[1]}
Vals(rs, a) == Flat([j \in 1..Len(rs) |-> LET m == Of(rs[j].i, a) IN [k \in 1..Len(m) |-> m[k][2]]])
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
CountOf(rs, a) == SumSeq([j \in 1..Len(rs) |-> LET m == Of(rs[j].i, a) IN IF m = <<>> THEN 16 ELSE m[1][2]])
Square(s) == SumSeq([j \in 1..Len(s) |-> s[j] * s[j]])
(* The results of an operator: <<attribute, "n", set of possible values>> exact, or
   <<attribute, "x", numerator, denominator>> for a value of numerator / denominator (in 1/16),
   <<attribute, "v", x100>> for a value given directly in 1/100.
   own: the records of the row, all: those of the row and of the rows below it, every: all selected records *)
OpResults(o, own, all, every, ty) ==
  LET rs == IF o.f \in Inclusive THEN all ELSE own
      a  == IF o.f \in {"count", "scale_count"} THEN "" ELSE o.args[1]
      vs == Vals(rs, a)
      sum == SumSeq(vs)
  IN
  CASE o.f = "count" -> IF own = <<>> THEN {} ELSE {<<"count", "n", {CountOf(own, "count")}>>}
    [] o.f = "scale_count" -> IF own = <<>> THEN {} ELSE
         {<<"scount#" \o o.text, "n", {16 * Len(own)}>>, <<"scount", "x", 16 * Len(own) * o.num, o.den>>}
    [] vs = <<>> /\ o.f \notin {"ratio", "inclusive_ratio"} -> {}
    [] o.f = "sum" -> {<<"sum#" \o a, "n", {sum}>>}
    [] o.f = "inclusive_sum" -> {<<"inclusive#" \o a, "n", {sum}>>}
    [] o.f = "scale" -> {<<"scale#" \o a, "x", sum * o.num, o.den>>}
    [] o.f = "inclusive_scale" -> {<<"iscale#" \o a, "x", sum * o.num, o.den>>}
    [] o.f = "min" -> {<<"min#" \o a, "n", {Min(SetOf(vs))}>>}
    [] o.f = "max" -> {<<"max#" \o a, "n", {Max(SetOf(vs))}>>}
    [] o.f = "inclusive_min" -> {<<"imin#" \o a, "n", {Min(SetOf(vs))}>>}
    [] o.f = "inclusive_max" -> {<<"imax#" \o a, "n", {Max(SetOf(vs))}>>}
    [] o.f = "any" -> {<<"any#" \o a, "n", SetOf(vs)>>}
    [] o.f = "avg" -> IF ty[a] = "d" THEN {<<"avg#" \o a, "x", sum, Len(vs)>>}
                      ELSE {<<"avg#" \o a, "n", {16 * TDiv(sum \div 16, Len(vs))}>>}
    [] o.f = "percent_total" -> LET t == SumSeq(Vals(every, a)) IN
                                IF t > 0 THEN {<<"percent_total#" \o a, "x", 1600 * sum, t>>} ELSE {}
    [] o.f = "inclusive_percent_total" -> LET t == SumSeq(Vals(every, a)) IN
                                IF t > 0 THEN {<<"ipercent_total#" \o a, "x", 1600 * sum, t>>} ELSE {}
    [] o.f \in {"ratio", "inclusive_ratio"} ->
         LET ws == Vals(rs, o.args[2]) d == SumSeq(ws) IN
         IF vs = <<>> \/ ws = <<>> THEN {}
         ELSE {<<(IF o.f = "ratio" THEN "ratio#" ELSE "iratio#") \o a \o "/" \o o.args[2], "x", 16 * sum * o.num, d * o.den>>}
    [] o.f = "variance" -> LET n == Len(vs) IN
         {<<"variance#" \o a, "v", (((Square(vs) * n - sum * sum) \div (n * n)) * 100) \div 256>>}

(* Rows: every key of a selected record, and every path above one whose records feed an inclusive operator. *)
Feeds(r, aggr) == \E j \in 1..Len(aggr) : aggr[j].f \in Inclusive /\ \E a \in Targets(aggr[j]) : Of(r.i, a) # <<>>
Keys(rs, g, meta, aggr) ==
  LET ks == [j \in 1..Len(rs) |-> KeyOf(rs[j], g, meta)] IN
  SetOf(ks) \cup UNION {IF Feeds(rs[j], aggr) THEN Above(ks[j]) ELSE {} : j \in 1..Len(rs)}
Expected(k, rs, g, meta, aggr, ty) ==
  LET own == SelectSeq(rs, LAMBDA r : KeyOf(r, g, meta) = k)
      all == SelectSeq(rs, LAMBDA r : KeyOf(r, g, meta) = k \/ k \in Above(KeyOf(r, g, meta)))
  IN UNION {OpResults(aggr[j], own, all, rs, ty) : j \in 1..Len(aggr)}

\* ---- does an observed entry <<name, n, x>> show a result?
Shows(e, w) ==
  /\ e[1] = w[1]
  /\ CASE w[2] = "n" -> e[2] \in w[3]
       [] w[2] = "x" -> \* x is 100 * num / (16 * den), rounded
            IF w[4] = 0 THEN e[3] = 2000000001
            ELSE LET d == Abs(w[4]) n == IF w[4] < 0 THEN -w[3] ELSE w[3] IN
                 Abs(e[3] - (TDiv(n * 25, 4) \div d)) <= 2
       [] w[2] = "v" -> Abs(e[3] - w[3]) <= 3
\* an observed row r is the row of key k with results ws
RowIs(r, k, ws) ==
  /\ r.p = k.p /\ r.q = k.q
  /\ Len(r.i) = Cardinality(k.i) + Cardinality(ws)
  /\ \A w \in k.i : \E e \in SetOf(r.i) : e[1] = w[1] /\ e[2] = w[2]
  /\ \A w \in ws : \E e \in SetOf(r.i) : Shows(e, w)
=============================================================================
