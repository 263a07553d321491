----------------------------- MODULE FormatSpec -----------------------------
(* What each report format shows of a list of records. An attribute is        *)
(* [t |-> type, nested, hidden, alias]; a record [c |-> chains, v |-> values] *)
(* with entries <<attribute, text, rank, stream text, rank of all values of the *)
(* attribute>>: every chain is a path, outermost entry first; ranks order the  *)
(* values of an attribute. Text formats show texts as they are, expand those of *)
(* as-value entries as they are written in streams.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Blank == "                                                                                                                                                                                                        "
RECURSIVE Sp(_)
Sp(n) == IF n <= 0 THEN "" ELSE IF n <= 200 THEN SubSeq(Blank, 1, n) ELSE Blank \o Sp(n - 200)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
PadR(s, w) == s \o (IF Len(s) > w THEN " " ELSE Sp(1 + w - Len(s)))
PadL(s, w) == Sp(w - Len(s)) \o s \o " "
Clamp(s, w) == IF Len(s) <= w THEN s ELSE IF w < 4 THEN SubSeq(s, 1, w)
               ELSE SubSeq(s, 1, w \div 2 - 1) \o "~~" \o SubSeq(s, Len(s) - (w \div 2 - 1) + 1, Len(s))
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = " " THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
SetOf(q) == {q[i] : i \in 1..Len(q)}
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* the orders of the columns S whose padded titles spell the line from position i on
RECURSIVE ColOrders(_, _, _, _)
ColOrders(line, i, S, head) ==
  IF S = {} THEN {<<>>}
  ELSE UNION {{<<a>> \o o : o \in ColOrders(line, i + Len(head[a]), S \ {a}, head)} :
              a \in {a \in S : LET n == Len(head[a])  have == IF i > Len(line) THEN "" ELSE SubSeq(line, i, Min(Len(line), i + n - 1))
                               IN have \o Sp(n - Len(have)) = head[a]}}
ColW(base, max) == Max(4, IF max > 0 THEN Min(base, max) ELSE base)
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x

(* values of an attribute in a record, outermost first *)
EntriesOf(r, a) ==
  LET Is(e) == e[1] = a
      cs == SelectSeq(Map(r.c, LAMBDA c : SelectSeq(c, Is)), LAMBDA c : c # <<>>)
  IN IF cs # <<>> THEN cs[1] ELSE SelectSeq(r.v, Is)
Text(r, a) == Join(Map(EntriesOf(r, a), LAMBDA e : e[2]), "/")
Rank(r, a) == LET e == EntriesOf(r, a) IN IF e = <<>> \/ Text(r, a) = "" THEN -1 ELSE e[1][5]
Inner(r, a) == LET e == EntriesOf(r, a) IN IF e = <<>> THEN <<>> ELSE <<e[Len(e)][2]>>
AttrsIn(recs) == UNION {{e[1] : e \in SetOf(Flat(r.c) \o r.v)} : r \in SetOf(recs)}
Visible(A, a) == a \in DOMAIN A /\ ~A[a].hidden

(* q: [fmt, list (select list), sel (seq of names), as (name -> title), order (seq of <<name, ascending>>), width, ...] *)
As(q, a) == IF a \in DOMAIN q.as THEN q.as[a] ELSE a
Title(A, q, a) == IF a \in DOMAIN q.as THEN q.as[a] ELSE IF a \in DOMAIN A /\ A[a].alias # "" THEN A[a].alias ELSE a
Shown(A, q, a) == IF q.list THEN InSeq(a, q.sel) ELSE Visible(A, a)
Right(A, a, types) == a \in DOMAIN A /\ A[a].t \in types
Numbers == {"int", "uint", "double"}

(* sorting: the criteria are applied one after the other, each one keeps the order of equal records *)
\* ix: indices of the records
SortBy(recs, ix, a, asc) ==
  LET K == TLCEval([i \in 1..Len(ix) |-> Rank(recs[ix[i]], a)])
      Lt(i, j) == IF K[i] # K[j] THEN (IF asc THEN K[i] < K[j] ELSE K[i] > K[j]) ELSE i < j
      p == SortSeq([i \in 1..Len(ix) |-> i], Lt)
  IN [i \in 1..Len(ix) |-> ix[p[i]]]
RECURSIVE Sorted(_, _, _)
Sorted(recs, ix, order) == IF order = <<>> THEN ix ELSE Sorted(recs, TLCEval(SortBy(recs, ix, order[1][1], order[1][2])), Tail(order))

(* ---- table: one line per record that has something to show *)
TableTitle(A, q, a) == IF q.list THEN As(q, a) ELSE Title(A, q, a)
IsTable(A, q, recs, lines) ==
  LET C == TLCEval(IF q.list THEN SetOf(q.sel) ELSE {a \in AttrsIn(recs) : Visible(A, a)})
      T == TLCEval([i \in 1..Len(recs) |-> [a \in C |-> Text(recs[i], a)]])
      W == TLCEval([a \in C |-> ColW(MaxOf({Len(T[i][a]) : i \in 1..Len(recs)} \cup {Len(TableTitle(A, q, a))}, 0), q.width)])
      head == TLCEval([a \in C |-> PadR(Clamp(TableTitle(A, q, a), W[a]), W[a])])
      Cell(i, a) == LET s == Clamp(T[i][a], W[a]) IN IF Right(A, a, Numbers) THEN PadL(s, W[a]) ELSE PadR(s, W[a])
      HasAny(i) == (\E a \in C : T[i][a] # "") \/ (\E j \in 1..Len(q.order) : Text(recs[i], q.order[j][1]) # "")
      rows == TLCEval(Sorted(recs, SelectSeq([i \in 1..Len(recs) |-> i], HasAny), q.order))
  IN /\ Len(lines) = Len(rows) + 1
     /\ \E cols \in (IF q.list THEN {q.sel} ELSE ColOrders(lines[1], 1, C, head)) :
          /\ lines[1] = RTrim(Cat(Map(cols, LAMBDA a : head[a])))
          /\ \A k \in 1..Len(rows) : lines[k + 1] = RTrim(Cat(Map(cols, LAMBDA a : Cell(rows[k], a))))

(* ---- tree: every record below its path; the lines are a walk over the tree *)
IsPath(A, q, a) == IF q.paths # <<>> THEN InSeq(a, q.paths) ELSE A[a].nested
PathOf(A, q, r) == Map(SelectSeq(r.v \o Flat(Rev(r.c)), LAMBDA e : IsPath(A, q, e[1])), LAMBDA e : <<e[1], e[2]>>)
Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
IsTree(A, q, recs, lines) ==
  LET all == TLCEval([i \in 1..Len(recs) |-> PathOf(A, q, recs[i])])
      R == TLCEval({i \in 1..Len(recs) : all[i] # <<>>})     \* the records that have a path
      N == TLCEval(UNION {Prefixes(all[i]) : i \in R})
      C == TLCEval(IF q.list THEN SetOf(q.sel) \cap DOMAIN A
                   ELSE {a \in UNION {{e[1] : e \in SetOf(Flat(recs[i].c) \o recs[i].v)} : i \in R} : Visible(A, a) /\ ~IsPath(A, q, a)})
      T == TLCEval([i \in R |-> [a \in C |-> IF IsPath(A, q, a) \/ Inner(recs[i], a) = <<>> THEN "" ELSE Inner(recs[i], a)[1]]])
      W == TLCEval([a \in C |-> ColW(MaxOf({Len(T[i][a]) : i \in R} \cup {Len(Title(A, q, a))}, 0), q.width)])
      head == TLCEval([a \in C |-> PadR(Clamp(Title(A, q, a), W[a]), W[a])])
      pw == TLCEval(ColW(MaxOf({2 * (Len(p) - 1) + Len(p[Len(p)][2]) : p \in N}, 0), q.width))
      Key(i) == IF q.order = <<>> \/ IsPath(A, q, q.order[1][1]) THEN -1 ELSE LET e == EntriesOf(recs[i], q.order[1][1]) IN IF e = <<>> THEN -1 ELSE e[Len(e)][3]
      key == TLCEval([i \in R |-> Key(i)])
      asc == q.order = <<>> \/ q.order[1][2]
      Before(a, b) == IF asc THEN a < b ELSE a > b
      Best(p) == LET S == {key[i] : i \in {i \in R : Len(all[i]) >= Len(p) /\ SubSeq(all[i], 1, Len(p)) = p}} \ {-1}
                 IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : ~Before(y, x)
      best == TLCEval([p \in N |-> Best(p)])
      Label(p) == LET l == 2 * (Len(p) - 1) IN PadR(Sp(Min(l, pw - 2)) \o (IF l >= pw THEN ".." ELSE Clamp(p[Len(p)][2], pw - l)), pw)
      Item(p) == LET l == 2 * (Len(p) - 1) IN PadR(Sp(Min(l, pw - 2)) \o (IF l >= pw THEN ".." ELSE " |-"), pw)
      Line(i, cols) == Cat(Map(cols, LAMBDA a : LET s == Clamp(T[i][a], W[a]) IN IF Right(A, a, Numbers \cup {"addr"}) THEN PadL(s, W[a]) ELSE PadR(s, W[a])))
      At(p) == {i \in R : all[i] = p}
      \* the lines of the records S of a node from n on: in the order given, or by their keys
      RECURSIVE Items(_, _, _, _, _)
      Items(n, S, pre, last, cells) ==
        IF S = {} THEN TRUE
        ELSE IF q.order = <<>> THEN LET i == CHOOSE i \in S : \A j \in S : i <= j
                                    IN lines[n] = RTrim(pre \o cells[i]) /\ Items(n + 1, S \ {i}, pre, last, cells)
        ELSE LET fit == {i \in S : lines[n] = RTrim(pre \o cells[i])}
                 none == {i \in fit : key[i] = -1}
                 some == {i \in fit \ none : last = -1 \/ ~Before(key[i], last)}
             IN \/ none # {} /\ Items(n + 1, S \ {CHOOSE i \in none : TRUE}, pre, last, cells)
                \/ some # {} /\ LET i == CHOOSE i \in some : \A j \in some : ~Before(key[j], key[i])
                                 IN Items(n + 1, S \ {i}, pre, key[i], cells)
      \* the lines of the node are there from n on; how many
      Count(p) == LET c == Cardinality(At(p)) IN IF c <= 1 THEN 1 ELSE c + 1
      HasBlock(p, n, cells) ==
        LET S == At(p)
        IN /\ n + Count(p) - 1 <= Len(lines)
           /\ IF Cardinality(S) = 0 THEN lines[n] = RTrim(Label(p))
              ELSE IF Cardinality(S) = 1 THEN lines[n] = RTrim(Label(p) \o cells[CHOOSE i \in S : TRUE])
              ELSE lines[n] = RTrim(Label(p)) /\ Items(n + 1, S, Item(p), -1, cells)
      \* the walk over the tree: <<lines consumed, current path, paths visited>>
      Next(s, cells) ==
        LET parents == Prefixes(s[2]) \cup {<<>>}
            cand == {p \in N \ s[3] : SubSeq(p, 1, Len(p) - 1) \in parents}
            First(p) == best[p] = -1 \/ \A o \in cand : Len(o) = Len(p) /\ SubSeq(o, 1, Len(o) - 1) = SubSeq(p, 1, Len(p) - 1) /\ best[o] # -1 => ~Before(best[o], best[p])
            \* the walk leaves a node when everything below it was visited
            Left(p) == \A k \in Len(p)..Len(s[2]) : ~\E o \in N \ s[3] : Len(o) = k + 1 /\ SubSeq(o, 1, k) = SubSeq(s[2], 1, k)
        IN {<<s[1] + Count(p), p, s[3] \cup {p}>> : p \in {p \in cand : Left(p) /\ First(p) /\ HasBlock(p, s[1] + 1, cells)}}
      RECURSIVE Go(_, _, _)
      Go(n, S, cells) == IF S = {} THEN FALSE ELSE IF n = 0 THEN \E s \in S : s[1] = Len(lines) ELSE Go(n - 1, TLCEval(UNION {Next(s, cells) : s \in S}), cells)
      path == PadR(Clamp("Path", pw), pw)
      l1 == lines[1] \o Sp(Len(path) - Len(lines[1]))
  IN /\ Len(lines) >= 1 /\ SubSeq(l1, 1, Len(path)) = path
     /\ \E cols \in (IF q.list THEN {SelectSeq(q.sel, LAMBDA a : a \in DOMAIN A)} ELSE ColOrders(l1, Len(path) + 1, C, head)) :
          /\ lines[1] = RTrim(path \o Cat(Map(cols, LAMBDA a : head[a])))
          /\ Go(Cardinality(N), {<<1, <<>>, {}>>}, TLCEval([i \in R |-> Line(i, cols)]))

(* ---- json: a row of <<key, kind, text>> per record that has something to show; kinds: s string, d number, b boolean *)
Key(A, q, a) == IF A[a].nested /\ ~q.sep THEN "path" ELSE As(q, a)
Kind(A, a, txt) == IF A[a].t = "bool" THEN "b" ELSE IF A[a].t \in Numbers /\ txt \notin {"inf", "-inf", "nan", "-nan"} THEN "d" ELSE "s"
JsonRow(A, q, r) ==
  LET es == SelectSeq(Flat(Rev(r.c)), LAMBDA e : Shown(A, q, e[1]))
      vs == SelectSeq(r.v, LAMBDA e : Shown(A, q, e[1]))
      keys == {Key(A, q, e[1]) : e \in SetOf(es)}
  IN {<<k, "s", Join(Map(SelectSeq(es, LAMBDA e : Key(A, q, e[1]) = k), LAMBDA e : e[2]), "/")>> : k \in keys}
     \cup {<<As(q, e[1]), IF q.quote THEN "s" ELSE Kind(A, e[1], e[2]), e[2]>> : e \in SetOf(vs)}
IsJson(A, q, recs, rows) ==
  LET want == SelectSeq(Map(recs, LAMBDA r : JsonRow(A, q, r)), LAMBDA x : x # {})
  IN /\ Len(rows) = Len(want)
     /\ \A i \in 1..Len(rows) : SetOf(rows[i]) = want[i] /\ Len(rows[i]) = Cardinality(want[i])

(* ---- json-split: a row of <<column, kind, text>>; kind n: a path of nodes, all of this column *)
SplitRow(A, q, r) ==
  LET es == SelectSeq(Flat(Rev(r.c)), LAMBDA e : Shown(A, q, e[1]))
      vs == SelectSeq(r.v, LAMBDA e : Shown(A, q, e[1]))
      keys == {Key(A, q, e[1]) : e \in SetOf(es)}
      K(e) == IF Kind(A, e[1], e[2]) = "d" THEN "d" ELSE "s"
  IN {<<k, "n", Join(Map(SelectSeq(es, LAMBDA e : Key(A, q, e[1]) = k), LAMBDA e : e[2]), "/")>> : k \in keys}
     \cup {<<As(q, e[1]), K(e), e[2]>> : e \in SetOf(vs)}
IsSplit(A, q, recs, rows) ==
  /\ Len(rows) = Len(recs)
  /\ \A i \in 1..Len(rows) : SetOf(rows[i]) = SplitRow(A, q, recs[i]) /\ Len(rows[i]) = Cardinality(SetOf(rows[i]))

(* ---- expand: name=value/value,... in any order *)
Items(A, q, r) ==
  LET names(c) == {e[1] : e \in {e \in SetOf(c) : IF q.list THEN InSeq(e[1], q.sel) ELSE Visible(A, e[1])}}
  IN {As(q, a) \o "=" \o Join(Map(EntriesOf(r, a), LAMBDA e : e[4]), "/") : a \in names(Flat(r.c) \o r.v)}
RECURSIVE Spells(_, _)
Spells(line, S) == \* the line is the items of S, separated by commas
  IF Cardinality(S) = 1 THEN line \in S
  ELSE \E x \in S : Len(line) > Len(x) /\ SubSeq(line, 1, Len(x) + 1) = x \o "," /\ Spells(SubSeq(line, Len(x) + 2, Len(line)), S \ {x})
IsExpand(A, q, recs, lines) ==
  LET want == SelectSeq(Map(recs, LAMBDA r : Items(A, q, r)), LAMBDA x : x # {})
  IN Len(lines) = Len(want) /\ \A i \in 1..Len(lines) : Spells(lines[i], want[i])

(* ---- user format: fields <<prefix, attribute, width>> *)
IsUser(A, q, recs, lines) ==
  LET F(r, f) == f[1] \o (LET s == IF f[2] = "" THEN "" ELSE Text(r, f[2]) IN s \o Sp(f[3] - Len(s)))
  IN lines = (IF q.title = "" THEN <<>> ELSE <<RTrim(q.title)>>) \o Map(recs, LAMBDA r : RTrim(Cat(Map(q.fields, LAMBDA f : F(r, f)))))

(* ---- .cali: all there is but hidden entries, record by record; chains without entries vanish *)
NoHide(A, q) == SelectSeq(q, LAMBDA e : ~A[e[1]].hidden)
Two(q) == Map(q, LAMBDA e : <<e[1], e[2]>>)
CaliRow(A, r) == [c |-> {Two(NoHide(A, c)) : c \in SetOf(r.c)} \ {<<>>}, v |-> SetOf(Two(NoHide(A, r.v)))]
IsCali(A, recs, rows) ==
  LET want == SelectSeq(Map(recs, LAMBDA r : CaliRow(A, r)), LAMBDA x : x.c # {} \/ x.v # {})
      got == SelectSeq(Map(rows, LAMBDA x : [c |-> SetOf(x[1]), v |-> SetOf(x[2])]), LAMBDA x : x.c # {} \/ x.v # {})
  IN got = want /\ \A i \in 1..Len(rows) : Len(rows[i][1]) = Cardinality(SetOf(rows[i][1])) /\ Len(rows[i][2]) = Cardinality(SetOf(rows[i][2]))
=============================================================================
