----------------------------- MODULE AllocSpec -----------------------------
(***************************************************************************)
(* Memory region tracking (C20): the alloc and allocstats services.  A     *)
(* channel knows the regions announced and not yet released; announcing at *)
(* the start address of a known region replaces it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Emp == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

(* Channel state: reg: start -> [lab, uid, size, elem, x]; uids: identities given so far;  *)
(* hwm: maximum of the active amount since the last snapshot (-1: unknown)                 *)
FreshCh == [reg |-> Emp, uids |-> {}, hwm |-> 0]
SizeOf(r, a) == r[a].size
Active(s) == SumF([a \in DOMAIN s.reg |-> s.reg[a].size], DOMAIN s.reg)
Holders(s, addr) == {a \in DOMAIN s.reg : a <= addr /\ addr < a + s.reg[a].size}
IndexIn(r, start, addr) == (addr - start) \div r.elem

Announced(s, addr, r) ==
  LET n == [s EXCEPT !.reg = Upd(s.reg, addr, r), !.uids = IF r.uid = 0 THEN @ ELSE @ \cup {r.uid}]
  IN [n EXCEPT !.hwm = IF @ = -1 THEN -1 ELSE Max(@, Active(n))]
Released(s, addr) == [s EXCEPT !.reg = Del(s.reg, addr)]
AfterSnapshot(s) == [s EXCEPT !.hwm = Active(s)]

(* allocstats: per region path the number, sum, maximum of the announced sizes and the high-water mark *)
StatsAdd(tab, path, size) ==
  LET o == IF path \in DOMAIN tab THEN tab[path] ELSE [cur |-> 0, n |-> 0, sum |-> 0, max |-> 0, hwm |-> 0]
  IN Upd(tab, path, [cur |-> o.cur + size, n |-> o.n + 1, sum |-> o.sum + size, max |-> Max(o.max, size),
                     hwm |-> Max(o.hwm, o.cur + size)])
StatsSub(tab, path, size) == Upd(tab, path, [tab[path] EXCEPT !.cur = @ - size])
=============================================================================
