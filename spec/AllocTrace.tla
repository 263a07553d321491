----------------------------- MODULE AllocTrace -----------------------------
(* Recorded executions with the alloc and allocstats services. *)
EXTENDS AllocSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  cfg,   \* channel -> [alloc, res, trk, act, hwm, stats, shwm]
  act,   \* active channels in order
  st,    \* channel -> channel state
  tab,   \* channel -> allocstats table
  own,   \* channel -> start -> path that the region is accounted to (allocstats)
  ma     \* memory address attributes in creation order
vars == <<l, cfg, act, st, tab, own, ma>>
Init == l = 1 /\ cfg = Emp /\ act = <<>> /\ st = Emp /\ tab = Emp /\ own = Emp /\ ma = <<>>
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Ev == Trace[l]
In(x, q) == \E i \in 1..Len(q) : q[i] = x
MaxResolved == 4
Resolved == SubSeq(ma, 1, IF Len(ma) < MaxResolved THEN Len(ma) ELSE MaxResolved)
Exact == Ev.p = 0       \* amounts are not checked while threads run concurrently

(* One snapshot record r (as logged) against channel state s: the states after it ({}: not explained). *)
(* q: queried <<k, address>> pairs; r.res: what was resolved, <<k, label, identity, index, extra>>     *)
RECURSIVE Bind(_, _, _, _)
\* explains the queries one by one; returns the set of possible states
Bind(c, s, q, r) ==
  IF q = <<>> THEN {s}
  ELSE LET k == q[1][1] addr == q[1][2]
           mine == SelectSeq(r.res, LAMBDA x : x[1] = k)
           H == IF c.res /\ In(k, Resolved) THEN Holders(s, addr) ELSE {}
       IN IF H = {} THEN IF mine = <<>> THEN Bind(c, s, Tail(q), r) ELSE {}
          ELSE IF Len(mine) # 1 THEN {}
          ELSE UNION {LET g == s.reg[h] m == mine[1] IN
                      IF /\ m[2] = g.lab /\ m[4] = IndexIn(g, h, addr) /\ m[5] = g.x
                         /\ IF g.uid = 0 THEN m[3] \notin s.uids ELSE m[3] = g.uid
                      THEN Bind(c, [s EXCEPT !.reg[h].uid = m[3], !.uids = @ \cup {m[3]}], Tail(q), r) ELSE {}
                      : h \in H}
Amounts(c, s, r) ==
  /\ IF c.act THEN r.active # -1 /\ (Exact => r.active = Active(s)) ELSE r.active = -1
  /\ IF c.hwm \/ c.shwm THEN r.hwm # -1 /\ (Exact /\ s.hwm # -1 => r.hwm = s.hwm) ELSE r.hwm = -1
NoEvent(r) == r.al = -1 /\ r.fr = -1 /\ r.size = 0 /\ r.uid = 0 /\ r.addr = -1
SnapsOf(ch) == SelectSeq(Ev.snap, LAMBDA r : r.ch = ch)
OnlyFrom(S) == \A i \in 1..Len(Ev.snap) : Ev.snap[i].ch \in S
(* the channels whose state changes: independent of each other *)
RECURSIVE Product(_, _, _)
Product(f(_), q, S) == IF q = <<>> THEN S
                       ELSE Product(f, Tail(q), UNION {{Upd(s, q[1], x) : x \in f(q[1])} : s \in S})
All(f(_)) == /\ OnlyFrom({act[i] : i \in 1..Len(act)})
             /\ \E s \in Product(f, act, {st}) : st' = s

Region(u) == [lab |-> Ev.lab, uid |-> u, size |-> Ev.size, elem |-> Ev.elem, x |-> Ev.x]
TrackCh(ch) ==
  LET c == cfg[ch] s == st[ch] q == SnapsOf(ch) IN
  IF ~c.alloc \/ ~c.trk
  THEN IF q = <<>> THEN (IF c.alloc \/ (c.stats /\ Ev.path # "") THEN {Announced(s, Ev.addr, Region(0))}
                         ELSE {Released(s, Ev.addr)}) ELSE {}   \* allocstats counts the regions announced inside a path
  ELSE IF Len(q) # 1 THEN {}
  ELSE LET r == q[1] IN
    IF ~(r.al = Ev.lab /\ r.fr = -1 /\ r.size = Ev.size /\ r.uid \notin s.uids /\ r.addr = Ev.addr /\ r.x = Ev.x /\ r.res = <<>>)
    THEN {}
    ELSE LET n == Announced(s, Ev.addr, Region(r.uid)) IN
         \* the event is recorded before or after it is accounted for
         (IF Amounts(c, s, r) THEN {Announced(AfterSnapshot(s), Ev.addr, Region(r.uid))} ELSE {})
         \cup (IF Amounts(c, n, r) THEN {AfterSnapshot(n)} ELSE {})
TrackStats(ch) == /\ cfg[ch].stats /\ In(ch, act)
UntrackCh(ch) ==
  LET c == cfg[ch] s == st[ch] q == SnapsOf(ch) IN
  IF Ev.addr \notin DOMAIN s.reg THEN IF q = <<>> THEN {s} ELSE {}
  ELSE IF ~c.alloc \/ ~c.trk THEN IF q = <<>> THEN {Released(s, Ev.addr)} ELSE {}
  ELSE IF Len(q) # 1 THEN {}
  ELSE LET r == q[1] g == s.reg[Ev.addr] n == Released(s, Ev.addr) IN
    IF ~(/\ r.al = -1 /\ r.fr = g.lab /\ r.size = -g.size /\ r.addr = Ev.addr /\ r.x = g.x /\ r.res = <<>>
         /\ IF g.uid = 0 THEN r.uid \notin s.uids ELSE r.uid = g.uid)
    THEN {}
    ELSE LET u(z) == [z EXCEPT !.uids = @ \cup {r.uid}] IN
         (IF Amounts(c, s, r) THEN {u(Released(AfterSnapshot(s), Ev.addr))} ELSE {})
         \cup (IF Amounts(c, n, r) THEN {u(AfterSnapshot(n))} ELSE {})

TScenario == IsEv("scenario") /\ cfg' = Emp /\ act' = <<>> /\ st' = Emp /\ tab' = Emp /\ own' = Emp /\ ma' = <<>>
Same == UNCHANGED <<cfg, act, st, tab, own, ma>>
TSkip == (IsEv("end") \/ IsEv("reg")) /\ Same
TMA == IsEv("ma") /\ ma' = Append(ma, Ev.k) /\ UNCHANGED <<cfg, act, st, tab, own>>
B(x) == x = 1
TChan == /\ IsEv("chan")
         /\ cfg' = Upd(cfg, Ev.ch, [alloc |-> B(Ev.alloc), res |-> B(Ev.res), trk |-> B(Ev.trk), act |-> B(Ev.act),
                                    hwm |-> B(Ev.hwm), stats |-> B(Ev.stats), shwm |-> B(Ev.shwm)])
         /\ st' = Upd(st, Ev.ch, FreshCh) /\ tab' = Upd(tab, Ev.ch, Emp) /\ own' = Upd(own, Ev.ch, Emp) /\ UNCHANGED <<act, ma>>
TOn == IsEv("con") /\ act' = (IF In(Ev.ch, act) THEN act ELSE Append(act, Ev.ch)) /\ UNCHANGED <<cfg, st, tab, own, ma>>
TOff == IsEv("coff") /\ act' = SelectSeq(act, LAMBDA x : x # Ev.ch) /\ UNCHANGED <<cfg, st, tab, own, ma>>
Drop(ch) == IF Ev.addr \in DOMAIN own[ch] THEN StatsSub(tab[ch], own[ch][Ev.addr], st[ch].reg[Ev.addr].size) ELSE tab[ch]
Stat(ch) == In(ch, act) /\ cfg[ch].stats
TTrack == /\ IsEv("track") /\ All(TrackCh)
          /\ tab' = [ch \in DOMAIN tab |-> IF Stat(ch) THEN IF Ev.path # "" THEN StatsAdd(Drop(ch), Ev.path, Ev.size) ELSE Drop(ch) ELSE tab[ch]]
          /\ own' = [ch \in DOMAIN own |-> IF Stat(ch) THEN IF Ev.path # "" THEN Upd(own[ch], Ev.addr, Ev.path) ELSE Del(own[ch], Ev.addr) ELSE own[ch]]
          /\ UNCHANGED <<cfg, act, ma>>
TUntrack == /\ IsEv("untrack") /\ All(UntrackCh)
            /\ tab' = [ch \in DOMAIN tab |-> IF Stat(ch) THEN Drop(ch) ELSE tab[ch]]
            /\ own' = [ch \in DOMAIN own |-> IF Stat(ch) THEN Del(own[ch], Ev.addr) ELSE own[ch]]
            /\ UNCHANGED <<cfg, act, ma>>
TPush == /\ IsEv("push") /\ Len(Ev.snap) = 1 /\ Ev.snap[1].ch = Ev.ch /\ NoEvent(Ev.snap[1])
         /\ Amounts(cfg[Ev.ch], st[Ev.ch], Ev.snap[1])
         /\ \A i \in 1..Len(Ev.snap[1].res) : \E j \in 1..Len(Ev.q) : Ev.q[j][1] = Ev.snap[1].res[i][1]
         /\ \E s \in Bind(cfg[Ev.ch], st[Ev.ch], Ev.q, Ev.snap[1]) : st' = Upd(st, Ev.ch, AfterSnapshot(s))
         /\ UNCHANGED <<cfg, act, tab, own, ma>>
TParEnd == IsEv("parend") /\ st' = [ch \in DOMAIN st |-> [st[ch] EXCEPT !.hwm = -1]] /\ UNCHANGED <<cfg, act, tab, own, ma>>
\* rows: <<path, tally, count, max, avg>>
TFlush == /\ IsEv("sflush")
          /\ Len(Ev.rows) = Cardinality(DOMAIN tab[Ev.ch])
          /\ \A i \in 1..Len(Ev.rows) : LET x == Ev.rows[i] IN
               /\ x[1] \in DOMAIN tab[Ev.ch]
               /\ LET y == tab[Ev.ch][x[1]] IN
                  x[2] = y.hwm /\ x[3] = y.n /\ x[4] = y.max /\ x[5] = y.sum \div y.n
          /\ \A i, j \in 1..Len(Ev.rows) : i # j => Ev.rows[i][1] # Ev.rows[j][1]
          /\ Same
Next == TScenario \/ TSkip \/ TMA \/ TChan \/ TOn \/ TOff \/ TTrack \/ TUntrack \/ TPush \/ TParEnd \/ TFlush
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN d = Len(Trace) \/ ~PrintT("REJECTED " \o ToString(d))
=============================================================================
