----------------------------- MODULE TraceSpec -----------------------------
(***************************************************************************)
(* Tracing (C09): trace buffers of the threads on one channel.             *)
(* A buffer's history is the sequence of snapshots processed on its thread *)
(* since the data was last cleared; FlushOK relates it to what a flush     *)
(* delivers.  The chunked implementation model below refines it.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* upper bound of the bytes a snapshot of n entries takes
EntryMax == 30
Worst(n) == 10 + n * EntryMax

(***************************************************************************)
(* What a flush may deliver.  h: the numbers of the snapshots (consecutive *)
(* numbers from, ..., from + n - 1) with their sizes; runs: the delivered  *)
(* numbers of this buffer as maximal runs <<first, length>>.               *)
(***************************************************************************)
RunSet(runs) == {runs[i] : i \in 1..Len(runs)}
RECURSIVE SumW(_, _, _)
SumW(w, i, j) == IF i > j THEN 0 ELSE w[i] + SumW(w, i + 1, j)

\* the runs tile from..from+n-1: each exactly once, in order within each run
Tiles(runs, from, n) ==
  LET R == RunSet(runs) IN
  /\ Cardinality(R) = Len(runs)
  /\ \A r \in R : r[2] > 0 /\ r[1] >= from /\ r[1] + r[2] <= from + n
  /\ \A r \in R : r[1] = from \/ \E q \in R : q[1] + q[2] = r[1]
  /\ \A r \in R : r[1] + r[2] = from + n \/ \E q \in R : q[1] = r[1] + r[2]
  /\ \A r, q \in R : r # q => (r[1] + r[2] <= q[1] \/ q[1] + q[2] <= r[1])
  /\ (n = 0) = (R = {})

\* a buffer chunk is given up only when the next snapshot may not fit; cum[i] is the worst size of snapshots 1..i
BlocksFull(runs, from, n, cum, size) ==
  \A r \in RunSet(runs) :
    LET a == r[1] - from    \* number of snapshots before the run
        b == a + r[2]       \* number up to its end
    IN b < n => cum[b + 2] - cum[a + 1] >= size   \* cum has a leading 0
GrowOK(runs, from, n, cum, size) == Tiles(runs, from, n) /\ BlocksFull(runs, from, n, cum, size)

\* stop policy: the first k, and k < n only if the next one may not fit
StopOK(runs, from, n, k, cum, size) ==
  /\ IF k = 0 THEN runs = <<>> ELSE runs = <<<<from, k>>>>
  /\ k <= n
  /\ k < n => cum[k + 2] >= size

-----------------------------------------------------------------------------
(* Implementation model: lists of chunks of limited capacity                *)
CONSTANTS Threads, Cap, MaxLen
VARIABLES pol,     \* policy
          chunks,  \* thread -> sequence of chunks, newest first; a chunk is a sequence of <<number, weight>>
          stopped, \* thread -> BOOLEAN
          hist,    \* thread -> sequence of <<number, weight>> processed since the last clear
          cnt,     \* thread -> number of the last snapshot
          out      \* output: sequence of delivered numbers per thread, of the last flush or write
tvars == <<pol, chunks, stopped, hist, cnt, out>>

RECURSIVE SumC(_)
SumC(c) == IF c = <<>> THEN 0 ELSE Head(c)[2] + SumC(Tail(c))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Deliver(t) == [i \in 1..Len(Cat(chunks[t])) |-> Cat(chunks[t])[i][1]]

TSInit == /\ pol \in {"grow", "stop", "flush"}
          /\ chunks = [t \in Threads |-> << <<>> >>] /\ stopped = [t \in Threads |-> FALSE]
          /\ hist = [t \in Threads |-> <<>>] /\ cnt = [t \in Threads |-> 0]
          /\ out = [t \in Threads |-> <<>>]
\* clearing and flushing as the service does it
ClearAll == [t \in Threads |-> << <<>> >>]
Push(t, w) ==
  LET r == <<cnt[t] + 1, w>>
      fits == SumC(chunks[t][1]) + w <= Cap
  IN
  /\ cnt[t] < MaxLen
  /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
  /\ IF stopped[t] THEN UNCHANGED <<chunks, stopped, out>> /\ hist' = [hist EXCEPT ![t] = Append(@, r)]
     ELSE IF fits THEN
       /\ chunks' = [chunks EXCEPT ![t] = <<Append(@[1], r)>> \o Tail(@)]
       /\ hist' = [hist EXCEPT ![t] = Append(@, r)] /\ UNCHANGED <<stopped, out>>
     ELSE CASE pol = "grow" -> /\ chunks' = [chunks EXCEPT ![t] = << <<r>> >> \o @]
                               /\ hist' = [hist EXCEPT ![t] = Append(@, r)] /\ UNCHANGED <<stopped, out>>
            [] pol = "stop" -> /\ stopped' = [stopped EXCEPT ![t] = TRUE]
                               /\ hist' = [hist EXCEPT ![t] = Append(@, r)] /\ UNCHANGED <<chunks, out>>
            [] pol = "flush" -> /\ out' = [x \in Threads |-> Deliver(x)]
                                /\ chunks' = [ClearAll EXCEPT ![t] = << <<r>> >>]
                                /\ hist' = [x \in Threads |-> IF x = t THEN <<r>> ELSE <<>>]
                                /\ UNCHANGED stopped
  /\ UNCHANGED pol
Flush == out' = [t \in Threads |-> Deliver(t)] /\ UNCHANGED <<pol, chunks, stopped, hist, cnt>>
Clear == /\ chunks' = ClearAll /\ stopped' = [t \in Threads |-> FALSE] /\ hist' = [t \in Threads |-> <<>>]
         /\ UNCHANGED <<pol, cnt, out>>
TSNext == Flush \/ Clear \/ \E t \in Threads, w \in 1..2 : Push(t, w)
TSSpec == TSInit /\ [][TSNext]_tvars

\* runs of a delivered sequence
RECURSIVE Runs(_)
Runs(d) == IF d = <<>> THEN <<>>
           ELSE LET R == Runs(SubSeq(d, 1, Len(d) - 1))
                    x == d[Len(d)]
                IN IF R # <<>> /\ R[Len(R)][1] + R[Len(R)][2] = x THEN [R EXCEPT ![Len(R)] = <<@[1], @[2] + 1>>]
                   ELSE Append(R, <<x, 1>>)
CumOf(t) == [i \in 1..(Len(hist[t]) + 1) |-> SumC(SubSeq(hist[t], 1, i - 1))]
From(t) == cnt[t] - Len(hist[t]) + 1
\* C09 on the model: what a flush now would deliver is right (sizes are exact here: a snapshot fits if the sum is at most Cap)
FlushRight == \A t \in Threads :
  IF pol = "stop" THEN StopOK(Runs(Deliver(t)), From(t), Len(hist[t]), Len(Deliver(t)), CumOf(t), Cap + 1)
  ELSE GrowOK(Runs(Deliver(t)), From(t), Len(hist[t]), CumOf(t), Cap + 1)
StopsForGood == [][\A t \in Threads : pol = "stop" /\ stopped[t] /\ hist'[t] # <<>> => chunks'[t] = chunks[t]]_tvars
FlushKeeps == [][(out' # out /\ pol # "flush") => UNCHANGED <<chunks, stopped, hist>>]_tvars
\* the automatic flush hands over everything recorded so far
NothingLost == [][\A t \in Threads : pol = "flush" /\ cnt'[t] > cnt[t] /\ Len(hist'[t]) <= Len(hist[t]) =>
                    \A x \in Threads : out'[x] = [i \in 1..Len(hist[x]) |-> hist[x][i][1]]]_tvars
=============================================================================
