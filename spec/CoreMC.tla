------------------------------- MODULE CoreMC -------------------------------
(* Exhaustive configuration of CaliperCore with the properties C01, C02, C03 (sequential part) and C06, *)
(* and generator of one test program per transition.                                                    *)
EXTENDS CaliperCore, TLC, Json, IOUtils, SequencesExt

CONSTANTS Threads, Attrs, Values, Channels, MaxDepth, Kinds

VARIABLES prog,   \* history: program that led here (hidden by the VIEW)
          opened  \* independent bookkeeping: per store, the list of begun and not yet ended <<a, v>>

mcvars == <<vars, opened>>
View == <<ak, bb, chbb, err, active, opened>>

KindOf(n) == [val |-> n \in {2, 3}, proc |-> n \in {4, 6}, una |-> n \in {5, 6}, hid |-> n = 3, nest |-> n = 1, skip |-> n = 7, str |-> TRUE]

KindsCtx == <<1, 5, 4>>
KindsGen == <<1, 2, 5, 4>>
KindsErr == <<1, 4>>
KindsCh == <<1, 2>>

MCInit ==
  /\ ak = [a \in Attrs |-> KindOf(Kinds[a])]
  /\ bb = [s \in {0} \cup Threads |-> EmptyStore]
  /\ chbb = EmptyFn /\ err = {} /\ active = <<>> /\ evs = <<>>
  /\ prog = <<>> /\ opened = [s \in {0} \cup Threads |-> <<>>]

Rec(x) == prog' = Append(prog, x)
Depth(s) == Len(bb[s].reg) + Len(bb[s].una) + Cardinality(DOMAIN bb[s].imm)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
RemoveLast(q, a) == DropInnermost(q, a)
UnO == UNCHANGED opened

MCBegin(t, a, v) ==
  /\ Depth(StoreOf(t, a)) < MaxDepth
  /\ Begin(t, a, v) /\ Rec(<<"begin", t, a, v>>)
  /\ opened' = IF t \in err THEN opened
               ELSE [opened EXCEPT ![StoreOf(t, a)] = Append(IF ak[a].val THEN RemoveLast(@, a) ELSE @, <<a, v>>)]
MCSet(t, a, v) ==
  /\ Get(t, a) # 0 \/ Depth(StoreOf(t, a)) < MaxDepth
  /\ Set(t, a, v) /\ Rec(<<"set", t, a, v>>)
  /\ opened' = IF t \in err THEN opened ELSE [opened EXCEPT ![StoreOf(t, a)] = Append(RemoveLast(@, a), <<a, v>>)]
MCEnd(t, a, v) ==
  /\ End(t, a, v) /\ Rec(IF v = 0 THEN <<"end", t, a>> ELSE <<"endchk", t, a, v>>)
  /\ opened' = IF t \in err \/ t \in err' THEN opened ELSE [opened EXCEPT ![StoreOf(t, a)] = RemoveLast(@, a)]

MCNext ==
  \/ \E t \in Threads, a \in Attrs, v \in Values : MCBegin(t, a, v) \/ MCSet(t, a, v) \/ MCEnd(t, a, v)
  \/ \E t \in Threads, a \in Attrs : MCEnd(t, a, 0)
  \/ \E ch \in Channels :
       \/ CreateChannel(ch) /\ Rec(<<"cnew", ch>>) /\ UnO
       \/ Activate(ch) /\ Rec(<<"con", ch>>) /\ UnO
       \/ Deactivate(ch) /\ Rec(<<"coff", ch>>) /\ UnO
       \/ DeleteChannel(ch) /\ Rec(<<"cdel", ch>>) /\ UnO

MCSpec == MCInit /\ [][MCNext]_<<mcvars, prog>>

(*------------------------------ properties ------------------------------*)
Stores == {0} \cup Threads
Items(s) == bb[s].reg \o bb[s].una \o SetToSeq({<<a, bb[s].imm[a]>> : a \in DOMAIN bb[s].imm})

(* C01: the context is exactly the begun-and-not-ended values, and get is the innermost of them *)
ContextIsOpened ==
  \A s \in Stores : \A a \in Attrs : \A v \in Values :
     Count(Items(s), <<a, v>>) = Count(opened[s], <<a, v>>)
GetIsInnermost ==
  \A t \in Threads, a \in Attrs :
     LET o == opened[StoreOf(t, a)] IN Get(t, a) = (IF Innermost(o, a) = 0 THEN 0 ELSE o[Innermost(o, a)][2])
HiddenInvisible == \A t \in Threads : \A e \in Context(t) : e[1] = 2 => ~ak[e[2][1]].hid
SlotsRespectKind ==
  \A s \in Stores :
     /\ \A i \in 1..Len(bb[s].reg) : LET k == ak[bb[s].reg[i][1]] IN ~k.val /\ ~k.una /\ (k.proc <=> s = 0)
     /\ \A i \in 1..Len(bb[s].una) : LET k == ak[bb[s].una[i][1]] IN ~k.val /\ k.una /\ (k.proc <=> s = 0)
     /\ \A a \in DOMAIN bb[s].imm : ak[a].val /\ (ak[a].proc <=> s = 0)

(* C02: a call of a stopped thread changes nothing and notifies nobody; an error changes no context *)
ErrorContained ==
  [][ /\ (err' # err => bb' = bb /\ chbb' = chbb /\ evs' = <<>>)
      /\ err \subseteq err' ]_mcvars
StoppedThreadsInert ==
  [][\A t \in err : (\A u \in Threads \ {t} : bb'[u] = bb[u]) /\ bb'[0] = bb[0] /\ active' = active /\ DOMAIN chbb' = DOMAIN chbb
        => bb'[t] = bb[t]]_mcvars
(* C03: one call changes at most one store *)
OneStorePerCall == [][Cardinality({s \in Stores : bb'[s] # bb[s]}) <= 1]_mcvars
(* C06: exactly the active channels are notified, each the same, and notification depends on nothing else *)
\* (the notifications are not part of the VIEW: these are checked on every transition)
NotifiedAreActive ==
  [][\A i \in 1..Len(evs') : \E j \in 1..Len(active) : active[j] = evs'[i][1]]_mcvars
EachChannelSame ==
  [][\A c, d \in Channels :
    LET f(x) == SelectSeq(evs', LAMBDA e : e[1] = x)
        on(x) == \E i \in 1..Len(active) : active[i] = x
    IN on(c) /\ on(d) => [i \in 1..Len(f(c)) |-> Tail(f(c)[i])] = [i \in 1..Len(f(d)) |-> Tail(f(d)[i])]]_mcvars
ActiveExist == \A i \in 1..Len(active) : active[i] \in DOMAIN chbb /\ \A j \in 1..Len(active) : active[i] = active[j] => i = j
ChannelsKeepContext == [][(active' # active \/ DOMAIN chbb' # DOMAIN chbb) => bb' = bb /\ err' = err]_mcvars

(*---------------------- one program per transition ----------------------*)
\* evaluated for every generated transition; the history gives the (breadth-first) path to its source
PrintProg == IF IOEnv.VF_PRINT = "1" THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
===========================================================================
