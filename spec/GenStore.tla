------------------------------ MODULE GenStore ------------------------------
(* Generates behaviours of AccountStore, with the observations expected      *)
(* after every call, as JSON lines for the replay on the real store.         *)
EXTENDS AccountStore, Json

CONSTANTS
  Depth,     \* length of the behaviours
  Mode,      \* "all": one line per transition (breadth first); "sim": one line per random behaviour;
             \* "long": the same, observations mostly after promotions
  ObsGpa,    \* also emit expected answers of queries
  WithSnap   \* snapshots, loads and restarts

VARIABLE hist
gvars == <<vars, hist>>

Id(v) == v.s * 100 + v.w

(* expected answers, forced once per state *)
Rd == TLCEval([a \in Accts |-> TLCEval([l \in 1..3 |-> Read(a, l - 1)])])
Ids(R) == [a \in Accts |-> [l \in 1..3 |-> Id(R[a][l])]]
(* constant tables: content satisfies the query, query is covered *)
SatTab == [k \in Kinds \cup {"-"} |-> [o \in Progs |-> [i \in 1..Len(Queries) |->
              k # "-" /\ Alive(k) /\ Owner(k) = o /\ SatAll(k, Queries[i])]]]
CovTab == [g \in 0..Len(Extras) |-> [o \in Progs |-> [i \in 1..Len(Queries) |-> CoversIn(Cfgs[g], o, Queries[i])]]]
Gpas(R) == [o \in Progs |-> [i \in 1..Len(Queries) |->
            IF CovTab[grown][o][i] THEN [l \in 1..3 |-> {a \in Accts : SatTab[R[a][l].k][o][i]}] ELSE <<>>]]
ObsOf(R) == IF ObsGpa THEN [rd |-> Ids(R), g |-> Gpas(R)] ELSE [rd |-> Ids(R)]
Obs == CHOOSE x \in {ObsOf(R) : R \in {Rd}} : TRUE   \* binds R to a value, evaluated once

Ch(l) == {<<x[1], Id(x[2])>> : x \in l.ch}
Due == LET n == Len(hist) IN n > 0 /\ (n % 10 = 0 \/ (hist[n].op.t = "n" /\ hist[n].op.c > 0))
Rec(op) == IF Mode = "sim" \/ (Mode = "long" /\ Due) THEN [op |-> op, ret |-> last'.ret = {"true"}, ch |-> Ch(last'), pre |-> Obs]
                           ELSE [op |-> op, ret |-> last'.ret = {"true"}, ch |-> Ch(last')]
Log(op) == hist' = Append(hist, Rec(op))

U(a, s, w, k, c) == Update(a, s, w, k, c) /\ Log([t |-> "u", a |-> a, s |-> s, w |-> w, k |-> k, c |-> c])
N(s, p, c) == Notify(s, p, c) /\ Log([t |-> "n", s |-> s, p |-> p, c |-> c])
TS(o) == TakeSnapshot(o) /\ Log([t |-> "snap", o |-> o])
F == Grow /\ Log([t |-> "f", i |-> grown])
LS == LoadSnapshot /\ Log([t |-> "load"])
RS == Restart /\ Log([t |-> "restart"])

(* depends on the state, otherwise TLC evaluates it once, when it splits the actions *)
Pick(S) == IF Len(hist) >= 0 THEN {RandomElement(S)} ELSE {}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* highest slot with the level, 0 if none *)
Top(l) == Max0({s \in Slots : status[s].c >= l})

(* random parent, mostly the previous slot *)
PickParent(s) == IF RandomElement(1..4) = 1 THEN RandomElement(0..(s - 1)) ELSE s - 1

SimUpdate(cs) ==
  \E a \in Pick(Accts), s \in Pick(Slots), w \in Pick(Wvs), k \in Pick(Kinds), c \in Pick(cs) :
     LET k2 == IF sent[a][<<s, w>>] = "-" THEN k ELSE sent[a][<<s, w>>] IN U(a, s, w, k2, c)
(* update close to the tip *)
SimUpdateTip ==
  \E a \in Pick(Accts), d \in Pick(0..2), w \in Pick(Wvs), k \in Pick(Kinds) :
     LET s == IF Top(0) + 1 - d < 0 THEN 0 ELSE IF Top(0) + 1 - d > MaxSlot THEN MaxSlot ELSE Top(0) + 1 - d
         k2 == IF sent[a][<<s, w>>] = "-" THEN k ELSE sent[a][<<s, w>>] IN U(a, s, w, k2, 0)
SimNotify(l) ==
  \E s \in Pick(1..MaxSlot) : \E p \in {PickParent(s)} : N(s, p, l)
(* next slot of the level: the one after the last with the level, or a bit further *)
SimNotifyNext(l) ==
  \E d \in Pick(1..2) :
     LET s == IF Top(l) + d > MaxSlot THEN MaxSlot ELSE Top(l) + d IN
     \E p \in {IF status[s].p # -1 THEN status[s].p ELSE PickParent(s)} : N(s, p, l)

SimTake == WithSnap /\ \E o \in Pick(Progs) : TS(o)
SimGrow == 1 \in Pick(1..2) /\ F
SimLoad == WithSnap /\ LS
SimRestart == WithSnap /\ RS

(* top level disjunctions, TLC chooses one of the disjuncts at random *)
GNextAny ==
  \/ SimUpdate({0}) \/ SimUpdate({0, 1}) \/ SimUpdate({0, 1, 2})
  \/ SimNotify(0) \/ SimNotify(1) \/ SimNotifyNext(2)
  \/ SimTake \/ SimLoad \/ SimRestart \/ SimGrow
GNextChain ==
  \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdate({0}) \/ SimUpdate({0, 1, 2})
  \/ SimNotifyNext(0) \/ SimNotifyNext(1) \/ SimNotifyNext(2) \/ SimNotify(0)
  \/ SimTake \/ SimLoad \/ SimRestart \/ SimGrow

(* many notifications on forks: parents at random, all the levels *)
GNextFork ==
  \/ SimUpdate({0}) \/ SimUpdate({0}) \/ SimUpdateTip
  \/ SimNotify(0) \/ SimNotify(0) \/ SimNotify(1) \/ SimNotify(2) \/ SimNotifyNext(1) \/ SimNotifyNext(2)

(* updates of an account in order (by slot, write version), half of them in the newest slot or the next *)
LastSent(a) == {x \in Slots \X Wvs : sent[a][x] # "-"}
AfterSent(a, s, w) == \A x \in LastSent(a) : s > x[1] \/ (s = x[1] /\ w >= x[2])
SimUpdateOrd ==
  \E a \in Pick(Accts), d \in Pick(0..2), k \in Pick(Kinds), c \in Pick({0, 0, 0, 1, 2}), w \in Pick(Wvs), i \in Pick(1..2) :
     LET m == Max0({x[1] : x \in LastSent(a)})
         base == IF i = 1 THEN m ELSE IF Top(0) > m THEN Top(0) ELSE m
         s == IF base + d > MaxSlot THEN MaxSlot ELSE base + d
         k2 == IF sent[a][<<s, w>>] = "-" THEN k ELSE sent[a][<<s, w>>]
     IN AfterSent(a, s, w) /\ U(a, s, w, k2, c)
GNextOrd ==
  \/ SimUpdateOrd \/ SimUpdateOrd \/ SimUpdateOrd
  \/ SimNotifyNext(0) \/ SimNotify(0) \/ SimNotify(1) \/ SimNotifyNext(1) \/ SimNotifyNext(2)
  \/ SimTake \/ SimRestart

(* many slots and versions which are not confirmed or finalized for long *)
(* bound with \E, so that they are evaluated once *)
LongTip == LET t == Top(0) IN IF t > 0 /\ status[t].p = -1 THEN t ELSE t + 1
LongUpdate ==
  \E a \in Pick(Accts), k \in Pick(Kinds), d \in Pick(0..7), r \in Pick(Slots), t \in {LongTip} :
     \E s \in {IF d < 6 THEN t ELSE r % (t + 1)} : s <= MaxSlot /\
        \E k2 \in {IF sent[a][<<s, 0>>] = "-" THEN k ELSE sent[a][<<s, 0>>]} : U(a, s, 0, k2, 0)
LongNext == \E s \in {LongTip} : s <= MaxSlot /\
              \E x \in Pick(1..12) : \E p \in {IF x = 1 /\ s > 2 THEN s - 2 ELSE s - 1} : N(s, p, 0)
LongUp(l, n) == 1 \in Pick(1..n) /\ \E t \in {Top(0)}, m \in {Top(l)} : t > m /\
                  \E s \in Pick((m + 1)..t) : \E p \in {IF status[s].p = -1 THEN s - 1 ELSE status[s].p} : N(s, p, l)
GNextLong == LongUpdate \/ LongUpdate \/ LongNext \/ LongNext \/ LongUp(1, 15) \/ LongUp(2, 40)

(* many accounts in a slot *)
Rare(n) == 1 \in Pick(1..n)
GNextWide ==
  \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdateTip
  \/ (Rare(25) /\ SimNotifyNext(0)) \/ (Rare(25) /\ SimNotifyNext(1)) \/ (Rare(35) /\ SimNotifyNext(2))
  \/ WithSnap /\ Rare(12) /\ (SimTake \/ SimLoad \/ SimRestart)

NextAll ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels : U(a, s, w, k, c)
  \/ \E s \in Slots, p \in Slots, c \in Levels : N(s, p, c)
  \/ F
  \/ WithSnap /\ ((\E o \in Progs : TS(o)) \/ LS \/ RS)

GInit == Init /\ hist = <<>>
GNextAll == Len(hist) < Depth /\ NextAll

View == <<trk, procs, conf, fin, status, sent, grown, snap>>

(* breadth first: every transition is emitted, with the observations after it *)
EmitAll == hist # <<>> => PrintT("TRACE " \o ToJson([cfg |-> FilterCfg, extra |-> Extra, h |-> hist, obs |-> Obs]))
(* simulation: every finished behaviour is emitted *)
EmitEnd == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson([cfg |-> FilterCfg, extra |-> Extra, h |-> hist, obs |-> Obs]))
=============================================================================
