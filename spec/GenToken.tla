------------------------------ MODULE GenToken ------------------------------
(* Generates behaviours of TokenStore, with the observations expected after *)
(* every call, as JSON lines for the replay on the real storage.            *)
EXTENDS TokenStore, Json

CONSTANTS
  Depth,
  Mode,      \* "all": one line per transition (breadth first); "sim": one line per random behaviour;
             \* "conc": calls only, every account keeps its type
  ObsGpa,
  WithSnap

VARIABLE hist

Id(v) == v.s * 100 + v.w
IdOf(x) == IF x.v = NoV THEN -101 ELSE IF x.f THEN 100000 + Id(x.v) ELSE Id(x.v)

(* the state at the levels, computed once per state *)
Rd == TLCEval(LET ch == TLCEval(ChainOf(here, parent, confS))
                  up == TLCEval({s \in Slots : here[s] /\ s > confS})
              IN [a \in Accts |->
                    LET n0 == NewestIn(pend, up, a)
                        n1 == NewestIn(pend, ch, a)
                        f == [v |-> fin[a], f |-> TRUE]
                        x1 == IF n1 # NoV THEN [v |-> n1, f |-> FALSE] ELSE f
                        x0 == IF n0 # NoV THEN [v |-> n0, f |-> FALSE] ELSE x1
                        Show(x) == IF x.v # NoV /\ Exists(Kind(a, x.v)) THEN x ELSE [v |-> NoV, f |-> FALSE]
                    IN <<Show(x0), Show(x1), Show(f)>>])
SatTab == [k \in Kinds \cup {"-"} |-> [o \in Progs |-> [i \in 1..Len(Queries) |->
             k # "-" /\ KindInfo(k).o = o /\ \A c \in Queries[i] : Sat(k, c)]]]
AnsTab == [o \in Progs |-> [i \in 1..Len(Queries) |-> Answered(o, Queries[i])]]
Gpas(R) == LET K == [a \in Accts |-> [l \in 1..3 |-> Kind(a, R[a][l].v)]] IN
           [o \in Progs |-> [i \in 1..Len(Queries) |->
             IF AnsTab[o][i] THEN [l \in 1..3 |-> {a \in Accts : SatTab[K[a][l]][o][i]}] ELSE <<>>]]
ObsOf(R) ==
  LET rd == [a \in Accts |-> [l \in 1..3 |-> IdOf(R[a][l])]] IN
  IF ObsGpa THEN [rd |-> rd, fs |-> finS, g |-> Gpas(R)] ELSE [rd |-> rd, fs |-> finS]
Obs == CHOOSE x \in {ObsOf(R) : R \in {Rd}} : TRUE

Ch(l) == {<<x[1], Id(x[2])>> : x \in l.ch}
(* long behaviours: observations now and then and after confirmations *)
Due == LET n == Len(hist) IN n > 0 /\ (n % 10 = 0 \/ (hist[n].op.t = "n" /\ hist[n].op.c > 0))
Rec(op) == IF Mode = "conc" THEN [op |-> op, ret |-> last'.ret, ch |-> Ch(last')] ELSE
           IF Mode = "sim" \/ (Mode = "long" /\ Due) THEN [op |-> op, ret |-> last'.ret, ch |-> Ch(last'), pre |-> Obs]
                           ELSE [op |-> op, ret |-> last'.ret, ch |-> Ch(last')]
Log(op) == hist' = Append(hist, Rec(op))

U(a, s, w, k, c) == Update(a, s, w, k, c) /\ Log([t |-> "u", a |-> a, s |-> s, w |-> w, k |-> k, c |-> c])
N(s, p, c) == Notify(s, p, c) /\ Log([t |-> "n", s |-> s, p |-> p, c |-> c])
TS(o) == TakeSnapshot(o) /\ Log([t |-> "snap", o |-> o])
LS == LoadSnapshot /\ Log([t |-> "load"])
RS == Restart /\ Log([t |-> "restart"])

Pick(S) == IF Len(hist) >= 0 THEN {RandomElement(S)} ELSE {}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Cut(x, m) == IF x < 1 THEN 1 ELSE IF x > m THEN m ELSE x
Top(l) == CASE l = 0 -> Max0({confS} \cup {s \in Slots : here[s] /\ parent[s] # -1}) [] l = 1 -> confS [] l = 2 -> finS
PickParent(s) == IF RandomElement(1..5) = 1 THEN RandomElement(0..(s - 1)) ELSE s - 1
KindsOf(a) == IF Mode # "conc" THEN Kinds
              ELSE {k \in Kinds : KindInfo(k).ty \in {"d", "b", IF a \in Mints THEN "m" ELSE IF a = "g" THEN "s" ELSE "t"}}
KindFor(a, s, w) == IF sent[a][<<s, w>>] = "-" THEN RandomElement(KindsOf(a)) ELSE sent[a][<<s, w>>]

SimUpdate(cs) ==
  \E a \in Pick(Accts), s \in Pick(Slots), w \in Pick(Wvs), c \in Pick(cs) :
     \E k \in {KindFor(a, s, w)} : U(a, s, w, k, c)
(* close to the tip *)
SimUpdateTip ==
  \E a \in Pick(Accts), d \in Pick(0..2), w \in Pick(Wvs), c \in Pick({0, 0, 1}) :
     LET s == Cut(Top(0) + 1 - d, MaxSlot) IN \E k \in {KindFor(a, s, w)} : U(a, s, w, k, c)
(* in the slots which are about to be finalized *)
SimUpdateLow ==
  \E a \in Pick(Accts), d \in Pick(0..2), w \in Pick(Wvs) :
     LET s == Cut(finS + d, MaxSlot) IN \E k \in {KindFor(a, s, w)} : U(a, s, w, k, 0)
SimNotify(l) ==
  \E s \in Pick(Slots) : \E p \in {IF parent[s] # -1 THEN parent[s] ELSE PickParent(s)} : N(s, p, l)
SimNotifyNext(l) ==
  \E d \in Pick(1..2) :
     LET s == Cut(Top(l) + d, MaxSlot) IN
     \E p \in {IF parent[s] # -1 THEN parent[s] ELSE PickParent(s)} : N(s, p, l)
SimTake == WithSnap /\ \E o \in Pick(Progs) : TS(o)
SimLoad == WithSnap /\ LS
SimRestart == WithSnap /\ RS

GNextAny ==
  \/ SimUpdate({0}) \/ SimUpdate({0, 1}) \/ SimUpdate({0, 1, 2})
  \/ SimNotify(0) \/ SimNotify(1) \/ SimNotifyNext(2)
  \/ SimTake \/ SimLoad \/ SimRestart
GNextChain ==
  \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdateLow \/ SimUpdate({0, 1, 2})
  \/ SimNotifyNext(0) \/ SimNotifyNext(0) \/ SimNotifyNext(1) \/ SimNotifyNext(2)
  \/ SimTake \/ SimLoad \/ SimRestart
(* states which are finalized at once, then changed *)
GNextFin ==
  \/ SimUpdate({2}) \/ SimUpdate({2}) \/ SimUpdate({2}) \/ SimUpdateTip
  \/ SimNotifyNext(1) \/ SimNotifyNext(2)
  \/ SimTake \/ SimLoad \/ SimRestart
GNextFork ==
  \/ SimUpdate({0}) \/ SimUpdate({0}) \/ SimUpdateTip
  \/ SimNotify(0) \/ SimNotify(0) \/ SimNotify(1) \/ SimNotify(2) \/ SimNotifyNext(1) \/ SimNotifyNext(2)

(* hundreds of slots which are not finalized for long, chains of them, many versions *)
Rare(n) == 1 \in Pick(1..n)
LongUpdate ==
  \E a \in Pick(Accts), d \in Pick(0..7), r \in Pick(Slots), w \in Pick(Wvs), t \in {Top(0) + 1} :
     \E s \in {IF d < 6 THEN t ELSE 1 + (r % t)} : s <= MaxSlot /\ \E k \in {KindFor(a, s, w)} : U(a, s, w, k, 0)
LongNext == \E s \in {Top(0) + 1} : s <= MaxSlot /\
              \E x \in Pick(1..12) : \E p \in {IF x = 1 /\ s > 2 THEN s - 2 ELSE s - 1} : N(s, p, 0)
LongUp(l, n) == Rare(n) /\ \E t \in {Top(0)}, m \in {Top(l)} : t > m /\
                  \E s \in Pick((m + 1)..t) : \E p \in {IF parent[s] # -1 THEN parent[s] ELSE s - 1} : N(s, p, l)
GNextLong == LongUpdate \/ LongUpdate \/ LongNext \/ LongNext \/ LongUp(1, 15) \/ LongUp(2, 40)
(* many accounts in a slot; notifying the confirmed slot again is always possible *)
Idle == \E s \in {Cut(confS, MaxSlot)} : \E p \in {IF parent[s] # -1 THEN parent[s] ELSE s - 1} : N(s, p, 0)
GNextWide ==
  \/ Idle
  \/ SimUpdateTip \/ SimUpdateTip \/ SimUpdateTip \/ (Rare(8) /\ SimUpdate({2}))
  \/ (Rare(25) /\ SimNotifyNext(0)) \/ (Rare(25) /\ SimNotifyNext(1)) \/ (Rare(35) /\ SimNotifyNext(2))
  \/ (WithSnap /\ Rare(12) /\ (SimTake \/ SimLoad \/ SimRestart))

NextAll ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels : U(a, s, w, k, c)
  \/ \E s \in Slots, p \in 0..(MaxSlot - 1), c \in Levels : N(s, p, c)
  \/ WithSnap /\ ((\E o \in Progs : TS(o)) \/ LS \/ RS)

GInit == Init /\ hist = <<>>
GNextAll == Len(hist) < Depth /\ NextAll
View == <<here, parent, pend, fin, confS, finS, known, sent, snap, newest>>
EmitAll == hist # <<>> => PrintT("TRACE " \o ToJson([h |-> hist, obs |-> Obs]))
EmitEnd == (Len(hist) = Depth) => PrintT("TRACE " \o (IF Mode = "conc" THEN ToJson([h |-> hist]) ELSE ToJson([h |-> hist, obs |-> Obs])))
=============================================================================
