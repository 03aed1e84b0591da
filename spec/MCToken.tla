------------------------------ MODULE MCToken ------------------------------
(* Exhaustive check of TokenStore against a declarative account of what     *)
(* should be read, derived only from the history of calls.                  *)
EXTENDS TokenStore

CONSTANT MaxDepth

VARIABLES
  recv,   \* [Accts -> set of <<version, level>>] taken into account
  link,   \* [Slots -> parent or -1], as ever notified
  noted,  \* set of <<slot, level>> notified
  act
ghost == <<recv, link, noted, act>>

MCInit == Init /\ recv = [a \in Accts |-> {}] /\ link = [s \in Slots |-> -1] /\ noted = {} /\ act = [t |-> "-"]

RECURSIVE Anc(_, _)
Anc(lk, s) == IF s \notin Slots THEN {} ELSE {s} \cup Anc(lk, lk[s])

(* a slot has one parent, confirmed and finalized slots are on one chain whose links are known *)
RECURSIVE ChainLinked(_)
ChainLinked(s) == IF s <= finS \/ s = 0 THEN TRUE ELSE IF link[s] = -1 THEN FALSE ELSE ChainLinked(link[s])
Sane(s, p, c) ==
  /\ p < s /\ link[s] \in {-1, p}
  /\ s > finS \/ (s = finS /\ c = 2)
  /\ c > 0 => /\ ChainLinked(p)
              /\ (finS # 0 => finS \in Anc([link EXCEPT ![s] = p], s))
              /\ \A d \in noted : d[2] >= 1 => \/ d[1] \in Anc([link EXCEPT ![s] = p], s)
                                               \/ s \in Anc(link, d[1])
(* states are written before their slot is finalized; what is known as finalized from elsewhere comes first *)
SaneUpdate(a, s, c) == IF c = 2 THEN recv[a] = {} ELSE s > finS

MCNext ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels :
       /\ SaneUpdate(a, s, c) /\ Update(a, s, w, k, c)
       /\ recv' = [recv EXCEPT ![a] = IF last'.ret THEN @ \cup {<<[s |-> s, w |-> w], c>>} ELSE @]
       /\ act' = [t |-> "u", a |-> a, k |-> k, c |-> c]
       /\ UNCHANGED <<link, noted>>
  \/ \E s \in Slots, p \in 0..MaxSlot, c \in Levels :
       /\ Sane(s, p, c) /\ Notify(s, p, c)
       /\ link' = [link EXCEPT ![s] = p]
       /\ noted' = noted \cup {<<s, c>>}
       /\ act' = [t |-> "n", s |-> s, p |-> p, c |-> c]
       /\ UNCHANGED recv
MCSpec == MCInit /\ [][MCNext]_<<vars, ghost>>

MaxVer(S) == IF S = {} THEN NoV ELSE CHOOSE v \in S : \A x \in S : ~Newer(x, v)
OnChain(a, top) == {x[1] : x \in {y \in recv[a] : y[2] = 2 \/ y[1].s \in Anc(link, top)}}
Shown(a, v) == IF v # NoV /\ Exists(Kind(a, v)) THEN v ELSE NoV

(* T01, T02 *)
FinalizedRead == \A a \in Accts : Read(a, 2).v = Shown(a, MaxVer(OnChain(a, finS)))
ConfirmedRead == \A a \in Accts : Read(a, 1).v = Shown(a, MaxVer(OnChain(a, confS)))
ProcessedRead ==
  \A a \in Accts :
    LET above == {x[1] : x \in {y \in recv[a] : y[2] < 2 /\ y[1].s > confS}} IN
    Read(a, 0).v = Shown(a, IF above # {} THEN MaxVer(above) ELSE MaxVer(OnChain(a, confS)))
LevelsOrdered == finS <= confS
(* nothing is kept of the finalized past *)
NothingLeft == \A s \in Slots : s <= finS => ~here[s] /\ \A a \in Accts : pend[s][a] = -1
(* T02 *)
FinalNeverBack == [][\A a \in Accts : ~Newer(newest[a], newest'[a]) /\ finS' >= finS]_<<vars, ghost>>
FinalizedReported ==
  [][(act'.t = "n" /\ act'.c = 2) =>
       \A a \in Accts :
         /\ (fin'[a] # fin[a] /\ fin'[a] # NoV) => <<a, fin'[a]>> \in last'.ch
         /\ \A x \in last'.ch : x[1] = a => x[2] = fin'[a] /\ Cardinality({y \in last'.ch : y[1] = a}) = 1]_<<vars, ghost>>
(* repeating a notification changes and reports nothing *)
RepeatNothing ==
  [][(act'.t = "n" /\ <<act'.s, act'.c>> \in noted /\ act'.c = 2 /\ act'.s = finS) =>
       fin' = fin /\ \A a \in Accts, l \in Levels : Read(a, l)' = Read(a, l)]_<<vars, ghost>>
(* T05: an update concerns only its account *)
OnlyItsAccount ==
  [][act'.t = "u" => \A b \in Accts \ {act'.a} : \A l \in Levels : Read(b, l)' = Read(b, l)]_<<vars, ghost>>
(* an update which is not taken into account changes nothing *)
FalseNothing ==
  [][(act'.t = "u" /\ ~last'.ret) => UNCHANGED <<here, parent, pend, fin, confS, finS>>]_<<vars, ghost>>
(* T09: only what belongs to a token program, or did, is taken into account *)
TokenOnly ==
  [][(act'.t = "u" /\ last'.ret) => (OfToken(act'.k) \/ Known(act'.a))]_<<vars, ghost>>
(* T03: a query by owner, mint or size is answered from the states a read returns *)
QueriesExact ==
  \A o \in Progs : \A i \in 1..Len(Queries) : Answered(o, Queries[i]) =>
     \A l \in Levels : \A a \in GpaSet(o, Queries[i], l) : Read(a, l).v # NoV /\ KindInfo(Kind(a, Read(a, l).v)).ty \in {"t", "m"}
-----------------------------------------------------------------------------
(* T06: snapshots, without the assumptions *)
SnapNext ==
  /\ \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels :
           Update(a, s, w, k, c) /\ act' = [t |-> "u"]
     \/ \E s \in Slots, p \in 0..MaxSlot, c \in Levels : Notify(s, p, c) /\ act' = [t |-> "n"]
     \/ \E o \in Progs : TakeSnapshot(o) /\ act' = [t |-> "snap"]
     \/ LoadSnapshot /\ act' = [t |-> "load"]
     \/ Restart /\ act' = [t |-> "restart"]
  /\ UNCHANGED <<recv, link, noted>>
SnapSpec == MCInit /\ [][SnapNext]_<<vars, ghost>>
RestoresAll ==
  [][act'.t \in {"load", "restart"} =>
       \A x \in snap.vs : Read(x[1], 2)'.v = x[2] /\ (act'.t = "restart" => \A l \in Levels : Read(x[1], l)'.v = x[2])]_<<vars, ghost>>
RestoresOnly ==
  [][act'.t = "restart" => \A a \in Accts : Read(a, 0)'.v # NoV => \E x \in snap.vs : x[1] = a]_<<vars, ghost>>
OtherProgramNot ==
  \A x \in snap.vs : KindInfo(Kind(x[1], x[2])).o = snap.o

DepthBound == TLCGet("level") <= MaxDepth
View == <<here, parent, pend, fin, confS, finS, known, sent, snap, newest, recv, link, noted>>
=============================================================================
