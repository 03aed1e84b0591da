------------------------------ MODULE MCStore ------------------------------
(* Exhaustive check of AccountStore against a declarative account of what   *)
(* should be read, derived only from the history of calls.                  *)
EXTENDS AccountStore

CONSTANT MaxDepth  \* bound on the length of the behaviours

VARIABLES
  recv,   \* [Accts -> set of <<version, level>>] received while tracked
  link,   \* [Slots -> parent or -1]: links ever notified
  noted,  \* set of <<slot, level>> notified
  root,   \* highest finalized slot
  act     \* last call
ghost == <<recv, link, noted, root, act>>

MCInit == Init /\ act = [t |-> "-"] /\ recv = [a \in Accts |-> {}] /\ link = [s \in Slots |-> -1] /\ noted = {} /\ root = -1

RECURSIVE Anc(_, _)
Anc(lk, s) == IF s = -1 THEN {} ELSE {s} \cup Anc(lk, lk[s])

(* slots which are promoted to the level according to the notifications *)
Promoted(s, l) == \E d \in noted : d[2] >= l /\ s \in Anc(link, d[1])

(* the declarative model: everything received at the level, or in a promoted slot *)
Reached(a, l) == {x[1] : x \in {y \in recv[a] : y[2] >= l \/ Promoted(y[1].s, l)}}

GhostUpdate(a, s, w, k, c) ==
  /\ recv' = [recv EXCEPT ![a] = IF trk'[a] THEN @ \cup {<<[s |-> s, w |-> w, k |-> k], c>>} ELSE {}]
  /\ act' = [t |-> "u", a |-> a, v |-> [s |-> s, w |-> w, k |-> k], c |-> c]
  /\ UNCHANGED <<link, noted, root>>

GhostNotify(s, p, c) ==
  /\ link' = [link EXCEPT ![s] = p]
  /\ noted' = noted \cup {<<s, c>>}
  /\ root' = IF c = 2 THEN Max2(root, s) ELSE root
  /\ recv' = [a \in Accts |-> IF trk'[a] THEN recv[a] ELSE {}]
  /\ act' = [t |-> "n", s |-> s, p |-> p, c |-> c]

(* Assumptions on the feed under which the declarative model is exact: a     *)
(* slot has one parent; a confirmed slot is notified when the links of its   *)
(* ancestors are known and is on one chain with the other confirmed slots;   *)
(* nothing arrives for slots older than the last finalized one.              *)
Linked(s) == s <= root \/ s = 0 \/ (link[s] # -1)
RECURSIVE ChainLinked(_)
ChainLinked(s) == s <= root \/ s = 0 \/ (link[s] # -1 /\ ChainLinked(link[s]))
Sane(s, p, c) ==
  /\ p < s /\ link[s] \in {-1, p}
  /\ s > root \/ (s = root /\ c = 2)
  /\ c > 0 => /\ ChainLinked(p)
              /\ (root # -1 => root \in Anc([link EXCEPT ![s] = p], s))
              /\ \A d \in noted : (d[2] >= 1) => \/ d[1] \in Anc([link EXCEPT ![s] = p], s)
                                                 \/ s \in Anc(link, d[1])
SaneUpdate(a, s) == s >= root

MCNext ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels :
        SaneUpdate(a, s) /\ Update(a, s, w, k, c) /\ GhostUpdate(a, s, w, k, c)
  \/ \E s \in Slots, p \in Slots, c \in Levels :
        Sane(s, p, c) /\ Notify(s, p, c) /\ GhostNotify(s, p, c)
  \/ Grow /\ act' = [t |-> "f"] /\ UNCHANGED <<recv, link, noted, root>>

MCSpec == MCInit /\ [][MCNext]_<<vars, ghost>>

(* S01, S02 *)
ReadsNewestReached ==
  \A a \in Accts : trk[a] =>
     \A l \in Levels : State(a, l) = MaxV(Reached(a, l))

(* S04: notifications report exactly the changes *)
NotifyReports ==
  [][\A a \in Accts : \A v \in {x[2] : x \in {y \in last'.ch : y[1] = a}} :
        \/ ~trk'[a]
        \/ v \in {conf'[a], fin'[a]}]_<<vars, ghost>>

(* S04: a version changed at the level is reported, exactly once, unless only the level below is concerned *)
NotifyComplete ==
  [][\A l \in 1..2 : act'.t = "n" /\ act'.c = l =>
       \A a \in Accts : (trk[a] /\ trk'[a]) =>
          ((State(a, l)' # State(a, l)) <=> (<<a, State(a, l)'>> \in last'.ch))]_<<vars, ghost>>
ProcessedReportsNothing ==
  [][act'.t = "n" /\ act'.c = 0 => last'.ch = {}]_<<vars, ghost>>

(* S08: the result of an update tells whether it changed anything that is stored *)
UpdateTruth ==
  [][act'.t = "u" => ((last'.ret = {"true"}) <=> (<<trk, procs, conf, fin>>' # <<trk, procs, conf, fin>>))]_<<vars, ghost>>
(* S06, S08: adding filters changes nothing that is stored and only adds to what is covered and admitted *)
GrowOnlyAdds ==
  [][act'.t = "f" =>
       /\ UNCHANGED <<trk, procs, conf, fin, status>>
       /\ \A o \in Progs : \A i \in 1..Len(Queries) : Covers(o, Queries[i]) => Covers(o, Queries[i])'
       /\ \A a \in Accts : \A k \in Kinds : Admits(a, k) => Admits(a, k)']_<<vars, ghost>>
(* S08: tracking starts exactly with an admitted update *)
Admission ==
  [][\A a \in Accts :
       /\ (~trk[a] /\ trk'[a]) => act'.t = "u" /\ act'.a = a /\ Admits(a, act'.v.k)
       /\ (~trk[a] /\ act'.t = "u" /\ act'.a = a /\ Admits(a, act'.v.k)) => trk'[a]]_<<vars, ghost>>

(* S07: only an account whose newest version is finalized, and gone or not admitted, is dropped *)
DropOnlyFinalizedGone ==
  [][\A a \in Accts : (trk[a] /\ ~trk'[a]) =>
       LET all == procs[a] \cup ({conf[a], fin[a]} \ {NoV})
                  \cup (IF act'.t = "u" /\ act'.a = a THEN {act'.v} ELSE {})
           v == MaxV(all)
       IN (~Alive(v.k) \/ ~Admits(a, v.k)) /\
          (IF act'.t = "u" /\ act'.v = v THEN act'.c = 2 \/ status[v.s].c = 2
           ELSE (act'.t = "n" /\ act'.c = 2) \/ fin[a] = v)]_<<vars, ghost>>
(* S07: a version visible at a level reached that level: deletions and owner changes are not early *)
LevelByLevel ==
  \A a \in Accts : trk[a] =>
     \A l \in 1..2 : State(a, l) # NoV => State(a, l) \in Reached(a, l)

(* S06: every content matching a covered query is admitted *)
CoverageSound ==
  \A o \in Progs : \A i \in 1..Len(Queries) : Covers(o, Queries[i]) =>
     \A k \in Kinds : (Owner(k) = o /\ SatAll(k, Queries[i])) =>
        \A a \in Accts : Admits(a, k) \/ (Cfg.ex /\ a \in Cfg.acc)

-----------------------------------------------------------------------------
(* S09: snapshots, without the assumptions on the feed *)
SnapNext ==
  /\ \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels :
           Update(a, s, w, k, c) /\ act' = [t |-> "u"]
     \/ \E s \in Slots, p \in Slots, c \in Levels : Notify(s, p, c) /\ act' = [t |-> "n"]
     \/ \E o \in Progs : TakeSnapshot(o) /\ act' = [t |-> "snap"]
     \/ LoadSnapshot /\ act' = [t |-> "load"]
     \/ Grow /\ act' = [t |-> "f"]
     \/ Restart /\ act' = [t |-> "restart"]
  /\ UNCHANGED <<recv, link, noted, root>>
SnapSpec == MCInit /\ [][SnapNext]_<<vars, ghost>>

SnapshotExact ==
  [][act'.t = "snap" => snap'.vs = {<<a, Read(a, 2)>> : a \in {b \in Accts : Read(b, 2) # NoV /\ Owner(Read(b, 2).k) = snap'.o}}]_<<vars, ghost>>
(* an account which is not admitted any more is finalized and dropped by the load, see Droppable *)
RestartRestores ==
  [][act'.t = "restart" =>
       /\ \A x \in snap.vs : Admits(x[1], x[2].k) => \A l \in Levels : State(x[1], l)' = x[2]
       /\ \A a \in Accts : trk'[a] => \E x \in snap.vs : x[1] = a]_<<vars, ghost>>
LoadNeverBack ==
  [][act'.t = "load" => \A a \in Accts : (trk[a] /\ trk'[a]) => \A l \in Levels : ~Newer(State(a, l), State(a, l)')]_<<vars, ghost>>
LoadReaches ==
  [][act'.t = "load" => \A x \in snap.vs : Admits(x[1], x[2].k) => \A l \in Levels : ~Newer(x[2], State(x[1], l)')]_<<vars, ghost>>

DepthBound == TLCGet("level") <= MaxDepth
View == <<trk, procs, conf, fin, status, sent, grown, snap, recv, link, noted, root>>
=============================================================================
