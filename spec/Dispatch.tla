------------------------------ MODULE Dispatch ------------------------------
(* StorageByProgramId: the accounts of the dispatched programs are kept in   *)
(* storages of their own, everything else in the default storage. Compared   *)
(* with one storage holding everything (the variables of AccountStore, with  *)
(* FilterCfg = "all"), for updates of an account arriving in order.          *)
EXTENDS AccountStore

CONSTANTS MaxDepth,
          Topo        \* "P": only P is dispatched; "P+Q": P and Q; "PQ": P and Q share a storage

VARIABLES part,       \* the storages
          act, rep    \* last call and what the partitioned storage returned
dvars == <<vars, part, act, rep>>

FA == INSTANCE AccountStore WITH FilterCfg <- IF Topo = "PQ" THEN "PQall" ELSE "P"
FB == INSTANCE AccountStore WITH FilterCfg <- "Q"
FD == INSTANCE AccountStore WITH FilterCfg <- IF Topo = "P" THEN "exP" ELSE "exPQ"

Parts == IF Topo = "P+Q" THEN {"A", "B", "D"} ELSE {"A", "D"}
(* the storage of the program *)
Home(o) == IF o = "P" \/ (Topo = "PQ" /\ o = "Q") THEN "A" ELSE IF Topo = "P+Q" /\ o = "Q" THEN "B" ELSE "D"

PUpd(x, a, v, c) == CASE x = "A" -> FA!ApplyUpdate(part[x], a, v, c)
                      [] x = "B" -> FB!ApplyUpdate(part[x], a, v, c)
                      [] x = "D" -> FD!ApplyUpdate(part[x], a, v, c)
PNot(x, s, p, c) == CASE x = "A" -> FA!ApplyNotify(part[x], s, p, c)
                      [] x = "B" -> FB!ApplyNotify(part[x], s, p, c)
                      [] x = "D" -> FD!ApplyNotify(part[x], s, p, c)
PLoad(x, vs) == CASE x = "A" -> FA!LoadAll(Empty, vs) [] x = "B" -> FB!LoadAll(Empty, vs) [] x = "D" -> FD!LoadAll(Empty, vs)

(* newest of the answers of the storages *)
PRead(a, l) == MaxV({ReadS(part[x], a, l) : x \in Parts} \ {NoV})
PGpa(o, q, l) == {a \in Accts : LET v == ReadS(part[Home(o)], a, l) IN v # NoV /\ Owner(v.k) = o /\ SatAll(v.k, q)}
(* one entry per account, the newest *)
Merge(ch) == {x \in ch : \A y \in ch : y[1] = x[1] => ~Newer(y[2], x[2])}

(* updates of an account arrive in order *)
InOrder(a, s, w) == \A x \in Slots \X Wvs : sent[a][x] # "-" => (s > x[1] \/ (s = x[1] /\ w >= x[2]))

DInit == Init /\ part = [x \in Parts |-> Empty] /\ act = [t |-> "-"] /\ rep = [ret |-> {}, ch |-> {}]

DUpdate(a, s, w, k, c) ==
  /\ InOrder(a, s, w)
  /\ Update(a, s, w, k, c)
  /\ LET v == [s |-> s, w |-> w, k |-> k] IN
     /\ part' = [x \in Parts |-> PUpd(x, a, v, c).st]
     /\ rep' = [ret |-> IF \E x \in Parts : PUpd(x, a, v, c).ret THEN {"true"} ELSE {}, ch |-> {}]
  /\ act' = [t |-> "u", a |-> a, k |-> k]
DNotify(s, p, c) ==
  /\ Notify(s, p, c)
  /\ part' = [x \in Parts |-> PNot(x, s, p, c).st]
  /\ rep' = [ret |-> {"-"}, ch |-> Merge(UNION {PNot(x, s, p, c).ch : x \in Parts})]
  /\ act' = [t |-> "n", c |-> c]
DSnapshot(o) ==
  /\ TakeSnapshot(o)
  /\ rep' = [ret |-> {"-"}, ch |-> {<<a, ReadS(part[Home(o)], a, 2)>> : a \in PGpa(o, {}, 2)}]
  /\ UNCHANGED part
  /\ act' = [t |-> "snap"]
DRestart ==
  /\ Restart
  /\ part' = [x \in Parts |-> IF x = Home(snap.o) THEN PLoad(x, snap.vs) ELSE Empty]
  /\ rep' = [ret |-> {"-"}, ch |-> {}]
  /\ act' = [t |-> "restart"]

DNext ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels : DUpdate(a, s, w, k, c)
  \/ \E s \in Slots, p \in Slots, c \in Levels : DNotify(s, p, c)
  \/ \E o \in Progs : DSnapshot(o)
  \/ DRestart
DSpec == DInit /\ [][DNext]_dvars

(* D01 *)
SameReads == \A a \in Accts : \A l \in Levels : PRead(a, l) = Read(a, l)
SameQueries == \A o \in Progs \cup {"R"} : \A l \in Levels : PGpa(o, {}, l) = Gpa(o, {}, l)
(* a storage may start to track an account with its deletion, which the single storage does not *)
(* do or forgets at another moment: deletions count if something existing was deleted           *)
Matters(ch, l) == {x \in ch : Alive(x[2].k) \/ Read(x[1], l) # NoV}
SameResults ==
  [][/\ act'.t = "u" /\ (Alive(act'.k) \/ \E l \in Levels : Read(act'.a, l) # NoV) => rep' = last'
     /\ act'.t = "n" => Matters(rep'.ch, act'.c) = Matters(last'.ch, act'.c)
     /\ act'.t = "snap" => rep'.ch = snap'.vs]_dvars

DepthBound == TLCGet("level") <= MaxDepth
View == <<trk, procs, conf, fin, status, sent, snap, part>>
=============================================================================
