---------------------------- MODULE AccountStore ----------------------------
(***************************************************************************)
(* The in-memory account store: account versions received with a           *)
(* commitment level, slot notifications promoting a slot and its linked    *)
(* ancestors, deletion / owner change, admission by filters, queries and   *)
(* snapshots.                                                              *)
(*                                                                         *)
(* One action per call of the storage interface; the observable result of  *)
(* the call and of every read/query in the reached state are functions of  *)
(* the state (Read, Gpa, ...), so that behaviours of this specification    *)
(* can be replayed on the real store and compared after every step.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Accts,        \* account names (strings)
  MaxSlot,      \* slots are 0..MaxSlot
  MaxWv,        \* write versions are 0..MaxWv
  Kinds,        \* contents an update can carry, see KindInfo
  FilterCfg,    \* name of the configuration of the admission filters
  Extra         \* name of the filters which are added while the store is running, see Extras

Slots  == 0..MaxSlot
Wvs    == 0..MaxWv
Levels == 0..2            \* 0 processed, 1 confirmed, 2 finalized
Progs  == {"P", "Q"}

VARIABLES
  trk,     \* [Accts -> BOOLEAN]: account is tracked
  procs,   \* [Accts -> SUBSET Version]: versions not yet superseded, one per slot
  conf,    \* [Accts -> Version or NoV]: newest version which reached confirmed
  fin,     \* [Accts -> Version or NoV]: newest version which reached finalized
  status,  \* [Slots -> [c |-> level or -1, p |-> parent or -1, r |-> accounts registered]]
  sent,    \* [Accts -> [Slots \X Wvs -> kind or "-"]]: content of the version (fixed once sent)
  grown,   \* how many of the extra filters were added
  snap,    \* last snapshot taken: [prog, set of <<account, version>>]
  last     \* observable result of the last call

vars == <<trk, procs, conf, fin, status, sent, grown, snap, last>>

NoV == [s |-> -1, w |-> -1, k |-> "-"]
Version == [s : Slots, w : Wvs, k : Kinds]

(***************************************************************************)
(* Contents. o: owner program, n: data length class, t, u: tags in the     *)
(* data, alive: lamports # 0.                                              *)
(***************************************************************************)
KindInfo(k) ==
  CASE k = "p1" -> [o |-> "P", n |-> 64, t |-> 1, u |-> 1, alive |-> TRUE]
    [] k = "p2" -> [o |-> "P", n |-> 64, t |-> 2, u |-> 1, alive |-> TRUE]
    [] k = "p3" -> [o |-> "P", n |-> 32, t |-> 1, u |-> 2, alive |-> TRUE]
    [] k = "p4" -> [o |-> "P", n |-> 64, t |-> 1, u |-> 2, alive |-> TRUE]
    [] k = "q1" -> [o |-> "Q", n |-> 64, t |-> 1, u |-> 1, alive |-> TRUE]
    [] k = "q2" -> [o |-> "Q", n |-> 32, t |-> 2, u |-> 2, alive |-> TRUE]
    [] k = "r1" -> [o |-> "R", n |-> 64, t |-> 1, u |-> 1, alive |-> TRUE]
    [] k = "p0" -> [o |-> "P", n |-> 0,  t |-> 0, u |-> 0, alive |-> TRUE]
    [] k = "s0" -> [o |-> "S", n |-> 0,  t |-> 0, u |-> 0, alive |-> TRUE]
    [] k = "dp" -> [o |-> "P", n |-> 64, t |-> 1, u |-> 1, alive |-> FALSE]
    [] k = "ds" -> [o |-> "S", n |-> 0,  t |-> 0, u |-> 0, alive |-> FALSE]

Alive(k) == KindInfo(k).alive
Owner(k) == KindInfo(k).o

(* conditions of filters and queries *)
Sat(k, cond) ==
  LET i == KindInfo(k) IN
  CASE cond = "n64" -> i.n = 64
    [] cond = "n32" -> i.n = 32
    [] cond = "t1"  -> i.t = 1
    [] cond = "t2"  -> i.t = 2
    [] cond = "u2"  -> i.u = 2
SatAll(k, conds) == \A c \in conds : Sat(k, c)

(* a configuration: listed accounts, filters [prog, conds] and whether they are exclusions *)
Configured ==
  CASE FilterCfg = "P"    -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "P", c |-> {}]}]
    [] FilterCfg = "PQ"   -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "P", c |-> {}], [o |-> "Q", c |-> {"n64"}]}]
    [] FilterCfg = "Pc"   -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "P", c |-> {"n64", "t1"}]}]
    [] FilterCfg = "Pcc"  -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "P", c |-> {"t2"}], [o |-> "P", c |-> {"n32"}], [o |-> "Q", c |-> {}]}]
    [] FilterCfg = "acc"  -> [ex |-> FALSE, acc |-> {"a"}, f |-> {[o |-> "Q", c |-> {"n64"}]}]
    [] FilterCfg = "Q"    -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "Q", c |-> {}]}]
    [] FilterCfg = "PQall" -> [ex |-> FALSE, acc |-> {}, f |-> {[o |-> "P", c |-> {}], [o |-> "Q", c |-> {}]}]
    [] FilterCfg = "exP"  -> [ex |-> TRUE,  acc |-> {}, f |-> {[o |-> "P", c |-> {}]}]
    [] FilterCfg = "exPQ" -> [ex |-> TRUE,  acc |-> {}, f |-> {[o |-> "P", c |-> {}], [o |-> "Q", c |-> {}]}]
    [] FilterCfg = "all"  -> [ex |-> TRUE,  acc |-> {}, f |-> {}]
    [] FilterCfg = "exQ"  -> [ex |-> TRUE,  acc |-> {}, f |-> {[o |-> "Q", c |-> {}]}]
    [] FilterCfg = "exQc" -> [ex |-> TRUE,  acc |-> {"b"}, f |-> {[o |-> "Q", c |-> {"n64"}]}]
(* filters added one after another to a store which is in use (not to exclusions) *)
Extras ==
  CASE Extra = "-"     -> <<>>
    [] Extra = "Q64P"  -> << [acc |-> {}, f |-> {[o |-> "Q", c |-> {"n64"}]}], [acc |-> {"b"}, f |-> {}], [acc |-> {}, f |-> {[o |-> "P", c |-> {}]}] >>
    [] Extra = "P2Q"   -> << [acc |-> {}, f |-> {[o |-> "P", c |-> {"t2"}]}], [acc |-> {"b"}, f |-> {[o |-> "Q", c |-> {}], [o |-> "P", c |-> {"n32"}]}] >>
    [] Extra = "Q"     -> << [acc |-> {}, f |-> {[o |-> "Q", c |-> {}]}] >>
    [] Extra = "a"     -> << [acc |-> {"a"}, f |-> {}] >>
RECURSIVE With(_)
With(i) == IF i = 0 THEN Configured
           ELSE LET c == With(i - 1) IN [c EXCEPT !.acc = @ \cup Extras[i].acc, !.f = @ \cup Extras[i].f]
Cfgs == [i \in 0..Len(Extras) |-> With(i)]
Cfg == Cfgs[grown]

Matches(a, k) == a \in Cfg.acc \/ \E f \in Cfg.f : f.o = Owner(k) /\ SatAll(k, f.c)
Admits(a, k)  == IF Cfg.ex THEN ~Matches(a, k) ELSE Matches(a, k)

SizeOf(conds) == IF "n64" \in conds THEN 64 ELSE IF "n32" \in conds THEN 32 ELSE -1
(* queries which the configuration covers; exclusions only rule out what they can intersect *)
CoversIn(cfg, prog, q) ==
  IF cfg.ex
  THEN \A f \in cfg.f : f.o = prog => /\ f.c # {}
                                      /\ SizeOf(f.c) # -1 /\ SizeOf(q) # -1
                                      /\ SizeOf(f.c) # SizeOf(q)
  ELSE \E f \in cfg.f : f.o = prog /\ f.c \subseteq q
Covers(prog, q) == CoversIn(Cfg, prog, q)

Queries == << {}, {"n64"}, {"t2"}, {"n64", "t1"}, {"n32", "t2"}, {"t1", "u2"} >>

(***************************************************************************)
(* Versions                                                                *)
(***************************************************************************)
Newer(v, x) == v.s > x.s \/ (v.s = x.s /\ v.w > x.w)
MaxV(S) == IF S = {} THEN NoV ELSE CHOOSE v \in S : \A x \in S : ~Newer(x, v)
Max2(x, y) == IF x > y THEN x ELSE y

(* what is stored for the level in store S, possibly a deletion *)
StateS(S, a, l) ==
  IF ~S.trk[a] THEN NoV
  ELSE CASE l = 0 -> MaxV(S.procs[a])
         [] l = 1 -> S.conf[a]
         [] l = 2 -> S.fin[a]
(* what a read of store S returns *)
ReadS(S, a, l) == LET v == StateS(S, a, l) IN IF v # NoV /\ Alive(v.k) THEN v ELSE NoV

Cur == [trk |-> trk, procs |-> procs, conf |-> conf, fin |-> fin, status |-> status]
State(a, l) == StateS(Cur, a, l)
Read(a, l) == ReadS(Cur, a, l)

(* accounts listed by a query, meaningful if Covers(prog, q) *)
Gpa(prog, q, l) == {a \in Accts : Read(a, l) # NoV /\ Owner(Read(a, l).k) = prog /\ SatAll(Read(a, l).k, q)}

-----------------------------------------------------------------------------
NoStatus == [c |-> -1, p |-> -1, r |-> {}]

Init ==
  /\ trk = [a \in Accts |-> FALSE]
  /\ procs = [a \in Accts |-> {}]
  /\ conf = [a \in Accts |-> NoV]
  /\ fin = [a \in Accts |-> NoV]
  /\ status = [s \in Slots |-> NoStatus]
  /\ sent = [a \in Accts |-> [x \in Slots \X Wvs |-> "-"]]
  /\ grown = 0
  /\ snap = [o |-> "-", vs |-> {}]
  /\ last = [ret |-> {}, ch |-> {}]

(* newest state is finalized, and is a deletion or not admitted any more *)
Droppable(a, pr, cf, fn) ==
  /\ fn # NoV
  /\ \A v \in pr \cup (IF cf = NoV THEN {} ELSE {cf}) : ~Newer(v, fn)
  /\ (~Alive(fn.k) \/ ~Admits(a, fn.k))

Unregister(st, as) == [s \in Slots |-> [st[s] EXCEPT !.r = @ \ as]]

(* result of applying version v of account a at level c to an account store state *)
ApplyUpdate(S, a, v, c) ==
  LET ent  == IF S.status[v.s].c = -1 THEN [c |-> 0, p |-> -1, r |-> {}] ELSE S.status[v.s]
      st1  == [S.status EXCEPT ![v.s] = [ent EXCEPT !.r = IF c < 2 THEN @ \cup {a} ELSE @]]
      eff  == IF c < 2 THEN Max2(c, ent.c) ELSE 2
  IN
  IF ~S.trk[a]
  THEN IF ~Admits(a, v.k)
       THEN [st |-> S, ret |-> FALSE]
       ELSE [st |-> [trk |-> [S.trk EXCEPT ![a] = TRUE],
                     procs |-> [S.procs EXCEPT ![a] = {v}],
                     conf |-> [S.conf EXCEPT ![a] = IF eff >= 1 THEN v ELSE NoV],
                     fin |-> [S.fin EXCEPT ![a] = IF eff >= 2 THEN v ELSE NoV],
                     status |-> st1],
             ret |-> TRUE]
  ELSE
    LET same == {x \in S.procs[a] : x.s = v.s}
        updP == \A x \in same : x.w < v.w
        pr   == IF updP THEN (S.procs[a] \ same) \cup {v} ELSE S.procs[a]
        newC == S.conf[a] = NoV \/ Newer(v, S.conf[a])
        newF == S.fin[a] = NoV \/ Newer(v, S.fin[a])
        cf   == IF eff >= 1 /\ newC THEN v ELSE S.conf[a]
        fn   == IF eff >= 2 /\ newF THEN v ELSE S.fin[a]
        upd  == updP \/ (eff = 1 /\ newC) \/ (eff = 2 /\ newF)
        drop == upd /\ eff = 2 /\ Droppable(a, pr, cf, fn)
    IN [st |-> [trk |-> [S.trk EXCEPT ![a] = ~drop],
                procs |-> [S.procs EXCEPT ![a] = IF drop THEN {} ELSE pr],
                conf |-> [S.conf EXCEPT ![a] = IF drop THEN NoV ELSE cf],
                fin |-> [S.fin EXCEPT ![a] = IF drop THEN NoV ELSE fn],
                status |-> IF drop THEN Unregister(st1, {a}) ELSE st1],
        ret |-> upd]

Become(S) == /\ trk' = S.trk /\ procs' = S.procs /\ conf' = S.conf
             /\ fin' = S.fin /\ status' = S.status

(***************************************************************************)
(* update_account: content of a (slot, write version) of an account never  *)
(* changes.                                                                *)
(***************************************************************************)
Update(a, s, w, k, c) ==
  /\ sent[a][<<s, w>>] \in {"-", k}
  /\ LET R == ApplyUpdate(Cur, a, [s |-> s, w |-> w, k |-> k], c) IN
     /\ Become(R.st)
     /\ last' = [ret |-> IF R.ret THEN {"true"} ELSE {}, ch |-> {}]
  /\ sent' = [sent EXCEPT ![a][<<s, w>>] = k]
  /\ UNCHANGED <<snap, grown>>

(***************************************************************************)
(* process_slot_data: walk from the notified slot over its ancestors.      *)
(* W: [st: statuses, m: [account -> slot in which it is promoted, or -1]]  *)
(***************************************************************************)
RECURSIVE Walk(_, _, _, _, _)
Walk(st, m, s, p, c) ==
  IF s = -1 THEN [st |-> st, m |-> m]
  ELSE IF st[s].c = -1
       THEN LET st1 == [st EXCEPT ![s] = [c |-> c, p |-> p, r |-> {}]] IN
            IF c > 0 THEN Walk(TLCEval(st1), m, p, -1, c) ELSE [st |-> st1, m |-> m]
       ELSE LET newParent == p # -1 /\ st[s].p = -1
                par == IF p # -1 THEN p ELSE st[s].p
                st1 == [st EXCEPT ![s].p = par]
            IN IF st[s].c >= c /\ ~newParent
               THEN [st |-> st1, m |-> m]
               ELSE LET st2 == [st1 EXCEPT ![s].c = Max2(@, c)]
                        m2  == [a \in Accts |-> IF m[a] = -1 /\ a \in st[s].r THEN s ELSE m[a]]
                    IN IF c > 0 THEN Walk(TLCEval(st2), TLCEval(m2), TLCEval(par), -1, c) ELSE [st |-> st2, m |-> m2]

(* versions dropped when the account is finalized at slot s: the older ones, but never all of them *)
Pop(pr, s) ==
  LET keep == {v \in pr : v.s >= s} IN IF keep # {} THEN keep ELSE {MaxV(pr)} \ {NoV}

(* result of the notification on store S: the store and the changes reported *)
ApplyNotify(S, s, p, c) ==
  LET W   == Walk(S.status, [a \in Accts |-> -1], s, p, c)
      st1 == IF c = 2 THEN [x \in Slots |-> IF x < s THEN NoStatus ELSE W.st[x]] ELSE W.st
      Prom(a) == IF W.m[a] = -1 THEN {} ELSE {v \in S.procs[a] : v.s = W.m[a]}
      \* accounts whose version at the level changes
      chg == {a \in Accts : /\ c > 0 /\ S.trk[a] /\ Prom(a) # {}
                            /\ LET v == MaxV(Prom(a))
                                   cur == IF c = 1 THEN S.conf[a] ELSE S.fin[a]
                               IN cur = NoV \/ Newer(v, cur)}
      cf == [a \in Accts |->
               IF c > 0 /\ Prom(a) # {} /\ (S.conf[a] = NoV \/ Newer(MaxV(Prom(a)), S.conf[a]))
               THEN MaxV(Prom(a)) ELSE S.conf[a]]
      fn == [a \in Accts |-> IF c = 2 /\ a \in chg THEN MaxV(Prom(a)) ELSE S.fin[a]]
      pr == [a \in Accts |-> IF c = 2 /\ W.m[a] # -1 THEN Pop(S.procs[a], W.m[a]) ELSE S.procs[a]]
      drop == {a \in chg : c = 2 /\ Droppable(a, pr[a], cf[a], fn[a])}
  IN [st |-> [trk |-> [a \in Accts |-> S.trk[a] /\ a \notin drop],
              procs |-> [a \in Accts |-> IF a \in drop THEN {} ELSE pr[a]],
              conf |-> [a \in Accts |-> IF a \in drop THEN NoV ELSE cf[a]],
              fin |-> [a \in Accts |-> IF a \in drop THEN NoV ELSE fn[a]],
              status |-> Unregister(st1, drop)],
      ch |-> {<<a, MaxV(Prom(a))>> : a \in chg}]

Notify(s, p, c) ==
  /\ p < s
  /\ LET R == ApplyNotify(Cur, s, p, c) IN
     /\ Become(R.st)
     /\ last' = [ret |-> {"-"}, ch |-> R.ch]
  /\ UNCHANGED <<sent, snap, grown>>

(***************************************************************************)
(* Snapshots of a program. Needs a query of all the accounts of the        *)
(* program to be covered.                                                  *)
(***************************************************************************)
TakeSnapshot(o) ==
  /\ Covers(o, {})
  /\ snap' = [o |-> o, vs |-> {<<a, fin[a]>> : a \in Gpa(o, {}, 2)}]
  /\ last' = [ret |-> {"-"}, ch |-> {}]
  /\ UNCHANGED <<trk, procs, conf, fin, status, sent, grown>>

(***************************************************************************)
(* Filters are added to the filter store shared with the running store:    *)
(* from then on updates matching them are admitted and queries covered.    *)
(***************************************************************************)
Grow ==
  /\ ~Configured.ex /\ grown < Len(Extras)
  /\ grown' = grown + 1
  /\ last' = [ret |-> {"-"}, ch |-> {}]
  /\ UNCHANGED <<trk, procs, conf, fin, status, sent, snap>>

RECURSIVE LoadAll(_, _)
LoadAll(S, vs) ==
  IF vs = {} THEN S
  ELSE LET x == CHOOSE y \in vs : TRUE
       IN LoadAll(ApplyUpdate(S, x[1], x[2], 2).st, vs \ {x})

(* the snapshot is loaded into the running store *)
LoadSnapshot ==
  /\ snap.o # "-"
  /\ Become(LoadAll(Cur, snap.vs))
  /\ last' = [ret |-> {"-"}, ch |-> {}]
  /\ UNCHANGED <<sent, snap, grown>>

Empty == [trk |-> [a \in Accts |-> FALSE], procs |-> [a \in Accts |-> {}],
          conf |-> [a \in Accts |-> NoV], fin |-> [a \in Accts |-> NoV],
          status |-> [s \in Slots |-> NoStatus]]

(* the process restarts: a fresh store loads the snapshot *)
Restart ==
  /\ snap.o # "-"
  /\ Become(LoadAll(Empty, snap.vs))
  /\ last' = [ret |-> {"-"}, ch |-> {}]
  /\ UNCHANGED <<sent, snap, grown>>

-----------------------------------------------------------------------------
Next ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels : Update(a, s, w, k, c)
  \/ \E s \in Slots, p \in Slots, c \in Levels : Notify(s, p, c)
  \/ \E o \in Progs : TakeSnapshot(o)
  \/ LoadSnapshot
  \/ Restart
  \/ Grow

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
TypeOK ==
  /\ \A a \in Accts : procs[a] \subseteq Version /\ (trk[a] = (procs[a] # {}))
  /\ \A a \in Accts : ~trk[a] => conf[a] = NoV /\ fin[a] = NoV
  /\ \A a \in Accts : Cardinality({v.s : v \in procs[a]}) = Cardinality(procs[a])
  /\ \A s \in Slots : status[s].c = -1 => status[s] = NoStatus

(* S03: levels are ordered *)
LevelsOrdered ==
  \A a \in Accts : trk[a] =>
    /\ ~Newer(State(a, 2), State(a, 1))
    /\ ~Newer(State(a, 1), State(a, 0))

(* S03: versions never go back while the account stays tracked *)
NeverBack ==
  [][\A a \in Accts : (trk[a] /\ trk'[a] /\ last'.ret # {"restart"}) =>
        \A l \in Levels : ~Newer(State(a, l), State(a, l)')]_vars


=============================================================================
