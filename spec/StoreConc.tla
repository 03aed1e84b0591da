----------------------------- MODULE StoreConc -----------------------------
(***************************************************************************)
(* Concurrent use of the account store.  An update takes effect at once; a *)
(* slot notification first changes the slots (Walk), then promotes the     *)
(* accounts written in them one after another, in any order, and then      *)
(* drops the accounts which are gone; reads and queries return, for every  *)
(* account, what was visible at some moment during the call.               *)
(***************************************************************************)
EXTENDS AccountStore

CONSTANTS Threads

VARIABLES
  th,    \* [Threads -> pending call, or Free]
  inc    \* [Accts -> how often the account was dropped]
cvars == <<trk, procs, conf, fin, status, th, inc>>

(* pending calls: op, done (the effect of an update took place, a notification changed the slots),  *)
(* todo: <<account, slot, incarnation>> to be promoted, drop: accounts perhaps to be dropped, ch: reported, *)
(* seen: for reads, what was visible since the call *)
Free == [op |-> [t |-> "-"], done |-> FALSE, todo |-> {}, drop |-> {}, ch |-> {}, ret |-> FALSE,
         seen |-> [a \in Accts |-> {}]]
IsRead(op) == op.t \in {"g", "q"}

Visible(S, op, a) ==
  IF op.t = "g" THEN (IF op.a = a THEN ReadS(S, a, op.l) ELSE NoV)
  ELSE LET v == ReadS(S, a, op.l) IN
       IF v # NoV /\ Owner(v.k) = op.o /\ SatAll(v.k, Queries[op.i]) THEN v ELSE NoV

CInit == /\ trk = [a \in Accts |-> FALSE] /\ procs = [a \in Accts |-> {}]
         /\ conf = [a \in Accts |-> NoV] /\ fin = [a \in Accts |-> NoV]
         /\ status = [s \in Slots |-> NoStatus]
         /\ th = [x \in Threads |-> Free] /\ inc = [a \in Accts |-> 0]
         /\ sent = <<>> /\ snap = <<>> /\ last = <<>> /\ grown = 0
Unused == UNCHANGED <<sent, snap, last, grown>>

(* reads in progress see the new state S as well *)
Seeing(S, t2) == [x \in Threads |-> IF ~IsRead(t2[x].op) THEN t2[x]
                    ELSE [t2[x] EXCEPT !.seen = [a \in Accts |-> @[a] \cup {Visible(S, t2[x].op, a)}]]]
Become2(S, t2) == Become(S) /\ th' = Seeing(S, t2)

Call(x, op) ==
  /\ th[x] = Free
  /\ th' = [th EXCEPT ![x] = [Free EXCEPT !.op = op,
                                          !.seen = IF IsRead(op) THEN [a \in Accts |-> {Visible(Cur, op, a)}] ELSE [a \in Accts |-> {}]]]
  /\ UNCHANGED <<trk, procs, conf, fin, status, inc>> /\ Unused

DoUpdate(x) ==
  /\ th[x].op.t = "u" /\ ~th[x].done
  /\ LET op == th[x].op
         R == TLCEval(ApplyUpdate(Cur, op.a, [s |-> op.s, w |-> op.w, k |-> op.k], op.c))
     IN /\ Become2(R.st, [th EXCEPT ![x].done = TRUE, ![x].ret = R.ret])
        /\ inc' = IF trk[op.a] /\ ~R.st.trk[op.a] THEN [inc EXCEPT ![op.a] = @ + 1] ELSE inc
  /\ Unused

DoWalk(x) ==
  /\ th[x].op.t = "n" /\ ~th[x].done
  /\ LET op == th[x].op
         W == TLCEval(Walk(status, [a \in Accts |-> -1], op.s, op.p, op.c))
     IN /\ status' = IF op.c = 2 THEN [s \in Slots |-> IF s < op.s THEN NoStatus ELSE W.st[s]] ELSE W.st
        /\ th' = [th EXCEPT ![x].done = TRUE,
                            ![x].todo = IF op.c = 0 THEN {} ELSE {<<a, W.m[a], inc[a]>> : a \in {b \in Accts : W.m[b] # -1}}]
  /\ UNCHANGED <<trk, procs, conf, fin, inc>> /\ Unused

DoPromote(x) ==
  \E y \in th[x].todo :
  LET a == y[1]
      c == th[x].op.c
      same == trk[a] /\ inc[a] = y[3]
      prom == IF same THEN {v \in procs[a] : v.s = y[2]} ELSE {}
      v == MaxV(prom)
      cur == IF c = 1 THEN conf[a] ELSE fin[a]
      chg == prom # {} /\ (cur = NoV \/ Newer(v, cur))
      S == TLCEval([Cur EXCEPT
             !.conf = IF prom # {} /\ (conf[a] = NoV \/ Newer(v, conf[a])) THEN [@ EXCEPT ![a] = v] ELSE @,
             !.fin = IF c = 2 /\ chg THEN [@ EXCEPT ![a] = v] ELSE @,
             !.procs = IF c = 2 /\ same THEN [@ EXCEPT ![a] = Pop(@, y[2])] ELSE @])
  IN /\ Become2(S, [th EXCEPT ![x].todo = @ \ {y},
                              ![x].ch = IF chg THEN @ \cup {<<a, v>>} ELSE @,
                              ![x].drop = IF chg /\ c = 2 /\ Droppable(a, S.procs[a], S.conf[a], S.fin[a]) THEN @ \cup {a} ELSE @])
     /\ UNCHANGED inc /\ Unused

DoDrop(x) ==
  /\ th[x].todo = {}
  /\ \E a \in th[x].drop :
     LET d == trk[a] /\ Droppable(a, procs[a], conf[a], fin[a])
         S == IF d THEN [trk |-> [trk EXCEPT ![a] = FALSE], procs |-> [procs EXCEPT ![a] = {}], conf |-> [conf EXCEPT ![a] = NoV],
                         fin |-> [fin EXCEPT ![a] = NoV], status |-> Unregister(status, {a})]
              ELSE Cur
     IN /\ Become2(S, [th EXCEPT ![x].drop = @ \ {a}])
        /\ inc' = IF d THEN [inc EXCEPT ![a] = @ + 1] ELSE inc
  /\ Unused

Step(x) == DoUpdate(x) \/ DoWalk(x) \/ DoPromote(x) \/ DoDrop(x)

Finished(x) == LET p == th[x] IN
  CASE p.op.t = "u" -> p.done
    [] p.op.t = "n" -> p.done /\ p.todo = {} /\ p.drop = {}
    [] OTHER -> TRUE
Return(x) ==
  /\ th[x] # Free /\ Finished(x)
  /\ th' = [th EXCEPT ![x] = Free]
  /\ UNCHANGED <<trk, procs, conf, fin, status, inc>> /\ Unused

-----------------------------------------------------------------------------
(* the design: any calls *)
CONSTANTS Ops, MaxOps      \* names of calls which are made, at most MaxOps calls
VARIABLES n, root     \* calls made; greatest slot finalized
Up(a, s, w, k, c) == [t |-> "u", a |-> a, s |-> s, w |-> w, k |-> k, c |-> c]
No(s, p, c) == [t |-> "n", s |-> s, p |-> p, c |-> c]
AllOps == [u10 |-> Up("a", 1, 0, "p1", 0), u11 |-> Up("a", 1, 1, "p2", 0), u20 |-> Up("a", 2, 0, "p1", 0), u2c |-> Up("a", 2, 0, "p1", 1),
           d20 |-> Up("a", 2, 0, "ds", 0), d1f |-> Up("a", 1, 0, "ds", 2), r10 |-> Up("a", 1, 0, "r1", 0), r2f |-> Up("a", 2, 0, "r1", 2),
           b10 |-> Up("b", 1, 0, "p1", 0), b2f |-> Up("b", 2, 0, "p2", 2),
           n1p |-> No(1, 0, 0), n1c |-> No(1, 0, 1), n1f |-> No(1, 0, 2), n2p |-> No(2, 1, 0), n2c |-> No(2, 1, 1), n2f |-> No(2, 1, 2),
           n2x |-> No(2, 0, 2)]
MCInit == CInit /\ n = 0 /\ root = -1
MCNext ==
  \/ n < MaxOps /\ n' = n + 1 /\ UNCHANGED root /\ \E x \in Threads, o \in Ops : Call(x, AllOps[o])
  \/ n' = n /\ \E x \in Threads :
       /\ Step(x) \/ Return(x)
       /\ root' = IF th[x].op.t = "n" /\ th[x].op.c = 2 /\ th'[x].done THEN Max2(root, th[x].op.s) ELSE root
MCSpec == MCInit /\ [][MCNext]_<<cvars, sent, snap, last, grown, n, root>>

Quiet == \A x \in Threads : th[x] = Free
(* no promotion is lost: once nothing is pending, versions of slots known with a level have it; *)
(* versions of slots below the finalized one may arrive too late to be promoted *)
NothingLost ==
  Quiet => \A a \in Accts : \A v \in {x \in procs[a] : x.s >= root} :
    /\ (status[v.s].c >= 1 /\ a \in status[v.s].r) => conf[a] # NoV /\ ~Newer(v, conf[a])
    /\ (status[v.s].c = 2 /\ a \in status[v.s].r) => fin[a] # NoV /\ ~Newer(v, fin[a])
NothingGone == Quiet => \A a \in Accts : trk[a] => ~Droppable(a, procs[a], conf[a], fin[a])
CNeverBack == [][\A a \in Accts : (trk[a] /\ trk'[a]) => \A l \in Levels : ~Newer(State(a, l), State(a, l)')]_cvars
CTypeOK == \A a \in Accts : trk[a] = (procs[a] # {})
=============================================================================
