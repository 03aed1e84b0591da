------------------------------ MODULE TokenConc ------------------------------
(***************************************************************************)
(* Concurrent use of the token storage.  Updates are looked at and then    *)
(* inserted; notifications move the finalized slot, link the slot, move    *)
(* the confirmed slot and, with the pending states locked, save finalized  *)
(* accounts one after another before the slots disappear.  Reads return,   *)
(* for every account, what was visible at some moment during the call; how *)
(* reads are done (confirmed slot, pending states, finalized states) is    *)
(* part of the design and checked against that.                            *)
(***************************************************************************)
EXTENDS TokenStore

CONSTANTS
  Threads,
  LateCheck,   \* "inside": updates are compared with the finalized slot when they are inserted; "before": earlier
  ConfLoad     \* "inside": reads take the confirmed slot together with the pending states; "before": earlier

VARIABLES
  th,       \* [Threads -> pending call, or Free]
  lock      \* thread which holds the pending states, or 0
cvars == <<here, parent, pend, fin, confS, finS, known, sent, th, lock>>
Unused == UNCHANGED <<snap, newest, last>>

(* pending calls: op, pc; todo: accounts to be saved; ch: reported; ret: result of an update; *)
(* seen: for reads, what was visible since the call; nop: accounts which had no pending state at some moment since; *)
(* cs, got: confirmed slot and result of a read; base: what was visible at the call *)
Nothing == [a \in Accts |-> {}]
Free == [op |-> [t |-> "-"], pc |-> 0, todo |-> {}, ch |-> {}, ret |-> FALSE, seen |-> Nothing, nop |-> {}, cs |-> 0, got |-> Nothing,
         base |-> [a \in Accts |-> NoV]]
IsRead(op) == op.t \in {"g", "q"}

Cur == [here |-> here, parent |-> parent, pend |-> pend, fin |-> fin, confS |-> confS, finS |-> finS, known |-> known]
Become(S) ==
  /\ here' = S.here /\ parent' = S.parent /\ pend' = S.pend /\ fin' = S.fin
  /\ confS' = S.confS /\ finS' = S.finS /\ known' = S.known

PendingS(S, cs, a, l) ==
  LET above == NewestIn(S.pend, {s \in Slots : S.here[s] /\ s > cs}, a)
      chain == NewestIn(S.pend, ChainOf(S.here, S.parent, cs), a)
  IN IF l = 0 /\ above # NoV THEN above ELSE IF l <= 1 THEN chain ELSE NoV
Pair(a, v, f) == IF v # NoV /\ Exists(Kind(a, v)) THEN <<v, f>> ELSE <<NoV, FALSE>>
(* what a read of store S returns for account a: version and whether it is the finalized state *)
Match(op, a, x) ==
  IF op.t = "g" THEN op.a = a
  ELSE x[1] # NoV /\ LET k == Kind(a, x[1]) IN KindInfo(k).o = op.o /\ \A c \in Queries[op.i] : Sat(k, c)
Asked(op, a, x) == IF Match(op, a, x) THEN x ELSE <<NoV, FALSE>>
(* a read first looks for a pending state and then for the finalized one, so what counts is                         *)
(* a pending state at some moment, or, if there was none at some moment, a finalized state then or later in the call *)
See(S, lk, p) ==
  LET op == p.op
      pd == [a \in Accts |-> IF op.t = "g" /\ op.a # a THEN NoV ELSE PendingS(S, S.confS, a, op.l)]
      np == IF lk # 0 THEN p.nop ELSE p.nop \cup {a \in Accts : pd[a] = NoV}
  IN [p EXCEPT !.nop = np,
               !.seen = [a \in Accts |-> @[a] \cup (IF lk = 0 /\ pd[a] # NoV THEN {Asked(op, a, Pair(a, pd[a], FALSE))} ELSE {})
                                              \cup (IF a \in np \/ op.l = 2 THEN {Asked(op, a, Pair(a, S.fin[a], TRUE))} ELSE {})]]
Seeing(S, lk, t2) == [x \in Threads |-> IF IsRead(t2[x].op) THEN See(S, lk, t2[x]) ELSE t2[x]]
To3(S, t2, lk) == Become(S) /\ th' = Seeing(S, lk, t2) /\ lock' = lk /\ Unused /\ UNCHANGED sent
To(S, t2) == To3(S, t2, lock)

StateAt(a, l) == LET p == PendingS(Cur, confS, a, l) IN IF p # NoV THEN p ELSE fin[a]

CInit == /\ Init /\ th = [x \in Threads |-> Free] /\ lock = 0

Call(x, op) ==
  /\ th[x] = Free
  /\ sent' = IF op.t = "u" THEN [sent EXCEPT ![op.a][<<op.s, op.w>>] = op.k] ELSE sent
  /\ th' = [th EXCEPT ![x] = IF IsRead(op) THEN See(Cur, lock, [Free EXCEPT !.op = op, !.base = [a \in Accts |-> StateAt(a, op.l)]])
                             ELSE [Free EXCEPT !.op = op]]
  /\ UNCHANGED <<here, parent, pend, fin, confS, finS, known, lock>> /\ Unused

Done == 9
At(x, pc) == [th EXCEPT ![x].pc = pc]

(* updates *)
DoLook(x) ==
  LET op == th[x].op
      accepted == (OfToken(op.k) \/ Known(op.a)) /\ KindInfo(op.k).ty # "b"
      late == LateCheck = "before" /\ op.c < 2 /\ op.s < finS
  IN /\ th[x].pc = 0
     /\ To([Cur EXCEPT !.known = IF accepted THEN KnownWith(@, op.a, op.k, FALSE) ELSE @],
           At(x, IF accepted /\ ~late THEN 1 ELSE Done))
DoInsert(x) ==
  LET op == th[x].op
      ins == ~(LateCheck = "inside" /\ op.s < finS) /\ (here[op.s] => pend[op.s][op.a] < op.w)
  IN /\ th[x].pc = 1 /\ op.c < 2 /\ lock = 0
     /\ To(IF ins THEN [Cur EXCEPT !.here[op.s] = TRUE, !.pend[op.s][op.a] = op.w] ELSE Cur,
           [th EXCEPT ![x].pc = Done, ![x].ret = ins])
Save(S, a, v) == [S EXCEPT !.fin = Saved(@, a, v, Kind(a, v)), !.known = KnownWith(@, a, Kind(a, v), TRUE)]
DoSaveDirect(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 1 /\ op.c = 2
  /\ To(Save(Cur, op.a, [s |-> op.s, w |-> op.w]), [th EXCEPT ![x].pc = Done, ![x].ret = TRUE])

(* notifications *)
DoFinSlot(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 0 /\ op.c = 2
  /\ To([Cur EXCEPT !.finS = Max2(@, op.s)], At(x, IF finS > op.s THEN Done ELSE 1))
DoLink(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = (IF op.c = 2 THEN 1 ELSE 0) /\ lock = 0
  /\ To([Cur EXCEPT !.here[op.s] = TRUE, !.parent[op.s] = op.p], At(x, IF op.c = 0 THEN Done ELSE 2))
DoConfSlot(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 2
  /\ To([Cur EXCEPT !.confS = Max2(@, op.s)], At(x, 3))
(* accounts of a confirmed slot, which is linked again if it was finalized meanwhile *)
DoList(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 3 /\ op.c = 1 /\ lock = 0
  /\ To(Cur, [th EXCEPT ![x].pc = IF here[op.s] THEN Done ELSE 4,
                        ![x].ch = IF here[op.s] THEN Existing({<<a, NewestIn(pend, {op.s}, a)>> : a \in Accts}) ELSE {}])
DoRelink(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 4 /\ op.c = 1 /\ lock = 0
  /\ To([Cur EXCEPT !.here[op.s] = TRUE, !.parent[op.s] = op.p], At(x, Done))
DoLock(x) ==
  LET op == th[x].op
      ch == ChainOf(here, parent, op.s)
      new == {<<a, NewestIn(pend, ch, a)>> : a \in Accts}
  IN /\ th[x].pc = 3 /\ op.c = 2 /\ lock = 0
     /\ To3(Cur, [th EXCEPT ![x].pc = 4, ![x].todo = {y \in new : y[2] # NoV}, ![x].ch = Existing(new)], x)
DoSave(x) ==
  /\ th[x].pc = 4 /\ th[x].op.c = 2
  /\ \E y \in th[x].todo : To(Save(Cur, y[1], y[2]), [th EXCEPT ![x].todo = @ \ {y}])
DoUnlock(x) ==
  LET s == th[x].op.s IN
  /\ th[x].pc = 4 /\ th[x].op.c = 2 /\ th[x].todo = {}
  /\ To3([Cur EXCEPT !.here = [y \in Slots |-> @[y] /\ y > s],
                    !.parent = [y \in Slots |-> IF y > s THEN @[y] ELSE -1],
                    !.pend = [y \in Slots |-> IF y > s THEN @[y] ELSE [a \in Accts |-> -1]]],
        At(x, Done), 0)

(* other accounts were written in the slot *)
DoOther(x) == th[x].pc = 0 /\ To([Cur EXCEPT !.here[th[x].op.s] = TRUE], At(x, Done))

Step(x) ==
  CASE th[x].op.t = "e" -> DoOther(x)
    [] th[x].op.t = "u" -> DoLook(x) \/ DoInsert(x) \/ DoSaveDirect(x)
    [] th[x].op.t = "n" -> DoFinSlot(x) \/ DoLink(x) \/ DoConfSlot(x) \/ DoList(x) \/ DoRelink(x) \/ DoLock(x) \/ DoSave(x) \/ DoUnlock(x)
    [] OTHER -> FALSE
Return(x) ==
  /\ th[x] # Free
  /\ IsRead(th[x].op) \/ th[x].pc = Done
  /\ th' = [th EXCEPT ![x] = Free]
  /\ UNCHANGED <<here, parent, pend, fin, confS, finS, known, sent, lock>> /\ Unused

-----------------------------------------------------------------------------
(* how reads are done: the confirmed slot, the pending states, then the finalized states of each account *)
RPending(x) ==
  LET op == th[x].op IN
  /\ \/ (th[x].pc = 1 /\ ConfLoad = "before") \/ (th[x].pc = 0 /\ ConfLoad = "inside")
  /\ lock = 0
  /\ LET cs == IF ConfLoad = "before" THEN th[x].cs ELSE confS IN
     th' = [th EXCEPT ![x].pc = 2,
                      ![x].got = [a \in Accts |-> LET p == PendingS(Cur, cs, a, op.l) IN
                                     IF p # NoV THEN {Asked(op, a, Pair(a, p, FALSE))} ELSE {}]]
RConf(x) == th[x].pc = 0 /\ ConfLoad = "before" /\ th' = [th EXCEPT ![x].pc = 1, ![x].cs = confS]
RFinal(x) ==
  LET op == th[x].op IN
  /\ th[x].pc = 2 /\ \E a \in Accts : th[x].got[a] = {}
  /\ th' = LET a == CHOOSE b \in Accts : th[x].got[b] = {}
           IN [th EXCEPT ![x].got[a] = {Asked(op, a, Pair(a, fin[a], TRUE))}]
RDone(x) == th[x].pc = 2 /\ (\A a \in Accts : th[x].got[a] # {}) /\ th' = At(x, Done)
ReadStep(x) ==
  /\ IsRead(th[x].op)
  /\ RConf(x) \/ RPending(x) \/ RFinal(x) \/ RDone(x)
  /\ UNCHANGED <<here, parent, pend, fin, confS, finS, known, sent, lock>> /\ Unused

-----------------------------------------------------------------------------
CONSTANTS
  Ops, MaxOps,     \* names of calls which are made, at most MaxOps calls
  Linked           \* all slots are known from the start, as one chain
VARIABLE n
Up(a, s, w, k, c) == [t |-> "u", a |-> a, s |-> s, w |-> w, k |-> k, c |-> c]
No(s, p, c) == [t |-> "n", s |-> s, p |-> p, c |-> c]
AllOps == [u1 |-> Up("a", 1, 0, "t11", 0), u2 |-> Up("a", 2, 0, "t21", 0), u3 |-> Up("a", 3, 0, "t11", 0), d2 |-> Up("a", 2, 0, "ds", 0),
           b1 |-> Up("b", 1, 0, "x11", 0), b2 |-> Up("b", 2, 0, "x22", 0), i1 |-> Up("m1", 1, 0, "mi", 0), i2 |-> Up("m1", 2, 0, "dt", 0),
           f1 |-> Up("a", 1, 0, "t12", 2),
           n1p |-> No(1, 0, 0), n2p |-> No(2, 1, 0), n3p |-> No(3, 2, 0), n3x |-> No(3, 1, 0),
           n1c |-> No(1, 0, 1), n2c |-> No(2, 1, 1), n3c |-> No(3, 2, 1), n3y |-> No(3, 1, 1),
           n1f |-> No(1, 0, 2), n2f |-> No(2, 1, 2), n3f |-> No(3, 2, 2), n3z |-> No(3, 1, 2),
           ga0 |-> [t |-> "g", a |-> "a", l |-> 0], ga1 |-> [t |-> "g", a |-> "a", l |-> 1], ga2 |-> [t |-> "g", a |-> "a", l |-> 2],
           gm1 |-> [t |-> "g", a |-> "m1", l |-> 1],
           q1 |-> [t |-> "q", o |-> "T", i |-> 1, l |-> 1], q0 |-> [t |-> "q", o |-> "T", i |-> 1, l |-> 0]]
LInit ==
  /\ here = [s \in Slots |-> TRUE] /\ parent = [s \in Slots |-> s - 1]
  /\ pend = [s \in Slots |-> [a \in Accts |-> -1]] /\ fin = [a \in Accts |-> NoV]
  /\ confS = 0 /\ finS = 0 /\ known = {}
  /\ sent = [a \in Accts |-> [x \in Slots \X Wvs |-> "-"]]
  /\ snap = [o |-> "-", vs |-> {}, kn |-> {}] /\ newest = [a \in Accts |-> NoV] /\ last = [ret |-> FALSE, ch |-> {}]
  /\ th = [x \in Threads |-> Free] /\ lock = 0
MCInit == (IF Linked THEN LInit ELSE CInit) /\ n = 0
MCNext ==
  \/ n < MaxOps /\ n' = n + 1 /\ \E x \in Threads, o \in Ops : Call(x, AllOps[o])
  \/ n' = n /\ \E x \in Threads : Step(x) \/ ReadStep(x) \/ (th[x].pc = Done /\ Return(x))
MCSpec == MCInit /\ [][MCNext]_<<vars, th, lock, n>>

(* reads return what was current at some moment *)
ReadsCurrent == \A x \in Threads : (IsRead(th[x].op) /\ th[x].pc = Done) => \A a \in Accts : th[x].got[a] \subseteq th[x].seen[a]
(* nothing goes back (if slots are on one chain) *)
FinNeverBack == [][\A a \in Accts : (fin[a] # NoV /\ fin'[a] # NoV) => ~Newer(fin[a], fin'[a])]_fin
ConfNeverBack == [][Linked => \A a \in Accts : (StateAt(a, 1) # NoV /\ StateAt(a, 1)' # NoV) => ~Newer(StateAt(a, 1), StateAt(a, 1)')]_<<here, parent, pend, fin, confS>>
(* reads do not return older states than what was visible before, and do not miss existing accounts *)
Deletes == \E o \in Ops : AllOps[o].t = "u" /\ AllOps[o].k \in {"ds", "dt"}
NotOlder == Linked => \A x \in Threads : (IsRead(th[x].op) /\ th[x].pc = Done) =>
  \A a \in Accts : \A y \in th[x].got[a] :
    /\ y[1] # NoV => ~Newer(th[x].base[a], y[1])
    /\ (th[x].op.t = "g" /\ a = th[x].op.a /\ th[x].base[a] # NoV /\ ~Deletes) => y[1] # NoV
LockHeld == lock # 0 => th[lock].op.t = "n" /\ th[lock].pc = 4
Quiet == \A x \in Threads : th[x] = Free
(* nothing written in finalized slots is left behind *)
NothingLeft == (Quiet /\ lock = 0) => \A s \in Slots, a \in Accts : (pend[s][a] # -1 /\ s < finS) => FALSE
=============================================================================
