---------------------------- MODULE GenDispatch ----------------------------
(* Behaviours of AccountStore in any order, with what the single store      *)
(* shows (GenStore) and what the partitioned storage shows (Dispatch).      *)
(* They differ only for late updates of a previous owner; the code has to   *)
(* agree with one of them in every answer.                                  *)
EXTENDS GenStore

CONSTANTS Topo
VARIABLES part, act, rep, dh
D == INSTANCE Dispatch WITH MaxDepth <- 0
dgvars == <<gvars, part, act, rep, dh>>

DRd == TLCEval([a \in Accts |-> TLCEval([l \in 1..3 |-> Id(D!PRead(a, l - 1))])])
DG == [o \in Progs |-> [i \in 1..Len(Queries) |-> [l \in 1..3 |-> D!PGpa(o, Queries[i], l - 1)]]]
DObs == IF ObsGpa THEN [rd |-> DRd, g |-> DG] ELSE [rd |-> DRd]

PartAfter(op) ==
  [x \in D!Parts |->
     CASE op.t = "u" -> D!PUpd(x, op.a, [s |-> op.s, w |-> op.w, k |-> op.k], op.c).st
       [] op.t = "n" -> D!PNot(x, op.s, op.p, op.c).st
       [] op.t = "restart" -> IF x = D!Home(snap.o) THEN D!PLoad(x, snap.vs) ELSE Empty
       [] OTHER -> part[x]]
Ret(op) == op.t = "u" /\ \E x \in D!Parts : D!PUpd(x, op.a, [s |-> op.s, w |-> op.w, k |-> op.k], op.c).ret
Chg(op) == IF op.t = "n" THEN D!Merge(UNION {D!PNot(x, op.s, op.p, op.c).ch : x \in D!Parts}) ELSE {}

Also ==
  LET op == hist'[Len(hist')].op IN
  /\ part' = PartAfter(op)
  /\ dh' = Append(dh, [ret |-> Ret(op), ch |-> {<<x[1], Id(x[2])>> : x \in Chg(op)}, pre |-> DObs])
  /\ UNCHANGED <<act, rep>>

(* a snapshot is the one both agree on *)
SameSnap(o) == {<<a, fin[a]>> : a \in Gpa(o, {}, 2)} = {<<a, ReadS(part[D!Home(o)], a, 2)>> : a \in D!PGpa(o, {}, 2)}
DTake == WithSnap /\ \E o \in Pick(Progs) : SameSnap(o) /\ TS(o)

DNextAny ==
  \/ (SimUpdate({0}) /\ Also) \/ (SimUpdate({0, 1}) /\ Also) \/ (SimUpdate({0, 1, 2}) /\ Also)
  \/ (SimNotify(0) /\ Also) \/ (SimNotify(1) /\ Also) \/ (SimNotifyNext(2) /\ Also)
  \/ (DTake /\ Also) \/ (SimRestart /\ Also)
DNextChain ==
  \/ (SimUpdateTip /\ Also) \/ (SimUpdateTip /\ Also) \/ (SimUpdate({0}) /\ Also) \/ (SimUpdate({0, 1, 2}) /\ Also)
  \/ (SimNotifyNext(0) /\ Also) \/ (SimNotifyNext(1) /\ Also) \/ (SimNotifyNext(2) /\ Also) \/ (SimNotify(0) /\ Also)
  \/ (DTake /\ Also) \/ (SimRestart /\ Also)
DNextOrd ==
  \/ (SimUpdateOrd /\ Also) \/ (SimUpdateOrd /\ Also) \/ (SimUpdateOrd /\ Also)
  \/ (SimNotifyNext(0) /\ Also) \/ (SimNotify(0) /\ Also) \/ (SimNotify(1) /\ Also) \/ (SimNotifyNext(1) /\ Also) \/ (SimNotifyNext(2) /\ Also)
  \/ (DTake /\ Also) \/ (SimRestart /\ Also)

DGInit == GInit /\ part = [x \in D!Parts |-> Empty] /\ act = [t |-> "-"] /\ rep = [ret |-> {}, ch |-> {}] /\ dh = <<>>
EmitD == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson([cfg |-> FilterCfg, extra |-> Extra, h |-> hist, obs |-> Obs, dh |-> dh, dobs |-> DObs]))
=============================================================================
