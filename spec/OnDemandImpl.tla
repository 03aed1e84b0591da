---------------------------- MODULE OnDemandImpl ----------------------------
(***************************************************************************)
(* The design of the on demand storage: what callers do between two locks, *)
(* the source, the updates.  Every observable event is passed to the       *)
(* monitor OnDemand; it must never object.                                 *)
(***************************************************************************)
EXTENDS OnDemand, Json

CONSTANTS
  Requests,     \* requests the callers make
  Configured,   \* filters from the beginning
  MaxCalls, MaxUpdates, MaxFails,
  Mode, Depth   \* "mc": check; "sim": behaviours for the replay, Depth environment steps

VARIABLES
  pc,        \* [Callers -> idle, read, lock, sub, filter, load, done, wait, fin, ret]
  req, lvl, res,
  lockA, lockG,              \* caller holding the lock of the loading accounts / queries, or 0
  loadA, loadG,              \* requests in loading
  fils,                      \* filters in place
  failA, failG,              \* subscribed but not loaded
  loadedG,                   \* loaded queries
  st,                        \* the storage: [Accts -> [p, f]]
  world, clock,              \* versions at the source
  gen, waits,                \* number of loads started so far, [Callers -> load waited for]: the number and its request
  left,                      \* [Callers -> accounts still to be delivered]
  ncalls, nups, nfails,
  m, bad,                    \* monitor
  hist                       \* environment steps
ivars == <<pc, req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

NoRes == [t |-> "-"]

AllReqs == [acc_a |-> AKey("a"), acc_b |-> AKey("b"), acc_c |-> AKey("c"), acc_d |-> AKey("d"), acc_q |-> AKey("q"), acc_n |-> AKey("n"),
            P |-> GKey("P", {}), Pd |-> GKey("P", {"d1"}), Ph |-> GKey("P", {"h1"}), Pdh |-> GKey("P", {"d1", "h1"}),
            Q |-> GKey("Q", {}), Qd |-> GKey("Q", {"d1"})]
Reqs == {AllReqs[n] : n \in Requests}
Cfg == {AllReqs[n] : n \in Configured}

Init ==
  /\ pc = [c \in Callers |-> "idle"]
  /\ req = [c \in Callers |-> AKey("n")]
  /\ lvl = [c \in Callers |-> "p"]
  /\ res = [c \in Callers |-> NoRes]
  /\ lockA = 0 /\ lockG = 0 /\ loadA = {} /\ loadG = {}
  /\ fils = Cfg /\ failA = {} /\ failG = {} /\ loadedG = {k \in Cfg : k.k = "g"}
  /\ st = [a \in Accts |-> [p |-> 0, f |-> 0]]
  /\ world = [a \in Accts |-> IF a = "n" \/ (Mode = "mc" /\ a = "b") THEN 0 ELSE 1]
  /\ clock = 2 /\ gen = 1 /\ waits = [c \in Callers |-> <<AKey("n"), 0>>]
  /\ left = [c \in Callers |-> {}]
  /\ ncalls = 0 /\ nups = 0 /\ nfails = 0
  /\ m = M0(Cfg) /\ bad = ""
  /\ hist = <<>>

Emit(e) == bad' = Check(m, e) /\ m' = After(m, e)
Silent == UNCHANGED <<m, bad>>
IsA(c) == req[c].k = "a"
Go(c, where) == pc' = [pc EXCEPT ![c] = where]

Read(c) == LET a == req[c].a IN IF lvl[c] = "p" THEN st[a].p ELSE st[a].f
ReadRes(c) == [t |-> "acc", v |-> Read(c)]
GpaRes(c) ==
  LET S == {a \in Accts : Match(req[c], a) /\ (IF lvl[c] = "p" THEN st[a].p ELSE st[a].f) # 0} IN
  [t |-> "gpa", v |-> [a \in S |-> IF lvl[c] = "p" THEN st[a].p ELSE st[a].f]]
Error(x) == [t |-> "err", err |-> x, ms |-> 0]
Finish(c, r) == pc' = [pc EXCEPT ![c] = "ret"] /\ res' = [res EXCEPT ![c] = r]

AccountLoaded(k) == k \in fils /\ k \notin failA
GpaLoaded(k) == \/ \E L \in loadedG : Covers(L, k)
                \/ (\E L \in fils : Covers(L, k)) /\ ~\E F \in failG : Covers(F, k)
Covering(c) == {L \in loadG : Covers(L[1], req[c])}
Mine(c) == <<req[c], gen>>
EntryA(k) == {L \in loadA : L[1] = k}
EntryG(k) == {L \in loadG : L[1] = k}

(* ---- internal steps of a caller *)
FirstRead(c) ==      \* get_account looks into the storage first, a query starts with the lock
  /\ pc[c] = "read" /\ Silent
  /\ IF IsA(c) /\ Read(c) # 0 THEN Finish(c, ReadRes(c))
     ELSE Go(c, "lock") /\ UNCHANGED res
  /\ UNCHANGED <<req, lvl, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

LockA(c) ==
  /\ pc[c] = "lock" /\ IsA(c) /\ lockA = 0
  /\ IF EntryA(req[c]) # {}
     THEN Go(c, "wait") /\ Silent /\ waits' = [waits EXCEPT ![c] = CHOOSE L \in EntryA(req[c]) : TRUE] /\ UNCHANGED <<lockA, loadA, gen>>
     ELSE IF AccountLoaded(req[c]) THEN Go(c, "fin") /\ Silent /\ UNCHANGED <<lockA, loadA, gen, waits>>
     ELSE /\ Go(c, "sub") /\ lockA' = c /\ loadA' = loadA \cup {Mine(c)} /\ gen' = gen + 1
          /\ Emit([e |-> "ss", k |-> req[c]]) /\ UNCHANGED waits
  /\ UNCHANGED <<req, lvl, res, lockG, loadG, fils, failA, failG, loadedG, st, world, clock, left, ncalls, nups, nfails>>

LockG(c) ==
  /\ pc[c] = "lock" /\ ~IsA(c) /\ lockG = 0
  /\ IF (\E L \in loadedG : Covers(L, req[c])) \/ (Covering(c) = {} /\ GpaLoaded(req[c]))
     THEN Go(c, "fin") /\ Silent /\ UNCHANGED <<lockG, loadG, gen, waits>>
     ELSE IF Covering(c) # {}
     THEN Go(c, "wait") /\ Silent /\ (\E L \in Covering(c) : waits' = [waits EXCEPT ![c] = L]) /\ UNCHANGED <<lockG, loadG, gen>>
     ELSE /\ Go(c, "sub") /\ lockG' = c /\ loadG' = loadG \cup {Mine(c)} /\ gen' = gen + 1
          /\ Emit([e |-> "ss", k |-> req[c]]) /\ UNCHANGED waits
  /\ UNCHANGED <<req, lvl, res, lockA, loadA, fils, failA, failG, loadedG, st, world, clock, left, ncalls, nups, nfails>>

AddFilter(c) ==      \* then the load starts
  /\ pc[c] = "filter" /\ Go(c, "load")
  /\ fils' = fils \cup {req[c]}
  /\ left' = [left EXCEPT ![c] = {a \in Accts : Match(req[c], a)}]
  /\ Emit([e |-> "ls", k |-> req[c]])
  /\ UNCHANGED <<req, lvl, res, lockA, lockG, loadA, loadG, failA, failG, loadedG, st, world, clock, gen, waits, ncalls, nups, nfails>>

Loaded(c) ==         \* the load returned
  /\ pc[c] \in {"loaded", "notloaded"} /\ Silent
  /\ IF IsA(c)
     THEN /\ lockA = 0 /\ loadA' = loadA \ EntryA(req[c])
          /\ failA' = IF pc[c] = "loaded" THEN failA \ {req[c]} ELSE failA \cup {req[c]}
          /\ UNCHANGED <<loadG, failG, loadedG>>
     ELSE /\ lockG = 0 /\ loadG' = loadG \ EntryG(req[c])
          /\ failG' = IF pc[c] = "loaded" THEN {F \in failG : ~Covers(req[c], F)} ELSE failG \cup {req[c]}
          /\ loadedG' = IF pc[c] = "loaded" THEN loadedG \cup {req[c]} ELSE loadedG
          /\ UNCHANGED <<loadA, failA>>
  /\ IF pc[c] = "loaded" THEN Go(c, "fin") /\ UNCHANGED res ELSE Finish(c, Error("snap"))
  /\ UNCHANGED <<req, lvl, lockA, lockG, fils, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

Wake(c) ==           \* what was waited for is no longer loading; the storage is read after the lock is released
  /\ pc[c] = "wait" /\ Silent
  /\ IF IsA(c) THEN lockA = 0 /\ waits[c] \notin loadA ELSE lockG = 0 /\ waits[c] \notin loadG
  /\ Go(c, "woken")
  /\ UNCHANGED <<req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>
Woken(c) ==
  /\ pc[c] = "woken" /\ Silent
  /\ IF IsA(c) THEN Finish(c, IF Read(c) = 0 /\ ~AccountLoaded(req[c]) THEN Error("snap") ELSE ReadRes(c))
     ELSE IF GpaLoaded(req[c]) THEN Go(c, "fin") /\ UNCHANGED res ELSE Finish(c, Error("snap"))
  /\ UNCHANGED <<req, lvl, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

FinalRead(c) ==
  /\ pc[c] = "fin" /\ Silent
  /\ Finish(c, IF IsA(c) THEN ReadRes(c) ELSE GpaRes(c))
  /\ UNCHANGED <<req, lvl, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

Return(c) ==
  /\ pc[c] = "ret" /\ Go(c, "idle")
  /\ Emit([e |-> "ret", c |-> c, r |-> res[c]])
  /\ UNCHANGED <<req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups, nfails>>

Internal == \E c \in Callers : FirstRead(c) \/ LockA(c) \/ LockG(c) \/ AddFilter(c) \/ Loaded(c) \/ Wake(c) \/ Woken(c) \/ FinalRead(c) \/ Return(c)
CanStep(c) ==
  \/ pc[c] \in {"read", "filter", "woken", "fin", "ret"}
  \/ pc[c] \in {"lock", "loaded", "notloaded"} /\ (IF IsA(c) THEN lockA = 0 ELSE lockG = 0)
  \/ pc[c] = "wait" /\ (IF IsA(c) THEN lockA = 0 /\ waits[c] \notin loadA ELSE lockG = 0 /\ waits[c] \notin loadG)
Quiet == ~\E c \in Callers : CanStep(c)

(* ---- environment *)
Log(op) == hist' = IF Mode = "mc" THEN hist ELSE Append(hist, [op |-> op, q |-> Quiet])

Call(c, k, l) ==
  /\ pc[c] = "idle" /\ ncalls < MaxCalls
  /\ ncalls' = ncalls + 1
  /\ pc' = [pc EXCEPT ![c] = "read"] /\ req' = [req EXCEPT ![c] = k] /\ lvl' = [lvl EXCEPT ![c] = l]
  /\ Emit([e |-> "call", c |-> c, k |-> k, l |-> l])
  /\ Log([t |-> "call", c |-> c, k |-> k, l |-> l])
  /\ UNCHANGED <<res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, nups, nfails>>

SubEnd(c, ok) ==
  /\ pc[c] = "sub"
  /\ ~ok => nfails < MaxFails
  /\ nfails' = IF ok THEN nfails ELSE nfails + 1
  /\ IF ok THEN Go(c, "filter") /\ UNCHANGED <<res, loadA, loadG>>
     ELSE /\ Finish(c, Error("sub"))
          /\ IF IsA(c) THEN loadA' = loadA \ EntryA(req[c]) /\ UNCHANGED loadG ELSE loadG' = loadG \ EntryG(req[c]) /\ UNCHANGED loadA
  /\ IF IsA(c) THEN lockA' = 0 /\ UNCHANGED lockG ELSE lockG' = 0 /\ UNCHANGED lockA
  /\ Emit([e |-> "se", k |-> req[c], ok |-> ok])
  /\ Log([t |-> "sub", k |-> req[c], ok |-> ok])
  /\ UNCHANGED <<req, lvl, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups>>

Stored(a, v, l) == [st EXCEPT ![a] = [p |-> Max2(@.p, v), f |-> IF l = "f" THEN Max2(@.f, v) ELSE @.f]]
(* the monitor allows the call to take effect at any moment between its begin and its end *)
Change(b, e) == LET n == After(m, b) IN bad' = First({Check(m, b), Check(n, e)}) /\ m' = After(n, e)

Deliver(c, a) ==
  /\ pc[c] = "load" /\ a \in left[c]
  /\ left' = [left EXCEPT ![c] = @ \ {a}]
  /\ IF world[a] = 0 THEN Silent /\ UNCHANGED st
     ELSE /\ st' = Stored(a, world[a], "f")
          /\ Change([e |-> "db", a |-> a, v |-> world[a]], [e |-> "de", a |-> a, v |-> world[a]])
  /\ Log([t |-> "del", k |-> req[c], a |-> a])
  /\ UNCHANGED <<pc, req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, world, clock, gen, waits, ncalls, nups, nfails>>

LoadEnd(c, ok) ==
  /\ pc[c] = "load"
  /\ IF ok THEN \A a \in left[c] : world[a] = 0 ELSE nfails < MaxFails
  /\ nfails' = IF ok THEN nfails ELSE nfails + 1
  /\ Go(c, IF ok THEN "loaded" ELSE "notloaded")
  /\ Emit([e |-> "le", k |-> req[c], ok |-> ok])
  /\ Log([t |-> "load", k |-> req[c], ok |-> ok])
  /\ UNCHANGED <<req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, st, world, clock, gen, waits, left, ncalls, nups>>

(* a new version, or a late one which the source never shows *)
Update(a, late, l) ==
  /\ nups < MaxUpdates /\ nups' = nups + 1 /\ a # "n"
  /\ LET v == IF late THEN clock - 1 ELSE clock
         admitted == st[a].p # 0 \/ \E K \in fils : Match(K, a)
         r == admitted /\ v > st[a].f
     IN
     /\ world' = IF late THEN world ELSE [world EXCEPT ![a] = v]
     /\ st' = IF r THEN Stored(a, v, l) ELSE st
     /\ Change([e |-> "ub", a |-> a, v |-> v, l |-> l], [e |-> "ue", a |-> a, v |-> v, l |-> l, r |-> r])
     /\ Log([t |-> "up", a |-> a, v |-> v, l |-> l, w |-> ~late])
     /\ clock' = clock + 2
  /\ UNCHANGED <<pc, req, lvl, res, lockA, lockG, loadA, loadG, fils, failA, failG, loadedG, gen, waits, left, ncalls, nfails>>

EnvStep ==
  \/ \E c \in Callers, k \in Reqs, l \in Levels : Call(c, k, l)
  \/ \E c \in Callers : \E ok \in BOOLEAN : SubEnd(c, ok) \/ LoadEnd(c, ok)
  \/ \E c \in Callers, a \in Accts : Deliver(c, a)
  \/ \E a \in Accts, late \in BOOLEAN, l \in Levels : Update(a, late, l)

Next == (Internal /\ UNCHANGED hist) \/ EnvStep
Spec == Init /\ [][Next]_<<ivars, m, bad, hist>>

-----------------------------------------------------------------------------
(* O01 .. O04: the monitor has no objection *)
NoObjection == bad = ""
(* nobody is blocked without a reason: all the quiescent states are justified *)
NobodyStuck == Quiet => Check(m, [e |-> "quiet", b |-> {c \in Callers : pc[c] \notin {"idle"}}]) = ""
(* callers which load are always the only ones for a request *)
OneLoader == \A c, d \in Callers : (c # d /\ pc[c] \in {"sub", "filter", "load"} /\ pc[d] \in {"sub", "filter", "load"}) => req[c] # req[d]
(* filters without data are always marked *)
NeverForgotten == \A k \in fils : IsLoaded(m, k) \/ k \in Busy(m) \cup failA \cup failG \/ \E c \in Callers : req[c] = k /\ pc[c] \in {"load", "loaded", "notloaded"}
(* once nobody calls, nothing is left in loading *)
NothingLeft == (\A c \in Callers : pc[c] = "idle") => loadA = {} /\ loadG = {} /\ lockA = 0 /\ lockG = 0
View == <<ivars, m, bad>>

-----------------------------------------------------------------------------
(* random behaviours for the replay: internal steps first, except sometimes *)
Pick(S) == IF Len(hist) >= 0 THEN {RandomElement(S)} ELSE {}
Idlers == {c \in Callers : pc[c] = "idle"}
At(w) == {c \in Callers : pc[c] = w}
SimCall == Idlers # {} /\ \E c \in Pick(Idlers), k \in Pick(Reqs), l \in Pick({"p", "p", "f"}) : Call(c, k, l)
(* a request somebody is already waiting for, or one covered by it *)
SimJoin == LET busy == {L[1] : L \in loadA \cup loadG}
               R == {k \in Reqs : \E K \in busy : Covers(K, k) \/ Covers(k, K)} IN
  Idlers # {} /\ R # {} /\ \E c \in Pick(Idlers), k \in Pick(R), l \in Pick(Levels) : Call(c, k, l)
SimSub == At("sub") # {} /\ \E c \in Pick(At("sub")), x \in Pick(1..4) : SubEnd(c, x # 1 \/ nfails >= MaxFails)
SimDeliver == LET L == {c \in At("load") : left[c] # {}} IN L # {} /\ \E c \in Pick(L) : \E a \in Pick(left[c]) : Deliver(c, a)
SimLoadOk == LET L == {c \in At("load") : \A a \in left[c] : world[a] = 0} IN L # {} /\ \E c \in Pick(L) : LoadEnd(c, TRUE)
SimLoadFail == At("load") # {} /\ \E c \in Pick(At("load")), x \in Pick(1..3) : x = 1 /\ LoadEnd(c, FALSE)
SimUpdate == \E a \in Pick(Accts), x \in Pick(1..4), l \in Pick({"p", "p", "f"}) : Update(a, x = 1, l)
SimEnv == SimCall \/ SimJoin \/ SimSub \/ SimDeliver \/ SimDeliver \/ SimLoadOk \/ SimLoadFail \/ SimUpdate
GNext ==
  /\ Len(hist) < Depth
  /\ \E x \in Pick(1..4) : IF Quiet \/ (x = 1 /\ nups < MaxUpdates) THEN SimEnv ELSE (Internal /\ UNCHANGED hist)
EmitEnd == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson([cfg |-> Cfg, h |-> hist]))
=============================================================================
