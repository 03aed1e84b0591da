----------------------------- MODULE TokenStore -----------------------------
(***************************************************************************)
(* The token program storage: states of token accounts, mints and          *)
(* multisigs of both token programs by slot until a slot of their chain is *)
(* finalized, finalized states found by pubkey, owner and mint, snapshots. *)
(*                                                                         *)
(* One action per call of the storage interface; reads and queries are     *)
(* functions of the state, so that behaviours can be replayed on the real  *)
(* storage and compared after every call.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Accts,    \* account names; "m1" and "m2" are also the mints used by the token accounts
  MaxSlot,  \* slots are 1..MaxSlot, 0 is the parent of the first one
  MaxWv,    \* write versions are 0..MaxWv
  Kinds     \* contents an update can carry, see KindInfo

Slots == 1..MaxSlot
Wvs == 0..MaxWv
Levels == 0..2
Progs == {"T", "X"}    \* the token program and token-2022
Mints == {"m1", "m2"}

VARIABLES
  here,     \* [Slots -> BOOLEAN]: the slot is known and not finalized
  parent,   \* [Slots -> slot or -1]
  pend,     \* [Slots -> [Accts -> write version or -1]]: states written in the slot
  fin,      \* [Accts -> version or NoV]: finalized state, never a deletion
  confS,    \* highest confirmed slot
  finS,     \* highest finalized slot
  known,    \* mints which were ever seen, also if only token accounts refer to them
  sent,     \* [Accts -> [Slots \X Wvs -> kind or "-"]]: content of a version (fixed once sent)
  snap,     \* last snapshot: [o, vs, kn] (program, set of <<account, version>>, known mints)
  newest,   \* [Accts -> newest version which was ever finalized] (only to leave out histories, see Ordered)
  last      \* observable result of the last call

vars == <<here, parent, pend, fin, confS, finS, known, sent, snap, newest, last>>

NoV == [s |-> -1, w |-> -1]
Newer(v, x) == v.s > x.s \/ (v.s = x.s /\ v.w > x.w)
Max2(x, y) == IF x > y THEN x ELSE y

(***************************************************************************)
(* Contents. ty: t token account, m mint, s multisig, d gone (deleted or   *)
(* not owned by a token program), b not a token program account at all.    *)
(* o owner program, u owner of the token account, m its mint, x: extended  *)
(***************************************************************************)
TokAcc(o, u, m, x) == [ty |-> "t", o |-> o, u |-> u, m |-> m, x |-> x]
Rest(ty, o, x) == [ty |-> ty, o |-> o, u |-> "-", m |-> "-", x |-> x]
KindInfo(k) ==
  CASE k = "t11" -> TokAcc("T", "o1", "m1", FALSE)
    [] k = "t12" -> TokAcc("T", "o1", "m2", FALSE)
    [] k = "t21" -> TokAcc("T", "o2", "m1", FALSE)
    [] k = "t22" -> TokAcc("T", "o2", "m2", FALSE)
    [] k = "x11" -> TokAcc("X", "o1", "m1", FALSE)
    [] k = "x22" -> TokAcc("X", "o2", "m2", FALSE)
    [] k = "e11" -> TokAcc("X", "o1", "m1", TRUE)
    [] k = "e12" -> TokAcc("X", "o1", "m2", TRUE)
    [] k = "mi"  -> Rest("m", "T", FALSE)
    [] k = "mx"  -> Rest("m", "X", FALSE)
    [] k = "me"  -> Rest("m", "X", TRUE)
    [] k = "sg"  -> Rest("s", "T", FALSE)
    [] k = "sx"  -> Rest("s", "X", FALSE)
    [] k = "dt"  -> Rest("d", "T", FALSE)   \* no lamports, still owned by the token program
    [] k = "ds"  -> Rest("d", "S", FALSE)   \* no lamports, given back to the system program
    [] k = "ro"  -> Rest("d", "R", FALSE)   \* owned by another program
    [] k = "bd"  -> Rest("b", "X", FALSE)   \* owned by token-2022 but of no known layout

Exists(k) == KindInfo(k).ty \in {"t", "m", "s"}
IsTok(k) == KindInfo(k).ty = "t"
OfToken(k) == KindInfo(k).o \in Progs

Kind(a, v) == IF v = NoV THEN "-" ELSE sent[a][<<v.s, v.w>>]

(* conditions of queries: data size, account type byte, owner, mint, a part of them *)
Sat(k, c) ==
  LET i == KindInfo(k) IN
  CASE c = "n165" -> i.ty = "t" /\ ~i.x
    [] c = "n82"  -> i.ty = "m" /\ ~i.x
    [] c = "n355" -> i.ty = "s"
    [] c = "b2"   -> i.ty = "t" /\ i.x
    [] c = "o1"   -> i.ty = "t" /\ i.u = "o1"
    [] c = "o2"   -> i.ty = "t" /\ i.u = "o2"
    [] c = "m1"   -> i.ty = "t" /\ i.m = "m1"
    [] c = "m2"   -> i.ty = "t" /\ i.m = "m2"
    [] c = "h1"   -> i.ty = "t" /\ i.u = "o1"   \* first bytes of the owner
Queries == << {"n165", "o1"}, {"n165", "m1"}, {"n165", "o1", "m2"}, {"b2", "o1"}, {"b2", "m1"}, {"n82"},
              {"n165", "o2", "m1"}, {"n165", "m2", "h1"}, {"n165", "o2"}, {"b2", "o1", "m2"},
              {}, {"n165"}, {"o1"}, {"n355"}, {"n165", "h1"} >>
(* answered queries: token accounts by owner or mint, or all the (not extended) mints *)
Answered(o, q) ==
  \/ ("n165" \in q \/ ("b2" \in q /\ o = "X")) /\ q \cap {"o1", "o2", "m1", "m2"} # {}
  \/ "n82" \in q

(***************************************************************************)
(* State as a record, so that the effects are functions                    *)
(***************************************************************************)
RECURSIVE ChainOf(_, _, _)
ChainOf(h, p, s) == IF s \in Slots /\ h[s] THEN {s} \cup ChainOf(h, p, p[s]) ELSE {}

(* newest state written in the given slots *)
NewestIn(pd, S, a) ==
  LET W == {s \in S : pd[s][a] # -1} IN
  IF W = {} THEN NoV ELSE LET m == CHOOSE s \in W : \A x \in W : x <= s IN [s |-> m, w |-> pd[m][a]]

(* what is visible at the level, and whether it is the finalized state *)
State(a, l) ==
  LET above == NewestIn(pend, {s \in Slots : here[s] /\ s > confS}, a)
      chain == NewestIn(pend, ChainOf(here, parent, confS), a)
  IN IF l = 0 /\ above # NoV THEN [v |-> above, f |-> FALSE]
     ELSE IF l <= 1 /\ chain # NoV THEN [v |-> chain, f |-> FALSE]
     ELSE [v |-> fin[a], f |-> TRUE]
(* what a read returns *)
Read(a, l) == LET x == State(a, l) IN
  IF x.v # NoV /\ Exists(Kind(a, x.v)) THEN x ELSE [v |-> NoV, f |-> FALSE]
GpaSet(o, q, l) ==
  {a \in Accts : LET v == Read(a, l).v IN
     v # NoV /\ LET k == Kind(a, v) IN KindInfo(k).o = o /\ \A c \in q : Sat(k, c)}

(* updates of accounts which do not belong to a token program (any more) only matter if they are known *)
Known(a) == a \in known \/ fin[a] # NoV \/ (\E s \in Slots : here[s] /\ pend[s][a] # -1)

Init ==
  /\ here = [s \in Slots |-> FALSE]
  /\ parent = [s \in Slots |-> -1]
  /\ pend = [s \in Slots |-> [a \in Accts |-> -1]]
  /\ fin = [a \in Accts |-> NoV]
  /\ confS = 0 /\ finS = 0
  /\ known = {}
  /\ sent = [a \in Accts |-> [x \in Slots \X Wvs |-> "-"]]
  /\ snap = [o |-> "-", vs |-> {}, kn |-> {}]
  /\ newest = [a \in Accts |-> NoV]
  /\ last = [ret |-> FALSE, ch |-> {}]

(* finalized state of an account: v, whose content is k *)
Saved(f, a, v, k) == [f EXCEPT ![a] = IF Exists(k) THEN v ELSE NoV]
KnownWith(kn, a, k, final) ==
  kn \cup (IF IsTok(k) THEN {KindInfo(k).m} ELSE {}) \cup (IF final /\ KindInfo(k).ty = "m" THEN {a} ELSE {})

(* Finalized states keep neither slot nor write version, so histories in     *)
(* which an older version is finalized after a newer one are not decided by  *)
(* this specification (see the known finding of T02)                         *)
Ordered(a, v, c) ==
  \/ c < 2 /\ v.s < finS     \* ignored
  \/ /\ Newer(v, newest[a]) \/ v = newest[a]
     /\ c = 2 => \A s \in Slots : (here[s] /\ pend[s][a] # -1) => ~Newer(v, [s |-> s, w |-> pend[s][a]])

Update(a, s, w, k, c) ==
  LET v == [s |-> s, w |-> w]
      accepted == (OfToken(k) \/ Known(a)) /\ KindInfo(k).ty # "b"
      late == s < finS
      ins == accepted /\ c < 2 /\ ~late /\ (here[s] => pend[s][a] < w)
  IN
  /\ sent[a][<<s, w>>] \in {"-", k}
  /\ Ordered(a, v, c)
  /\ sent' = [sent EXCEPT ![a][<<s, w>>] = k]
  /\ known' = IF accepted THEN KnownWith(known, a, k, c = 2) ELSE known
  /\ here' = IF ins THEN [here EXCEPT ![s] = TRUE] ELSE here
  /\ pend' = IF ins THEN [pend EXCEPT ![s][a] = w] ELSE pend
  /\ fin' = IF accepted /\ c = 2 THEN Saved(fin, a, v, k) ELSE fin
  /\ newest' = IF accepted /\ c = 2 THEN [newest EXCEPT ![a] = v] ELSE newest
  /\ last' = [ret |-> ins \/ (accepted /\ c = 2), ch |-> {}]
  /\ UNCHANGED <<parent, confS, finS, snap>>

Existing(S) == {x \in S : x[2] # NoV /\ Exists(Kind(x[1], x[2]))}

Notify(s, p, c) ==
  /\ p < s
  /\ UNCHANGED <<sent, snap>>
  /\ IF c = 2 /\ s < finS
     THEN /\ last' = [ret |-> FALSE, ch |-> {}]
          /\ UNCHANGED <<here, parent, pend, fin, confS, finS, known, newest>>
     ELSE LET h == TLCEval([here EXCEPT ![s] = TRUE])
              pa == TLCEval([parent EXCEPT ![s] = p])
          IN
          /\ confS' = IF c >= 1 THEN Max2(confS, s) ELSE confS
          /\ IF c < 2
             THEN /\ here' = h /\ parent' = pa
                  /\ last' = [ret |-> FALSE, ch |-> IF c = 0 THEN {} ELSE
                       Existing({<<a, NewestIn(pend, {s}, a)>> : a \in Accts})]
                  /\ UNCHANGED <<pend, fin, finS, known, newest>>
             ELSE LET ch == TLCEval(ChainOf(h, pa, s))
                      new == TLCEval([a \in Accts |-> NewestIn(pend, ch, a)])
                  IN
                  /\ finS' = s
                  /\ here' = [x \in Slots |-> h[x] /\ x > s]
                  /\ parent' = [x \in Slots |-> IF x > s THEN pa[x] ELSE -1]
                  /\ pend' = [x \in Slots |-> IF x > s THEN pend[x] ELSE [a \in Accts |-> -1]]
                  /\ fin' = [a \in Accts |-> IF new[a] = NoV THEN fin[a]
                                             ELSE IF Exists(Kind(a, new[a])) THEN new[a] ELSE NoV]
                  /\ newest' = [a \in Accts |-> IF Newer(new[a], newest[a]) THEN new[a] ELSE newest[a]]
                  /\ known' = known \cup {a \in Accts : new[a] # NoV /\ KindInfo(Kind(a, new[a])).ty = "m"}
                  /\ last' = [ret |-> FALSE, ch |-> Existing({<<a, new[a]>> : a \in Accts})]

TakeSnapshot(o) ==
  /\ snap' = [o |-> o, kn |-> known,
              vs |-> {<<a, fin[a]>> : a \in {b \in Accts : fin[b] # NoV /\ KindInfo(Kind(b, fin[b])).o = o}}]
  /\ last' = [ret |-> FALSE, ch |-> {}]
  /\ UNCHANGED <<here, parent, pend, fin, confS, finS, known, sent, newest>>

Restored(f) == [a \in Accts |-> IF \E x \in snap.vs : x[1] = a THEN (CHOOSE x \in snap.vs : x[1] = a)[2] ELSE f[a]]

LoadSnapshot ==
  /\ snap.o # "-"
  /\ fin' = Restored(fin)
  /\ newest' = Restored(newest)
  /\ known' = known \cup snap.kn
  /\ last' = [ret |-> FALSE, ch |-> {}]
  /\ UNCHANGED <<here, parent, pend, confS, finS, sent, snap>>

Restart ==
  /\ snap.o # "-"
  /\ here' = [s \in Slots |-> FALSE]
  /\ parent' = [s \in Slots |-> -1]
  /\ pend' = [s \in Slots |-> [a \in Accts |-> -1]]
  /\ confS' = 0 /\ finS' = 0
  /\ fin' = Restored([a \in Accts |-> NoV])
  /\ newest' = fin'
  /\ known' = snap.kn
  /\ last' = [ret |-> FALSE, ch |-> {}]
  /\ UNCHANGED <<sent, snap>>

Next ==
  \/ \E a \in Accts, s \in Slots, w \in Wvs, k \in Kinds, c \in Levels : Update(a, s, w, k, c)
  \/ \E s \in Slots, p \in 0..MaxSlot, c \in Levels : Notify(s, p, c)
  \/ \E o \in Progs : TakeSnapshot(o)
  \/ LoadSnapshot \/ Restart
Spec == Init /\ [][Next]_vars
=============================================================================
