------------------------------ MODULE OnDemand ------------------------------
(***************************************************************************)
(* What a user of the on demand storage may observe: calls and returns of  *)
(* the callers, calls reaching the source, deliveries of the source and    *)
(* updates.  Check(m, e) tells why event e is not allowed after the events *)
(* summarized by m ("" if it is allowed), After(m, e) is the summary after *)
(* e.  Used as a monitor of the design (OnDemandImpl) and of the histories *)
(* recorded from the real code (OnDemandTrace).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Accts, Callers

(* owner program of the accounts and the conditions they match *)
Info(a) ==
  CASE a = "a" -> [o |-> "P", c |-> {"d1", "h1"}]
    [] a = "b" -> [o |-> "P", c |-> {"d1"}]
    [] a = "c" -> [o |-> "P", c |-> {}]
    [] a = "d" -> [o |-> "P", c |-> {"h1"}]
    [] a = "q" -> [o |-> "Q", c |-> {"d1"}]
    [] a = "n" -> [o |-> "-", c |-> {}]      \* does not exist

(* requests: an account or a program query *)
AKey(a) == [k |-> "a", a |-> a, o |-> "-", c |-> {}]
GKey(o, c) == [k |-> "g", a |-> "-", o |-> o, c |-> c]
Match(K, a) == IF K.k = "a" THEN K.a = a ELSE Info(a).o = K.o /\ K.c \subseteq Info(a).c
(* everything asked by x is part of what K loads *)
Covers(K, x) == K.k = x.k /\ (IF K.k = "a" THEN K.a = x.a ELSE K.o = x.o /\ K.c \subseteq x.c)

Levels == {"p", "f"}    \* processed, finalized
Max2(x, y) == IF x > y THEN x ELSE y

Idle == [on |-> FALSE, key |-> AKey("n"), lvl |-> "p", rdy |-> FALSE, all |-> [a \in Accts |-> {}],
         since |-> [a \in Accts |-> {}], errs |-> {}]
NoUp == [on |-> FALSE, a |-> "-", v |-> 0, l |-> "p", old |-> [p |-> {0}, f |-> {0}], adm |-> {}]

(* cfg: requests covered by the filters configured from the beginning *)
M0(cfg) ==
  [ adm |-> cfg,         \* filters which are certainly in place
    may |-> cfg,         \* filters which may be in place
    loaded |-> cfg,      \* requests which are completely loaded
    sub |-> {}, subok |-> {}, ld |-> {},   \* subscribing, subscribed but not loading yet, loading
    failing |-> {},      \* <<request, error>> of failed loads whose caller has not returned yet
    cur |-> [a \in Accts |-> [p |-> {0}, f |-> {0}]],   \* versions the storage may have (one, except during an update)
    up |-> NoUp,
    cl |-> [c \in Callers |-> Idle] ]

Busy(m) == m.sub \cup m.subok \cup m.ld
IsLoaded(m, k) == \E L \in m.loaded : Covers(L, k)
On(m) == {c \in Callers : m.cl[c].on}
Tracked(cur, a) == 0 \notin cur[a].p
(* by the filters adm *)
SurelyAdmitted(adm, cur, a) == Tracked(cur, a) \/ \E K \in adm : Match(K, a)

(* versions after an update with version v at level l *)
Put(x, v, l) == [p |-> {Max2(y, v) : y \in x.p}, f |-> IF l = "f" THEN {Max2(y, v) : y \in x.f} ELSE x.f]

(* the storage may now have the versions cur *)
SetCur(m, cur) ==
  [m EXCEPT !.cur = cur,
            !.cl = [c \in Callers |->
               IF ~m.cl[c].on THEN m.cl[c]
               ELSE [m.cl[c] EXCEPT !.all = [a \in Accts |-> @[a] \cup cur[a][m.cl[c].lvl]],
                                    !.since = [a \in Accts |-> IF m.cl[c].rdy THEN @[a] \cup cur[a][m.cl[c].lvl] ELSE {}]]]]
NowReady(m, x) == [x EXCEPT !.rdy = TRUE, !.since = [a \in Accts |-> m.cur[a][x.lvl]]]

(* the load of K failed *)
Fail(m, K, err) ==
  [m EXCEPT !.failing = @ \cup {<<K, err>>},
            !.cl = [c \in Callers |-> IF m.cl[c].on /\ Covers(K, m.cl[c].key)
                                      THEN [m.cl[c] EXCEPT !.errs = @ \cup {err}] ELSE m.cl[c]]]

-----------------------------------------------------------------------------
CheckRet(m, c, r) ==
  LET x == m.cl[c] IN
  CASE r.t = "acc" ->
         IF r.v # 0 THEN (IF r.v \in x.all[x.key.a] THEN "" ELSE "wrong-value")
         ELSE IF ~x.rdy THEN "not-loaded" ELSE IF 0 \in x.since[x.key.a] THEN "" ELSE "lost"
    [] r.t = "gpa" ->
         IF ~x.rdy THEN "partial"
         ELSE IF \E a \in DOMAIN r.v : a \notin Accts \/ ~Match(x.key, a) THEN "wrong-accounts"
         ELSE IF \E a \in Accts : Match(x.key, a) /\ a \notin DOMAIN r.v /\ 0 \notin x.since[a] THEN "missing"
         ELSE IF \E a \in DOMAIN r.v : r.v[a] \notin x.since[a] THEN "wrong-value"
         ELSE ""
    [] r.t = "err" /\ r.err = "sub" -> IF "sub" \in x.errs THEN "" ELSE "wrong-error"
    [] r.t = "err" /\ r.err = "snap" -> IF x.errs # {} THEN "" ELSE "wrong-error"
    [] r.t = "err" /\ r.err = "timeout" -> IF r.ms >= 5000 THEN "" ELSE "early-timeout"
    [] OTHER -> "wrong-error"

CheckBlocked(m, c) ==
  LET x == m.cl[c] IN
  IF \/ \E K \in m.sub : K.k = x.key.k        \* subscriptions are made one after another
     \/ \E K \in m.ld : Covers(K, x.key)
  THEN "" ELSE "stuck"

First(S) == IF S \subseteq {""} THEN "" ELSE CHOOSE s \in S : s # ""

Check(m, e) ==
  CASE e.e = "call" -> ""
    [] e.e = "ret" -> CheckRet(m, e.c, e.r)
    [] e.e = "ss" ->
         IF ~\E c \in On(m) : m.cl[c].key = e.k THEN "wrong-request"
         ELSE IF IsLoaded(m, e.k) THEN "load-again"
         ELSE IF \E K \in Busy(m) : Covers(K, e.k) THEN "load-twice"
         ELSE IF e.k.k = "a" /\ ~\E c \in On(m) : m.cl[c].key = e.k /\ 0 \in m.cl[c].all[e.k.a] THEN "needless-load"
         ELSE ""
    [] e.e = "se" -> IF e.k \in m.sub THEN "" ELSE "harness"
    [] e.e = "ls" -> IF e.k \in m.subok THEN "" ELSE "load-unsubscribed"
    [] e.e = "le" -> IF e.k \in m.ld THEN "" ELSE "harness"
    [] e.e = "db" -> ""
    [] e.e = "de" -> ""
    [] e.e = "ub" -> ""
    [] e.e = "ue" ->
         \* the filters which were in place when the update began
         IF ~e.r /\ SurelyAdmitted(m.up.adm, [m.cur EXCEPT ![e.a] = m.up.old], e.a) /\ \A y \in m.up.old.f : e.v > y
         THEN "update-dropped" ELSE ""
    [] e.e = "quiet" -> First({CheckBlocked(m, c) : c \in e.b})
    \* every load in progress is older than the time limit: only the callers which load may still be there
    [] e.e = "late" -> IF \E c \in e.b : (m.cl[c].key \notin m.ld \cup m.sub \/ \E d \in e.b : d # c /\ m.cl[d].key = m.cl[c].key)
                       THEN "no-timeout" ELSE ""

After(m, e) ==
  CASE e.e = "call" ->
         LET x == [Idle EXCEPT !.on = TRUE, !.key = e.k, !.lvl = e.l, !.all = [a \in Accts |-> m.cur[a][e.l]],
                               !.errs = {f[2] : f \in {g \in m.failing : Covers(g[1], e.k)}}]
         IN [m EXCEPT !.cl[e.c] = IF IsLoaded(m, e.k) THEN NowReady(m, x) ELSE x]
    [] e.e = "ret" ->
         LET cl == [m.cl EXCEPT ![e.c] = Idle] IN
         [m EXCEPT !.cl = cl,
                   !.failing = {f \in @ : \E d \in Callers : cl[d].on /\ cl[d].key = f[1]}]
    [] e.e = "ss" -> [m EXCEPT !.sub = @ \cup {e.k}, !.may = @ \cup {e.k}]
    [] e.e = "se" ->
         LET n == [m EXCEPT !.sub = @ \ {e.k}] IN
         IF e.ok THEN [n EXCEPT !.subok = @ \cup {e.k}] ELSE Fail(n, e.k, "sub")
    [] e.e = "ls" -> [m EXCEPT !.subok = @ \ {e.k}, !.ld = @ \cup {e.k}, !.adm = @ \cup {e.k}]
    [] e.e = "le" ->
         LET n == [m EXCEPT !.ld = @ \ {e.k}] IN
         IF e.ok
         THEN [n EXCEPT !.loaded = @ \cup {e.k},
                        !.cl = [c \in Callers |-> IF n.cl[c].on /\ ~n.cl[c].rdy /\ Covers(e.k, n.cl[c].key)
                                                  THEN NowReady(n, n.cl[c]) ELSE n.cl[c]]]
         ELSE Fail(n, e.k, "snap")
    \* delivery of the source: version v of a, finalized
    [] e.e = "db" -> LET old == m.cur[e.a] new == Put(old, e.v, "f") IN
                     SetCur([m EXCEPT !.up = [on |-> TRUE, a |-> e.a, v |-> e.v, l |-> "f", old |-> old, adm |-> m.adm]],
                            [m.cur EXCEPT ![e.a] = [p |-> old.p \cup new.p, f |-> old.f \cup new.f]])
    [] e.e = "de" -> SetCur([m EXCEPT !.up = NoUp], [m.cur EXCEPT ![e.a] = Put(m.up.old, e.v, "f")])
    [] e.e = "ub" -> LET old == m.cur[e.a] new == Put(old, e.v, e.l) IN
                     SetCur([m EXCEPT !.up = [on |-> TRUE, a |-> e.a, v |-> e.v, l |-> e.l, old |-> old, adm |-> m.adm]],
                            [m.cur EXCEPT ![e.a] = [p |-> old.p \cup new.p, f |-> old.f \cup new.f]])
    [] e.e = "ue" -> SetCur([m EXCEPT !.up = NoUp],
                            [m.cur EXCEPT ![e.a] = IF e.r THEN Put(m.up.old, e.v, e.l) ELSE m.up.old])
    [] OTHER -> m
=============================================================================
