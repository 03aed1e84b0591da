--------------------------- MODULE TokenConcTrace ---------------------------
(* Decides whether histories of concurrent calls recorded from the real      *)
(* token storage (hist.ndjson) are behaviours of TokenConc.                  *)
EXTENDS TokenConc, Json

VARIABLES t, i
tvars == <<vars, th, lock, n, t, i>>
H == ndJsonDeserialize("hist.ndjson")
Range(s) == {s[j] : j \in 1..Len(s)}

TInit == /\ MCInit /\ t \in 1..Len(H) /\ i = 1

Id(v) == v.s * 100 + v.w
(* r: id and slot; finalized states carry a slot of the storage *)
Is(r, x) == r[1] = Id(x[1]) /\ (x[2] \/ x[1] = NoV \/ r[2] = x[1].s)
Explains(x, r) ==
  LET p == th[x] IN
  CASE p.op.t = "u" -> r.b = p.ret \/ r.t = "-"      \* initilize_or_update_account returns nothing
    [] p.op.t = "e" -> TRUE
    [] p.op.t = "n" -> {<<y[1], y[2]>> : y \in Range(r.ch)} = {<<y[1], Id(y[2])>> : y \in p.ch}
    [] p.op.t = "g" -> \E y \in p.seen[p.op.a] : Is(r.v, y)
    [] p.op.t = "q" -> \A a \in Accts : \E y \in p.seen[a] : Is(r.q[a], y)

TNext ==
  /\ i > 0 /\ i <= Len(H[t].h) /\ UNCHANGED <<t, n>>
  /\ LET e == H[t].h[i] IN
     IF e.e = "call" THEN Call(e.x, e.op) /\ i' = i + 1
     ELSE \/ (\E x \in Threads : Step(x)) /\ i' = i
          \/ Return(e.x) /\ Explains(e.x, e.r) = TRUE /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_tvars
(* one line per history: how far it is explained *)
Track ==
  LET k == TLCGet(t) IN
  /\ (i > k => TLCSet(t, i) /\ (i = Len(H[t].h) + 1 => PrintT("ACCEPT " \o ToString(t))))
  /\ k # Len(H[t].h) + 1       \* already explained, no need to explore more
ASSUME \A j \in 1..Len(H) : TLCSet(j, 0)
Report == \A j \in 1..Len(H) : TLCGet(j) = Len(H[j].h) + 1 \/ PrintT("REJECT " \o ToString(j) \o " " \o ToString(TLCGet(j)) \o " unexplained")
=============================================================================
