--------------------------- MODULE StoreConcTrace ---------------------------
(* Decides whether histories of concurrent calls recorded from the real      *)
(* store (hist.ndjson) are behaviours of StoreConc.                          *)
EXTENDS StoreConc, Json

VARIABLES t, i
tvars == <<cvars, sent, snap, last, grown, n, root, t, i>>
H == ndJsonDeserialize("hist.ndjson")
Range(s) == {s[j] : j \in 1..Len(s)}

TInit == /\ MCInit /\ t \in 1..Len(H) /\ i = 1

Id(v) == v.s * 100 + v.w
(* result of a finished call *)
Explains(x, r) ==
  LET p == th[x] IN
  CASE p.op.t = "u" -> r.b = p.ret \/ r.t = "-"      \* initilize_or_update_account returns nothing
    [] p.op.t = "n" -> {<<y[1], y[2]>> : y \in Range(r.ch)} = {<<y[1], Id(y[2])>> : y \in p.ch}
    [] p.op.t = "g" -> r.v \in {Id(v) : v \in p.seen[p.op.a]}
    [] p.op.t = "q" -> \A a \in Accts : r.q[a] \in {Id(v) : v \in p.seen[a]}

(* A step only has to happen before a call returns: until then it makes reads see more *)
TNext ==
  /\ i > 0 /\ i <= Len(H[t].h) /\ UNCHANGED <<t, n, root>>
  /\ LET e == H[t].h[i] IN
     IF e.e = "call" THEN Call(e.x, e.op) /\ i' = i + 1
     ELSE \/ (\E x \in Threads : Step(x)) /\ i' = i
          \/ Return(e.x) /\ Explains(e.x, e.r) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_tvars
(* one line per history: how far it is explained *)
Track ==
  LET k == TLCGet(t) IN
  /\ (i > k => TLCSet(t, i) /\ (i = Len(H[t].h) + 1 => PrintT("ACCEPT " \o ToString(t))))
  /\ k # Len(H[t].h) + 1       \* already explained, no need to explore more
ASSUME \A j \in 1..Len(H) : TLCSet(j, 0)
Report == \A j \in 1..Len(H) : TLCGet(j) = Len(H[j].h) + 1 \/ PrintT("REJECT " \o ToString(j) \o " " \o ToString(TLCGet(j)) \o " unexplained")
=============================================================================
