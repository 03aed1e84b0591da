--------------------------- MODULE OnDemandTrace ---------------------------
(* Judges the histories recorded from the real code (hist.ndjson) with the  *)
(* monitor OnDemand.                                                        *)
EXTENDS OnDemand, Json

VARIABLES t, i, m
vars == <<t, i, m>>

Range(s) == {s[j] : j \in 1..Len(s)}
H == ndJsonDeserialize("hist.ndjson")

ToKey(k) == [k |-> k.k, a |-> k.a, o |-> k.o, c |-> Range(k.c)]
ToEvent(x) ==
  CASE x.e \in {"quiet", "late"} -> [x EXCEPT !.b = Range(@)]
    [] "k" \in DOMAIN x -> [x EXCEPT !.k = ToKey(@)]
    [] OTHER -> x

Init == t \in 1..Len(H) /\ i = 1 /\ m = M0({ToKey(k) : k \in Range(H[t].cfg)})
Step(e) ==
  LET why == Check(m, e) IN
  IF why = "" THEN m' = After(m, e) /\ i' = i + 1
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(i) \o " " \o why) /\ i' = 0 /\ UNCHANGED m
Next ==
  \/ i > 0 /\ i <= Len(H[t].h) /\ Step(TLCEval(ToEvent(H[t].h[i]))) /\ UNCHANGED t
  \/ i = Len(H[t].h) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ i' = 0 /\ UNCHANGED <<t, m>>
Spec == Init /\ [][Next]_vars
=============================================================================
