----------------------------- MODULE GenFilters -----------------------------
(* Random filter stores with questions and their answers.                    *)
EXTENDS Filters, Json

CONSTANTS Depth, NProbe
VARIABLE hist

Pick(S) == IF Len(hist) >= 0 THEN {RandomElement(S)} ELSE {}
R(S) == RandomElement(S)

\* operators without parameters would be evaluated once and for all: u is never looked at

AllConds == Conds
(* a random set of at most three conditions *)
RConds(u) == LET n == R(0..9) IN IF n = 0 THEN {} ELSE {R(AllConds) : i \in 1..(1 + (n % 3))}
(* conditions which the data satisfies *)
True(d) == {c \in AllConds : Match(c, d)}
RConds2(u) == LET d == R(Datas) IN {R(True(d)) : i \in 1..R(1..3)}
SomeConds(u) == IF R(1..3) = 1 THEN RConds(u) ELSE RConds2(u)
RAccs(u) == LET n == R(0..3) IN IF n < 2 THEN {} ELSE {R(Pks) : i \in 1..(n - 1)}
RProg(u) == R({"P", "P", "Q"})

(* query around a stored filter: the same conditions, fewer or more *)
Near(cs) ==
  LET x == R(1..4) IN
  CASE x = 1 -> cs
    [] x = 2 -> cs \cup {R(AllConds)}
    [] x = 3 -> IF cs = {} THEN {R(AllConds)} ELSE cs \ {R(cs)}
    [] x = 4 -> cs \cup SomeConds(hist)
RQuery ==
  LET x == R(1..6)
      stored == IF fs' = {} THEN [o |-> "P", c |-> {}] ELSE R(fs')
  IN CASE x = 1 -> Filter(RAccs(hist), "-", {})
       [] x = 2 -> Filter({}, RProg(hist), SomeConds(hist))
       [] x = 3 -> Filter(RAccs(hist), RProg(hist), SomeConds(hist))
       [] OTHER -> Filter(IF R(1..5) = 1 THEN RAccs(hist) ELSE {}, stored.o, Near(stored.c))

ProbeSat(k, o, d) == [t |-> "sat", k |-> k, o |-> o, d |-> d, r |-> {Accepts(k, o, d)'}, x |-> {ExAccepts(k, o, d)'}]
ProbeCon(q) == [t |-> "con", q |-> q, r |-> {Covers(q)'}, x |-> ExAnswers(q)']
ProbeCond(c, d) == [t |-> "cond", c |-> c, d |-> d, r |-> {Match(c, d)}]
(* condition on the edge of the data: offsets and sizes around its length *)
EdgeCond(d) == LET o == R(0..Len(d)) IN
               IF R(1..4) = 1 THEN SizeC(Len(d)) ELSE
               IF R(1..3) = 1 THEN MemC(o, R(Seqs(2))) ELSE MemC(o, SubSeq(d, o + 1, R({o, o + 1, o + 2} \cap 0..Len(d))))

RProbe(i) ==
  LET x == R(1..5) d == R(Datas) IN
  IF x <= 2 THEN CHOOSE p \in {ProbeSat(k, o, e) : k \in {R(Pks)}, o \in {RProg(hist)}, e \in {R(Datas)}} : TRUE
  ELSE IF x = 3 THEN CHOOSE p \in {ProbeCond(c, e) : c \in {R(AllConds)}, e \in {d}} : TRUE
  ELSE IF x = 4 THEN CHOOSE p \in {ProbeCon(q) : q \in {RQuery}} : TRUE
  ELSE CHOOSE p \in {ProbeCond(c, e) : c \in {EdgeCond(d)}, e \in {d}} : TRUE

GInit == FInit /\ hist = <<>>
GNext ==
  \E f \in {Filter(a, IF a # {} /\ R(1..3) = 1 THEN "-" ELSE o, c) : a \in Pick({RAccs(hist)}), o \in Pick({RProg(hist)}), c \in Pick({SomeConds(hist)})} :
  LET g == IF f.o = "-" THEN [f EXCEPT !.c = {}] ELSE f IN
     /\ Add(g)
     /\ hist' = Append(hist, [add |-> g, p |-> [i \in 1..NProbe |-> RProbe(i)]])

EmitEnd == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson([h |-> hist]))
=============================================================================
