------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Account filters: conditions on the raw account data, filter stores      *)
(* which admit accounts and tell which queries they cover, and the         *)
(* complement store.                                                       *)
(*                                                                         *)
(* Data is a sequence of cells; the replay maps every cell to a block of   *)
(* bytes, and chooses encodings, compressions, order and duplication of    *)
(* conditions at random: none of them appears here, nothing may depend on  *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen,    \* cells of the account data
          Pks        \* public keys

Cells == {0, 1}
Seqs(n) == UNION {[1..m -> Cells] : m \in 0..n}
Datas == Seqs(MaxLen)
Progs == {"P", "Q"}

SizeC(n)   == [t |-> "size", o |-> n, b |-> <<>>]
MemC(o, b) == [t |-> "mem", o |-> o, b |-> b]
FarC(b)    == [t |-> "far", o |-> 0, b |-> b]     \* offset beyond any data
BadC(i)    == [t |-> "bad", o |-> i, b |-> <<>>]  \* bytes which cannot be decoded
Conds == {SizeC(n) : n \in 0..MaxLen} \cup {MemC(o, b) : o \in 0..MaxLen, b \in Seqs(2)}
         \cup {FarC(b) : b \in Seqs(1)} \cup {BadC(i) : i \in 0..3}

Match(c, d) ==
  CASE c.t = "size" -> Len(d) = c.o
    [] c.t = "mem"  -> c.o + Len(c.b) <= Len(d) /\ \A i \in 1..Len(c.b) : d[c.o + i] = c.b[i]
    [] c.t = "far"  -> FALSE
    [] c.t = "bad"  -> FALSE
MatchAll(cs, d) == \A c \in cs : Match(c, d)

(* a filter: listed accounts, program ("-" if none) and conditions; no conditions match everything *)
Filter(acc, o, cs) == [acc |-> acc, o |-> o, c |-> cs]

VARIABLES
  acc,    \* listed accounts
  fs      \* set of [o: program, c: set of conditions]
fvars == <<acc, fs>>

FInit == acc = {} /\ fs = {}

Add(f) ==
  /\ acc' = acc \cup f.acc
  /\ fs' = IF f.o = "-" THEN fs ELSE fs \cup {[o |-> f.o, c |-> f.c]}

(* account of public key k, owned by o, with data d *)
Accepts(k, o, d) == k \in acc \/ \E f \in fs : f.o = o /\ MatchAll(f.c, d)

(* the store covers the query *)
Covers(q) ==
  /\ q.acc \subseteq acc
  /\ q.o = "-" \/ \E f \in fs : f.o = q.o /\ f.c \subseteq q.c

(* complement: everything except what the filters accept *)
ExAccepts(k, o, d) == ~Accepts(k, o, d)
(* some data matches both *)
Overlap(c1, c2) == \E d \in Seqs(MaxLen + 2) : MatchAll(c1 \cup c2, d)
ExMustNotCover(q) ==
  \/ q.acc \cap acc # {}
  \/ q.o # "-" /\ \E f \in fs : f.o = q.o /\ Overlap(f.c, q.c)
ExMustCover(q) ==
  /\ q.acc \cap acc = {}
  /\ IF q.o = "-" THEN fs = {} ELSE \A f \in fs : f.o # q.o
ExAnswers(q) == IF ExMustNotCover(q) THEN {FALSE} ELSE IF ExMustCover(q) THEN {TRUE} ELSE {TRUE, FALSE}

-----------------------------------------------------------------------------
(* Exhaustive check of soundness on a small universe *)
SmallConds == {SizeC(1), SizeC(2), MemC(0, <<0>>), MemC(0, <<1>>), MemC(1, <<0>>), MemC(0, <<0, 0>>), BadC(0)}
SmallSets == {cs \in SUBSET SmallConds : Cardinality(cs) <= 2}
MCNext ==
  \E o \in Progs \cup {"-"}, cs \in SmallSets, a \in {{}, {"k1"}} :
     /\ o = "-" => cs = {}
     /\ Cardinality(fs) < 2
     /\ Add(Filter(a, o, cs))
MCSpec == FInit /\ [][MCNext]_fvars

(* F02: what matches a covered query is accepted *)
CoverageSound ==
  \A o \in Progs, cs \in SmallSets :
     Covers(Filter({}, o, cs)) => \A d \in Datas : MatchAll(cs, d) => Accepts("k2", o, d)
(* F02: an account list is covered iff all of it is listed, so its accounts are accepted whatever they are *)
AccountsCovered ==
  \A k \in Pks : Covers(Filter({k}, "-", {})) => \A o \in Progs, d \in Datas : Accepts(k, o, d)
(* F02: adding filters never uncovers, adding conditions to a query neither *)
CoverageMonotone ==
  [][\A o \in Progs, cs \in SmallSets : Covers(Filter({}, o, cs)) => Covers(Filter({}, o, cs))']_fvars
QueryMonotone ==
  \A o \in Progs, c1 \in SmallSets, c2 \in SmallSets :
     (c1 \subseteq c2 /\ Covers(Filter({}, o, c1))) => Covers(Filter({}, o, c2))
(* F03: no answer of the complement which may be TRUE lets an excluded account match the query *)
ExSound ==
  \A o \in Progs, cs \in SmallSets :
     TRUE \in ExAnswers(Filter({}, o, cs)) =>
        \A d \in Datas : MatchAll(cs, d) => ExAccepts("k2", o, d)
=============================================================================
