----------------------------- MODULE TokenCodec -----------------------------
(***************************************************************************)
(* Contents of token program accounts and their compact form: a header of  *)
(* flags, then the fixed fields, then exactly the optional fields whose    *)
(* flag is set, in a fixed order. The compact form must be invertible, and *)
(* what is read back does not depend on what the account held before.      *)
(*                                                                         *)
(* A content is a record of symbolic field values; optional fields are     *)
(* "-" when absent. The replay stores the first content, replaces it by    *)
(* the second one along every path through the real storage (processed,    *)
(* confirmed, finalized, initialized, snapshot) and compares the bytes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Opt == {"-", "v"}
Tokens == {x \in [ty : {"t"}, o : {"T", "X"}, st : 0..2, del : Opt, nat : Opt, clo : Opt, ext : Opt] :
             x.o = "T" => x.ext = "-"}
MintsC == {x \in [ty : {"m"}, o : {"T", "X"}, init : BOOLEAN, aut : Opt, fre : Opt, ext : Opt] :
             x.o = "T" => x.ext = "-"}
(* signers: how many, and whether one of them is the default key *)
Sigs == [ty : {"s"}, o : {"T", "X"}, init : BOOLEAN, n : {0, 1, 2, 5, 11}, hole : BOOLEAN]
Gone == {[ty |-> "d", o |-> "T"], [ty |-> "d", o |-> "R"]}
Contents == Tokens \cup MintsC \cup Sigs

(* ---- compact form of token accounts ---- *)
Bit(b, i) == IF b THEN 2 ^ i ELSE 0
StateBits(st) == CASE st = 1 -> 0 [] st = 2 -> 1 [] st = 0 -> 2
Header(x) == Bit(x.o = "X", 0) + 4 * StateBits(x.st) + Bit(x.del # "-", 4) + Bit(x.nat # "-", 5)
             + Bit(x.clo # "-", 6) + Bit(x.ext # "-", 7)
Pack(x) == <<Header(x), "alive", "key", "owner", "mint", "amount">>
           \o (IF x.del # "-" THEN <<x.del, "delegated">> ELSE <<>>)
           \o (IF x.nat # "-" THEN <<x.nat>> ELSE <<>>)
           \o (IF x.clo # "-" THEN <<x.clo>> ELSE <<>>)
           \o (IF x.ext # "-" THEN <<"len", x.ext>> ELSE <<>>)
Has(h, i) == (h \div (2 ^ i)) % 2 = 1
StateOf(h) == CASE (h \div 4) % 4 = 0 -> 1 [] (h \div 4) % 4 = 1 -> 2 [] (h \div 4) % 4 = 2 -> 0
Unpack(p) ==
  LET h == p[1]
      d == IF Has(h, 4) THEN 2 ELSE 0
      n == IF Has(h, 5) THEN 1 ELSE 0
      c == IF Has(h, 6) THEN 1 ELSE 0
  IN [ty |-> "t", o |-> IF Has(h, 0) THEN "X" ELSE "T", st |-> StateOf(h),
      del |-> IF Has(h, 4) THEN p[7] ELSE "-",
      nat |-> IF Has(h, 5) THEN p[7 + d] ELSE "-",
      clo |-> IF Has(h, 6) THEN p[7 + d + n] ELSE "-",
      ext |-> IF Has(h, 7) THEN p[8 + d + n + c] ELSE "-"]

(* ---- data bytes, by which an owner and a length the kind of account is recognized ---- *)
Len165(x) == x.ty = "t" /\ x.ext = "-"
Layout(x) == CASE x.ty = "t" -> IF x.ext = "-" THEN <<165>> ELSE <<"more", 2>>
               [] x.ty = "m" -> IF x.ext = "-" THEN <<82>> ELSE <<"more", 1>>
               [] x.ty = "s" -> <<355>>
Recognized(l) == CASE l = <<165>> -> "t" [] l = <<82>> -> "m" [] l = <<355>> -> "s"
                   [] l = <<"more", 2>> -> "t" [] l = <<"more", 1>> -> "m"

VARIABLES cur, prev
vars == <<cur, prev>>
Nothing == [ty |-> "d", o |-> "T"]
Init == cur = Nothing /\ prev = Nothing
Store(x) == cur' = x /\ prev' = cur
Next == /\ \/ prev = Nothing /\ cur = Nothing
           \/ prev = Nothing /\ cur # Nothing
        /\ \E x \in Contents \cup (IF cur = Nothing THEN {} ELSE Gone) : Store(x)
Spec == Init /\ [][Next]_vars

RoundTrip == cur.ty = "t" => Unpack(Pack(cur)) = cur
ASSUME Injective == \A x, y \in Tokens : Pack(x) = Pack(y) => x = y
KindRecognized == cur.ty \in {"t", "m", "s"} => Recognized(Layout(cur)) = cur.ty

Emit == (prev' # Nothing) => PrintT("TRACE " \o ToJson([from |-> prev', to |-> cur']))
=============================================================================
