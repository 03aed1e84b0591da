----------------------------- MODULE FilterJson -----------------------------
(* Parsing of JSON filters: every combination of well formed and malformed    *)
(* parts, and whether the document is accepted.                               *)
EXTENDS Integers, Sequences, TLC, Json

Tops  == {"object", "array", "number", "string", "true"}
AccK  == {"absent", "null", "ok0", "ok1", "ok3", "badkey", "nonstring", "notarray", "nested"}
ProgK == {"absent", "ok", "bad", "nonstring", "null", "array"}
FilK  == {"absent", "null", "empty", "size", "mem", "mixed", "unknown", "badoffset", "negative", "nodata",
          "bytesrange", "notarray", "badvariant", "undecodable", "float"}
OkAcc  == {"absent", "null", "ok0", "ok1", "ok3"}
OkProg == {"absent", "ok"}
OkFil  == {"absent", "null", "empty", "size", "mem", "mixed", "undecodable"}

Accepted(d) == d.top = "object" /\ d.acc \in OkAcc /\ d.prog \in OkProg /\ d.fil \in OkFil

VARIABLE doc, n
Init == /\ doc \in [top : {"object"}, acc : AccK, prog : ProgK, fil : FilK]
                   \cup [top : Tops \ {"object"}, acc : {"absent"}, prog : {"absent"}, fil : {"absent"}]
        /\ n = 0
Next == n < 3 /\ n' = n + 1 /\ UNCHANGED doc
Emit == PrintT("TRACE " \o ToJson([json |-> doc, ok |-> Accepted(doc), n |-> n']))
=============================================================================
