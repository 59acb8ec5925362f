---------------------------- MODULE LatticeGen ----------------------------
(* Explores the ways of every physical configuration: each is reached from the start by changes of one choice       *)
(* at a time through valid ways, and each is granted as asked (nothing is replaced).  Writes all of them.             *)
EXTENDS Lattice, Json, IOUtils, TLC
VARIABLES c, w
Write(r) == Serialize(ToJson(r) \o "\n", "ways.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == c \in Physical /\ w = Start(c)
Next == \E f \in DOMAIN w : \E x \in Values[f] \ {w[f]} :
          /\ Way(c, [w EXCEPT ![f] = x])
          /\ w' = [w EXCEPT ![f] = x]
          /\ UNCHANGED c
Granted_ == Granted(c, w)
Valid == w \in Ways(c)
Emit == Write([c |-> c, w |-> w])
(* nothing is left out of the exploration *)
Complete == TLCGet("stats").distinct = Cardinality(UNION {{<<p, v>> : v \in Ways(p)} : p \in Physical})
Spec == Init /\ [][Next]_<<c, w>>
=============================================================================
