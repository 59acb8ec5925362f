----------------------------- MODULE OptionsGen -----------------------------
(* Every construction and, from every state that can be reached, every assignment of one option:               *)
(* the complete transition table of Options.tla, one line per transition.                                       *)
EXTENDS Options, Json, IOUtils, TLC
CONSTANT Sizes
VARIABLES b, n, o
Write(r) == Serialize(ToJson(r) \o "\n", "table.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Asked == Names \cup Classes \cup {"unknown"}
None == [kern |-> "", itype |-> 0, mfree |-> FALSE, itypeph |-> 0, ix |-> "", sym |-> ""]
Requests(bb) == [kern : Asked, itype : {0, 1, 2, 3, 4, -1}, mfree : BOOLEAN,
                 itypeph : IF bb = "elph" THEN {0, 1, 2} ELSE {0},
                 ix : IF Many(bb) THEN {"none"} ELSE {"none", "other"} \cup Indexings,
                 sym : IF Many(bb) THEN {"none"} ELSE {"none", "spin"}]
Init == o = None /\ b \in {"base", "elph", "mb", "mbelph"} /\ n \in Sizes
New == /\ o = None
       /\ \E q \in Requests(b) :
          /\ q.sym = "spin" => n % 2 = 0
          /\ o' = Construct(b, n, q)
          /\ Write([op |-> "new", b |-> b, n |-> n, from |-> q, to |-> o', arg |-> "", warned |-> Warned(b, q, o')])
Put(op, a, r) == o' = r.o /\ Write([op |-> op, b |-> b, n |-> n, from |-> o, to |-> r.o, arg |-> a, warned |-> r.warned])
Assign == /\ o # None /\ o.kern \in Names
          /\ \/ \E k \in Asked : Put("kerntype", k, SetKern(b, o, k))
             \/ \E i \in {0, 1, 2, 3, 5} : Put("itype", i, SetItype(o, i))
             \/ \E m \in BOOLEAN : Put("mfreeq", m, SetMfree(o, m))
             \/ \E x \in Indexings : Put("indexing", x, SetIndex(o, x))
Next == UNCHANGED <<b, n>> /\ (New \/ Assign)
Spec == Init /\ [][Next]_<<b, n, o>>
OnlySupported == o # None => Supported(b, n, o)
=============================================================================
