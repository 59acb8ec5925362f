----------------------------- MODULE DiagramsGen -----------------------------
(* Diagram tables of the dots in configs.json: [id, q (charges)].  All diagrams with one line between elements of    *)
(* equal charge, and those with two lines between diagonal elements.                                                *)
EXTENDS Diagrams, SequencesExt, Json, IOUtils, TLC
Configs == JsonDeserialize("configs.json")
VARIABLE k
Out(r) == Serialize(ToJson(r) \o "\n", "diagrams.ndjson",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
B(x) == IF x THEN 1 ELSE 0
V(v) == <<v.p, v.eta, v.line, v.x - 1, v.y - 1>>
(* first element, sign, filled lines, then p, eta, line, ket, bra of every vertex *)
Row(d) == <<d.x0 - 1, d.y0 - 1, Sign(d), B(Filled(d, 1)), IF d.used = 2 THEN B(Filled(d, 2)) ELSE 0>>
          \o FoldLeft(LAMBDA a, v : a \o V(v), <<>>, d.v)
Even(Q, S) == {d \in S : Q[d.x] = Q[d.y]}
Diag(S) == {d \in S : d.x = d.y}
One(Q) == UNION {Even(Q, Diagrams(Q, p[1], p[2], 1)) : p \in {p \in (1..Len(Q)) \X (1..Len(Q)) : Q[p[1]] = Q[p[2]]}}
Init == k = 0
Next == /\ k < Len(Configs) /\ k' = k + 1
        /\ LET Q == Configs[k'].q IN
           /\ Out([id |-> Configs[k'].id, order |-> 1, rows |-> SetToSeq({Row(d) : d \in One(Q)})])
           /\ \A x \in 1 .. Len(Q) :
                Out([id |-> Configs[k'].id, order |-> 2, rows |-> SetToSeq({Row(d) : d \in Diag(Diagrams(Q, x, x, 2))})])
Spec == Init /\ [][Next]_k
=============================================================================
