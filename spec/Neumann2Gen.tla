----------------------------- MODULE Neumann2Gen -----------------------------
(* Terms of the second-order von Neumann equation for the dots in configs.json: [id, q (charges)]. *)
EXTENDS Neumann2, SequencesExt, Json, IOUtils, TLC
Configs == JsonDeserialize("configs.json")
VARIABLE k
Put(r) == Serialize(ToJson(r) \o "\n", "terms.ndjson",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
B(x) == IF x THEN 1 ELSE 0
V(v) == <<v.p, v.eta, v.x - 1, v.y - 1>>
Row(d) == <<B(Local(d)), d.v[1].eta, d.x0 - 1, d.y0 - 1, TermSign(d), B(Second(d))>> \o V(d.v[2]) \o V(d.v[3])
Init == k = 0
Next == /\ k < Len(Configs) /\ k' = k + 1
        /\ LET Q == Configs[k'].q IN
           Put([id |-> Configs[k'].id,
                terms |-> SetToSeq({Row(d) : d \in Terms(Q, 1, 1) \cup Terms(Q, 1, -1)}),
                sources |-> SetToSeq({<<d.x0 - 1, d.y0 - 1, B(Taken(d))>> \o V(d.v[1]) : d \in Sources(Q)}),
                sinks |-> SetToSeq({<<d.v[1].eta, d.x0 - 1, d.y0 - 1>> \o V(d.v[2]) : d \in Sinks(Q, 1) \cup Sinks(Q, -1)})])
Spec == Init /\ [][Next]_k
=============================================================================
