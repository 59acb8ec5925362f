--------------------------- MODULE IndexingJudge ---------------------------
(* Validates recorded traces: every event names the call and carries the tables of the implementation after it. *)
EXTENDS Indexing, Json, IOUtils, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, l, cf
Apply(c, e) == CASE e.op = "remove" -> RemoveFock(c, Range(e.arg))
                 [] e.op = "retain" -> Retain(c, Range(e.arg))
                 [] e.op = "all" -> RetainAll(c)
                 [] OTHER -> c
Report(e, c) ==
  LET f == (IF "labels" \in DOMAIN e THEN LabelFails(c, e.labels) ELSE {})
           \cup (IF "dm" \in DOMAIN e THEN UNION {DmFails(c, e.dm[i]) : i \in DOMAIN e.dm} ELSE {}) IN
  f = {} \/ Serialize(ToJson([id |-> Traces[t'].id, step |-> l', fails |-> SetToSeq(f)]) \o "\n", "fails.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == t = 0 /\ l = 0 /\ cf = New(0, "Lin")
Start == /\ t < Len(Traces) /\ (IF t = 0 THEN TRUE ELSE l = Len(Traces[t].events)) /\ t' = t + 1 /\ l' = 1
         /\ cf' = New(Traces[t'].n, Traces[t'].ix)
         /\ Report(Traces[t'].events[1], cf')
Step == /\ t > 0 /\ l < Len(Traces[t].events) /\ t' = t /\ l' = l + 1
        /\ cf' = Apply(cf, Traces[t].events[l'])
        /\ Report(Traces[t].events[l'], cf')
Next == Start \/ Step
Spec == Init /\ [][Next]_<<t, l, cf>>
=============================================================================
