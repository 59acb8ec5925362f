----------------------------- MODULE QueriesJudge -----------------------------
(* Validation of recorded traces against Queries.tla: the order of the states after every event and the shape of   *)
(* every answer after every solve: ans0[x][y] is 1 for a number that is not zero, 0 for zero; ans1[x][y] in          *)
(* addition -1 for no answer.                                                                                      *)
EXTENDS Queries, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES k, i, q
Out(f, r) == Serialize(ToJson(r) \o "\n", f,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
T == Traces[k]
Env(r) == [E |-> r.E, qn |-> r.qn, rank |-> r.rank]
Wrong(s, r) ==
  LET env == Env(r)  L == Labels(env) IN
  (IF Len(r.order) = Cardinality(L) /\ \A x \in L : r.order[x+1] = s.order[x] THEN {} ELSE {"order of the states"})
  \cup (IF "ans" \notin DOMAIN r \/ ~r.ans.there THEN {}
        ELSE IF \A x, y \in L : Ask0(env, s, x, y).is = "zero" => r.ans.phi0[x+1][y+1] = 0 THEN {} ELSE {"element that should be zero"})
  \cup (IF "ans" \notin DOMAIN r \/ ~r.ans.there THEN {}
        ELSE IF \A x, y \in L : LET w == Ask1(env, s, x, y).is  g == r.ans.phi1[x+1][y+1] IN
                                (w = "nothing" <=> g = -1) /\ (w = "zero" => g = 0) THEN {} ELSE {"amplitude that should be zero or missing"})
  \cup (IF Permutes(env, s) THEN {} ELSE {"the specification itself"})
Init == k = 1 /\ i = 0 /\ q = [op |-> "none"]
Next ==
  IF k > Len(Traces) THEN FALSE
  ELSE IF i = Len(T.steps) THEN k' = k + 1 /\ i' = 0 /\ q' = [op |-> "none"]
  ELSE LET r == T.steps[i+1]
           s == IF i = 0 THEN QFresh(T.cf, Env(r)) ELSE QStep(T.cf, q, r.e, Env(r)) IN
       /\ q' = s /\ i' = i + 1 /\ UNCHANGED k
       /\ (IF Wrong(s, r) # {} THEN Out("fails.ndjson", [case |-> T.id, step |-> i + 1, what |-> SetToSeq(Wrong(s, r))]) ELSE TRUE)
Spec == Init /\ [][Next]_<<k, i, q>>
=============================================================================
