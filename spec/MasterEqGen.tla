---------------------------- MODULE MasterEqGen ----------------------------
(* Term tables of the configurations in configs.json, one state per configuration; *)
(* the laws are evaluated in every state as well.                                  *)
EXTENDS MasterEq, SequencesExt, Json, IOUtils, TLC
Configs == JsonDeserialize("configs.json")
VARIABLE k
ToSet2(s) == {s[i] : i \in 1..Len(s)}
Cf(j) == LET c == Configs[j] IN
         [charge |-> c.charge, ret |-> ToSet2(c.ret), pairs |-> ToSet2(c.pairs), phpairs |-> ToSet2(c.phpairs)]
(* one row of integers per term, target by target *)
Row(x) == x.t \o x.s \o <<x.c>> \o x.a1 \o x.a2 \o <<x.f, x.cc>> \o x.e \o x.e2
Rows(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Row(q[i])]
OverPairs(cf, Of(_, _)) == LET q == SetToSeq(cf.pairs) IN [i \in 1..Len(q) |-> Rows(Of(q[i][1], q[i][2]))]
OverStates(cf, Of(_)) == LET q == SetToSeq(cf.ret) IN [i \in 1..Len(q) |-> Rows(Of(q[i]))]
Tables(j) ==
  LET cf == Cf(j)  a == Configs[j].apr  ph == Configs[j].ph  red == (a = "Redfield") IN
  [ id |-> Configs[j].id,
    lead |-> CASE a \in {"1vN", "Redfield"} -> OverPairs(cf, LAMBDA b, bp: LeadTermsOf(cf, red, b, bp))
               [] a = "Lindblad" -> OverPairs(cf, LAMBDA b, bp: LindbladTermsOf(cf, b, bp))
               [] a = "Pauli" -> OverStates(cf, LAMBDA b: PauliTermsOf(cf, b)),
    current |-> CASE a \in {"1vN", "Redfield"} -> OverStates(cf, LAMBDA b: CurrentTermsNeumannOf(cf, red, b))
               [] a = "Lindblad" -> OverPairs(cf, LAMBDA b, bp: LindbladCurrentOf(cf, <<b, bp>>))
               [] a = "Pauli" -> <<Rows(PauliCurrent(cf))>>,
    ph |-> IF ~ph THEN <<>> ELSE
           CASE a \in {"1vN", "Redfield"} -> OverPairs(cf, LAMBDA b, bp: PhononTermsOf(cf, red, b, bp))
               [] a = "Lindblad" -> OverPairs(cf, LAMBDA b, bp: PhononLindbladOf(cf, b, bp))
               [] a = "Pauli" -> OverStates(cf, LAMBDA b: PhononPauliOf(cf, b)) ]
WellFormed == k > 0 =>
   LET cf == Cf(k) IN
   /\ \A b \in cf.ret : <<b, b>> \in cf.pairs
   /\ \A p \in cf.pairs : {p[1], p[2]} \subseteq cf.ret /\ Rev(p) \in cf.pairs /\ N(cf, p[1]) = N(cf, p[2])
Init == k = 0
Next == k < Len(Configs) /\ k' = k + 1
        /\ Serialize(ToJson(Tables(k + 1)) \o "\n", "terms.ndjson",
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_k
=============================================================================
