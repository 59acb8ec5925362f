---------------------------- MODULE CovarianceGen ----------------------------
(* Words of actions for random classes of systems, with the record after every one (one word per behaviour). *)
EXTENDS Covariance, TLC, Json, IOUtils
CONSTANT Depth
VARIABLES M, first, word, i
Out(r) == Serialize(ToJson(r) \o "\n", "words.ndjson",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
R(S, d) == RandomElement(S)
Kinds == <<"leads", "order", "phase", "mix", "mix", "flip", "conj", "holes", "shift", "scale", "cut", "idle", "adjoin", "baths", "cutbath">>
Op(d) ==
  LET kind == Kinds[R(1 .. Len(Kinds), d)] IN
  [k |-> kind,
   p |-> R(Perms(IF kind = "order" THEN Width(M) ELSE IF kind = "baths" THEN Len(M.baths) ELSE Half(M)), d),
   q |-> R(Perms(IF kind = "order" THEN Width(M) ELSE Half(M)), <<d, 1>>),
   l |-> R(1 .. (IF kind = "cutbath" THEN 2 ELSE Half(M)), d), x |-> R({-1, 1}, d), seed |-> R(1 .. 1000000, d)]
Fix(op) == IF M.cls.spin = "sz" \/ op.k \notin {"leads", "order"} THEN op ELSE [op EXCEPT !.q = op.p]
Init == /\ \E spin \in {"no", "sz", "ssq"}, meth \in {"Pauli", "first", "2vN", "RTD"}, n \in 1 .. MaxN, nl \in 1 .. 4, nb \in 0 .. 2 :
             /\ (spin # "no" => meth \in {"Pauli", "first"} /\ n % 2 = 0 /\ nl % 2 = 0)
             /\ (meth \in {"2vN", "RTD"} => nb = 0 /\ n <= 3 /\ nl <= 3)
             /\ M = Start([spin |-> spin, meth |-> meth], n, nl, nb)
             /\ first = <<n, nl, nb>>
        /\ word = <<>> /\ i = 0
(* some draws are not possible and leave the word as it is *)
Go ==   \/ /\ i < Depth
           /\ \E op \in {TLCEval(Fix(Op(i)))} :
                IF Enabled(M, op) THEN M' = Apply(M, op) /\ word' = Append(word, [op |-> op, leads |-> M'.leads, baths |-> M'.baths]) /\ i' = i + 1
                ELSE UNCHANGED <<M, word>> /\ i' = i
        \/ /\ i = Depth /\ i' = i + 1 /\ UNCHANGED <<M, word>>
           /\ Out([start |-> first, cls |-> M.cls, word |-> word, n |-> M.n, nl |-> Len(M.leads), nb |-> Len(M.baths), flip |-> M.flip, sc |-> M.sc, conj |-> M.conj])
Next == Go /\ UNCHANGED first
Spec == Init /\ [][Next]_<<M, first, word, i>>
Inv == Law(M)
=============================================================================
