---------------------------- MODULE IndexingGen ----------------------------
(* Histories of removals and restrictions: all configurations of few orbitals (Exhaustive) or random *)
(* histories of many (with -simulate).  Every reached history is written to histories.ndjson.         *)
EXTENDS Indexing, Randomization, Json, IOUtils, TLC
CONSTANTS Ns, Ixs, Depth, Exhaustive
VARIABLES cf, hist
Write(h) == Serialize(ToJson([n |-> cf'.n, ix |-> cf'.ix, ops |-> h]) \o "\n", "histories.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Sizes(S) == 1 .. Cardinality(S)
Some(S) == IF Exhaustive THEN SUBSET S
           ELSE {RandomSubset(k, S) : k \in {j \in Sizes(S) : j <= 3 \/ j % 11 = 0 \/ j = Cardinality(S) - 1}}
Op(name, S) == [op |-> name, arg |-> SetToSeq(S)]
Step(op) == /\ hist' = Append(hist, op)
            /\ (Exhaustive \/ Len(hist') = Depth) => Write(hist')
Init == \E n \in Ns, ix \in Ixs : cf = New(n, ix) /\ hist = <<>>
Removing == \E S \in Some(Codes(cf.n)) :
               /\ S # {} /\ Cardinality(cf.removed \cup S) < Pow2(cf.n)
               /\ Exhaustive => S \cap cf.removed = {}
               /\ Effective(cf.n, cf.ix) = "ssq" => cf.kept = Everything(cf)
               /\ cf' = RemoveFock(cf, S) /\ Step(Op("remove", S))
Restricting == \E K \in Some(Everything(cf)) :
               /\ K # {} /\ K # cf.kept /\ cf' = Retain(cf, K) /\ Step(Op("retain", K))
Restoring == cf.kept # Everything(cf) /\ cf' = RetainAll(cf) /\ Step(Op("all", {}))
Next == Len(hist) < Depth /\ (Removing \/ Restricting \/ Restoring)
Spec == Init /\ [][Next]_<<cf, hist>>
View == cf
Sound == /\ cf.kept \subseteq Everything(cf) /\ cf.kept # {}
         /\ Effective(cf.n, cf.ix) = "ssq" => cf.removed = {}
         /\ LET n == cf.n IN n % 2 = 0 =>
            \A q \in 0..n : \A s \in Szs(n, q) :       \* multiplets fill every block
               BlockSize(n, q, s) = FoldSet(LAMBDA x, a: a + Multiplets(n, q, x), 0, Ssqs(n, q, s))
=============================================================================
