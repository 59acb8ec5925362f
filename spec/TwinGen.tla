------------------------------ MODULE TwinGen ------------------------------
(* Random histories of Twin.tla (TLC -simulate); thresholds are ranks, and the permutation is a random number that *)
(* the harness turns into one of the labels that are there.                                                       *)
EXTENDS Twin, Json, IOUtils, TLC
CONSTANTS Depth
VARIABLES cf, a, b, hist
Write(r) == Serialize(ToJson(r) \o "\n", "twins.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
First == {"Pauli", "Lindblad", "Redfield", "1vN", "pyPauli", "pyLindblad", "pyRedfield", "py1vN"}
Kerns(bb, ix) == IF bb = "elph" THEN First ELSE First \cup (IF ix = "charge" THEN {"RTD", "pyRTD", "2vN", "py2vN"} ELSE {"2vN"})
E1(op, x) == [op |-> op, arg |-> x]
Empty == [E |-> <<0, 0>>, qn |-> <<<<0>>, <<0>>>>]
Id == [x \in 0..1 |-> x]
Init == cf = [b |-> "base"] /\ hist = <<>> /\ a = [op |-> "none"] /\ b = [op |-> "none"]
New == \E bb \in {Pick({"base", "base", "elph"})} : \E n \in {Pick({1, 2, 2, 3})} : \E nl \in {Pick(1..3)} : \E ix \in {Pick({"charge", "charge", "Lin"})} :
       \E k \in {Pick(Kerns(bb, ix))} : \E i \in {Pick({0, 1, 1, 2, 3, 3})} : \E m \in {Coin(8)} : \E sq \in {~Coin(5)} :
       /\ cf' = [b |-> bb, n |-> n, nl |-> nl, nb |-> IF bb = "elph" THEN Pick(1..2) ELSE 0, diag |-> Coin(4), norm |-> 0, symq |-> sq,
                 off |-> Pick({-2, 0, 0, 1, 5}), perm |-> Pick(0..5039), gone |-> IF n > 1 /\ Coin(3) THEN <<Pick(0..2^n - 1)>> ELSE <<>>,
                 o |-> Construct(bb, n, [kern |-> k, itype |-> i, mfree |-> m, itypeph |-> IF bb = "elph" THEN Pick({0, 2, 2}) ELSE 0, ix |-> ix, sym |-> "none"])]
       /\ a' = Step(cf', Fresh(cf', Empty), FullSolve, Empty)
       /\ b' = Step(TwinOf(cf'), Fresh(TwinOf(cf'), Empty), FullSolve, Empty)
       /\ hist' = <<FullSolve>>
FamsOf == IF cf.b = "elph" THEN {"mu", "temp", "d", "tp", "dp"} ELSE {"mu", "temp", "d"}
Hands == IF cf.b = "elph" THEN {"h", "t", "v"} ELSE {"h", "t"}
Event(c) ==
  CASE c <= 3 -> FullSolve [] c <= 6 -> E1("states", Pick(1..9)) [] c <= 8 -> E1("coh", Pick(0..8))
    [] c = 9 -> E1("all", 0) [] c <= 11 -> [op |-> "change", fam |-> Pick(FamsOf), arg |-> Pick(0..2)]
    [] c <= 13 -> [op |-> "hand", fam |-> Pick(Hands), arg |-> Pick(0..2)]
    [] c <= 15 -> [op |-> "kern", val |-> Pick(Kerns(cf.b, cf.o.ix))]
    [] c = 16 -> E1("itype", Pick({1, 2, 3, 0})) [] c = 17 -> E1("mfree", Pick({0, 0, 1}))
    [] c = 18 -> E1("symq", Pick({0, 1, 1})) [] c = 19 -> [op |-> "solm", val |-> Pick({"none", "solve", "lsqr"})]
    [] OTHER -> E1("sort", Pick(0..4))
Act == \E c \in {Pick(1..20)} : \E e0 \in {TLCEval(Event(c))} :
       LET e == IF Len(hist) = Depth - 1 \/ ~Enabled(cf, a, e0) \/ ~Enabled(TwinOf(cf), b, e0) THEN FullSolve ELSE e0 IN
       /\ a' = StepA(cf, a, e, Empty) /\ b' = StepB(TwinOf(cf), b, e, Seen(Empty, Id, cf.off))
       /\ hist' = Append(hist, e) /\ UNCHANGED cf
       /\ (IF Len(hist') = Depth THEN Write([cf |-> cf, steps |-> hist']) ELSE TRUE)
Next == IF "n" \notin DOMAIN cf THEN New ELSE Len(hist) < Depth /\ Act
(* also along these histories, for the part that does not depend on the environment *)
Alike == "n" \in DOMAIN cf => a.ver = b.ver /\ a.o.kern = b.o.kern /\ a.o.itype = b.o.itype /\ a.o.mfree = b.o.mfree
                              /\ a.symq = b.symq /\ a.solm = b.solm
Spec == Init /\ [][Next]_<<cf, a, b, hist>>
=============================================================================
