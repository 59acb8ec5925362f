------------------------------ MODULE SystemGen ------------------------------
(* Random histories of System.tla (TLC -simulate).  What depends on energies is left to the harness: thresholds *)
(* are drawn as a rank (arg) and become numbers when the history is replayed.                                   *)
EXTENDS System, Json, IOUtils, TLC
CONSTANTS Depth, Focus
VARIABLES cf, st, hist
Write(r) == Serialize(ToJson(r) \o "\n", "histories.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
First == {"Pauli", "Lindblad", "Redfield", "1vN", "pyPauli", "pyLindblad", "pyRedfield", "py1vN"}
KernsFor(b) == IF Bath(b) THEN First ELSE First \cup {"RTD", "2vN"}
OptFor(b, k, i, m, ix) == Construct(b, 2, [kern |-> k, itype |-> i, mfree |-> m, itypeph |-> 2, ix |-> ix, sym |-> "none"])
Empty == [E |-> <<>>, qn |-> <<>>]
Bs == IF Focus = "restrict" THEN {"base", "base", "elph", "mb", "mbelph"} ELSE IF Focus = "query" THEN {"base", "base", "base", "elph", "mb"} ELSE {"base", "elph", "mb"}
Init == /\ cf = [b |-> "base"] /\ hist = <<>> /\ st = [op |-> "none"]
New == \E b \in {Pick(Bs)} : \E n \in {Pick(1..3)} : \E nl \in {Pick(1..3)} : \E ix \in {Pick({"Lin", "charge", "sz", "ssq", "charge"})} :
       \E k \in {Pick(KernsFor(b))} : \E i \in {Pick(0..3)} : \E m \in {Coin(8)} : \E dg \in {Coin(3)} : \E sq \in {~Coin(5)} :
       LET i2 == IF Focus = "restrict" /\ i = 0 THEN 2 ELSE i
           m2 == IF Many(b) THEN (IF n = 1 THEN 2 ELSE n) ELSE IF ix \in Spins THEN (IF n = 3 THEN 4 ELSE 2) ELSE n IN
       /\ cf' = [b |-> b, n |-> m2, nl |-> IF ix \in Spins THEN 2 ELSE nl, nb |-> IF Bath(b) THEN Pick(1..2) ELSE 0, diag |-> dg,
                 norm |-> 0, symq |-> sq, o |-> OptFor(b, k, i2, m, ix)]
       /\ st' = Fresh(cf', Empty)
       /\ hist' = <<>>
E1(op, a) == [op |-> op, arg |-> a]
(* (a definition without parameters would be drawn once and for all) *)
Flags(x) == Pick({"full", "full", "full2", "full3", "qd", "norot", "noqd", "nocur"})
FlagRec(f) == [qd |-> f # "noqd", rot |-> f \notin {"noqd", "norot"}, master |-> f # "qd", cur |-> f # "nocur"]
SolveE(f) == [op |-> "solve", flags |-> FlagRec(f)]
FamsOf == IF Bath(cf.b) THEN Fams ELSE Fams \ {"v", "tp", "dp"}
Props == IF cf.o.ix = "ssq" THEN 0..3 ELSE IF cf.o.ix = "sz" THEN 0..2 ELSE 0..1
Srt(x) == CASE RandomElement(1..6) = 1 -> <<-1>> [] RandomElement(1..4) = 1 -> <<Pick(Props)>>
       [] RandomElement(1..12) = 1 -> <<>>
       [] RandomElement(1..2) = 1 -> <<Pick(Props), Pick(Props)>> [] OTHER -> <<Pick(Props), Pick(Props), Pick(Props), Pick(Props)>>
Event(c) ==
  IF Focus = "restrict" THEN
    CASE c <= 5 -> SolveE(Flags(c)) [] c <= 9 -> E1("states", Pick(1..9)) [] c <= 13 -> E1("coh", Pick(0..8))
      [] c <= 15 -> E1("all", 0) [] c = 16 -> [op |-> "change", fam |-> Pick(FamsOf), arg |-> Pick(0..2)]
      [] c = 17 -> E1("fock", Pick(0 .. 2^cf.n - 1)) [] c = 18 -> [op |-> "kern", val |-> Pick(KernsFor(cf.b) \cup {"2vN"})]
      [] c = 19 -> SolveE("full") [] OTHER -> [op |-> "kern", val |-> Pick(First)]
  ELSE IF Focus = "query" THEN
    CASE c <= 4 -> SolveE(Flags(c)) [] c <= 10 -> [op |-> "sort", arg |-> Srt(c)] [] c = 11 -> E1("states", Pick(1..9))
      [] c = 12 -> E1("coh", Pick(0..8)) [] c = 13 -> E1("all", 0)
      [] c <= 15 -> [op |-> "change", fam |-> Pick(FamsOf), arg |-> Pick(0..2)] [] c = 16 -> E1("fock", Pick(0 .. 2^cf.n - 1))
      [] c <= 18 -> [op |-> "kern", val |-> Pick(KernsFor(cf.b) \cup {"2vN"})] [] OTHER -> SolveE("full")
  ELSE
    CASE c <= 4 -> SolveE(Flags(c)) [] c = 5 -> E1("states", Pick(1..9)) [] c = 6 -> E1("coh", Pick(0..8))
      [] c = 7 -> E1("all", 0) [] c <= 10 -> [op |-> "change", fam |-> Pick(FamsOf), arg |-> Pick(0..3)]
      [] c = 11 -> E1("fock", Pick(0 .. 2^cf.n - 1)) [] c <= 14 -> [op |-> "kern", val |-> Pick(KernsFor(cf.b) \cup {"2vN"})]
      [] c = 15 -> E1("itype", Pick(0..3)) [] c = 16 -> E1("mfree", Pick({0, 0, 1}))
      [] c = 17 -> E1("symq", Pick({0, 1})) [] c = 18 -> E1("norm", Pick(0..2))
      [] c = 19 -> [op |-> "solm", val |-> Pick({"none", "solve", "lsqr"})] [] OTHER -> SolveE("full")
Act == \E c \in {Pick(1..20)} : \E e0 \in {TLCEval(Event(c))} :
       \* an event that is not possible becomes a full solve; the last one always is
       LET e == IF Len(hist) = Depth - 1 \/ ~Enabled(cf, st, e0) THEN SolveE("full") ELSE e0
           env == [E |-> <<0>>, qn |-> <<<<0>>>>] IN
       /\ st' = Step(cf, st, e, env)
       /\ hist' = Append(hist, e) /\ UNCHANGED cf
       /\ (IF Len(hist') = Depth THEN Write([cf |-> cf, steps |-> hist']) ELSE TRUE)
Next == IF "n" \notin DOMAIN cf THEN New ELSE Len(hist) < Depth /\ Act
Spec == Init /\ [][Next]_<<cf, st, hist>>
=============================================================================
