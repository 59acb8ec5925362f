----------------------------- MODULE IterateGen ------------------------------
(* Random histories of Iterate.tla with the state expected after every event (TLC -simulate). *)
EXTENDS Iterate, Json, IOUtils, TLC
CONSTANT Depth
VARIABLES st, hist, first
Write(r) == Serialize(ToJson(r) \o "\n", "histories.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Pick(S) == RandomElement(S)
Init == st = [impl |-> "none"] /\ hist = <<>> /\ first = "none"
Event(c) ==
  CASE c <= 7 -> [op |-> "solve", k |-> Pick(0..3), restart |-> FALSE, qd |-> Pick({TRUE, TRUE, FALSE}), master |-> Pick(1..6) > 1]
    [] c <= 10 -> [op |-> "solve", k |-> Pick(0..3), restart |-> TRUE, qd |-> Pick({TRUE, TRUE, FALSE}), master |-> Pick(1..6) > 1]
    [] c <= 12 -> [op |-> "change", arg |-> Pick(0..2)]
    [] c = 13 -> [op |-> "impl", val |-> Pick(Impls \cup {"other"})]
    [] c = 14 -> [op |-> "norm", arg |-> Pick(0..1)]
    [] c = 15 -> [op |-> "symq", arg |-> Pick(0..1)]
    [] OTHER -> [op |-> "query"]
New == \E i \in {Pick(Impls)} : st' = Fresh(i) /\ hist' = <<>> /\ first' = i
Act == \E c \in {Pick(1..16)} : \E e0 \in {TLCEval(Event(c))} : \E f \in {Pick(1..2)} : \E v \in {Pick(Impls)} :
       LET e == IF Enabled(st, e0) THEN e0
                ELSE IF ~Iterative(st) THEN [op |-> "impl", val |-> v] ELSE Solve(f, TRUE)
           s == Step(st, e) IN
       /\ st' = s /\ UNCHANGED first
       /\ hist' = Append(hist, [e |-> e, impl |-> s.impl, ver |-> s.ver, base |-> s.base,
                                nos |-> [i \in 1 .. Count(s) |-> s.its[i].no], last |-> s.last])
       /\ (IF Len(hist') = Depth THEN Write([impl |-> first, steps |-> hist']) ELSE TRUE)
Next == IF st.impl = "none" THEN New ELSE Len(hist) < Depth /\ Act
Spec == Init /\ [][Next]_<<st, hist, first>>
=============================================================================
