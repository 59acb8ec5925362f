----------------------------- MODULE ParamsGen -----------------------------
(* Random behaviours of Params.tla (TLC -simulate): histories of construction, additions, changes, removals of *)
(* Fock states and solves, with the parameters that must be stored after every step.                           *)
EXTENDS Params, Json, IOUtils, TLC
CONSTANT Depth
VARIABLES cf, p, q, removed, hist
Write(r) == Serialize(ToJson(r) \o "\n", "behaviours.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Pick(S) == RandomElement(S)
Coin(n) == RandomElement(1..n) = 1
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)

Value(f, k, kind) ==
  CASE f \in {"temp", "tp"} -> <<Pick(1..9), 0>>
    [] f = "mu" -> <<Pick(-9..9), 0>>
    [] f = "d" -> <<-Pick(20..60), Pick(20..60)>>
    [] f = "dp" -> <<Pick(1..2), Pick(40..60)>>
    [] OTHER -> IF Coin(8) /\ kind # "add" THEN Zero ELSE <<Pick(-6..6), IF RealKey(f, k) THEN 0 ELSE Pick(-4..4)>>
Forms(f) == CASE f \in {"h", "t", "v"} -> {"dict", "list", "array"}
              [] f = "u" -> {"dict", "list", "array"}
              [] f \in {"d", "dp"} -> {"dict", "list", "array", "dict1", "list1", "array1", "number"}
              [] OTHER -> {"dict", "list", "array", "number"}
Sym(x) == <<-x[2], x[2]>>                 \* a single bandwidth D stands for (-D, D)
Full == {"array", "list", "list1", "array1"}
(* what a call gives for a family: [form, entries] with entries a function *)
Given(f, kind) ==
  LET form == TLCEval(Pick(Forms(f)))
      all == GivenKeys(cf, f)
      complete == form = "number" \/ (form = "array" /\ f # "u") \/ (f \in Scalars /\ form \in Full)
      keys == TLCEval(IF complete THEN ArrayKeys(cf, f) ELSE {k \in all : Coin(2)})
      w == TLCEval([k \in keys |-> Value(f, k, kind)])
      x == IF form \in {"dict1", "list1", "array1"} \/ (form = "number" /\ f \in {"d", "dp"})
           THEN [k \in keys |-> Sym(w[k])] ELSE w
      one == x[CHOOSE k \in keys : TRUE]
  IN [form |-> form, entries |-> IF form = "number" /\ keys # {} THEN [k \in keys |-> one] ELSE x]
Rows(g) == SetToSeq({<<k, g[k]>> : k \in DOMAIN g})
Present == IF cf.nb = 0 THEN Families \ {"v", "tp", "dp"} ELSE Families
Stored(x) == [f \in Families |-> Rows(x[f])]
Behind(x) == [f \in Operators |-> Rows(x[f])]
Event(kind, call) == [op |-> kind, call |-> [f \in DOMAIN call |-> [form |-> call[f].form, entries |-> Rows(call[f].entries)]]]
Entries(call) == [f \in DOMAIN call |-> call[f].entries]

Configs == [n : {1, 2, 3}, nl : {1, 2}, nb : {0, 1, 2}, spin : {FALSE}, herm : BOOLEAN, hermc : BOOLEAN, mln : BOOLEAN]
           \cup [n : {1, 2}, nl : {1, 2}, nb : {0, 1}, spin : {TRUE}, herm : BOOLEAN, hermc : BOOLEAN, mln : BOOLEAN]
Init == cf \in Configs /\ p = [f \in Families |-> Nothing] /\ q = [f \in Operators |-> Nothing] /\ removed = {} /\ hist = <<>>
Log(e) == hist' = Append(hist, [e |-> e, p |-> Stored(p'), q |-> Behind(q'), removed |-> SetToSeq(removed')])
New == \E call \in {TLCEval([f \in Present |-> TLCEval(Given(f, "new"))])} :
       /\ p' = Construct(cf, Entries(call)) /\ q' = [f \in Operators |-> p'[f]] /\ UNCHANGED removed /\ Log(Event("new", call))
Call(kind) == \E fams \in {TLCEval({f \in Present : Coin(3)})} :
              \E call \in {TLCEval([f \in fams |-> TLCEval(Given(f, kind))])} :
       /\ p' = Update(cf, p, kind, Entries(call)) /\ q' = Follow(q, p, p') /\ UNCHANGED removed /\ Log(Event(kind, call))
Band == \E call \in {TLCEval([f \in {"d"} |-> TLCEval(Given("d", "change"))])} :
       /\ p' = Update(cf, p, "change", Entries(call)) /\ UNCHANGED <<q, removed>> /\ Log(Event("dband", call))
Renew == \E call \in {TLCEval([f \in {"t", "v"} \cap Present |-> TLCEval(Given(f, "new"))])} :
       /\ p' = Replace(cf, p, Entries(call)) /\ q' = [f \in Operators |-> IF f \in {"t", "v"} THEN p'[f] ELSE q[f]]
       /\ UNCHANGED removed /\ Log(Event("renew", call))
(* only the many-body operators; entries as dictionaries with every copy spelled out *)
Silent == \E kind \in {Pick({"add", "change"})} :
          \E fams \in {TLCEval(IF kind = "change" THEN {"h", "u"} ELSE {"h", "u"} \cup {f \in {"t", "v"} \cap Present : Coin(2)})} :
          \E call \in {TLCEval([f \in fams |-> TLCEval(Given(f, kind))])} :
       /\ q' = Quiet(cf, p, q, kind, Entries(call)) /\ UNCHANGED <<p, removed>>
       /\ Log(Event(IF kind = "add" THEN "quietadd" ELSE "quietchange",
                    [f \in fams |-> IF kind = "change" THEN call[f]
                                    ELSE [form |-> "dict", entries |-> Expand(cf, f, call[f].entries)]]))
Fock == /\ \E x \in {Pick(0 .. Pow2(NOrb(cf)) - 1)} :
           /\ removed' = removed \cup {x} /\ UNCHANGED p
           /\ q' = [f \in Operators |-> p[f]]
           /\ Log([op |-> "fock", arg |-> x, call |-> [f \in {} |-> 0]])
Solve == \E k \in {Pick({"solve", "qd", "unrotated", "keep"})} : UNCHANGED <<p, q, removed>> /\ Log([op |-> k, call |-> [f \in {} |-> 0]])
Next == /\ Len(hist) < Depth
        /\ cf' = cf
        /\ IF hist = <<>> THEN New ELSE
           \E c \in {Pick(1..24)} :
           CASE c <= 8 -> Call("change") [] c <= 14 -> Call("add") [] c <= 16 -> Band
             [] c \in {17, 18} /\ Cardinality(removed) < Pow2(NOrb(cf)) - 2 -> Fock [] c = 19 -> Renew [] c \in {20, 21} -> Silent [] OTHER -> Solve
        /\ (IF Len(hist') = Depth THEN Write([cf |-> cf, steps |-> hist']) ELSE TRUE)
Spec == Init /\ [][Next]_<<cf, p, q, removed, hist>>
Laws == hist = <<>> => \A f \in {"h", "u", "t", "v", "mu", "d", "tp"} : NoCollision(cf, f) /\ InRange(cf, f)
(* what was stored is kept: families that are not called, keys that are not mentioned *)
Spare == Len(hist) > 1 =>
  LET a == hist[Len(hist)-1]  b == hist[Len(hist)] IN
  \A f \in Families : f \notin DOMAIN b.e.call => a.p[f] = b.p[f]
(* as long as nothing is silent the many-body operators belong to the recorded parameters *)
Loud == (\A i \in DOMAIN hist : hist[i].e.op \notin {"quietadd", "quietchange"}) =>
        \A f \in Operators : \A k \in DOMAIN p[f] \cup DOMAIN q[f] : At(p[f], k) = At(q[f], k)
=============================================================================
