----------------------------- MODULE MasterEqMC -----------------------------
(* All small configurations: up to MaxB states in each of the charges 0..MaxQ,   *)
(* every retained subset, every symmetric set of kept coherences.                *)
EXTENDS MasterEq, SequencesExt, TLC
CONSTANTS MaxB, MaxQ, MaxN
VARIABLE cf
Ones(n, q) == [k \in 1..n |-> q]
Charges == {FoldSeq(LAMBDA a, acc: acc \o Ones(a[2], a[1]), <<>>, [i \in 1..(MaxQ+1) |-> <<i-1, sz[i]>>]) :
            sz \in {z \in [1..(MaxQ+1) -> 0..MaxB] : TRUE}}
Sorted(ch) == \A i \in 1..(Len(ch)-1) : ch[i] <= ch[i+1]
Init == \E ch \in {c \in Charges : Len(c) <= MaxN /\ Len(c) > 0 /\ Sorted(c)} :
        \E ret \in SUBSET (0..(Len(ch)-1)) :
        LET coh == {p \in ret \X ret : p[1] < p[2] /\ ch[p[1]+1] = ch[p[2]+1]} IN
        \* the phonon factors exist within classes of states (all of a charge, or equal spin); kept
        \* coherences always lie within a class
        \E phk \in {coh, {p \in coh : (p[2] - p[1]) % 2 = 0}} : \E keep \in SUBSET phk :
          cf = [charge |-> ch, ret |-> ret,
                pairs |-> {<<b, b>> : b \in ret} \cup keep \cup {<<p[2], p[1]>> : p \in keep},
                phpairs |-> {<<b, b>> : b \in ret} \cup phk \cup {<<p[2], p[1]>> : p \in phk}]
Next == UNCHANGED cf
Spec == Init /\ [][Next]_cf
TraceLaw == /\ TracePreserving(LeadTerms(cf, FALSE), LeadKey)
         /\ TracePreserving(LeadTerms(cf, TRUE), LeadKey)
         /\ TracePreserving(LindbladTerms(cf), LeadKey)
         /\ TracePreserving(PauliTerms(cf), LeadKey)
PhononTrace ==
         /\ TracePreserving(PhononTerms(cf, FALSE), PhKey)
         /\ TracePreserving(PhononTerms(cf, TRUE), PhKey)
         /\ TracePreserving(PhononLindblad(cf), PhKey)
         /\ TracePreserving(PhononPauli(cf), PhKey)
Hermitian == /\ HermitianNeumann(LeadTerms(cf, FALSE)) /\ HermitianNeumann(LeadTerms(cf, TRUE))
             /\ HermitianLindblad(LindbladTerms(cf))
             /\ HermitianPhonon(PhononTerms(cf, FALSE)) /\ HermitianPhonon(PhononTerms(cf, TRUE))
             /\ HermitianPhononLindblad(PhononLindblad(cf))
ChargeBalance ==
  /\ \A red \in {FALSE, TRUE} : ChargeBalanceNeumann(cf, LeadTerms(cf, red), CurrentTermsNeumann(cf, red))
  /\ ChargeBalanceRate(cf, LindbladTerms(cf), LindbladCurrent(cf))
  /\ ChargeBalanceRate(cf, PauliTerms(cf), PauliCurrent(cf))
PhononCharge == /\ \A red \in {FALSE, TRUE} : ChargeDiagonal(cf, PhononTerms(cf, red))
                /\ ChargeDiagonal(cf, PhononLindblad(cf)) /\ ChargeDiagonal(cf, PhononPauli(cf))
PauliLimit == PauliLimitNeumann(cf) /\ PauliLimitLindblad(cf)
=============================================================================
