------------------------------ MODULE ThermoMC -------------------------------
(* All small dots: every choice of energies, potentials, temperatures and strengths from small ranges. *)
EXTENDS Thermo, TLC
CONSTANT Big
Charges == {<<0, 1>>, <<0, 1, 1>>} \cup (IF Big THEN {<<0, 1, 2>>, <<1, 0, 0>>} ELSE {})
G(q, on) == [a \in 1 .. Len(q) |-> [c \in 1 .. Len(q) |-> IF q[c] = q[a] + 1 THEN on[a + c] ELSE 0]]
V(q, v) == [a \in 1 .. Len(q) |-> [c \in 1 .. Len(q) |-> IF q[c] = q[a] /\ a # c THEN v ELSE 0]]
VARIABLE m
Bs == {1, 2}
Mus == IF Big THEN {-1, 0, 1} ELSE {0, 1}
Init == \E q \in Charges : \E e \in [1 .. Len(q) -> 0 .. 1] : \E b1, b2 \in Bs : \E m1, m2 \in Mus :
        \E on1, on2 \in [2 .. 5 -> (IF Big THEN 0 .. 1 ELSE {1, 2})] : \E v \in 0 .. 1 : \E bb \in Bs :
          /\ (~Big => on1 = [i \in 2 .. 5 |-> 1])
          /\ m = [q |-> q, e |-> e, leads |-> <<[b |-> b1, mu |-> m1, g |-> G(q, on1)], [b |-> b2, mu |-> m2, g |-> G(q, on2)]>>,
                  baths |-> IF v = 0 THEN <<>> ELSE <<[b |-> bb, v |-> V(q, v)]>>]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Inv == Allowed(m) => Laws(m)
=============================================================================
