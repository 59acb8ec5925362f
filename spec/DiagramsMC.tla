----------------------------- MODULE DiagramsMC ------------------------------
(* All diagrams of up to Order lines of a few dots. *)
EXTENDS Diagrams
CONSTANT Order
VARIABLES Q, d, order
Dots == {<<0, 1>>, <<0, 1, 1, 2>>, <<1, 0, 1>>, <<0, 2, 1, 1>>}
Init == /\ Q \in Dots /\ order \in 1 .. Order
        /\ \E x, y \in 1 .. Len(Q) : Q[x] = Q[y] /\ d = Begin(x, y)
Next == d' \in Steps(Q, d, order) /\ UNCHANGED <<Q, order>>
Spec == Init /\ [][Next]_<<Q, d, order>>
Laws == Charges(Q, d) /\ Conserving(Q, d) /\ Hermitian(Q, d)
Mirrored == Complete(d) => Mirror(d) \in Diagrams(Q, d.y0, d.x0, order)
Irreducible == (Len(d.v) > 0 /\ Len(d.v) < 2 * order) => d.open # {}
=============================================================================
