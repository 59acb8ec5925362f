----------------------------- MODULE Neumann2MC ------------------------------
(* All terms of the second-order von Neumann equation of a few dots. *)
EXTENDS Neumann2
VARIABLES Q, d
Dots == {<<0, 1>>, <<0, 1, 1, 2>>, <<1, 0, 1>>, <<0, 1, 1, 1, 2, 2, 2, 3>>, <<0, 1, 2, 3, 4>>, <<1, 2, 2, 4>>}
Init == Q \in Dots /\ \E p \in Branches, e \in Etas : \E a \in Amplitudes(Q, e) : d = Amplitude(p, e, a[1], a[2])
Next == /\ Len(d.v) < 3 /\ UNCHANGED Q
        /\ d' \in (IF Len(d.v) = 1 THEN Opening(Q, d) ELSE Closing(Q, d))
Spec == Init /\ [][Next]_<<Q, d>>
Laws == Apart(Q, d) /\ Balanced(Q, d) /\ Exchanged(Q, d) /\ Adjoint(Q, d)
=============================================================================
