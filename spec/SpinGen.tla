------------------------------- MODULE SpinGen -------------------------------
(* Laws of Spin.tla in every Fock state and for every spin-symmetric operator; writes the list of multiplets. *)
EXTENDS Spin, Json, TLC, IOUtils
CONSTANT Two          \* whether two-body operators are enumerated
VARIABLE q
Half == 0 .. (N \div 2) - 1
Init == \/ \E s \in States : q = <<s>>
        \/ \E i, j \in Half, s \in States : q = <<i, j, s>>
        \/ Two /\ \E m, n, k, l \in Half, s \in States : q = <<m, n, k, l, s>>
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Laws == /\ Len(q) = 1 => Algebra(q[1]) /\ OnlyThese(q[1]) /\ Counted(Charge(q[1]))
        /\ Len(q) = 3 => SymmetricHop(q[1], q[2], q[3])
        /\ Len(q) = 5 => SymmetricQuad(q[1], q[2], q[3], q[4], q[5])
Complete == /\ Len(Listing) = Cardinality(States)
            /\ \A i, j \in 1 .. Len(Listing) : Listing[i] = Listing[j] => i = j
ASSUME Complete
ASSUME JsonSerialize("spin.json", [n |-> N, listing |-> Listing])
=============================================================================
