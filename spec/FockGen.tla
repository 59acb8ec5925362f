------------------------------ MODULE FockGen ------------------------------
(* Enumerates all operators on N orbitals, checks the operator algebra in  *)
(* every state and writes the element tables.                              *)
EXTENDS Fock, Json, TLC, IOUtils

VARIABLE q   \* <<i, j, s>> for one-body laws, <<m, n, k, l, s>> for two-body laws
Init == \/ \E i \in Orb, j \in Orb, s \in States : q = <<i, j, s>>
        \/ \E m \in Orb, n \in Orb, k \in Orb, l \in Orb, s \in States : q = <<m, n, k, l, s>>
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

OneBodyLaws == Len(q) = 3 => CAR(q[1], q[2], q[3]) /\ Adjoint(q[1], q[3]) /\ HopLaws(q[1], q[2], q[3])
TwoBodyLaws == Len(q) = 5 => QuadLaws(q[1], q[2], q[3], q[4], q[5])

Bools == {FALSE, TRUE}
B(x) == IF x THEN 1 ELSE 0
Tables ==
  [ n |-> N,
    charge |-> SetToSeq({<<Lin(s), Charge(s), IF N % 2 = 0 THEN Sz(s) ELSE 0>> : s \in States}),
    hop |-> SetToSeq({[key |-> <<i, j>>, herm |-> B(h), terms |-> SetToSeq(HopTerms(i, j, h))] :
                      i \in Orb, j \in Orb, h \in Bools}),
    coulomb |-> SetToSeq({[key |-> <<m, n, k, l>>, conj |-> B(c),
                           terms |-> SetToSeq({Elem(Quad(m, n, k, l, s), s, 0) :
                                               s \in {x \in States : Nonzero(Quad(m, n, k, l, x))}})] :
                           m \in Orb, n \in Orb, k \in Orb, l \in Orb, c \in {FALSE}}),
    coulombconj |-> SetToSeq({<<m, n, k, l, B(hc), B(mln), B(CoulombConj(m, n, k, l, hc, mln))>> :
                              m \in Orb, n \in Orb, k \in Orb, l \in Orb, hc \in Bools, mln \in Bools}),
    tunnel |-> SetToSeq({[key |-> i, terms |-> SetToSeq(TunnelTerms(i))] : i \in Orb}),
    phonon |-> SetToSeq({[key |-> <<i, j>>, terms |-> SetToSeq(PhononTerms(i, j))] : i \in Orb, j \in Orb}),
    raise |-> IF N % 2 = 0 THEN SetToSeq(RaiseTerms) ELSE <<>> ]
ASSUME JsonSerialize("fock.json", Tables)
=============================================================================
