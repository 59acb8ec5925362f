-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Second quantisation on N orbitals 0..N-1.  A Fock state is the set of   *)
(* occupied orbitals; the Jordan-Wigner sign of an operator acting on       *)
(* orbital k counts the occupied orbitals before k.                         *)
(*                                                                         *)
(* Everything the implementation calls a "many-body matrix in the Fock      *)
(* basis" is defined here, element by element:                              *)
(*   HopTerms      hsingle[(i,j)]      -> contribution to the Hamiltonian   *)
(*   CoulombTerms  coulomb[(m,n,k,l)]  -> contribution to the Hamiltonian   *)
(*   TunnelTerms   tleads[(l,i)]       -> contribution to Tba0[l]           *)
(*   PhononTerms   velph[(l,i,j)]      -> contribution to Vbbp0[l]          *)
(* A term is <<row, col, sign, conj>>: sign times the amplitude, or times   *)
(* its complex conjugate when conj = 1, is added to the element (row, col). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANT N
Orb == 0 .. N-1
States == SUBSET Orb

(* The Lin code of an occupation: orbital 0 is the most significant bit. *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
Lin(s) == FoldSet(LAMBDA k, a: a + Pow2(N-1-k), 0, s)

Charge(s) == Cardinality(s)
SpinUp == 0 .. (N \div 2) - 1                 \* first half: spin up
Sz(s) == LET u == s \cap SpinUp IN Cardinality(u) - Cardinality(s \ u)

(***************************************************************************)
(* A signed state is [sign |-> -1, 0 or 1, s |-> state].                    *)
(***************************************************************************)
Null == [sign |-> 0, s |-> {}]
Before(k, s) == Cardinality({j \in s : j < k})
JW(k, s) == IF Before(k, s) % 2 = 0 THEN 1 ELSE -1
Ket(s) == [sign |-> 1, s |-> s]
Ann(k, v) == IF v.sign = 0 \/ k \notin v.s THEN Null
             ELSE [sign |-> v.sign * JW(k, v.s), s |-> v.s \ {k}]
Cre(k, v) == IF v.sign = 0 \/ k \in v.s THEN Null
             ELSE [sign |-> v.sign * JW(k, v.s), s |-> v.s \cup {k}]

(* one-body operator d^+_to d_from, two-body operator d^+_m d^+_n d_k d_l *)
Hop(to, from, s) == Cre(to, Ann(from, Ket(s)))
Quad(m, n, k, l, s) == Cre(m, Cre(n, Ann(k, Ann(l, Ket(s)))))

Nonzero(v) == v.sign # 0
Elem(v, s, c) == <<Lin(v.s), Lin(s), v.sign, c>>
Transposed(v, s, c) == <<Lin(s), Lin(v.s), v.sign, c>>

(***************************************************************************)
(* hsingle[(i,j)]: removes from i, adds to j; with herm the hermitian       *)
(* conjugate is included for i # j.                                         *)
(***************************************************************************)
HopTerms(i, j, herm) ==
  LET src == {s \in States : Nonzero(Hop(j, i, s))}
  IN {Elem(Hop(j, i, s), s, 0) : s \in src}
     \cup (IF herm /\ i # j THEN {Transposed(Hop(j, i, s), s, 1) : s \in src} ELSE {})

(***************************************************************************)
(* coulomb[(m,n,k,l)] = U: U d^+_m d^+_n d_k d_l; with herm_c the hermitian *)
(* conjugate is included unless the element is of density type (m=l, n=k)   *)
(* or is the non-canonical one of a pair (l > k) under m_less_n.            *)
(***************************************************************************)
CoulombConj(m, n, k, l, hermc, mln) == hermc /\ (m # l \/ n # k) /\ ~(mln /\ l > k)
CoulombTerms(m, n, k, l, hermc, mln) ==
  LET src == {s \in States : Nonzero(Quad(m, n, k, l, s))}
  IN {Elem(Quad(m, n, k, l, s), s, 0) : s \in src}
     \cup (IF CoulombConj(m, n, k, l, hermc, mln)
           THEN {Transposed(Quad(m, n, k, l, s), s, 1) : s \in src} ELSE {})

(* tleads[(l,i)] = t: t d^+_i + conj(t) d_i *)
TunnelTerms(i) ==
  {Elem(Cre(i, Ket(s)), s, 0) : s \in {x \in States : i \notin x}}
  \cup {Elem(Ann(i, Ket(s)), s, 1) : s \in {x \in States : i \in x}}

(* velph[(l,i,j)] = v: v d^+_i d_j, no conjugate is added *)
PhononTerms(i, j) ==
  {Elem(Hop(i, j, s), s, 0) : s \in {x \in States : Nonzero(Hop(i, j, x))}}

(***************************************************************************)
(* Spin: S+ = sum_k d^+_{k up} d_{k down}, with k up = k, k down = k + N/2. *)
(***************************************************************************)
Down(k) == k + N \div 2
RaiseTerms == UNION {{Elem(Hop(k, Down(k), s), s, 0) :
                      s \in {x \in States : Nonzero(Hop(k, Down(k), x))}} : k \in SpinUp}

(***************************************************************************)
(* Theorems about the definitions, checked by TLC on every (i, j, s).       *)
(***************************************************************************)
AddV(a, b, s) == (IF Nonzero(a) /\ a.s = s THEN a.sign ELSE 0) + (IF Nonzero(b) /\ b.s = s THEN b.sign ELSE 0)
SumIsDelta(a, b, s, d) == \A x \in States : AddV(a, b, x) = IF x = s THEN d ELSE 0
(* {d_i, d^+_j} = delta_ij and {d_i, d_j} = 0 *)
CAR(i, j, s) ==
  /\ SumIsDelta(Ann(i, Cre(j, Ket(s))), Cre(j, Ann(i, Ket(s))), s, IF i = j THEN 1 ELSE 0)
  /\ SumIsDelta(Ann(i, Ann(j, Ket(s))), Ann(j, Ann(i, Ket(s))), s, 0)
  /\ SumIsDelta(Cre(i, Cre(j, Ket(s))), Cre(j, Cre(i, Ket(s))), s, 0)
(* <x| d^+_i |s> = <s| d_i |x> *)
Adjoint(i, s) == LET v == Cre(i, Ket(s)) IN
  Nonzero(v) => LET w == Ann(i, Ket(v.s)) IN w.s = s /\ w.sign = v.sign
(* hopping conserves charge and is hermitian together with its reverse *)
HopLaws(i, j, s) == LET v == Hop(j, i, s) IN
  Nonzero(v) => /\ Charge(v.s) = Charge(s)
                /\ LET w == Hop(i, j, v.s) IN w.s = s /\ w.sign = v.sign
(* Coulomb elements: (m,n,k,l)^+ = (l,k,n,m); (n,m,k,l) = -(m,n,k,l) *)
QuadLaws(m, n, k, l, s) == LET v == Quad(m, n, k, l, s) IN
  /\ Nonzero(v) => /\ Charge(v.s) = Charge(s)
                   /\ LET w == Quad(l, k, n, m, v.s) IN w.s = s /\ w.sign = v.sign
  /\ LET u == Quad(n, m, k, l, s) IN u.sign = -v.sign
  /\ (m = l /\ n = k) => v.sign = (IF {m, n} \subseteq s /\ m # n THEN 1 ELSE 0)
=============================================================================
