-------------------------------- MODULE Spin ---------------------------------
(***************************************************************************)
(* Total spin of N = 2 M orbitals (k up, k + M down).  Vectors are integer     *)
(* functions of the Fock states; projections and spins are counted in halves   *)
(* (m = 2 Sz, s = 2 S, and Four = 4 S^2 with eigenvalues s (s + 2)).           *)
(***************************************************************************)
EXTENDS Fock
Zero == [s \in States |-> 0]
Unit(s) == [Zero EXCEPT ![s] = 1]
Plus(u, v) == [s \in States |-> u[s] + v[s]]
Times(c, v) == [s \in States |-> c * v[s]]
Support(v) == {s \in States : v[s] # 0}
(* a linear operator from what it does to Fock states (sets of signed states, each counted once per label) *)
Apply(Op(_), v) == FoldSet(LAMBDA s, a : FoldSet(LAMBDA w, b : [b EXCEPT ![w.s] = @ + v[s] * w.sign], a, {x \in Op(s) : Nonzero(x)}),
                           Zero, Support(v))
(* the terms of different orbitals lead to different states, so sets do not lose any *)
Raise(s) == {Hop(k, Down(k), s) : k \in SpinUp}
Lower(s) == {Hop(Down(k), k, s) : k \in SpinUp}
SP(v) == Apply(Raise, v)
SM(v) == Apply(Lower, v)
Proj(v) == [s \in States |-> Sz(s) * v[s]]
(* 4 S^2 = 4 S- S+ + m (m + 2) *)
Four(v) == Plus(Times(4, SM(SP(v))), [s \in States |-> Sz(s) * (Sz(s) + 2) * v[s]])
Flip(k) == IF k \in SpinUp THEN Down(k) ELSE k - N \div 2
Sum(S) == FoldSet(LAMBDA v, a : Plus(v.vec, a), Zero, S)
At(v) == IF Nonzero(v) THEN [Zero EXCEPT ![v.s] = v.sign] ELSE Zero
(* spin-symmetric operators: sum over spins of d^+_j d_i and of d^+_m d^+_n d_k d_l (spins of m and l, n and k equal) *)
Sp(k, x) == k + x * (N \div 2)
HopOn(i, j, s) == Sum({[x |-> x, vec |-> At(Hop(Sp(j, x), Sp(i, x), s))] : x \in 0 .. 1})
QuadOn(m, n, k, l, s) == Sum({[x |-> xy, vec |-> At(Quad(Sp(m, xy[1]), Sp(n, xy[2]), Sp(k, xy[2]), Sp(l, xy[1]), s))] :
                              xy \in (0..1) \X (0..1)})
On(Op(_), v) == FoldSet(LAMBDA s, a : Plus(Times(v[s], Op(s)), a), Zero, Support(v))

(* laws *)
Algebra(s) == LET v == Unit(s) IN
  /\ Plus(SP(SM(v)), Times(-1, SM(SP(v)))) = Proj(v)                      \* [S+, S-] = 2 Sz
  /\ Four(SP(v)) = SP(Four(v)) /\ Four(SM(v)) = SM(Four(v))
  /\ \A w \in Support(SP(v)) : Sz(w) = Sz(s) + 2 /\ Charge(w) = Charge(s)
  /\ \A w \in States : SP(v)[w] = SM(Unit(w))[s]                          \* adjoint
SymmetricHop(i, j, s) == LET v == Unit(s) Op(x) == HopOn(i, j, x) IN
  /\ On(Op, SP(v)) = SP(On(Op, v)) /\ On(Op, SM(v)) = SM(On(Op, v))
SymmetricQuad(m, n, k, l, s) == LET v == Unit(s) Op(x) == QuadOn(m, n, k, l, x) IN
  /\ On(Op, SP(v)) = SP(On(Op, v)) /\ On(Op, SM(v)) = SM(On(Op, v))

(* multiplets *)
Top(q) == IF q <= N - q THEN q ELSE N - q
Projections(q) == {m \in -Top(q) .. Top(q) : (m - Top(q)) % 2 = 0}
Spins(q) == {t \in 0 .. Top(q) : (t - Top(q)) % 2 = 0}
Dim(q, m) == Cardinality({s \in States : Charge(s) = q /\ Sz(s) = m})
Multiplets(q, t) == Dim(q, t) - Dim(q, t + 2)
(* no other spins: the product of 4 S^2 - t (t + 2) over all spins vanishes *)
RECURSIVE Kill(_, _)
Kill(T, v) == IF T = {} THEN v ELSE LET t == CHOOSE x \in T : TRUE IN
              Kill(T \ {t}, Plus(Four(v), Times(-t * (t + 2), v)))
OnlyThese(s) == Kill(Spins(Charge(s)), Unit(s)) = Zero
Counted(q) == /\ \A t \in Spins(q) : Multiplets(q, t) >= 0
              /\ FoldSet(LAMBDA t, a : a + (t + 1) * Multiplets(q, t), 0, Spins(q)) = Cardinality({s \in States : Charge(s) = q})
(* order in which the states are listed: charge, projection, spin, number *)
Sorted(S) == SetToSortSeq(S, <)
Concat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
Listing ==
  LET OfSpin(q, m, t) == [k \in 1 .. Multiplets(q, t) |-> <<q, m, t, k - 1>>]
      OfProj(q, m) == LET T == Sorted({t \in Spins(q) : t >= m /\ t >= -m}) IN Concat([i \in 1 .. Len(T) |-> OfSpin(q, m, T[i])])
      OfCharge(q) == LET P == Sorted(Projections(q)) IN Concat([i \in 1 .. Len(P) |-> OfProj(q, P[i])])
  IN Concat([i \in 1 .. N + 1 |-> OfCharge(i - 1)])
=============================================================================
