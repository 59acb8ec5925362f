------------------------------- MODULE Thermo --------------------------------
(***************************************************************************)
(* Rate equation of a dot with many-body states 1..n of charges q and integer  *)
(* energies e (in units of T0 ln 2).  Lead l has the inverse temperature b (in  *)
(* 1/T0), the potential mu and integer strengths g[a][c] for a -> c with one   *)
(* electron more; a bath has b and strengths v[a][c] between states of equal    *)
(* charge.  All rates are integers: Fermi functions 1/(1 + 2^x) times 30, Bose  *)
(* functions 1/(2^x - 1) times 30, |x| <= 2.  The stationary state is the sum   *)
(* over spanning trees (matrix-tree theorem), so it is exact and positive.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Fermi(x) == CASE x = -2 -> 24 [] x = -1 -> 20 [] x = 0 -> 15 [] x = 1 -> 10 [] x = 2 -> 6
Bose(x) == CASE x = 1 -> 30 [] x = 2 -> 10 [] x = -1 -> 60 [] x = -2 -> 40
   \* x > 0: absorption n, x < 0: emission 1 + n
States(m) == 1 .. Len(m.q)
Up(m, a, c) == m.q[c] = m.q[a] + 1
X(m, l, a, c) == LET L == m.leads[l] IN L.b * (m.e[c] - m.e[a] - L.mu)
Xb(m, k, a, c) == m.baths[k].b * (m.e[c] - m.e[a])
(* the numbers that are tabulated *)
Allowed(m) ==
  /\ \A l \in 1 .. Len(m.leads), a, c \in States(m) : (Up(m, a, c) /\ m.leads[l].g[a][c] > 0) => X(m, l, a, c) \in -2 .. 2
  /\ \A k \in 1 .. Len(m.baths), a, c \in States(m) :
       (a # c /\ m.q[a] = m.q[c] /\ m.baths[k].v[a][c] > 0) => Xb(m, k, a, c) \in {-2, -1, 1, 2}
Sum(S, f(_)) == FoldSet(LAMBDA x, s : s + f(x), 0, S)
(* rate a -> c due to one lead, one bath, everything *)
LeadRate(m, l, a, c) == IF Up(m, a, c) THEN IF m.leads[l].g[a][c] = 0 THEN 0 ELSE m.leads[l].g[a][c] * Fermi(X(m, l, a, c))
                        ELSE IF Up(m, c, a) THEN IF m.leads[l].g[c][a] = 0 THEN 0 ELSE m.leads[l].g[c][a] * Fermi(-X(m, l, c, a))
                        ELSE 0
BathRate(m, k, a, c) == IF a # c /\ m.q[a] = m.q[c] /\ m.baths[k].v[a][c] > 0 THEN m.baths[k].v[a][c] * Bose(Xb(m, k, a, c)) ELSE 0
Rate(m, a, c) == Sum(1 .. Len(m.leads), LAMBDA l : LeadRate(m, l, a, c)) + Sum(1 .. Len(m.baths), LAMBDA k : BathRate(m, k, a, c))

(* spanning trees towards r: every other state has a successor on its way to r *)
RECURSIVE Leads(_, _, _, _)
Leads(p, x, r, k) == x = r \/ (k > 0 /\ Leads(p, p[x], r, k - 1))
Trees(m, r) == {p \in [States(m) \ {r} -> States(m)] : \A x \in States(m) \ {r} : Leads(p, x, r, Len(m.q))}
Weight(R, T) == LET Prod(p) == FoldSet(LAMBDA x, w : w * R[x][p[x]], 1, DOMAIN p) IN Sum(T, Prod)
RateMatrix(m) == [a \in States(m) |-> [c \in States(m) |-> IF a = c THEN 0 ELSE Rate(m, a, c)]]
(* unnormalised occupations *)
Occ(m) == LET R == RateMatrix(m) IN [r \in States(m) |-> Weight(R, Trees(m, r))]
Total(w) == Sum(DOMAIN w, LAMBDA s : w[s])
(* particle and energy currents from a lead into the dot, same normalisation *)
Net(m, w, l, a, c) == LeadRate(m, l, a, c) * w[a] - LeadRate(m, l, c, a) * w[c]
Ups(m) == {ac \in States(m) \X States(m) : Up(m, ac[1], ac[2])}
Current(m, w, l) == Sum(Ups(m), LAMBDA ac : Net(m, w, l, ac[1], ac[2]))
Energy(m, w, l) == Sum(Ups(m), LAMBDA ac : (m.e[ac[2]] - m.e[ac[1]]) * Net(m, w, l, ac[1], ac[2]))
Heat(m, w, l) == Energy(m, w, l) - m.leads[l].mu * Current(m, w, l)
Pairs(m) == {ac \in States(m) \X States(m) : ac[1] < ac[2] /\ m.q[ac[1]] = m.q[ac[2]]}
BathEnergy(m, w, k) == Sum(Pairs(m), LAMBDA ac : (m.e[ac[2]] - m.e[ac[1]]) * (BathRate(m, k, ac[1], ac[2]) * w[ac[1]] - BathRate(m, k, ac[2], ac[1]) * w[ac[2]]))

(* laws *)
Ls(m) == 1 .. Len(m.leads)
Ks(m) == 1 .. Len(m.baths)
Stationary(m, w) == \A a \in States(m) : Sum(States(m) \ {a}, LAMBDA c : Rate(m, c, a) * w[c] - Rate(m, a, c) * w[a]) = 0
Positive(w) == \A a \in DOMAIN w : w[a] >= 0
Balance(m, w) == /\ Sum(Ls(m), LAMBDA l : Current(m, w, l)) = 0
                 /\ Sum(Ls(m), LAMBDA l : Energy(m, w, l)) + Sum(Ks(m), LAMBDA k : BathEnergy(m, w, k)) = 0
Equal(m) == /\ \A l, k \in Ls(m) : m.leads[l].b = m.leads[k].b /\ m.leads[l].mu = m.leads[k].mu
            /\ \A k \in Ks(m), l \in Ls(m) : m.baths[k].b = m.leads[l].b
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
(* grand-canonical: w[a] / w[c] = 2^-(b (e - mu q)) *)
Gibbs(m, w) ==
  (Equal(m) /\ Len(m.leads) > 0) =>
     /\ \A a, c \in States(m) :
          LET L == m.leads[1] d == L.b * (m.e[a] - L.mu * m.q[a]) - L.b * (m.e[c] - L.mu * m.q[c])
          IN d >= 0 => w[a] * Pow(d) = w[c]
     /\ \A l \in Ls(m) : Current(m, w, l) = 0 /\ Energy(m, w, l) = 0
(* the second law, and equality in equilibrium only if something can flow *)
Entropy(m, w) == Sum(Ls(m), LAMBDA l : m.leads[l].b * Heat(m, w, l)) + Sum(Ks(m), LAMBDA k : m.baths[k].b * BathEnergy(m, w, k))
SecondLaw(m, w) == Entropy(m, w) <= 0
AlongBias(m, w) ==
  (Len(m.leads) = 2 /\ m.leads[1].b = m.leads[2].b /\ \A k \in Ks(m) : m.baths[k].b = m.leads[1].b) =>
     (m.leads[1].mu - m.leads[2].mu) * Current(m, w, 1) >= 0
Laws(m) == LET w == Occ(m) IN
  Total(w) > 0 => /\ Stationary(m, w) /\ Positive(w) /\ Balance(m, w) /\ Gibbs(m, w) /\ SecondLaw(m, w) /\ AlongBias(m, w)
=============================================================================
