---------------------------- MODULE CovarianceMC ----------------------------
(* The records of Covariance against the exact networks of Thermo: after every word of actions the currents of the
   rewritten network are those that the record tells. *)
EXTENDS Thermo, TLC
CONSTANTS Depth, Wide
C == INSTANCE Covariance WITH MaxN <- 4, MaxLeads <- 5, MaxBaths <- 3, MaxScale <- 2
VARIABLES m0, m, M, own, i
(* actions on networks; own: currents of every lead when it entered *)
Shift(r, d) == [r EXCEPT !.e = [a \in States(r) |-> r.e[a] + d * r.q[a]], !.leads = [l \in DOMAIN r.leads |-> [r.leads[l] EXCEPT !.mu = @ + d]]]
Holes(r) == [r EXCEPT !.q = [a \in States(r) |-> -r.q[a]],
                      !.leads = [l \in DOMAIN r.leads |-> [r.leads[l] EXCEPT !.mu = -@, !.g = [a \in States(r) |-> [c \in States(r) |-> r.leads[l].g[c][a]]]]]]
Halved(L) == [L EXCEPT !.g = [a \in DOMAIN L.g |-> [c \in DOMAIN L.g |-> L.g[a][c] \div 2]]]
Divides(L) == \A a, c \in DOMAIN L.g : L.g[a][c] % 2 = 0
CutLead(r, l) == [r EXCEPT !.leads = [@ EXCEPT ![l] = Halved(@)] \o <<Halved(r.leads[l])>>]
None(r) == [a \in States(r) |-> [c \in States(r) |-> 0]]
Idle(r) == [r EXCEPT !.leads = @ \o <<[b |-> 1, mu |-> 1, g |-> None(r)]>>]
Relabel(r, p) == [q |-> [a \in States(r) |-> r.q[p[a]]], e |-> [a \in States(r) |-> r.e[p[a]]],
                  leads |-> [l \in DOMAIN r.leads |-> [r.leads[l] EXCEPT !.g = [a \in States(r) |-> [c \in States(r) |-> r.leads[l].g[p[a]][p[c]]]]]],
                  baths |-> [l \in DOMAIN r.baths |-> [r.baths[l] EXCEPT !.v = [a \in States(r) |-> [c \in States(r) |-> r.baths[l].v[p[a]][p[c]]]]]]]
(* an independent level of energy 1: states a and Len + a *)
New == <<[b |-> 1, mu |-> 0], [b |-> 1, mu |-> 2]>>
Adjoin(r) ==
  LET n == Len(r.q) old(a) == ((a - 1) % n) + 1 full(a) == IF a > n THEN 1 ELSE 0
      Big(g, z) == [a \in 1 .. 2 * n |-> [c \in 1 .. 2 * n |-> IF full(a) = full(c) THEN g[old(a)][old(c)] ELSE z]]
  IN [q |-> [a \in 1 .. 2 * n |-> r.q[old(a)] + full(a)], e |-> [a \in 1 .. 2 * n |-> r.e[old(a)] + full(a)],
      leads |-> [l \in DOMAIN r.leads |-> [r.leads[l] EXCEPT !.g = Big(@, 0)]] \o
                [l \in 1 .. 2 |-> [b |-> New[l].b, mu |-> New[l].mu, g |-> [a \in 1 .. 2 * n |-> [c \in 1 .. 2 * n |->
                                      IF old(a) = old(c) /\ full(a) = 0 /\ full(c) = 1 THEN l ELSE 0]]]],
      baths |-> [l \in DOMAIN r.baths |-> [r.baths[l] EXCEPT !.v = Big(@, 0)]]]
(* the new level alone *)
Single == [q |-> <<0, 1>>, e |-> <<0, 1>>, leads |-> [l \in 1 .. 2 |-> [b |-> New[l].b, mu |-> New[l].mu, g |-> <<<<0, l>>, <<0, 0>>>>]], baths |-> <<>>]
(* Fractions *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Frac(a, b) == LET d == Gcd(Abs(a), b) IN <<a \div d, b \div d>>
Obs(r) == LET w == Occ(r) t == Total(w) IN [l \in Ls(r) |-> [n |-> Frac(Current(r, w, l), t), j |-> Frac(Energy(r, w, l), t)]]
Told(x) == IF x.o = 0 THEN [n |-> <<0, 1>>, j |-> <<0, 1>>]
           ELSE LET y == own[x.o] f == C!P2(x.w)
                    num == y.j[1] * y.n[2] + (x.b \div C!One) * y.n[1] * y.j[2]
                IN [n |-> Frac(x.sg * y.n[1], f * y.n[2]), j |-> Frac(num, f * y.j[2] * y.n[2])]
Qs == IF Wide THEN {<<0, 1>>, <<0, 1, 1>>, <<0, 1, 2>>} ELSE {<<0, 1>>, <<0, 1, 1>>}
G(q, on) == [a \in 1 .. Len(q) |-> [c \in 1 .. Len(q) |-> IF q[c] = q[a] + 1 THEN on[a + c] ELSE 0]]
V(q, e, v) == [a \in 1 .. Len(q) |-> [c \in 1 .. Len(q) |-> IF q[c] = q[a] /\ e[a] # e[c] THEN v ELSE 0]]
Init == /\ \E q \in Qs : \E e \in [1 .. Len(q) -> 0 .. 1] : \E b2 \in 1 .. 2 : \E m1, m2 \in {0, 1} : \E x \in {2, 4} : \E v \in 0 .. 1 :
             /\ e[1] = 0
             /\ m0 = [q |-> q, e |-> e, leads |-> <<[b |-> 1, mu |-> m1, g |-> G(q, [y \in 2 .. 5 |-> 2])], [b |-> b2, mu |-> m2, g |-> G(q, [y \in 2 .. 5 |-> IF y = 3 THEN x ELSE 2])]>>,
                      baths |-> IF v = 0 THEN <<>> ELSE <<[b |-> 1, v |-> V(q, e, 2)]>>]
        /\ m = m0 /\ i = 0
        /\ M = C!Start([spin |-> "no", meth |-> "first"], 1, 2, Len(m0.baths))
        /\ own = Obs(m0)
Swap(n) == [y \in 1 .. n |-> n + 1 - y]
Turn(n) == [y \in 1 .. n |-> (y % n) + 1]
(* particle-hole conjugation is offered with baths here: they are blind to the charge *)
Step(op, r) == /\ C!Enabled(M, op) \/ op.k = "holes"
               /\ Allowed(r) /\ M' = C!Apply(M, op) /\ m' = r
Next == /\ i < Depth /\ i' = i + 1 /\ UNCHANGED m0
        /\ \/ /\ UNCHANGED own
              /\ \/ \E p \in {Swap(Len(m.leads)), Turn(Len(m.leads))} :
                      Step([k |-> "leads", p |-> p, q |-> p], [m EXCEPT !.leads = [l \in DOMAIN @ |-> m.leads[p[l]]]])
                 \/ Step([k |-> "mix"], Relabel(m, Swap(Len(m.q))))
                 \/ Step([k |-> "holes"], Holes(m))
                 \/ \E d \in {-1, 1} : Step([k |-> "shift", x |-> d], Shift(m, d))
                 \/ \E l \in DOMAIN m.leads : Divides(m.leads[l]) /\ Step([k |-> "cut", l |-> l], CutLead(m, l))
                 \/ Step([k |-> "idle"], Idle(m))
           \/ /\ Len(m.q) = 2
              /\ Step([k |-> "adjoin"], Adjoin(m))
              /\ own' = [o \in 1 .. M.last + 2 |-> IF o <= M.last THEN own[o] ELSE Obs(Single)[o - M.last]]
Spec == Init /\ [][Next]_<<m0, m, M, own, i>>
Inv == /\ C!Law(M)
       /\ LET now == Obs(m) IN \A l \in Ls(m) : now[l] = Told(M.leads[l])
=============================================================================
