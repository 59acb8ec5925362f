------------------------------ MODULE MasterEq ------------------------------
(***************************************************************************)
(* The first-order master equations, term by term.                          *)
(*                                                                         *)
(* A configuration cf describes the space in which the equation lives:      *)
(*   cf.charge   sequence, charge of label b at position b+1                *)
(*   cf.ret      set of retained labels                                     *)
(*   cf.pairs    set of ordered pairs <<b,b'>> of retained labels of equal  *)
(*               charge whose density-matrix element is kept (contains the  *)
(*               diagonal, closed under exchange)                           *)
(*   cf.phpairs  set of ordered pairs of retained labels of equal charge    *)
(*               between which the phonon factors are defined               *)
(*                                                                         *)
(* The equation is  i d rho(t)/dt = (E_t1 - E_t2) rho(t) + sum of terms     *)
(* for 1vN and Redfield, and d rho(t)/dt = -i (...) rho(t) + sum of terms   *)
(* for Lindblad and Pauli.  A lead term, summed over the leads l, is        *)
(*     c/2 * T[l][t1] * T[l][t2] * factor * rho(s)                          *)
(* a phonon term, summed over the baths, is                                 *)
(*     c/2 * V[v] * conj V[w] * factor * rho(s).                            *)
(* Factors (evaluated by the harness for lead/bath parameters):             *)
(*   f = 0, 1   the complex factor F0, F1 of transition e (higher, lower    *)
(*              state), complex conjugated when cc = 1                      *)
(*   Lindblad/Pauli: sqrt(rate(e)) * sqrt(rate(e2)), f = 0 in, 1 out.       *)
(* tag keeps two contributions apart that happen to have equal entries.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

N(cf, b) == cf.charge[b + 1]
At(cf, n) == {b \in cf.ret : N(cf, b) = n}
Above(cf, b) == At(cf, N(cf, b) + 1)
Below(cf, b) == At(cf, N(cf, b) - 1)
Same(cf, b) == At(cf, N(cf, b))
Inc(cf, x, y) == <<x, y>> \in cf.pairs
Diag(cf) == {<<b, b>> : b \in cf.ret}

Term(t, s, c, a1, a2, f, cc, e, e2, tag) ==
  [t |-> t, s |-> s, c |-> c, a1 |-> a1, a2 |-> a2, f |-> f, cc |-> cc, e |-> e, e2 |-> e2, tag |-> tag]

(***************************************************************************)
(* First-order amplitudes.  For c one charge above b,                       *)
(*   phi1(c,b) = sum_b' T[c,b'] rho(b',b) F0 + sum_c' rho(c,c') T[c',b] F1  *)
(* with the factors at energy E_c - E_b (1vN) or at the energy of the       *)
(* tunneling event itself (Redfield).  An amplitude entry is                *)
(*   <<tunneling element, rho element, f, energy>>.                         *)
(***************************************************************************)
Amplitude(cf, red, c, b) ==
  {<<(<<c, bp>>), (<<bp, b>>), 0, IF red THEN <<c, bp>> ELSE <<c, b>> >> :
     bp \in {x \in Same(cf, b) : Inc(cf, x, b)}}
  \cup
  {<<(<<cp, b>>), (<<c, cp>>), 1, IF red THEN <<cp, b>> ELSE <<c, b>> >> :
     cp \in {x \in Same(cf, c) : Inc(cf, c, x)}}

Rev(p) == <<p[2], p[1]>>
(* pre * phi1, or pre * conj(phi1): T is hermitian, rho is hermitian *)
Plain(t, c, pre, am, tag) == Term(t, am[2], 2 * c, pre, am[1], am[3], 0, am[4], am[4], tag)
Conj(t, c, pre, am, tag) == Term(t, Rev(am[2]), 2 * c, pre, Rev(am[1]), am[3], 1, am[4], am[4], tag)

(* i d rho(b,b')/dt = sum_a ( T[b,a] phi1*(b',a) - phi1(b,a) T[a,b'] )
                    + sum_c ( T[b,c] phi1(c,b') - phi1*(c,b) T[c,b'] )      *)
LeadTermsOf(cf, red, b, bp) ==
  UNION {   {Conj(<<b, bp>>, 1, <<b, a>>, am, 0) : am \in Amplitude(cf, red, bp, a)}
       \cup {Plain(<<b, bp>>, -1, <<a, bp>>, am, 1) : am \in Amplitude(cf, red, b, a)} : a \in Below(cf, b)}
  \cup
  UNION {   {Plain(<<b, bp>>, 1, <<b, c>>, am, 2) : am \in Amplitude(cf, red, c, bp)}
       \cup {Conj(<<b, bp>>, -1, <<c, bp>>, am, 3) : am \in Amplitude(cf, red, c, b)} : c \in Above(cf, b)}

LeadTerms(cf, red) == UNION {LeadTermsOf(cf, red, p[1], p[2]) : p \in cf.pairs}

(* Lead current, positive into the dot:  I[l] = -2 Im sum_{c,b} T[b,c] phi1(c,b)
   = i sum_{c,b} ( T[b,c] phi1(c,b) - c.c. ); entries carry the target <<c,b>>.    *)
CurrentTermsNeumannOf(cf, red, b) ==
  UNION {   {Plain(<<c, b>>, 1, <<b, c>>, am, 0) : am \in Amplitude(cf, red, c, b)}
       \cup {Conj(<<c, b>>, -1, <<c, b>>, am, 1) : am \in Amplitude(cf, red, c, b)} : c \in Above(cf, b)}
CurrentTermsNeumann(cf, red) == UNION {CurrentTermsNeumannOf(cf, red, b) : b \in cf.ret}

(***************************************************************************)
(* Lindblad: jump operators  L[l,in][c,b] = T[c,b] sqrt(rate_in(c,b)),      *)
(* L[l,out][b,c] = T[b,c] sqrt(rate_out(c,b));                              *)
(* d rho/dt = sum_L L rho L^+ - 1/2 {L^+ L, rho}.                           *)
(* Factor: f=0 in, f=1 out; e, e2 are the two transitions (upper, lower).   *)
(***************************************************************************)
JumpIn(cf, t, s) == Term(t, s, 2, <<t[1], s[1]>>, <<s[2], t[2]>>, 0, 0, <<t[1], s[1]>>, <<t[2], s[2]>>, 0)
JumpOut(cf, t, s) == Term(t, s, 2, <<t[1], s[1]>>, <<s[2], t[2]>>, 1, 0, <<s[1], t[1]>>, <<s[2], t[2]>>, 0)
LindbladTermsOf(cf, b, bp) ==
  LET t == <<b, bp>> IN
  {JumpIn(cf, t, s) : s \in {p \in cf.pairs : N(cf, p[1]) = N(cf, b) - 1}}
  \cup {JumpOut(cf, t, s) : s \in {p \in cf.pairs : N(cf, p[1]) = N(cf, b) + 1}}
  \* -1/2 L^+L rho: out of charge N(b) by adding (d above) or removing (d below)
  \cup UNION {{Term(t, <<x, bp>>, -1, <<b, d>>, <<d, x>>, 0, 0, <<d, b>>, <<d, x>>, 1) : d \in Above(cf, b)}
         \cup {Term(t, <<x, bp>>, -1, <<b, d>>, <<d, x>>, 1, 0, <<b, d>>, <<x, d>>, 1) : d \in Below(cf, b)} :
              x \in {y \in Same(cf, b) : Inc(cf, y, bp)}}
  \cup UNION {{Term(t, <<b, x>>, -1, <<x, d>>, <<d, bp>>, 0, 0, <<d, x>>, <<d, bp>>, 2) : d \in Above(cf, b)}
         \cup {Term(t, <<b, x>>, -1, <<x, d>>, <<d, bp>>, 1, 0, <<x, d>>, <<bp, d>>, 2) : d \in Below(cf, b)} :
              x \in {y \in Same(cf, b) : Inc(cf, b, y)}}
LindbladTerms(cf) == UNION {LindbladTermsOf(cf, p[1], p[2]) : p \in cf.pairs}

(* Lindblad current of a lead: gain minus loss of the charge; the target <<d,d>> is the
   final state of the jump, the energy carried is E_d - (E_s1 + E_s2)/2.            *)
LindbladCurrentOf(cf, s) ==
  {[JumpIn(cf, <<d, d>>, s) EXCEPT !.tag = 0] : d \in Above(cf, s[1])}
  \cup {[JumpOut(cf, <<d, d>>, s) EXCEPT !.c = -2, !.tag = 1] : d \in Below(cf, s[1])}
LindbladCurrent(cf) == UNION {LindbladCurrentOf(cf, s) : s \in cf.pairs}

(***************************************************************************)
(* Pauli: populations only, golden-rule rates.                              *)
(***************************************************************************)
PauliIn(t, s, c, hi, lo, tag) == Term(t, s, c, <<hi, lo>>, <<lo, hi>>, 0, 0, <<hi, lo>>, <<hi, lo>>, tag)
PauliOut(t, s, c, hi, lo, tag) == Term(t, s, c, <<lo, hi>>, <<hi, lo>>, 1, 0, <<hi, lo>>, <<hi, lo>>, tag)
PauliTermsOf(cf, b) ==
  LET t == <<b, b>> IN
  UNION {{PauliIn(t, <<a, a>>, 2, b, a, 0), PauliOut(t, t, -2, b, a, 1)} : a \in Below(cf, b)}
  \cup UNION {{PauliOut(t, <<c, c>>, 2, c, b, 0), PauliIn(t, t, -2, c, b, 1)} : c \in Above(cf, b)}
PauliTerms(cf) == UNION {PauliTermsOf(cf, b) : b \in cf.ret}
PauliCurrent(cf) ==
  UNION {UNION {{PauliIn(<<c, b>>, <<b, b>>, 2, c, b, 0), PauliOut(<<c, b>>, <<c, c>>, -2, c, b, 1)} :
                c \in Above(cf, b)} : b \in cf.ret}

(***************************************************************************)
(* Phonon baths.  gamma(ba, b'a') = 1/2 ( V[b,a] V*[b',a'] + V*[a,b] V[a',b'] ) *)
(* is expanded into its two products.                                       *)
(***************************************************************************)
PhP(cf, x, y) == <<x, y>> \in cf.phpairs
Gamma(t, s, c, b, a, bp, ap, f, cc, e, tag) ==
  {Term(t, s, c, <<b, a>>, <<bp, ap>>, f, cc, e, e, 2*tag),
   Term(t, s, c, <<ap, bp>>, <<a, b>>, f, cc, e, e, 2*tag+1)}

PhononTermsOf(cf, red, b, bp) ==
  LET t == <<b, bp>>  S == Same(cf, b)
      E1(x, y, u, v) == IF red THEN <<u, v>> ELSE <<x, y>>
      ok2(e1, e2) == e1 \in cf.phpairs /\ e2 \in cf.phpairs
  IN
  \* in-scattering by absorption
  UNION {LET e1 == E1(bp, s[1], bp, s[2])  e2 == E1(b, s[2], b, s[1]) IN
         IF ~ok2(e1, e2) THEN {} ELSE
           Gamma(t, s, 1, b, s[1], bp, s[2], 0, 1, e1, 0)
           \cup Gamma(t, s, -1, b, s[1], bp, s[2], 0, 0, e2, 1) :
         s \in {p \in cf.pairs : N(cf, p[1]) = N(cf, b)}}
  \* in-scattering by emission
  \cup UNION {LET e1 == E1(s[1], bp, s[2], bp)  e2 == E1(s[2], b, s[1], b) IN
         IF ~ok2(e1, e2) THEN {} ELSE
           Gamma(t, s, 1, b, s[1], bp, s[2], 1, 0, e1, 2)
           \cup Gamma(t, s, -1, b, s[1], bp, s[2], 1, 1, e2, 3) :
         s \in {p \in cf.pairs : N(cf, p[1]) = N(cf, b)}}
  \* out-scattering
  \cup UNION {UNION {
         LET ea == E1(bp, a, x, a)  ec == E1(a, bp, a, x) IN
         (IF ea \in cf.phpairs THEN Gamma(t, <<x, bp>>, 1, b, a, x, a, 1, 1, ea, 4) ELSE {})
         \cup (IF ec \in cf.phpairs THEN Gamma(t, <<x, bp>>, 1, b, a, x, a, 0, 0, ec, 5) ELSE {}) :
         a \in S} : x \in {y \in S : Inc(cf, y, bp)}}
  \cup UNION {UNION {
         LET ea == E1(b, a, x, a)  ec == E1(a, b, a, x) IN
         (IF ea \in cf.phpairs THEN Gamma(t, <<b, x>>, -1, x, a, bp, a, 1, 0, ea, 6) ELSE {})
         \cup (IF ec \in cf.phpairs THEN Gamma(t, <<b, x>>, -1, x, a, bp, a, 0, 1, ec, 7) ELSE {}) :
         a \in S} : x \in {y \in S : Inc(cf, b, y)}}
PhononTerms(cf, red) == UNION {PhononTermsOf(cf, red, p[1], p[2]) : p \in cf.pairs}

(* Lindblad channels: sqrt(rate(b,a)/2) V[b,a] and sqrt(rate(b,a)/2) V*[a,b];
   the factor is sqrt(rate(e)) sqrt(rate(e2)), no restriction by phpairs.      *)
GammaL(t, s, c, b, a, bp, ap, tag) ==
  {Term(t, s, c, <<b, a>>, <<bp, ap>>, 0, 0, <<b, a>>, <<bp, ap>>, 2*tag),
   Term(t, s, c, <<ap, bp>>, <<a, b>>, 0, 0, <<b, a>>, <<bp, ap>>, 2*tag+1)}
(* (L^+ L)(x,y) = sum_a conj L[a,x] L[a,y], in units of 1/4 of the two products *)
LL(t, s, x, y, a, tag) ==
  {Term(t, s, -1, <<a, y>>, <<a, x>>, 0, 0, <<a, x>>, <<a, y>>, 2*tag),
   Term(t, s, -1, <<x, a>>, <<y, a>>, 0, 0, <<a, x>>, <<a, y>>, 2*tag+1)}
PhononLindbladOf(cf, b, bp) ==
  LET t == <<b, bp>>  S == Same(cf, b) IN
  UNION {GammaL(t, s, 2, b, s[1], bp, s[2], 0) : s \in {p \in cf.pairs : N(cf, p[1]) = N(cf, b)}}
  \cup UNION {UNION {LL(t, <<x, bp>>, b, x, a, 1) : a \in S} : x \in {y \in S : Inc(cf, y, bp)}}
  \cup UNION {UNION {LL(t, <<b, x>>, x, bp, a, 2) : a \in S} : x \in {y \in S : Inc(cf, b, y)}}
\* all coefficients of the phonon Lindblad terms are in units of 1/4
PhononLindblad(cf) == UNION {PhononLindbladOf(cf, p[1], p[2]) : p \in cf.pairs}

(* Pauli: rate b <- a is 1/2 (|V[b,a]|^2 + |V[a,b]|^2) rate(b,a), units of 1/2 *)
PhononPauliOf(cf, b) ==
  UNION {   {Term(<<b, b>>, <<a, a>>, 1, v, v, 0, 0, <<b, a>>, <<b, a>>, 0) : v \in {<<b, a>>, <<a, b>>}}
       \cup {Term(<<b, b>>, <<b, b>>, -1, v, v, 0, 0, <<a, b>>, <<a, b>>, 1) : v \in {<<b, a>>, <<a, b>>}} :
         a \in {x \in Same(cf, b) \ {b} : PhP(cf, x, b)}}
PhononPauli(cf) == UNION {PhononPauliOf(cf, b) : b \in cf.ret}

(***************************************************************************)
(* Laws.  Two terms cancel when they agree in everything but target and tag *)
(* (the amplitudes of a lead term commute).                                 *)
(***************************************************************************)
LeadKey(x) == <<x.s, {x.a1, x.a2}, x.f, x.cc, {x.e, x.e2}>>
PhKey(x) == <<x.s, x.a1, x.a2, x.f, x.cc, {x.e, x.e2}>>
SumC(S, w(_)) == FoldSet(LAMBDA x, acc: acc + w(x) * x.c, 0, S)
Cancels(S, key(_), w(_)) ==
  \A k \in {key(x) : x \in S} : SumC({x \in S : key(x) = k}, w) = 0
One(x) == 1
Diagonal(S) == {x \in S : x.t[1] = x.t[2]}

TracePreserving(S, key(_)) == Cancels(Diagonal(S), key, One)

(* i d rho/dt anti-hermitian: conjugation exchanges the indices and negates *)
HermitianNeumann(S) ==
  \A x \in S : \E y \in S : /\ y.t = Rev(x.t) /\ y.s = Rev(x.s) /\ y.c = -x.c
                            /\ {y.a1, y.a2} = {Rev(x.a1), Rev(x.a2)}
                            /\ y.f = x.f /\ y.cc = 1 - x.cc /\ y.e = x.e
HermitianPhonon(S) ==
  \A x \in S : \E y \in S : /\ y.t = Rev(x.t) /\ y.s = Rev(x.s) /\ y.c = -x.c
                            /\ y.a1 = x.a2 /\ y.a2 = x.a1
                            /\ y.f = x.f /\ y.cc = 1 - x.cc /\ y.e = x.e
HermitianLindblad(S) ==
  \A x \in S : \E y \in S : /\ y.t = Rev(x.t) /\ y.s = Rev(x.s) /\ y.c = x.c
                            /\ {y.a1, y.a2} = {Rev(x.a1), Rev(x.a2)}
                            /\ y.f = x.f /\ {y.e, y.e2} = {x.e, x.e2}
HermitianPhononLindblad(S) ==
  \A x \in S : \E y \in S : /\ y.t = Rev(x.t) /\ y.s = Rev(x.s) /\ y.c = x.c
                            /\ y.a1 = x.a2 /\ y.a2 = x.a1
                            /\ {y.e, y.e2} = {x.e, x.e2}

(* d<N>/dt by the leads is the sum of the lead currents.  For von Neumann and Redfield
   i d<N>/dt = sum of N(t) * terms, and the current is i * (current terms).            *)
ChargeBalanceNeumann(cf, S, C) ==
  \A k \in {LeadKey(x) : x \in Diagonal(S) \cup C} :
    SumC({x \in Diagonal(S) : LeadKey(x) = k}, LAMBDA x: N(cf, x.t[1]))
      = -SumC({x \in C : LeadKey(x) = k}, One)
ChargeBalanceRate(cf, S, C) ==
  \A k \in {LeadKey(x) : x \in Diagonal(S) \cup C} :
    SumC({x \in Diagonal(S) : LeadKey(x) = k}, LAMBDA x: N(cf, x.t[1]))
      = SumC({x \in C : LeadKey(x) = k}, One)
(* phonons leave the charge of every element alone *)
ChargeDiagonal(cf, S) == \A x \in S : N(cf, x.t[1]) = N(cf, x.s[1]) /\ N(cf, x.t[2]) = N(cf, x.s[2])

(* Populations only: 1vN, Redfield and Lindblad all reduce to Pauli.  A pair F - F* of a von Neumann
   term is 2i Im F, Im F0 = -rate_in/2 and Im F1 = +rate_out/2 per unit amplitude.                    *)
Reduced(S, sgn(_)) == {<<x.t, x.s, {x.a1, x.a2}, x.f, sgn(x) * x.c, x.e>> : x \in S}
PauliLimitNeumann(cf) ==
  LET d == [cf EXCEPT !.pairs = Diag(cf)]
      P == PauliTerms(d)
      Tot(S, t, s, a, f) == SumC({x \in S : x.t = t /\ x.s = s /\ {x.a1, x.a2} = a /\ x.f = f /\ x.cc = 0}, One)
      Anti(S) == \A x \in S : \E y \in S : y.t = x.t /\ y.s = x.s /\ y.f = x.f /\ y.cc = 1 - x.cc /\ y.c = -x.c
                                           /\ {y.a1, y.a2} = {x.a1, x.a2} /\ y.e = x.e
      Match(S) == \A t \in d.pairs, s \in d.pairs : \A f \in {0, 1} :
                    \A a \in {{x.a1, x.a2} : x \in {z \in S : z.t = t /\ z.s = s /\ z.f = f}}
                           \cup {{x.a1, x.a2} : x \in {z \in P : z.t = t /\ z.s = s /\ z.f = f}} :
                      \* i drho/dt = c T T (F - F*) rho, so drho/dt = c T T 2 Im F rho
                      Tot(S, t, s, a, f) * (IF f = 0 THEN -1 ELSE 1)
                        = SumC({x \in P : x.t = t /\ x.s = s /\ {x.a1, x.a2} = a /\ x.f = f}, One)
  IN \A red \in {FALSE, TRUE} : LET S == LeadTerms(d, red) IN Anti(S) /\ Match(S)
PauliLimitLindblad(cf) ==
  LET d == [cf EXCEPT !.pairs = Diag(cf)]
      Tot(S, x) == SumC({y \in S : y.t = x.t /\ y.s = x.s /\ {y.a1, y.a2} = {x.a1, x.a2} /\ y.f = x.f
                                   /\ {y.e, y.e2} = {x.e, x.e2}}, One)
      P == PauliTerms(d)  L == LindbladTerms(d)
  IN \A x \in P \cup L : Tot(P, x) = Tot(L, x)
=============================================================================
