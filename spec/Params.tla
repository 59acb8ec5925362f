------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of a system as a state machine.  A parameter family is a  *)
(* function from keys to values; 'add' accumulates, 'change' assigns, keys   *)
(* that are not mentioned keep their value.  A call mentions keys through    *)
(* one of several containers (dictionary, list, array, number), and with     *)
(* spin symmetry every mentioned spin-up entry stands for its copies.        *)
(*                                                                         *)
(* Families: h  hsingle <<i,j>>          u  coulomb <<m,n,k,l>>              *)
(*           t  tleads  <<lead,i>>       v  velph <<bath,i,j>>               *)
(*           mu temp    <<lead>>         d  band edges <<lead>> (lower, upper)*)
(*           tp         <<bath>>         dp band edges of baths <<bath>>     *)
(* Values are pairs of integers: real and imaginary part, or lower and upper *)
(* edge (in units of 1/8).                                                  *)
(*                                                                         *)
(* cf: [n, nl, nb] orbitals, leads and baths as given (per spin with spin    *)
(* symmetry), spin, herm (herm_hs), hermc, mln.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

Families == {"h", "u", "t", "v", "mu", "temp", "d", "tp", "dp"}
Scalars == {"mu", "temp", "d", "tp", "dp"}        \* one entry per lead or bath, all present from the start
Zero == <<0, 0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>

(* numbers that the system has: with spin symmetry everything but the baths is doubled *)
NOrb(cf) == IF cf.spin THEN 2 * cf.n ELSE cf.n
NLead(cf) == IF cf.spin THEN 2 * cf.nl ELSE cf.nl

Keys1(n) == {<<i>> : i \in 0..n-1}
Keys2(n, m) == (0..n-1) \X (0..m-1)
Keys3(n, m) == (0..n-1) \X (0..m-1) \X (0..m-1)

(* keys that an array names: the upper triangle when the conjugates are implied *)
ArrayKeys(cf, f) ==
  CASE f = "h" -> {k \in Keys2(cf.n, cf.n) : cf.herm => k[1] <= k[2]}
    [] f = "t" -> Keys2(cf.nl, cf.n)
    [] f = "v" -> Keys3(cf.nb, cf.n)
    [] f \in {"mu", "temp", "d"} -> Keys1(cf.nl)
    [] f \in {"tp", "dp"} -> Keys1(cf.nb)

(* Coulomb elements that may be given, one of every pair that stands for the same operator *)
CoulombKeys(cf) ==
  {k \in (0..cf.n-1) \X (0..cf.n-1) \X (0..cf.n-1) \X (0..cf.n-1) :
     /\ k[1] < k[2] \/ (cf.spin /\ k[1] = k[2] /\ k[4] <= k[3])
     /\ cf.spin \/ k[3] # k[4]
     /\ cf.hermc => (k[1] < k[4] \/ (k[1] = k[4] /\ k[2] <= k[3]))}
GivenKeys(cf, f) == CASE f = "u" -> CoulombKeys(cf)
                      [] f = "h" -> Keys2(cf.n, cf.n)
                      [] OTHER -> ArrayKeys(cf, f)
RealKey(f, k) == f \in Scalars \/ (f = "h" /\ k[1] = k[2]) \/ (f = "u" /\ k[1] = k[4] /\ k[2] = k[3])
                 \/ (f = "u" /\ k[1] = k[3] /\ k[2] = k[4])

(***************************************************************************)
(* Copies of a spin-up entry.  Coulomb: up-up, up-down, down-up, down-down;  *)
(* the third one is written with the smaller orbital first under m_less_n    *)
(* (the same operator).  Under m_less_n the conjugate of an exchange element  *)
(* up-down is its down-up copy, so that one of them is enough; without        *)
(* m_less_n all four count, as the up-up element counts with its conjugate.   *)
(***************************************************************************)
Copies(cf, f, k) ==
  IF ~cf.spin THEN {k} ELSE
  LET n == cf.n IN
  CASE f = "h" -> {k, <<k[1]+n, k[2]+n>>}
    [] f = "t" -> {k, <<k[1]+cf.nl, k[2]+n>>}
    [] f = "v" -> {k, <<k[1], k[2]+n, k[3]+n>>}
    [] f \in {"mu", "temp", "d"} -> {k, <<k[1]+cf.nl>>}
    [] f \in {"tp", "dp"} -> {k}
    [] f = "u" -> LET a == k[1]  b == k[2]  c == k[3]  d == k[4]
                      third == IF cf.mln THEN <<b, a+n, d+n, c>> ELSE <<a+n, b, c, d+n>> IN
                  {k, <<a, b+n, c+n, d>>, <<a+n, b+n, c+n, d+n>>}
                  \cup (IF cf.hermc /\ cf.mln /\ c = a /\ d = b THEN {} ELSE {third})
Expand(cf, f, given) ==   \* given: function from keys to values
  LET D == UNION {Copies(cf, f, k) : k \in DOMAIN given} IN
  [x \in D |-> given[CHOOSE k \in DOMAIN given : x \in Copies(cf, f, k)]]

AddTo(p, m) == [k \in DOMAIN p \cup DOMAIN m |->
                  IF k \notin DOMAIN m THEN p[k] ELSE IF k \in DOMAIN p THEN Plus(p[k], m[k]) ELSE m[k]]
ChangeTo(p, m) == [k \in DOMAIN p \cup DOMAIN m |-> IF k \in DOMAIN m THEN m[k] ELSE p[k]]
Nothing == [k \in {} |-> Zero]
Fresh(cf, f) == IF f \in Scalars THEN Expand(cf, f, [k \in ArrayKeys(cf, f) |-> Zero]) ELSE Nothing

(* a call: function from families to given entries *)
Update(cf, p, kind, call) ==
  [f \in Families |-> IF f \notin DOMAIN call THEN p[f]
                      ELSE LET m == Expand(cf, f, call[f]) IN
                           IF kind = "add" THEN AddTo(p[f], m) ELSE ChangeTo(p[f], m)]
(* a family is replaced as a whole *)
Replace(cf, p, call) == [f \in Families |-> IF f \in DOMAIN call THEN Expand(cf, f, call[f]) ELSE p[f]]
(***************************************************************************)
(* What the parts of a system can do besides: 'add' and 'change' may leave   *)
(* the recorded parameters p alone and alter only the many-body operators.   *)
(* q are the parameters behind the many-body operators.  'change' adds the   *)
(* difference from what is recorded; removing Fock states and replacing a    *)
(* family start again from what is recorded.                                *)
(***************************************************************************)
Operators == {"h", "u", "t", "v"}
Minus(x, y) == <<x[1] - y[1], x[2] - y[2]>>
At(p, k) == IF k \in DOMAIN p THEN p[k] ELSE Zero
(* the many-body operators follow the difference between two recorded parameters *)
Follow(q, p, r) == [f \in Operators |->
  [k \in DOMAIN q[f] \cup DOMAIN r[f] |-> Plus(At(q[f], k), Minus(At(r[f], k), At(p[f], k)))]]
Quiet(cf, p, q, kind, call) == Follow(q, p, Update(cf, p, kind, call))
Construct(cf, call) == Update(cf, [f \in Families |-> Fresh(cf, f)], "change", call)

(***************************************************************************)
(* Laws: the copies of different entries do not collide, expansion commutes  *)
(* with accumulation, and 'change' after 'change' is idempotent.             *)
(***************************************************************************)
NoCollision(cf, f) == \A k, l \in GivenKeys(cf, f) : k = l \/ Copies(cf, f, k) \cap Copies(cf, f, l) = {}
InRange(cf, f) == \A k \in GivenKeys(cf, f) : \A x \in Copies(cf, f, k) :
   CASE f = "h" -> x \in Keys2(NOrb(cf), NOrb(cf))
     [] f = "t" -> x \in Keys2(NLead(cf), NOrb(cf))
     [] f = "v" -> x \in Keys3(cf.nb, NOrb(cf))
     [] f = "u" -> \A i \in 1..4 : x[i] \in 0..NOrb(cf)-1
     [] f \in {"mu", "temp", "d"} -> x \in Keys1(NLead(cf))
     [] OTHER -> x \in Keys1(cf.nb)
=============================================================================
