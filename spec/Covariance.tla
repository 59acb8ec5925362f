----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* What becomes of currents when a system is rewritten: leads permuted, phases   *)
(* and bases of the orbitals changed, energies shifted and rescaled, leads cut   *)
(* in two, holes taken for particles, complex conjugation, uncoupled leads or     *)
(* independent subsystems adjoined, baths permuted or cut in two.                *)
(* A record M keeps, for every present lead, where it came from:                  *)
(*   o   the lead of the base system (or an adjoined one, numbered on)           *)
(*   w   how often it was cut in two                                             *)
(*   sg  sign of the particle current, sc power of four of the energy unit        *)
(*   b   energy current per 4096 particles, in units of the shift                *)
(* so that   I = sg 4^sc 2^-w I_o   and   J = 2^-w (16^sc J_o + b/4096 I_o).      *)
(* Leads stand in two halves of equal length if spins are resolved.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxLeads, MaxBaths, MaxScale
RECURSIVE P4(_)
P4(k) == IF k = 0 THEN 1 ELSE 4 * P4(k - 1)
One == 4096
Fresh(o) == [o |-> o, w |-> 0, sg |-> 1, sc |-> 0, b |-> 0]
(* cls: [spin: "no" "sz" "ssq", meth: "Pauli" "first" (coherent) "2vN" "RTD"] *)
Start(cls, n, nl, nb) == [cls |-> cls, n |-> n, last |-> nl, leads |-> [l \in 1 .. nl |-> Fresh(l)],
                          baths |-> [k \in 1 .. nb |-> [o |-> k, w |-> 0]], flip |-> 0, sc |-> 0, conj |-> 0]
Spinful(M) == M.cls.spin # "no"
Half(M) == IF Spinful(M) THEN Len(M.leads) \div 2 ELSE Len(M.leads)
Width(M) == IF Spinful(M) THEN M.n \div 2 ELSE M.n
(* the second-order approaches become slow with many leads *)
Most(M) == IF M.cls.meth \in {"Pauli", "first"} THEN (IF Spinful(M) THEN MaxLeads \div 2 ELSE MaxLeads) ELSE 4
Perms(k) == {p \in [1 .. k -> 1 .. k] : \A i, j \in 1 .. k : p[i] = p[j] => i = j}
Up(M) == SubSeq(M.leads, 1, Half(M))
Down(M) == SubSeq(M.leads, Half(M) + 1, Len(M.leads))
Reordered(s, p) == [i \in 1 .. Len(s) |-> s[p[i]]]
Cut(x) == [x EXCEPT !.w = @ + 1]
(* actions: op.k names it, op.p is a permutation, op.l a lead, op.x a number *)
Enabled(M, op) ==
  CASE op.k = "leads" -> op.p \in Perms(Half(M)) /\ op.q \in Perms(Half(M)) /\ (M.cls.spin = "sz" \/ op.q = op.p)
    [] op.k = "order" -> op.p \in Perms(Width(M)) /\ op.q \in Perms(Width(M)) /\ (M.cls.spin = "sz" \/ op.q = op.p)
    [] op.k = "phase" -> TRUE
    [] op.k = "mix" -> TRUE
    [] op.k = "flip" -> Spinful(M)
    [] op.k = "conj" -> M.cls.meth = "Pauli"        \* rates know moduli only; time runs backwards otherwise
    [] op.k = "holes" -> Len(M.baths) = 0 /\ M.cls.meth # "RTD"
    [] op.k = "shift" -> op.x \in {-1, 1}
    [] op.k = "scale" -> op.x \in {-1, 1} /\ M.sc + op.x \in -MaxScale .. MaxScale
    [] op.k = "cut" -> op.l \in 1 .. Half(M) /\ Half(M) < Most(M)
    [] op.k = "idle" -> Half(M) < Most(M)
    [] op.k = "adjoin" -> M.cls.spin = "no" /\ M.cls.meth \in {"Pauli", "first"} /\ M.n < MaxN /\ Half(M) + 2 <= Most(M)
    [] op.k = "baths" -> op.p \in Perms(Len(M.baths)) /\ Len(M.baths) > 1
    [] op.k = "cutbath" -> op.l \in 1 .. Len(M.baths) /\ Len(M.baths) < MaxBaths
    [] OTHER -> FALSE
Shifted(x, d) == [x EXCEPT !.b = @ + (IF x.sc >= 0 THEN One * P4(x.sc) ELSE One \div P4(-x.sc)) * d * x.sg]
Scaled(x, d) == [x EXCEPT !.sc = @ + d, !.b = IF d > 0 THEN 16 * @ ELSE @ \div 16]
All(M, f(_)) == [M EXCEPT !.leads = [l \in DOMAIN M.leads |-> f(M.leads[l])]]
Apply(M, op) ==
  CASE op.k = "leads" -> [M EXCEPT !.leads = Reordered(Up(M), op.p) \o Reordered(Down(M), op.q)]
    [] op.k = "flip" -> [M EXCEPT !.leads = Down(M) \o Up(M), !.flip = 1 - @]
    [] op.k = "conj" -> [M EXCEPT !.conj = 1 - @]
    [] op.k = "holes" -> LET f(x) == [x EXCEPT !.sg = -@] IN All(M, f)
    [] op.k = "shift" -> LET f(x) == Shifted(x, op.x) IN All(M, f)
    [] op.k = "scale" -> LET f(x) == Scaled(x, op.x) IN [All(M, f) EXCEPT !.sc = @ + op.x]
    [] op.k = "cut" -> LET c(s) == [s EXCEPT ![op.l] = Cut(@)] \o <<Cut(s[op.l])>>
                       IN [M EXCEPT !.leads = c(Up(M)) \o (IF Spinful(M) THEN c(Down(M)) ELSE <<>>)]
    [] op.k = "idle" -> [M EXCEPT !.leads = Up(M) \o <<Fresh(0)>> \o (IF Spinful(M) THEN Down(M) \o <<Fresh(0)>> ELSE <<>>)]
    [] op.k = "adjoin" -> [M EXCEPT !.leads = @ \o <<Fresh(M.last + 1), Fresh(M.last + 2)>>, !.n = @ + 1, !.last = @ + 2]
    [] op.k = "baths" -> [M EXCEPT !.baths = Reordered(@, op.p)]
    [] op.k = "cutbath" -> [M EXCEPT !.baths = [@ EXCEPT ![op.l].w = @ + 1] \o <<[M.baths[op.l] EXCEPT !.w = @ + 1]>>]
    [] OTHER -> M

(* laws of the record *)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RECURSIVE Share(_, _)
Share(s, o) == IF s = <<>> THEN 0 ELSE (IF Head(s).o = o THEN P2(8 - Head(s).w) ELSE 0) + Share(Tail(s), o)
Whole(M) == /\ \A o \in 1 .. M.last : Share(M.leads, o) = P2(8)          \* no part of a lead gets lost
            /\ \A k \in {M.baths[i].o : i \in DOMAIN M.baths} : Share(M.baths, k) = P2(8)
Alike(M) == \A i, j \in DOMAIN M.leads : (M.leads[i].o = M.leads[j].o /\ M.leads[i].o > 0) =>
                M.leads[i].sg = M.leads[j].sg /\ M.leads[i].sc = M.leads[j].sc /\ M.leads[i].b = M.leads[j].b
Exact(M) == \A i \in DOMAIN M.leads : M.leads[i].w <= 8
Law(M) == Whole(M) /\ Alike(M) /\ Exact(M)
=============================================================================
