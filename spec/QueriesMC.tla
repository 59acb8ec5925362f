------------------------------ MODULE QueriesMC ------------------------------
(* The laws of Queries.tla for all small environments and histories.  Energies change with a solve. *)
EXTENDS Queries, TLC
CONSTANTS N, EMax, Props
Ls == 0..N-1
QNs == IF Props = 2 THEN {<<0>>, <<1>>} ELSE {<<0, 0>>, <<1, -1>>, <<1, 1>>}
RankOf(E) == [i \in 1..N |-> Cardinality({E[j] : j \in {k \in 1..N : E[k] < E[i]}})]
Envs == {[E |-> e, qn |-> q, rank |-> RankOf(e)] : e \in [1..N -> 0..EMax], q \in [1..N -> QNs]}
P == 0..Props-1
Srts == {None, <<>>} \cup {<<p>> : p \in P} \cup {<<p, r>> : p, r \in P} \cup {<<p, r, 0>> : p, r \in P}
Cf == [b |-> "base", n |-> 2, nl |-> 1, nb |-> 0, norm |-> 0, symq |-> TRUE,
       o |-> [kern |-> "1vN", itype |-> 2, mfree |-> FALSE, itypeph |-> 0, ix |-> IF Props = 2 THEN "charge" ELSE "sz", sym |-> "none"]]
FullSolve == [op |-> "solve", flags |-> [qd |-> TRUE, rot |-> TRUE, master |-> TRUE, cur |-> TRUE]]
Events == {FullSolve} \cup {[op |-> "sort", arg |-> s] : s \in Srts} \cup {[op |-> "states", arg |-> x] : x \in 1..EMax+1}
          \cup {[op |-> "coh", arg |-> x] : x \in 0..EMax} \cup {[op |-> "all", arg |-> 0]}
          \cup {[op |-> "kern", val |-> k] : k \in {"Pauli", "1vN", "2vN", "Lindblad"}}
VARIABLES env, q
Init == env \in Envs /\ q = [QFresh(Cf, env) EXCEPT !.sys = Step(Cf, Fresh(Cf, env), FullSolve, env)]
Flip(E) == [i \in 1..N |-> EMax - E[i]]
Next == \E e \in Events :
  /\ Enabled(Cf, q.sys, e)
  /\ env' \in IF e = FullSolve THEN {env, [env EXCEPT !.E = Flip(env.E), !.rank = RankOf(Flip(env.E))]} ELSE {env}
  /\ q' = QStep(Cf, q, e, env')
Laws == Permutes(env, q) /\ Answers(env, q)
Sorts == \A s \in Srts : Sorted(env, s)
(* sorting asks for the same elements in another order; it is no part of the system *)
Harmless == \A s \in Srts : LET r == QStep(Cf, q, [op |-> "sort", arg |-> s], env) IN
  /\ r.sys = q.sys
  /\ QStep(Cf, r, [op |-> "sort", arg |-> None], env).order = Identity(env)
  /\ QStep(Cf, r, [op |-> "sort", arg |-> s], env) = r
  /\ \A x, y \in Labels(env) : Ask0(env, r, x, y) = Ask0(env, [q EXCEPT !.order = Identity(env)], r.order[x], r.order[y])
Spec == Init /\ [][Next]_<<env, q>>
=============================================================================
