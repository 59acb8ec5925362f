------------------------------- MODULE TwinMC -------------------------------
(* Checks the law of Twin.tla for all small environments, permutations, offsets and histories.  Energies may change *)
(* whenever a parameter is handed over.                                                                             *)
EXTENDS Twin, TLC
CONSTANTS N, EMax
Ls == 0..N-1
Perms == {p \in [Ls -> Ls] : \A x, y \in Ls : p[x] = p[y] => x = y}
Envs == {[E |-> e, qn |-> q] : e \in [1..N -> 0..EMax], q \in [1..N -> {<<0>>, <<1>>}]}
Cf(b) == [b |-> b, n |-> 2, nl |-> 1, nb |-> IF b = "elph" THEN 1 ELSE 0, norm |-> 0, symq |-> TRUE,
          o |-> [kern |-> "1vN", itype |-> 2, mfree |-> FALSE, itypeph |-> IF b = "elph" THEN 2 ELSE 0, ix |-> "charge", sym |-> "none"]]
VARIABLES cf, env, perm, off, a, b
Events == {FullSolve} \cup {[op |-> "states", arg |-> x] : x \in 1..EMax+1} \cup {[op |-> "coh", arg |-> x] : x \in 0..EMax}
          \cup {[op |-> "all", arg |-> 0]} \cup {[op |-> "kern", val |-> k] : k \in {"Pauli", "1vN", "2vN", "RTD"}}
          \cup {[op |-> "mfree", arg |-> x] : x \in {0, 1}} \cup {[op |-> "solm", val |-> "lsqr"]}
          \cup {[op |-> "hand", fam |-> "h", arg |-> x] : x \in {0, 1}}
Init == /\ cf \in {Cf("base"), Cf("elph")} /\ env \in Envs /\ perm \in Perms /\ off \in {-2, 0, 3}
        /\ a = Step(cf, Fresh(cf, env), FullSolve, env)
        /\ b = Step(TwinOf(cf), Fresh(TwinOf(cf), Seen(env, perm, off)), FullSolve, Seen(env, perm, off))
Next == \E e \in Events :
  /\ Enabled(cf, a, e)
  /\ env' \in (IF e.op = "hand" THEN {[env EXCEPT !.E = x] : x \in {[i \in 1..N |-> 0], [i \in 1..N |-> IF i = 1 THEN EMax ELSE 0]}} ELSE {env})
  /\ a' = StepA(cf, a, e, env')
  /\ b' = StepB(TwinOf(cf), b, e, Seen(env', perm, off))
  /\ UNCHANGED <<cf, perm, off>>
Law == Corresponds(a, b, perm) /\ PairsCorrespond(env, a, b, perm, off)
SaneBoth == Sane(env, a) /\ Sane(Seen(env, perm, off), b)
EnabledAlike == \A e \in Events : e.op # "hand" => (Enabled(cf, a, e) <=> Enabled(TwinOf(cf), b, e))
Spec == Init /\ [][Next]_<<cf, env, perm, off, a, b>>
=============================================================================
