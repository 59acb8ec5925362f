-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* A single-particle system a and its many-body twin b, which is given the   *)
(* energies and matrices that a found, with label x of a listed at position  *)
(* perm[x] and every particle number moved by one offset.  Both undergo the  *)
(* same events.  Parameters behind energies and matrices reach the twin by a *)
(* "hand" event: a changes a family and solves, b is given the outcome.      *)
(* Law: the two stay images of each other under perm.                        *)
(***************************************************************************)
EXTENDS System

Image(perm, S) == {perm[x] : x \in S}
PairImage(perm, S) == {<<perm[p[1]], perm[p[2]]>> : p \in S}
(* what the twin sees: energies and charges only *)
Seen(env, perm, off) ==
  LET inv == [y \in DOMAIN perm |-> CHOOSE x \in DOMAIN perm : perm[x] = y] IN
  [E |-> [i \in 1..Len(env.E) |-> env.E[inv[i-1] + 1]],
   qn |-> [i \in 1..Len(env.qn) |-> <<env.qn[inv[i-1] + 1][1] + off>>]]
TwinOf(cf) == [cf EXCEPT !.b = (IF cf.b = "base" THEN "mb" ELSE "mbelph"), !.o.ix = "charge"]
FullSolve == [op |-> "solve", flags |-> [qd |-> TRUE, rot |-> TRUE, master |-> TRUE, cur |-> TRUE]]

StepA(cf, a, e, env) ==
  IF e.op = "hand" THEN Step(cf, Step(cf, a, [op |-> "change", fam |-> e.fam, arg |-> e.arg], env), FullSolve, env)
  ELSE Step(cf, a, e, env)
StepB(cf, b, e, env) ==
  IF e.op = "hand" THEN Step(cf, Step(cf, b, [op |-> "change", fam |-> e.fam, arg |-> e.arg], env), FullSolve, env)
  ELSE Step(cf, b, e, env)

Corresponds(a, b, perm) ==
  /\ b.kept = Image(perm, a.kept) /\ b.excl = PairImage(perm, a.excl)
  /\ b.o.kern = a.o.kern /\ b.o.itype = a.o.itype /\ b.o.mfree = a.o.mfree
  /\ b.symq = a.symq /\ b.solm = a.solm
  /\ b.ver = a.ver /\ b.ea = a.ea
  /\ b.rot = a.rot \/ (a.rot.v = -1 /\ [b.rot EXCEPT !.v = -1] = a.rot)
(* indices of the two: the twin has the elements of the first one *)
PairsCorrespond(env, a, b, perm, off) ==
  Pairs(Seen(env, perm, off), b) = PairImage(perm, Pairs(env, a))
=============================================================================
