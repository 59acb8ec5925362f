------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A system between construction and its last solve.  The state is exactly  *)
(* what a solve may depend on:                                              *)
(*   ver    version of every parameter family (the values belong to the     *)
(*          harness): h Hamiltonian, t tunneling, mu, temp, d leads,         *)
(*          v, tp, dp phonon baths                                           *)
(*   o      options (Options.tla), norm, symq, solm                          *)
(*   gone   removed Fock states                                              *)
(*   ea     versions of the Hamiltonian behind the energies, or Unset        *)
(*   rot    versions behind the rotated tunneling and coupling matrices      *)
(*   kept   labels of the retained states                                    *)
(*   excl   ordered pairs of labels whose coherence is removed               *)
(* Energies and labels are an environment env = [E, qn]: E the integers      *)
(* behind the energies of the last diagonalisation, qn the quantum numbers   *)
(* of every label.                                                           *)
(*                                                                         *)
(* Deliberate: the restriction to low-energy states chosen once holds for    *)
(* the labels chosen then; every choice of states starts from all           *)
(* coherences; the index layout of the 2vN approach starts from all          *)
(* coherences of the kept states; removing Fock states starts from all       *)
(* states; energies and matrices stay what they were at the last             *)
(* diagonalisation and rotation.                                             *)
(***************************************************************************)
EXTENDS Options

Fams == {"h", "t", "mu", "temp", "d", "v", "tp", "dp"}
Unset == [h |-> -1, t |-> -1, v |-> -1]
Labels(env) == 0 .. Len(env.qn) - 1
Qn(env, b) == env.qn[b + 1]
En(env, b) == env.E[b + 1]
SameQn(env, S) == {p \in S \X S : Qn(env, p[1]) = Qn(env, p[2])}
Pairs(env, st) == SameQn(env, st.kept) \ st.excl
Lowest(env) == CHOOSE e \in {En(env, b) : b \in Labels(env)} : \A b \in Labels(env) : e <= En(env, b)
Abs(x) == IF x < 0 THEN -x ELSE x
Layout(k) == IF k \in VN2 THEN "full" ELSE "packed"
Now(st) == [h |-> st.ver.h, t |-> st.ver.t, v |-> st.ver.v]

(* the solution method that is in use after a solve *)
Solm(o, symq, m) == IF o.mfree THEN (IF m \in {"none", "solve", "lsqr", "lsmr"} THEN "krylov" ELSE m)
                    ELSE IF ~symq THEN "lsqr"
                    ELSE IF m \in {"solve", "lsqr"} THEN m ELSE "solve"
(* a method that is not possible is replaced when it is asked for or at the next solve *)
Methods(st) == {st.solm, Solm(st.o, st.symq, st.solm)}
Adopt(st, seen) == IF seen \in Methods(st) THEN [st EXCEPT !.solm = seen] ELSE st

Fresh(cf, env) ==
  [ver |-> [f \in Fams |-> 0], o |-> cf.o, norm |-> cf.norm, symq |-> cf.symq, solm |-> "none", gone |-> {},
   ea |-> IF Many(cf.b) THEN 0 ELSE -1, rot |-> IF Many(cf.b) THEN [h |-> 0, t |-> 0, v |-> 0] ELSE Unset,
   kept |-> Labels(env), excl |-> {}]

Options_(st, r) == IF Layout(r.o.kern) # Layout(st.o.kern) THEN [st EXCEPT !.o = r.o, !.excl = {}]
                   ELSE [st EXCEPT !.o = r.o]

(* env is the environment after the event *)
Step(cf, st, e, env) ==
  CASE e.op = "change" ->
         LET s1 == [st EXCEPT !.ver[e.fam] = e.arg] IN
         \* many-body input: energies and matrices are what is given
         IF Many(cf.b) THEN [s1 EXCEPT !.ea = s1.ver.h, !.rot = Now(s1)] ELSE s1
    [] e.op = "kern" -> Options_(st, SetKern(cf.b, st.o, e.val))
    [] e.op = "itype" -> Options_(st, SetItype(st.o, e.arg))
    [] e.op = "mfree" -> Options_(st, SetMfree(st.o, e.arg = 1))
    [] e.op = "symq" -> [st EXCEPT !.symq = (e.arg = 1)]
    [] e.op = "norm" -> [st EXCEPT !.norm = e.arg]
    [] e.op = "solm" -> [st EXCEPT !.solm = e.val]
    [] e.op = "fock" -> [st EXCEPT !.gone = @ \cup {e.arg}, !.kept = Labels(env), !.excl = {}, !.ea = -1, !.rot = Unset]
    [] e.op = "states" -> [st EXCEPT !.kept = {b \in Labels(env) : En(env, b) < Lowest(env) + e.arg}, !.excl = {}]
    [] e.op = "coh" -> [st EXCEPT !.excl = @ \cup {p \in SameQn(env, st.kept) : Abs(En(env, p[1]) - En(env, p[2])) > e.arg}]
    [] e.op = "all" -> [st EXCEPT !.kept = Labels(env), !.excl = {}]
    [] e.op = "solve" ->
         LET qd == e.flags.qd /\ ~Many(cf.b)
             s1 == IF qd THEN [st EXCEPT !.ea = st.ver.h] ELSE st
             \* 2vN knows no phonons and leaves their couplings alone
             now == IF Bath(cf.b) /\ st.o.kern \in VN2 THEN [Now(st) EXCEPT !.v = -1] ELSE Now(st)
             s2 == IF qd /\ e.flags.rot THEN [s1 EXCEPT !.rot = now] ELSE s1
         IN IF e.flags.master THEN [s2 EXCEPT !.solm = Solm(st.o, st.symq, st.solm)] ELSE s2
    [] OTHER -> st
(* what an event needs *)
Enabled(cf, st, e) ==
  CASE e.op \in {"states", "coh"} -> st.ea >= 0 /\ (e.op = "coh" => Layout(st.o.kern) = "packed")
    [] e.op = "solve" -> /\ (~e.flags.qd => st.ea >= 0) /\ (~(e.flags.qd /\ e.flags.rot) =>
                                                                       st.rot # Unset /\ (Bath(cf.b) /\ st.o.kern \notin VN2 => st.rot.v >= 0))
    [] e.op = "fock" -> ~Many(cf.b) /\ st.o.ix # "ssq"
    [] OTHER -> TRUE

(* laws *)
Sane(env, st) ==
  /\ st.kept \subseteq Labels(env)
  /\ \A b \in st.kept : <<b, b>> \in Pairs(env, st)
  /\ \A p \in Pairs(env, st) : <<p[2], p[1]>> \in Pairs(env, st)
Restored(cf, st, env) == LET a == Step(cf, st, [op |-> "all"], env) IN a.kept = Labels(env) /\ a.excl = {}
=============================================================================
