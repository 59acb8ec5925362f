------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Ways to calculate one physical configuration.  A physical configuration  *)
(* c is an approach, the spin symmetry of its Hamiltonian ("none": none,     *)
(* "sz": spin projection conserved, "ssq": rotation invariant), real or      *)
(* complex amplitudes, and presence of phonon baths.  A way w chooses        *)
(* everything that must not matter.  Ways are connected by changes of a      *)
(* single choice; all of them are the same calculation.                      *)
(***************************************************************************)
EXTENDS Options

First == {"Pauli", "Lindblad", "Redfield", "1vN"}
Apps == First \cup {"RTD", "2vN"}
Physical == {c \in [apr : Apps, spin : {"none", "sz", "ssq"}, real : BOOLEAN, bath : BOOLEAN] :
              /\ c.apr \notin First => ~c.bath
              /\ c.apr \in {"RTD", "2vN"} => c.spin = "none"}

(* index schemes that describe the same calculation.  The Pauli equation leaves out coherences, also those between  *)
(* degenerate members of different spin blocks, so that it is the same only among schemes that resolve the spin.    *)
Schemes(c) ==
  LET free == IF c.apr = "RTD" THEN {"charge"}
              ELSE IF c.apr = "Pauli" /\ c.spin = "ssq" THEN {} ELSE {"Lin", "charge"} IN
  free \cup (IF c.spin \in {"sz", "ssq"} THEN {"sz"} ELSE {}) \cup (IF c.spin = "ssq" THEN {"ssq"} ELSE {})
Impls(c) == {"py", "c"}
Types(c) == IF c.real THEN {"complex", "float"} ELSE {"complex"}
(* symmetry = "spin": the input is given for one spin direction only *)
Inputs(c, ix) == IF c.spin = "ssq" THEN {"full", "spin"} ELSE {"full"}
Directs == {"none", "solve", "lsqr"}
Iterative == {"none", "krylov", "hybr", "lm", "df-sane", "broyden1"}

Way(c, w) ==
  /\ w.ix \in Schemes(c) /\ w.input \in Inputs(c, w.ix) /\ w.type \in Types(c)
  /\ w.mfree => c.apr \in First /\ w.symq /\ w.solm \in Iterative
  /\ ~w.mfree => w.solm \in (IF w.symq THEN Directs ELSE {"none", "lsqr"})
  /\ ~w.symq => w.norm = "first"
  \* iterations may start anywhere
  /\ ~w.mfree => w.start = "none"
  /\ c.apr = "2vN" => w.symq /\ w.norm = "first" /\ w.solm = "none" /\ ~w.mfree
Values == [impl |-> {"py", "c"}, ix |-> Indexings, input |-> {"full", "spin"}, type |-> {"complex", "float"},
           symq |-> BOOLEAN, norm |-> {"first", "middle", "last"}, solm |-> Directs \cup Iterative, mfree |-> BOOLEAN,
           start |-> {"none", "mixed"}]
Fields == [impl : Values.impl, ix : Values.ix, input : Values.input, type : Values.type, symq : Values.symq,
           norm : Values.norm, solm : Values.solm, mfree : Values.mfree, start : Values.start]
Ways(c) == {w \in Fields : Way(c, w)}
Start(c) == [impl |-> "c", ix |-> IF "charge" \in Schemes(c) THEN "charge" ELSE "sz", input |-> "full", type |-> "complex",
             symq |-> TRUE, norm |-> "first", solm |-> "none", mfree |-> FALSE, start |-> "none"]
(* the options that a way asks for, and the configuration they mean *)
Request(c, w) == [kern |-> IF w.impl = "py" THEN "py" \o c.apr ELSE c.apr, itype |-> 1, mfree |-> w.mfree,
                  itypeph |-> 2, ix |-> w.ix, sym |-> IF w.input = "spin" THEN "spin" ELSE "none"]
Granted(c, w) == LET b == IF c.bath THEN "elph" ELSE "base" IN
                 Construct(b, IF c.spin = "none" THEN 3 ELSE 4, Request(c, w)) = Request(c, w)
                 \/ (~c.bath /\ Construct(b, IF c.spin = "none" THEN 3 ELSE 4, Request(c, w)) = [Request(c, w) EXCEPT !.itypeph = 0])
=============================================================================
