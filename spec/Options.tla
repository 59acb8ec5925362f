------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The options of a system: what a requested combination becomes, at        *)
(* construction and when an option is assigned later.                       *)
(*                                                                         *)
(* b: builder  "base", "elph", "mb" (many-body input), "mbelph"             *)
(* kern: a name or a custom class ("class..."), ix: indexing ("none" when    *)
(* it is not given), sym: "spin" or "none", itype, itypeph: integers,        *)
(* mfree: matrix-free mode.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Classes == {"classPy", "classC"}                    \* custom approach classes
Names == {"Pauli", "Lindblad", "Redfield", "1vN", "2vN", "RTD",
          "pyPauli", "pyLindblad", "pyRedfield", "py1vN", "py2vN", "pyRTD"}
RTD == {"RTD", "pyRTD"}
VN2 == {"2vN", "py2vN"}
Spins == {"sz", "ssq"}
Indexings == {"Lin", "charge"} \cup Spins
Bath(b) == b \in {"elph", "mbelph"}
Many(b) == b \in {"mb", "mbelph"}

(* single options *)
Kern(b, k) == IF k \in Classes THEN k
              ELSE IF k \notin Names \/ (Bath(b) /\ k \in RTD) THEN "Pauli" ELSE k
Itype(k, i) == IF k \in RTD THEN 1 ELSE IF i \in 0..3 THEN i ELSE 0
ItypePh(i) == IF i \in {0, 2} THEN i ELSE 0
Mfree(k, m) == m /\ k \notin RTD \cup VN2
Supports(k, ix) == CASE k \in RTD -> ix = "charge"
                     [] k \in VN2 -> ix \in {"Lin", "charge"}
                     [] OTHER -> ix \in Indexings
(* indexing when none is given, otherwise the given one or the default in its place *)
Default(k, sym) == IF sym = "spin" /\ k \notin RTD \cup VN2 THEN "ssq" ELSE "charge"
Index(k, ix, sym) == IF ix = "none" THEN Default(k, sym)
                     ELSE IF ix \notin Indexings \/ ~Supports(k, ix) THEN "charge" ELSE ix
(* the spin indexings need an even number of orbitals *)
Fitting(ix, n) == IF ix \in Spins /\ n % 2 = 1 THEN "Lin" ELSE ix
(* RTD does without spin symmetry where it would have meant the total-spin indexing *)
Symmetry(k, ix, sym) == IF ix = "none" /\ k \in RTD THEN "none" ELSE sym

(* the whole construction; q: requested options *)
Construct(b, n, q) ==
  LET k == Kern(b, q.kern) IN
  [kern |-> k, itype |-> Itype(k, q.itype), mfree |-> Mfree(k, q.mfree),
   itypeph |-> IF Bath(b) THEN ItypePh(q.itypeph) ELSE 0,
   ix |-> IF Many(b) THEN "charge" ELSE Fitting(Index(k, q.ix, q.sym), n),
   sym |-> IF Many(b) THEN "none" ELSE Symmetry(k, q.ix, q.sym)]
(* something that was asked for has been replaced *)
Warned(b, q, o) ==
  \/ o.kern # q.kern \/ o.itype # q.itype \/ o.mfree # q.mfree
  \/ Bath(b) /\ o.itypeph # q.itypeph
  \/ ~Many(b) /\ (o.sym # q.sym \/ (q.ix # "none" /\ o.ix # q.ix) \/ (q.ix = "none" /\ o.ix = "Lin"))

(* assignments on an existing system with options o; [o, warned] *)
SetKern(b, o, k) ==
  LET k1 == Kern(b, k) IN
  IF k1 \in Classes THEN [o |-> [o EXCEPT !.kern = k1], warned |-> FALSE]
  ELSE IF ~Supports(k1, o.ix) THEN [o |-> o, warned |-> TRUE]
  ELSE LET p == [o EXCEPT !.kern = k1, !.itype = Itype(k1, o.itype), !.mfree = Mfree(k1, o.mfree)] IN
       [o |-> p, warned |-> k1 # k \/ p.itype # o.itype \/ p.mfree # o.mfree]
SetItype(o, i) == LET v == Itype(o.kern, i) IN [o |-> [o EXCEPT !.itype = v], warned |-> v # i]
SetMfree(o, m) == LET v == Mfree(o.kern, m) IN [o |-> [o EXCEPT !.mfree = v], warned |-> v # m]
SetIndex(o, ix) == [o |-> o, warned |-> o.ix # ix]

(* what may exist *)
Supported(b, n, o) ==
  /\ o.kern \in Names \cup Classes /\ (Bath(b) => o.kern \notin RTD)
  /\ o.itype \in 0..3 /\ (o.kern \in RTD => o.itype = 1)
  /\ (o.mfree => o.kern \notin RTD \cup VN2)
  /\ o.itypeph \in {0, 2}
  /\ Supports(o.kern, o.ix) \/ (o.kern \in Names /\ o.ix = "Lin" /\ o.kern \in VN2)
  /\ (o.ix \in Spins => n % 2 = 0)
=============================================================================
