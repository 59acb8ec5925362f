------------------------------ MODULE Indexing ------------------------------
(***************************************************************************)
(* Labels of many-body states and indices of density-matrix elements as a   *)
(* state machine: the machine holds the configuration (number of orbitals,  *)
(* indexing scheme, removed Fock states, retained states); the actions are  *)
(* the calls that change it.  What the tables of the implementation must    *)
(* satisfy in a configuration is given by predicates on the tables, not by  *)
(* a particular enumeration order.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)

(* occupations: orbital 0 is the most significant bit of the Lin code *)
Codes(n) == 0 .. Pow2(n) - 1
Occ(n, c) == {k \in 0..n-1 : (c \div Pow2(n-1-k)) % 2 = 1}
Charge(n, c) == Cardinality(Occ(n, c))
Sz(n, c) == LET o == Occ(n, c)  u == {k \in o : k < n \div 2} IN Cardinality(u) - Cardinality(o \ u)

(* an unusable scheme falls back to 'Lin' *)
Known == {"Lin", "charge", "sz", "ssq"}
Effective(n, ix) == IF ix \in {"Lin", "charge"} \/ (ix \in {"sz", "ssq"} /\ n % 2 = 0) THEN ix ELSE "Lin"

(* spin projections and total spins (in units of 1/2) of a charge *)
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Szs(n, q) == LET m == Min2(q, n - q) IN {s \in -m..m : (m + s) % 2 = 0}
Ssqs(n, q, sz) == LET m == Min2(q, n - q) IN {s \in Abs(sz)..m : (m + s) % 2 = 0}
BlockSize(n, q, sz) == Cardinality({c \in Codes(n) : Charge(n, c) = q /\ Sz(n, c) = sz})
(* number of multiplets with total spin ssq: highest-weight counting *)
Multiplets(n, q, ssq) == BlockSize(n, q, ssq) - (IF ssq + 2 \in Szs(n, q) THEN BlockSize(n, q, ssq + 2) ELSE 0)

(***************************************************************************)
(* The machine.  kept: retained states; the identity of a state is its Lin  *)
(* code, in 'ssq' the multiplet <<charge, ssq, alpha>>.                     *)
(***************************************************************************)
MultipletSet(n) == UNION {UNION {{<<q, s, a>> : a \in 0 .. Multiplets(n, q, s) - 1} :
                                 s \in Ssqs(n, q, IF n % 2 = 0 THEN q % 2 ELSE 0)} : q \in 0..n}
Everything(c) == IF Effective(c.n, c.ix) = "ssq" THEN MultipletSet(c.n) ELSE Codes(c.n) \ c.removed
New(n, ix) == [n |-> n, ix |-> ix, removed |-> {},
               kept |-> Everything([n |-> n, ix |-> ix, removed |-> {}])]
(* removal is cumulative and ends any restriction; it is refused in 'ssq' *)
RemoveFock(c, S) == IF Effective(c.n, c.ix) = "ssq" THEN c
                    ELSE LET d == [c EXCEPT !.removed = @ \cup S] IN [d EXCEPT !.kept = Everything(d)]
Retain(c, K) == [c EXCEPT !.kept = K]
RetainAll(c) == [c EXCEPT !.kept = Everything(c)]

(***************************************************************************)
(* Predicates on the label tables t of an implementation in configuration c *)
(*   t.indexing  t.nmany  t.states[label+1] = code  t.inds[code+1] = label  *)
(*   t.charges   <<q, labels>>             blocks by charge                 *)
(*   t.szs       <<q, sz, labels>>         ('sz', 'ssq')                    *)
(*   t.ssqs      <<q, sz, ssq, labels>>    ('ssq')                          *)
(*   t.qn        <<quantum numbers ..., label>>, both tables                *)
(***************************************************************************)
Alive(c) == Codes(c.n) \ c.removed
Labels(c) == 0 .. Cardinality(Alive(c)) - 1
NoDup(s) == Cardinality(Range(s)) = Len(s)
Partition(blocks, S) == /\ \A i \in DOMAIN blocks : NoDup(blocks[i])
                        /\ FoldSeq(LAMBDA b, a: Len(b) + a, 0, blocks) = Cardinality(S)
                        /\ UNION {Range(blocks[i]) : i \in DOMAIN blocks} = S
LabelFails(c, t) ==
  LET n == c.n  ix == Effective(n, c.ix)  lab == Labels(c)
      code(b) == t.states[b+1]
      IxOK == t.indexing = ix
      CountOK == t.nmany = Cardinality(Alive(c)) /\ Len(t.states) = t.nmany
      StatesOK == CountOK /\ Range(t.states) = Alive(c)
      InverseOK == /\ Len(t.inds) = Pow2(n)
                   /\ \A x \in Codes(n) : IF x \in c.removed THEN t.inds[x+1] = -1
                                          ELSE t.inds[x+1] \in lab /\ Len(t.states) > t.inds[x+1]
                                               /\ code(t.inds[x+1]) = x
      ChargesOK == /\ [i \in DOMAIN t.charges |-> t.charges[i][1]] = [i \in 1..n+1 |-> i-1]
                   /\ Partition([i \in DOMAIN t.charges |-> t.charges[i][2]], lab)
                   /\ \A i \in DOMAIN t.charges : \A b \in Range(t.charges[i][2]) : Charge(n, code(b)) = t.charges[i][1]
      SzsOK == IF ix \notin {"sz", "ssq"} THEN Len(t.szs) = 0 ELSE
               /\ {<<t.szs[i][1], t.szs[i][2]>> : i \in DOMAIN t.szs} = UNION {{<<q, s>> : s \in Szs(n, q)} : q \in 0..n}
               /\ Partition([i \in DOMAIN t.szs |-> t.szs[i][3]], lab)
               /\ \A i \in DOMAIN t.szs : \A b \in Range(t.szs[i][3]) :
                     Charge(n, code(b)) = t.szs[i][1] /\ Sz(n, code(b)) = t.szs[i][2]
      SsqsOK == IF ix # "ssq" THEN Len(t.ssqs) = 0 ELSE
               /\ {<<t.ssqs[i][1], t.ssqs[i][2], t.ssqs[i][3]>> : i \in DOMAIN t.ssqs}
                  = UNION {UNION {{<<q, s, x>> : x \in Ssqs(n, q, s)} : s \in Szs(n, q)} : q \in 0..n}
               /\ Partition([i \in DOMAIN t.ssqs |-> t.ssqs[i][4]], lab)
               /\ \A i \in DOMAIN t.ssqs : Len(t.ssqs[i][4]) = Multiplets(n, t.ssqs[i][1], t.ssqs[i][3])
               /\ \A i \in DOMAIN t.ssqs : \E j \in DOMAIN t.szs :
                     t.szs[j][1] = t.ssqs[i][1] /\ t.szs[j][2] = t.ssqs[i][2]
                     /\ Range(t.ssqs[i][4]) \subseteq Range(t.szs[j][3])
      (* every label has one tuple of quantum numbers, numbered from 0 within its block *)
      last(q) == q[Len(q)]
      block(i) == CASE ix = "ssq" -> t.ssqs[i]  [] ix = "sz" -> t.szs[i]  [] OTHER -> t.charges[i]
      blocks == CASE ix = "ssq" -> DOMAIN t.ssqs  [] ix = "sz" -> DOMAIN t.szs  [] OTHER -> DOMAIN t.charges
      want == UNION {LET bl == block(i)  lst == last(bl) IN
                     {SubSeq(bl, 1, Len(bl)-1) \o <<a-1, lst[a]>> : a \in DOMAIN lst} : i \in blocks}
      QnOK == NoDup(t.qn) /\ Range(t.qn) = want /\ Range(t.qnrev) = want /\ NoDup(t.qnrev)
  IN (IF IxOK THEN {} ELSE {"scheme"}) \cup (IF CountOK THEN {} ELSE {"number of states"})
     \cup (IF StatesOK THEN {} ELSE {"label to occupation"})
     \cup (IF ~StatesOK THEN {} ELSE
           (IF InverseOK THEN {} ELSE {"occupation to label"})
           \cup (IF ChargesOK THEN {} ELSE {"charge blocks"})
           \cup (IF SzsOK THEN {} ELSE {"spin projection blocks"})
           \cup (IF SsqsOK THEN {} ELSE {"total spin blocks"})
           \cup (IF QnOK THEN {} ELSE {"quantum number tables"})
           \cup (IF t.plain THEN {} ELSE {"Lin codes as labels"}))

(***************************************************************************)
(* Predicates on the density-matrix tables d (layout "Pauli", "DM", "DMc")  *)
(*   d.qn[label+1]   quantum numbers that the scheme distinguishes, with    *)
(*                   alpha last in 'ssq'                                    *)
(*   d.codes[label+1] occupation                                            *)
(*   d.kept          retained labels                                        *)
(*   d.el            <<b, bp, index, representative, direct>>, all pairs of *)
(*                   retained labels of equal charge (Pauli: b = bp)        *)
(*   d.ind           <<index, b, bp>>: the table from index to element      *)
(*   d.first         <<c, b, index>>: first-order amplitudes                *)
(*   d.npauli, d.ndm0, d.ndm0r, d.ndm1                                      *)
(***************************************************************************)
DmFails(c, d) ==
  LET ix == Effective(c.n, c.ix)  lay == d.layout
      kept == Range(d.kept)
      qn(b) == d.qn[b+1]
      block(b) == IF ix = "ssq" THEN SubSeq(qn(b), 1, 3) ELSE qn(b)
      included(b, bp) == block(b) = block(bp) /\ (lay = "Pauli" => b = bp)
      (* the class of an element: the multiplet pair in 'ssq', the unordered pair in the packed layout *)
      name(b) == IF ix = "ssq" THEN <<qn(b)[1], qn(b)[3], qn(b)[4]>> ELSE <<b>>
      class(b, bp) == IF lay = "DM" THEN {name(b), name(bp)} ELSE <<name(b), name(bp)>>
      E == Range(d.el)
      In == {e \in E : included(e[1], e[2])}
      Out == E \ In
      Cls == {class(e[1], e[2]) : e \in In}
      Diag == {class(e[1], e[2]) : e \in {x \in In : x[1] = x[2]}}
      Idx(S) == {e[3] : e \in S}
      reps == {e \in In : e[4]}
      KeptOK == /\ NoDup(d.kept)
                /\ kept = {b \in 0 .. Len(d.qn) - 1 : (IF ix = "ssq" THEN name(b) ELSE d.codes[b+1]) \in c.kept}
      PairsOK == {<<e[1], e[2]>> : e \in E} =
                 {p \in kept \X kept : qn(p[1])[1] = qn(p[2])[1] /\ (lay = "Pauli" => p[1] = p[2])}
      CountsOK == /\ d.npauli = Cardinality(Diag)
                  /\ lay # "Pauli" => d.ndm0 = Cardinality(Cls) /\ d.ndm0r = d.npauli + 2 * (d.ndm0 - d.npauli)
      ClassesOK == /\ Cardinality({<<e[3], class(e[1], e[2])>> : e \in In}) = Cardinality(Cls)
                   /\ Cardinality(Idx(In)) = Cardinality(Cls)
      RangeOK == /\ Idx(In) = 0 .. Cardinality(Cls) - 1
                 /\ Idx({e \in In : e[1] = e[2]}) = 0 .. Cardinality(Diag) - 1
      ExcludedOK == \A e \in Out : e[3] = -1 /\ ~e[4]
      RepOK == Cardinality(reps) = Cardinality(Cls) /\ Idx(reps) = Idx(In)
      (* in the packed layout the stored element or its conjugate *)
      DirectOK == lay = "DM" =>
         /\ \A e \in reps : e[5]
         /\ \A e \in In : \A r \in {x \in reps : x[3] = e[3]} :
               e[5] <=> <<name(e[1]), name(e[2])>> = <<name(r[1]), name(r[2])>>
      IndOK == lay # "Pauli" => Range(d.ind) = {<<e[3], e[1], e[2]>> : e \in reps} /\ NoDup(d.ind)
      FirstOK == lay = "Pauli" \/
         LET F == {p \in kept \X kept : qn(p[1])[1] = qn(p[2])[1] + 1} IN
         /\ {<<f[1], f[2]>> : f \in Range(d.first)} = F
         /\ {f[3] : f \in Range(d.first)} = 0 .. Cardinality(F) - 1
         /\ d.ndm1 = Cardinality(F)
  IN (IF KeptOK THEN {} ELSE {"retained states"}) \cup (IF PairsOK THEN {} ELSE {"elements"}) \cup (IF CountsOK THEN {} ELSE {"counts"})
     \cup (IF ClassesOK THEN {} ELSE {"collision or loss"}) \cup (IF RangeOK THEN {} ELSE {"index range, diagonal first"})
     \cup (IF ExcludedOK THEN {} ELSE {"excluded elements"}) \cup (IF RepOK THEN {} ELSE {"representatives"})
     \cup (IF DirectOK THEN {} ELSE {"conjugation flags"}) \cup (IF IndOK THEN {} ELSE {"index to element table"})
     \cup (IF FirstOK THEN {} ELSE {"first-order amplitudes"})
=============================================================================
