------------------------------ MODULE Diagrams -------------------------------
(***************************************************************************)
(* Real-time diagrams: the evolution of one element |ket><bra| of the         *)
(* density matrix of a dot with many-body states 1..n of charges Q[1..n]       *)
(* under tunneling vertices, integrated over the leads.  A behaviour is a      *)
(* diagram.  A vertex acts on the ket (p = 1) or the bra (p = -1), raises or   *)
(* lowers the charge with the operator R (eta = 1) or its adjoint (eta = -1),  *)
(* and opens a lead line or closes one that was opened with the opposite eta.  *)
(* A diagram is complete when all lines are closed and irreducible when some   *)
(* line is open between any two vertices.                                      *)
(*                                                                           *)
(* Fermions: all lead operators in the order in which they act, first those    *)
(* of the bra as time grows, then those of the ket as time falls; the sign of  *)
(* a diagram counts the crossings of its lines in this order, a line is a      *)
(* filled one if its first operator creates a lead electron (eta = -1).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Branches == {1, -1}
Etas == {1, -1}
(* d = [x0, y0 first element, x, y present one, v the vertices, open the open lines, used the number of lines] *)
Begin(x, y) == [x0 |-> x, y0 |-> y, x |-> x, y |-> y, v |-> <<>>, open |-> {}, used |-> 0]
Opener(d, l) == CHOOSE i \in 1 .. Len(d.v) : d.v[i].line = l /\ \A j \in 1 .. (i - 1) : d.v[j].line # l
Add(d, p, eta, l, z) ==
  [d EXCEPT !.x = IF p = 1 THEN z ELSE @, !.y = IF p = -1 THEN z ELSE @,
            !.v = Append(@, [p |-> p, eta |-> eta, line |-> l, x |-> IF p = 1 THEN z ELSE d.x, y |-> IF p = -1 THEN z ELSE d.y]),
            !.open = IF l \in @ THEN @ \ {l} ELSE @ \cup {l},
            !.used = IF l > @ THEN l ELSE @]
(* states that a vertex leads to: R on the ket raises it, R on the bra lowers it *)
Targets(Q, d, p, eta) == {z \in 1 .. Len(Q) : IF p = 1 THEN Q[z] = Q[d.x] + eta ELSE Q[z] = Q[d.y] - eta}
Closing(Q, d) == UNION {LET e == -d.v[Opener(d, l)].eta IN
                        {Add(d, p, e, l, z) : z \in Targets(Q, d, p, e)} : p \in Branches, l \in d.open}
Opening(Q, d) == UNION {{Add(d, p, e, d.used + 1, z) : z \in Targets(Q, d, p, e)} : p \in Branches, e \in Etas}
Complete(d) == Len(d.v) > 0 /\ d.open = {}
Steps(Q, d, order) == IF Complete(d) THEN {}
                      ELSE (IF d.used < order THEN Opening(Q, d) ELSE {})
                           \cup (IF Cardinality(d.open) = 1 /\ d.used < order THEN {} ELSE Closing(Q, d))

(* order of the lead operators *)
Early(d) == SelectSeq([i \in 1 .. Len(d.v) |-> i], LAMBDA i : d.v[i].p = -1)
Back(d) == LET n == Len(d.v) IN SelectSeq([i \in 1 .. n |-> n + 1 - i], LAMBDA i : d.v[i].p = 1)
Word(d) == Early(d) \o Back(d)
Place(d, i) == CHOOSE k \in 1 .. Len(d.v) : Word(d)[k] = i
Ends(d, l) == LET a == {Place(d, i) : i \in {j \in 1 .. Len(d.v) : d.v[j].line = l}} IN
              [lo |-> CHOOSE k \in a : \A m \in a : k <= m, hi |-> CHOOSE k \in a : \A m \in a : k >= m]
Cross(d, l, m) == LET a == Ends(d, l) b == Ends(d, m) IN a.lo < b.lo /\ b.lo < a.hi /\ a.hi < b.hi
Crossings(d) == Cardinality({lm \in (1..d.used) \X (1..d.used) : Cross(d, lm[1], lm[2])})
Sign(d) == IF Crossings(d) % 2 = 0 THEN 1 ELSE -1
Filled(d, l) == d.v[Word(d)[Ends(d, l).lo]].eta = -1

(* all irreducible diagrams from |x><y| with a given number of lines *)
RECURSIVE Extend(_, _, _, _)
Extend(Q, S, order, k) == IF k = 0 THEN S ELSE Extend(Q, UNION {Steps(Q, d, order) : d \in S}, order, k - 1)
Diagrams(Q, x, y, order) == Extend(Q, {Begin(x, y)}, order, 2 * order)

(* laws *)
RECURSIVE OpenCharge(_, _)
OpenCharge(d, S) == IF S = {} THEN 0 ELSE LET l == CHOOSE m \in S : TRUE IN d.v[Opener(d, l)].eta + OpenCharge(d, S \ {l})
(* the charges of ket and bra differ by the open lines *)
Charges(Q, d) == Q[d.x] - Q[d.y] = Q[d.x0] - Q[d.y0] + OpenCharge(d, d.open)
(* conservation of probability: moving the last vertex to the other branch changes nothing but the sign of p *)
Flipped(Q, d) ==
  LET n == Len(d.v)
      e == d.v[n]
      b == [Begin(d.x0, d.y0) EXCEPT !.v = SubSeq(d.v, 1, n - 1), !.used = d.used, !.open = {e.line},
                                     !.x = IF n = 1 THEN d.x0 ELSE d.v[n-1].x, !.y = IF n = 1 THEN d.y0 ELSE d.v[n-1].y]
  IN {f \in Closing(Q, b) : f.v[n].p = -e.p /\ f.x = f.y}
Conserving(Q, d) ==
  (Complete(d) /\ d.x = d.y) =>
    /\ Cardinality(Flipped(Q, d)) = 1
    /\ \A f \in Flipped(Q, d) : /\ Sign(f) = Sign(d)
                                /\ \A l \in 1 .. d.used : Filled(f, l) = Filled(d, l)
                                \* the same matrix element in the last vertex
                                /\ (IF d.v[Len(d.v)].p = 1 THEN f.x = d.v[Len(d.v)-1].x ELSE f.y = d.v[Len(d.v)-1].y)
(* hermiticity: exchanging ket and bra gives the conjugate diagram *)
Mirror(d) == [d EXCEPT !.x0 = d.y0, !.y0 = d.x0, !.x = d.y, !.y = d.x,
                       !.v = [i \in 1 .. Len(d.v) |-> [p |-> -d.v[i].p, eta |-> -d.v[i].eta, line |-> d.v[i].line,
                                                       x |-> d.v[i].y, y |-> d.v[i].x]]]
Hermitian(Q, d) ==
  Complete(d) => /\ Sign(Mirror(d)) = Sign(d)
                 /\ \A l \in 1 .. d.used : Filled(Mirror(d), l) = Filled(d, l)
=============================================================================
