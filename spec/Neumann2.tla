------------------------------ MODULE Neumann2 -------------------------------
(***************************************************************************)
(* Second-order von Neumann approach: the equation of motion of an amplitude    *)
(* |x><y| with one open lead line (line 1, eta = 1 if the dot took an electron    *)
(* from the lead, eta = -1 if it gave one), in which a second line is opened and  *)
(* one of the two is closed.  Closing line 2 gives a local term, closing line 1   *)
(* a term in which the roles of the lines are exchanged.  This is the part between *)
(* the first and the last vertex of the diagrams of Diagrams.tla with two lines:   *)
(* the vertex that opened line 1 is the first in time, the one that will close     *)
(* the remaining line the last one.                                              *)
(***************************************************************************)
EXTENDS Diagrams
(* the amplitude, as a diagram with its opening vertex on branch p *)
Amplitude(p, e, x, y) ==
  [Begin(x, y) EXCEPT !.v = <<[p |-> p, eta |-> e, line |-> 1, x |-> x, y |-> y]>>, !.open = {1}, !.used = 1]
Amplitudes(Q, e) == {xy \in (1 .. Len(Q)) \X (1 .. Len(Q)) : Q[xy[1]] = Q[xy[2]] + e}
Left(d) == CHOOSE l \in d.open : TRUE
(* the amplitude with both vertices and the closing one on branch p *)
Closed(d, p) == Add(d, p, -d.v[Opener(d, Left(d))].eta, Left(d), IF p = 1 THEN d.x ELSE d.y)
Pairs(Q, d) == UNION {Closing(Q, o) : o \in Opening(Q, d)}
(* terms of amplitudes with eta = 1 *)
Terms(Q, p, e) == UNION {{d \in Pairs(Q, Amplitude(p, e, a[1], a[2])) : d.v[Opener(d, Left(d))].eta = 1} : a \in Amplitudes(Q, e)}
TermSign(d) == Sign(Closed(d, 1))
Second(d) == Filled(Closed(d, 1), 2)
Local(d) == Left(d) = 1
(* vertices that open the line of an amplitude, and those that close it *)
Sources(Q) == UNION {{d \in Opening(Q, Begin(xy[1], xy[2])) : d.v[1].eta = 1} : xy \in Amplitudes(Q, 0)}
Sinks(Q, e) == UNION {Closing(Q, Amplitude(1, e, a[1], a[2])) : a \in Amplitudes(Q, e)}
Taken(d) == Filled(Closed(d, 1), 1)

(* laws *)
Body(d) == <<d.x0, d.y0, d.v[1].eta, d.v[2], d.v[3]>>
(* the branch of the vertices outside of the equation does not matter *)
Apart(Q, d) ==
  LET n == Len(d.v)
      b == Closed(d, -1)
      o == [d EXCEPT !.v[1].p = -@]
  IN n = 3 => /\ Sign(b) = TermSign(d) /\ Filled(b, 2) = Second(d)
              /\ Sign(Closed(o, 1)) = TermSign(d) /\ Filled(Closed(o, 1), 2) = Second(d)
(* the charges of ket and bra differ by the open lines *)
Balanced(Q, d) == Q[d.x] - Q[d.y] = OpenCharge(d, d.open)
(* the two lines differ only by what is integrated: a local term has its exchanged partner *)
Exchanged(Q, d) ==
  (Len(d.v) = 3 /\ d.v[1].eta = -d.v[2].eta) => \E f \in Pairs(Q, Amplitude(d.v[1].p, d.v[1].eta, d.x0, d.y0)) : f.v[2] = d.v[2] /\ Local(f) # Local(d)
(* complex conjugation *)
Conjugate(d) == [Mirror(d) EXCEPT !.v[1].p = d.v[1].p]
Adjoint(Q, d) == Len(d.v) = 3 => /\ Sign(Closed(Conjugate(d), 1)) = TermSign(d)
                                 /\ (Local(d) <=> Local(Conjugate(d)))
                                 /\ Filled(Closed(Conjugate(d), 1), 2) = Second(d)
=============================================================================
