------------------------------- MODULE Iterate -------------------------------
(***************************************************************************)
(* The iterative second-order von Neumann approach as a user sees it.        *)
(*   impl   the approach in use: an iterative one (two implementations) or   *)
(*          another one                                                      *)
(*   ver    version of the physical configuration (parameters, grid,         *)
(*          retained states); diag the version that was diagonalised last    *)
(*   base   version that the iterations belong to                            *)
(*   its    the recorded iterations, [no, ver]; no counts from 0              *)
(*   last   iterations done by the last solve (what a callback has seen)     *)
(* Deliberate: continuing after the configuration has changed mixes old and   *)
(* new quantities and is not part of the contract (not enabled); kernel form, *)
(* normalisation row and solution method do not belong to the configuration;  *)
(* assigning the approach that is in use already keeps the iterations.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Impls == {"2vN", "py2vN"}
None == -1
Fresh(impl) == [impl |-> impl, ver |-> 0, diag |-> None, base |-> None, its |-> <<>>, last |-> <<>>]
Iterative(st) == st.impl \in Impls
Count(st) == Len(st.its)
Forget(st) == [st EXCEPT !.its = <<>>, !.base = None, !.last = <<>>]
Start(st) == IF Count(st) = 0 THEN [st EXCEPT !.base = st.diag] ELSE st
Iteration(st) == LET s == Start(st) r == [no |-> Count(st), ver |-> s.base] IN
                 [s EXCEPT !.its = Append(@, r), !.last = Append(@, r.no)]
RECURSIVE Iterations(_, _)
Iterations(st, k) == IF k = 0 THEN st ELSE Iterations(Iteration(st), k - 1)
(* e = [op |-> "solve", k, restart, qd, master] etc. *)
Diagonalised(st, e) == IF e.qd THEN [st EXCEPT !.diag = st.ver] ELSE st
Step(st, e) ==
  CASE e.op = "solve" ->
         LET s1 == IF e.restart THEN Forget(st) ELSE [st EXCEPT !.last = <<>>]
             s2 == Diagonalised(s1, e)
         IN IF e.master THEN Iterations(s2, e.k) ELSE s2
    [] e.op = "change" -> [st EXCEPT !.ver = e.arg]
    [] e.op = "impl" -> IF e.val = st.impl THEN st ELSE Forget([st EXCEPT !.impl = e.val])
    [] OTHER -> st     \* kernel form, normalisation row, solution method, queries
(* Diagonalisation and parameters must belong together when iterations are done. *)
Enabled(st, e) ==
  CASE e.op = "solve" -> /\ Iterative(st)
                         /\ (~e.qd => st.diag = st.ver)
                         /\ (~e.restart /\ Count(st) > 0 => st.base = st.ver)
    [] OTHER -> TRUE
Solve(k, restart) == [op |-> "solve", k |-> k, restart |-> restart, qd |-> TRUE, master |-> TRUE]

(* laws *)
Consecutive(st) == \A i \in 1 .. Count(st) : st.its[i].no = i - 1
OneOrigin(st) == \A i \in 1 .. Count(st) : st.its[i].ver = st.base
Recent(st) == /\ Len(st.last) <= Count(st)
              /\ \A j \in 1 .. Len(st.last) : st.last[j] = st.its[Count(st) - Len(st.last) + j].no
Composes(st, K) ==
  \A k, m \in 0 .. K :
    /\ Enabled(st, Solve(k, TRUE))
    /\ LET a == Step(st, Solve(k, TRUE)) IN
       /\ Enabled(a, Solve(m, FALSE))
       /\ Step(a, Solve(m, FALSE)).its = Step(st, Solve(k + m, TRUE)).its
       /\ Step(a, Solve(m, TRUE)).its = Step([Fresh(st.impl) EXCEPT !.ver = st.ver], Solve(m, TRUE)).its
    /\ (Enabled(st, Solve(k, FALSE)) =>
          /\ Count(Step(st, Solve(k, FALSE))) = Count(st) + k
          /\ SubSeq(Step(st, Solve(k, FALSE)).its, 1, Count(st)) = st.its)
=============================================================================
