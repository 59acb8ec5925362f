------------------------------ MODULE IterateMC ------------------------------
(* Every sequence of events with at most Most iterations at a time. *)
EXTENDS Iterate
CONSTANTS Vers, Most, Deep
VARIABLE st
Events == [op : {"solve"}, k : 0..Deep, restart : BOOLEAN, qd : BOOLEAN, master : BOOLEAN]
          \cup [op : {"change"}, arg : 0..Vers] \cup [op : {"impl"}, val : Impls \cup {"other"}]
Init == st \in {Fresh(i) : i \in Impls}
Next == \E e \in Events : /\ Enabled(st, e)
                         /\ Count(Step(st, e)) <= Most
                         /\ st' = Step(st, e)
Spec == Init /\ [][Next]_st
Laws == Consecutive(st) /\ OneOrigin(st) /\ Recent(st) /\ (Iterative(st) => Composes(st, Deep))
(* iterations disappear only altogether *)
Grows == [][\/ Len(st'.last) = Count(st')
            \/ (Count(st') >= Count(st) /\ SubSeq(st'.its, 1, Count(st)) = st.its)]_st
=============================================================================
