--------------------------- MODULE ParallelRows ---------------------------
(***************************************************************************)
(* The parallel loops that fill the kernels.  A task is a list of            *)
(* increments <<cell, value>>; an increment is a read followed by a write,    *)
(* other threads may act in between.  Design "rows": every task writes cells  *)
(* of its own (the rows of one density matrix element).  Design "copies":     *)
(* tasks share cells, but every thread has a copy of its own and the copies   *)
(* are added up afterwards; there are min(tasks, threads) copies, and thread  *)
(* t works on a block of consecutive tasks.  Design "shared" has neither and  *)
(* is the one that must not be used.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tasks, Threads, Cells, Design
VARIABLES work, pos, reg, mem, phase
vars == <<work, pos, reg, mem, phase>>

Min(a, b) == IF a < b THEN a ELSE b
Copies == IF Design = "copies" THEN Min(Tasks, Threads) ELSE 1
T == 0 .. Threads - 1
(* static schedule: blocks as even as possible, the first ones longer *)
Block(t) == LET q == Tasks \div Threads  r == Tasks % Threads
                lo == t * q + Min(t, r)  len == q + (IF t < r THEN 1 ELSE 0) IN [i \in 1..len |-> lo + i - 1]
(* cells of a task *)
Foot(i) == IF Design = "rows" THEN <<<<i, 0>>, <<i, 1>>, <<i, 0>>>>
           ELSE [x \in 1..2 |-> <<0, (i + x) % Cells>>]
Todo(t) == LET RECURSIVE Cat(_)
               Cat(s) == IF s = <<>> THEN <<>> ELSE [x \in 1..Len(Foot(Head(s))) |-> <<Foot(Head(s))[x], Head(s) + 1>>] \o Cat(Tail(s))
           IN Cat(Block(t))
AllCells == UNION {{Foot(i)[x] : x \in 1..Len(Foot(i))} : i \in 0 .. Tasks - 1}
CopyOf(t) == IF Design = "copies" THEN t ELSE 0
Init == /\ work = [t \in T |-> Todo(t)] /\ pos = [t \in T |-> "read"] /\ reg = [t \in T |-> 0]
        /\ mem = [k \in 0 .. Copies - 1 |-> [x \in AllCells |-> 0]] /\ phase = "run"
Read(t) == /\ phase = "run" /\ work[t] # <<>> /\ pos[t] = "read"
           /\ reg' = [reg EXCEPT ![t] = mem[CopyOf(t)][Head(work[t])[1]]]
           /\ pos' = [pos EXCEPT ![t] = "write"] /\ UNCHANGED <<work, mem, phase>>
Write_(t) == /\ pos[t] = "write"
             /\ mem' = [mem EXCEPT ![CopyOf(t)][Head(work[t])[1]] = reg[t] + Head(work[t])[2]]
             /\ pos' = [pos EXCEPT ![t] = "read"] /\ work' = [work EXCEPT ![t] = Tail(@)]
             /\ UNCHANGED <<reg, phase>>
Done == phase = "run" /\ (\A t \in T : work[t] = <<>>) /\ phase' = "done" /\ UNCHANGED <<work, pos, reg, mem>>
Next == (\E t \in T : Read(t) \/ Write_(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Total(x) == SumSeq([i \in 1 .. Tasks |-> SumSeq([y \in 1 .. Len(Foot(i-1)) |-> IF Foot(i-1)[y] = x THEN i ELSE 0])])
Result(x) == SumSeq([k \in 1 .. Copies |-> mem[k-1][x]])
(* every schedule gives the sum of all increments, and no thread leaves the copies that exist *)
Right == phase = "done" => \A x \in AllCells : Result(x) = Total(x)
Inside == \A t \in T : work[t] # <<>> => CopyOf(t) < Copies
Ends == <>(phase = "done")
=============================================================================
